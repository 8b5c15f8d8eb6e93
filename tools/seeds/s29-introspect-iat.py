PROP = 'C29'
NEEDS = 'a token issued some time after its grant'
BREAKS = "introspection tells the time the grant was made as the token's iat"
EDITS = [
    ('oauth2/introspection.py', '''            "iat": token.issued_at,''', '''            "iat": grant.issued_at,'''),
]
DEMO = '''
w = World("oidc")
w.add_client("one")
r = w.login("one")
CLOCK.advance(100)
t = w.redeem("one", r.data["code"])
i = w.introspect(t.data["access_token"], "one").data
need(i["iat"] == CLOCK.t, "iat is %d seconds ago" % (CLOCK.t - i["iat"]))
'''
