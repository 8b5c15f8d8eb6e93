PROP = 'C05'
NEEDS = 'a client secret that expired less than a minute ago'
BREAKS = 'an expired client secret is accepted for another minute'
EDITS = [
    ('client_authn.py', '''    if eta != 0 and eta < utc_time_sans_frac():
''', '''    if eta != 0 and eta + 60 < utc_time_sans_frac():
'''),
]
DEMO = '''
w = World("oidc")
w.add_client("one", client_secret_expires_at=CLOCK.t + 100)
r = w.login("one")
CLOCK.advance(130)
need(not w.redeem("one", r.data["code"]).ok, "expired secret accepted")
w.add_client("two", client_secret_expires_at=CLOCK.t + 100)
r = w.login("two")
CLOCK.advance(90)
need(w.redeem("two", r.data["code"]).ok, "secret refused before it expired")
'''
