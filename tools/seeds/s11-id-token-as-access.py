PROP = 'C10'
NEEDS = 'an ID Token presented to the introspection endpoint of a server whose client gets session ids in its ID Tokens'
BREAKS = 'introspection reports an ID Token active'
EDITS = [
    ('oauth2/introspection.py', '''        if token.token_class not in ["access_token", "refresh_token"]:
            return None
''', '''        if token.token_class == "authorization_code":
            return None
'''),
]
DEMO = '''
w = World("oidc")
w.add_client("one", backchannel_logout_uri="https://one.example.com/bc", backchannel_logout_session_required=True)
r = w.login("one")
t = w.redeem("one", r.data["code"])
x = w.introspect(t.data["id_token"], "one")
need(not x.data.get("active"), "ID Token reported active")
need(w.introspect(t.data["access_token"], "one").data["active"], "access token")
'''
