PROP = 'C10'
NEEDS = 'a genuine opaque token with white space added to it'
BREAKS = 'a string that is not byte for byte the issued token is honoured'
EDITS = [
    ('session/grant.py', '''            if t.value == value:
                return t
        return None''', '''            if t.value == value or t.value == value.strip():
                return t
        return None'''),
]
DEMO = '''
w = World("oidc", refresh_handler="default")
w.add_client("one")
r = w.login("one", scope="openid offline_access", prompt="consent")
t = w.redeem("one", r.data["code"])
x = w.refresh("one", t.data["refresh_token"] + "\\n")
need(not x.ok, "altered refresh token accepted")
need(w.refresh("one", t.data["refresh_token"]).ok, "genuine one refused")
'''
