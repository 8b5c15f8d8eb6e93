PROP = 'C08'
NEEDS = 'revocation of a code below which a token is revoked already'
BREAKS = 'tokens below an already revoked one survive'
EDITS = [
    ('session/grant.py', '''                t.revoked = True
                if recursive:
                    self.revoke_token(based_on=t.value)

    def get_spec''', '''                if recursive and not t.revoked:
                    t.revoked = True
                    self.revoke_token(based_on=t.value)
                t.revoked = True

    def get_spec'''),
]
DEMO = '''
w = World("oidc")
w.add_client("one")
r = w.login("one", scope="openid offline_access", prompt="consent")
t = w.redeem("one", r.data["code"])
x = w.refresh("one", t.data["refresh_token"])
g = w.sm[r.sid]
g.revoke_token(value=t.data["refresh_token"], recursive=False)
need(w.introspect(x.data["access_token"], "one").data.get("active"), "only that one")
g.revoke_token(value=r.data["code"])
need(not w.introspect(x.data["access_token"], "one").data.get("active"), "an access token below the code survives its revocation")
'''
