PROP = "C08"
NEEDS = "recursive revocation of a token with more than six generations below it"
BREAKS = "recursive revocation stops after six generations, the tokens further down stay usable"
EDITS = [("session/manager.py", '''    def _revoke_dependent(self, grant: Grant, token: SessionToken):
''', '''    def _revoke_dependent(self, grant: Grant, token: SessionToken, depth: int = 0):
'''), ("session/manager.py", '''                self._revoke_dependent(grant, t)
''', '''                if depth < 5:
                    self._revoke_dependent(grant, t, depth + 1)
''')]
DEMO = '''
w = World("oidc")
w.add_client("one")
r = w.login("one", scope="openid offline_access", prompt="consent")
t = w.redeem("one", r.data["code"])
rt = first = t.data["refresh_token"]
g = w.sm[r.sid]
for n in range(12):
    at = g.mint_token(r.sid, w.ctx, "access_token", based_on=g.get_token(rt), token_handler=w.sm.token_handler["access_token"]).value
    rt = g.mint_token(r.sid, w.ctx, "refresh_token", based_on=g.get_token(rt), token_handler=w.sm.token_handler["refresh_token"]).value
need(w.introspect(at, "one").data["active"], "fresh token active")
w.sm.revoke_token(r.sid, first, recursive=True)
need(not w.introspect(at, "one").data.get("active"), "a token minted far below the revoked one is still active")
'''
