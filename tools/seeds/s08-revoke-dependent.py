PROP = "C08"
NEEDS = "recursive revocation through the session manager of a token that has grandchildren, where a child was already revoked"
BREAKS = "recursive revocation stops at tokens that were revoked before, their descendants stay active"
EDITS = [("session/manager.py", '''            if t.based_on == token.value:
                t.revoked = True''', '''            if t.based_on == token.value and not t.revoked:
                t.revoked = True''')]
DEMO = '''
w = World("oidc")
w.add_client("one")
r = w.login("one", scope="openid offline_access", prompt="consent")
t = w.redeem("one", r.data["code"])
t2 = w.refresh("one", t.data["refresh_token"])
w.sm.revoke_token(r.sid, t.data["refresh_token"], recursive=False)
need(w.introspect(t2.data["access_token"], "one").data["active"], "not recursive")
w.sm.revoke_token(r.sid, r.data["code"], recursive=True)
need(not w.introspect(t2.data["access_token"], "one").data.get("active"), "descendant of a revoked code still active")
'''
