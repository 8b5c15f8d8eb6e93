PROP = "C07"
NEEDS = "several grants of one user at one client, then the client session is revoked"
BREAKS = "revoking a client session leaves the tokens of all but its newest grant usable"
EDITS = [("session/manager.py", '''        for gid in _info.subordinate:
            _grant = self.get([_user_id, _client_id, gid])
            _grant.revoke()
''', '''        for gid in _info.subordinate[-1:]:
            _grant = self.get([_user_id, _client_id, gid])
            _grant.revoke()
''')]
DEMO = '''
w = World("oidc")
w.add_client("one")
a = w.login("one", scope="openid")
b = w.login("one", scope="openid email")
ta = w.redeem("one", a.data["code"]).data["access_token"]
tb = w.redeem("one", b.data["code"]).data["access_token"]
w.sm.revoke_client_session(a.sid)
need(not w.introspect(tb, "one").data.get("active"), "b inactive")
need(not w.introspect(ta, "one").data.get("active"), "token of an older grant of a revoked client session is active")
'''
