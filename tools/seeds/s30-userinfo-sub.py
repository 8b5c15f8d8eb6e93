PROP = 'C30'
NEEDS = 'a user database record that has a member sub'
BREAKS = "userinfo answers with the sub of the record instead of the session's"
EDITS = [
    ('oidc/userinfo.py', '''            info["sub"] = _grant.sub
''', '''            info.setdefault("sub", _grant.sub)
'''),
]
DEMO = '''
w = World("oidc", users={"diana": {"sub": "internal-17", "name": "D"}})
w.add_client("one")
r = w.login("one", scope="openid profile", claims='{"userinfo": {"sub": null}}')
t = w.redeem("one", r.data["code"])
u = w.userinfo(t.data["access_token"]).data
need(u["sub"] == peek(t.data["id_token"])["sub"], "userinfo sub %s" % u["sub"])
'''
