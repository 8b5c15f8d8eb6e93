PROP = 'C27'
NEEDS = 'two authorization requests, the first with a claims parameter, at a server with base_claims configured'
BREAKS = "the claims one request asks for are added to the server's configuration and released to every later session"
EDITS = [
    ('session/claims.py', '''            base_claims = module.kwargs.get("base_claims", {}).copy()
''', '''            base_claims = module.kwargs.get("base_claims", {})
'''),
]
DEMO = '''
w = World("oidc", userinfo_kwargs={"base_claims": {"email": None}, "add_claims_by_scope": False})
w.add_client("one")
w.add_client("two")
def claims(c, **kw):
    r = w.login(c, scope="openid", **kw)
    t = w.redeem(c, r.data["code"])
    return set(w.userinfo(t.data["access_token"]).data)
a = claims("two")
claims("one", claims='{"userinfo": {"nickname": null}}')
b = claims("two")
need(a == b, "client two gets %s after client one's request" % sorted(b - a))
'''
