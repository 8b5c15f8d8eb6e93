PROP = 'C11'
NEEDS = 'a custom scopes add-on that redefines a standard scope with fewer claims'
BREAKS = 'the claims of the standard definition are released instead of the configured ones'
EDITS = [
    ('oidc/add_on/custom_scopes.py', '''    _scopes2claims.update(kwargs)
''', '''    for _scope, _names in kwargs.items():
        _scopes2claims.setdefault(_scope, _names)
'''),
]
DEMO = '''
def claims(scope, **o):
    w = World("oidc", userinfo_kwargs={"add_claims_by_scope": True}, **o)
    w.add_client("one")
    r = w.login("one", scope=scope, response_type="code")
    return w.userinfo(w.redeem("one", r.data["code"]).data["access_token"]).data
ao = {"scopes": {"function": "oidcop.oidc.add_on.custom_scopes.add_custom_scopes", "kwargs": {"research": ["tier"], "profile": ["nickname"]}}}
r = claims("openid research profile", add_on=ao)
need("tier" in r and "nickname" in r, "research is a scope here")
need("name" not in r and "birthdate" not in r, "profile gives more than configured: %s" % sorted(r))
'''
