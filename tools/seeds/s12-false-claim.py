PROP = 'C11'
NEEDS = 'a user with a claim the value of which is false'
BREAKS = 'claims with a false value (email_verified) are not released'
EDITS = [
    ('session/claims.py', '''    if value is None:
        return False

    if claimspec is None:''', '''    if not value:
        return False

    if claimspec is None:'''),
]
DEMO = '''
w = World("oidc", userinfo_kwargs={"add_claims_by_scope": True})
w.add_client("one")
r = w.login("one", scope="openid email")
t = w.redeem("one", r.data["code"])
u = w.userinfo(t.data["access_token"])
need(u.data.get("email_verified") is False, "email_verified missing")
'''
