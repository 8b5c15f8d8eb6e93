PROP = "C06"
NEEDS = "a refresh that narrowed the scope with rotation of the refresh token, followed by a refresh with the new refresh token asking for the original, wider scope"
BREAKS = "a narrowed refresh token can be used to widen the scope again"
EDITS = [("oidc/token.py", '''            scopes = set(grant.find_scope(token.based_on))
''', '''            scopes = set(grant.scope)
''')]
DEMO = '''
w = World("oidc")
w.add_client("one")
r = w.login("one", scope="openid email offline_access", prompt="consent")
t = w.redeem("one", r.data["code"])
t2 = w.refresh("one", t.data["refresh_token"], scope="openid offline_access")
need(t2.ok, "narrowing works %s" % t2.brief())
t3 = w.refresh("one", t2.data["refresh_token"], scope="openid offline_access")
need(t3.ok, "same scope works")
t4 = w.refresh("one", t3.data["refresh_token"], scope="openid email offline_access")
need(not t4.ok, "scope widened again: %s" % t4.brief())
'''
