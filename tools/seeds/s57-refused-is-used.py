PROP = 'C28'
NEEDS = 'a rule for how often a refresh token may be used, and a refused request for more scope before the last use'
BREAKS = 'a refused refresh request uses up the refresh token'
EDITS = [('oidc/token.py', '''            if not req_scopes.issubset(scopes):
                return self.error_cls(
                    error="invalid_request",
                    error_description="Invalid refresh scopes",
                )

        return request


class Token(''', '''            if req_scopes - scopes:
                # not to be tried again and again
                token.register_usage()
                return self.error_cls(
                    error="invalid_request",
                    error_description="Invalid refresh scopes",
                )

        return request


class Token(''')]
DEMO = '''
w = World("oidc", usage_rules={"authorization_code": {"max_usage": 1, "supports_minting": ["access_token", "refresh_token", "id_token"]}, "access_token": {},
                               "refresh_token": {"max_usage": 2, "supports_minting": ["access_token", "refresh_token"]}})
w.add_client("one")
t = w.redeem("one", w.login("one", scope="openid offline_access", prompt="consent").data["code"])
rt = t.data["refresh_token"]
need(w.refresh("one", rt).ok, "the first refresh is refused")
need(not w.refresh("one", rt, scope="openid email").ok, "a wider scope is given")
need(w.refresh("one", rt).ok, "a refused request counted as a use")
need(not w.refresh("one", rt).ok, "a third use is possible")
'''
