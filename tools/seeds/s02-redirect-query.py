PROP = "C02"
NEEDS = "a client with two registered redirect URIs that differ only in their query component, the code obtained for one and redeemed with the other"
BREAKS = "the token endpoint compares redirect URIs without their query part, so a code is redeemable with another redirect URI than it was issued for"
EDITS = [("oidc/token.py", '''            if req["redirect_uri"] != _authn_req["redirect_uri"]:
                return self.error_cls(''', '''            if req["redirect_uri"].split("?")[0] != _authn_req["redirect_uri"].split("?")[0]:
                return self.error_cls(''')]
DEMO = '''
w = World("oidc")
w.add_client("one", redirect_uris=[("https://one.example.com/cb", {"tenant": ["a"]}), ("https://one.example.com/cb", {"tenant": ["b"]})])
a, b = "https://one.example.com/cb?tenant=a", "https://one.example.com/cb?tenant=b"
r = w.login("one", redirect_uri=a)
t = w.redeem("one", r.data["code"], redirect_uri=b)
need(not t.ok, "code for tenant a redeemed with the redirect_uri of tenant b")
r = w.login("one", redirect_uri=a)
t = w.redeem("one", r.data["code"], redirect_uri=a)
need(t.ok, "right redirect_uri works")
'''
