PROP = "C01"
NEEDS = "a code redeemed, its refresh token used at least once (so that tokens exist two levels below the code), then the code replayed"
BREAKS = "replaying an OIDC code revokes only the tokens minted directly from it; tokens obtained with its refresh token stay usable"
EDITS = [("oidc/token.py", "grant.revoke_token(based_on=request[\"code\"], recursive=True)",
          "grant.revoke_token(based_on=request[\"code\"], recursive=False)")]
DEMO = '''
w = World("oidc")
w.add_client("one")
r = w.login("one", scope="openid offline_access", prompt="consent")
t = w.redeem("one", r.data["code"])
t2 = w.refresh("one", t.data["refresh_token"])
at = t2.data["access_token"]
need(w.introspect(at, "one").data["active"], "fresh token active")
again = w.redeem("one", r.data["code"])
need(not again.ok, "replay refused")
need(not w.introspect(at, "one").data.get("active"), "token refreshed from a replayed code is still active")
'''
