PROP = 'C23'
NEEDS = 'an authorization request that ends in an error'
BREAKS = 'the error response has no state'
EDITS = [
    ('endpoint.py', '''            for attr in ["error_description", "error_uri", "state"]:''', '''            for attr in ["error_description", "error_uri"]:'''),
]
DEMO = '''
m = {"class": "oidcop.user_authn.user.NoAuthn", "kwargs": {"user": "diana"}}
w = World("oidc", authentication={"a": dict(m, acr="urn:a"), "b": dict(m, acr="urn:b")})
w.add_client("one")
r = w.authorize(w.areq("one", acr_values="urn:nope", state="mine"))
need(not r.ok and r.data.get("error") == "access_denied", "refused")
need(r.data.get("state") == "mine", "error response without state")
'''
