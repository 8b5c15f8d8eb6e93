PROP = 'C02'
NEEDS = 'a token request that leaves out redirect_uri'
BREAKS = 'a code obtained with a redirect_uri is redeemed without it'
EDITS = [
    ('oidc/token.py', '''        if "redirect_uri" in _authn_req:
            if req["redirect_uri"] != _authn_req["redirect_uri"]:''', '''        if "redirect_uri" in _authn_req:
            if req.get("redirect_uri", _authn_req["redirect_uri"]) != _authn_req["redirect_uri"]:'''),
]
DEMO = '''
w = World("oidc")
w.add_client("one")
r = w.login("one")
q = w.code_req("one", r.data["code"])
q.pop("redirect_uri")
q, hi = w.with_auth(q, "one", "post")
x = w.do("token", q, hi)
need(not (x.ok and "access_token" in x.data), "code redeemed without redirect_uri")
r = w.login("one")
need(w.redeem("one", r.data["code"]).ok, "with it")
'''
