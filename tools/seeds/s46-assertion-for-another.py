PROP = 'C05'
NEEDS = 'a client assertion of one client in a request that names another client'
BREAKS = 'a client can act as another one with its own assertion'
EDITS = [
    ('client_authn.py', '''        client_id = kwargs.get("client_id") or ca_jwt["iss"]
''', '''        client_id = kwargs.get("client_id") or request.get("client_id") or ca_jwt["iss"]
'''),
]
DEMO = '''
w = World("oidc", keys=0, token_authn=["private_key_jwt"])
w.add_client("one", keys=0)
w.add_client("two", keys=1)
r = w.login("one")
q, hi = w.with_auth(w.code_req("one", r.data["code"]), "two", "private_key_jwt")
q["client_id"] = "one"
need(not w.do("token", q, hi).ok, "code of one redeemed with the assertion of two")
q, hi = w.with_auth(w.code_req("one", r.data["code"]), "one", "private_key_jwt")
need(w.do("token", q, hi).ok, "its own assertion is refused")
'''
