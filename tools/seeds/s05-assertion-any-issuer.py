PROP = "C05"
NEEDS = "a request whose client_id names another client than the (otherwise valid) client assertion it carries"
BREAKS = "a client assertion made by one client authenticates a request in the name of another client"
EDITS = [("client_authn.py", '''        request[verified_claim_name("client_assertion")] = ca_jwt
        client_id = kwargs.get("client_id") or ca_jwt["iss"]
''', '''        request[verified_claim_name("client_assertion")] = ca_jwt
        client_id = request.get("client_id") or kwargs.get("client_id") or ca_jwt["iss"]
''')]
DEMO = '''
w = World("oidc")
w.add_client("one")
w.add_client("two")
r = w.login("one")
req = w.code_req("one", r.data["code"])
req = w.with_auth(req, "two", "client_secret_jwt")[0]
req["client_id"] = "one"
t = w.do("token", req)
need(not t.ok, "assertion of client two accepted for client one")
t = w.redeem("one", w.login("one").data["code"], method="client_secret_jwt")
need(t.ok, "own assertion accepted")
'''
