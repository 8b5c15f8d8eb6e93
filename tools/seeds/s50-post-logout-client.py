PROP = 'C15'
NEEDS = "an ID Token hint of another client together with that client's client_id"
BREAKS = "a client can log out another client's session with its own ID Token"
EDITS = [
    ('oidc/session.py', '''            if _session_info["client_id"] not in _aud:
''', '''            if _session_info["client_id"] not in _aud and request.get("client_id") not in _aud:
'''),
]
DEMO = '''
w = World("oidc", session_kwargs={"signing_alg": "ES256"})
for c in ("one", "two"):
    w.add_client(c, post_logout_redirect_uri=["https://%s.example.com/bye" % c, ""])
r1 = w.login("one")
r2 = w.login("two")
t2 = w.redeem("two", r2.data["code"])
t1 = w.redeem("one", r1.data["code"])
ck = [c for c in r1.cookies if c["name"] == "oidc_op"]
q = {"id_token_hint": t2.data["id_token"], "client_id": "two", "state": "x"}
x = w.do("session", q, {"cookie": ck})
need(x.kind != "redirect", "another client's hint accepted: %s" % x.brief())
x = w.do("session", {"id_token_hint": t1.data["id_token"]}, {"cookie": ck})
need(x.kind == "redirect", "its own hint refused: %s" % x.brief())
'''
