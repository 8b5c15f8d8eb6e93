PROP = "C03"
NEEDS = "an S256 challenge and a token request that carries a code_challenge_method parameter of its own (plain) with the challenge itself as verifier"
BREAKS = "the method named in the token request wins over the one of the authorization request: whoever saw the challenge can redeem the code"
EDITS = [("oidc/add_on/pkce.py", '''        _method = _authn_req["code_challenge_method"]
''', '''        _method = request.get("code_challenge_method", _authn_req["code_challenge_method"])
''')]
DEMO = '''
import base64, hashlib
w = World("oidc", add_on={"pkce": {"function": "oidcop.oidc.add_on.pkce.add_pkce_support", "kwargs": {"essential": True}}})
w.add_client("one")
ver = "v" * 50
ch = base64.urlsafe_b64encode(hashlib.sha256(ver.encode()).digest()).decode().rstrip("=")
r = w.login("one", code_challenge=ch, code_challenge_method="S256")
t = w.redeem("one", r.data["code"], code_verifier=ch, code_challenge_method="plain")
need(not t.ok, "challenge accepted as verifier")
r = w.login("one", code_challenge=ch, code_challenge_method="S256")
t = w.redeem("one", r.data["code"], code_verifier=ver)
need(t.ok, "right verifier works")
'''
