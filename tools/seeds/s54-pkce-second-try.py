PROP = 'C03'
NEEDS = 'a code presented with a wrong verifier, then again without a verifier'
BREAKS = 'after a failed attempt the challenge is gone and the code buys tokens without any verifier'
EDITS = [('oidc/add_on/pkce.py', '''            _authn_req["code_challenge"],
            _method,
''', '''            _authn_req.pop("code_challenge"),  # a code is redeemed once
            _method,
''')]
DEMO = '''
import base64, hashlib
w = World("oidc", add_on={"pkce": {"function": "oidcop.oidc.add_on.pkce.add_pkce_support", "kwargs": {"essential": True, "code_challenge_method": "S256"}}})
w.add_client("one")
v = "v" * 50
ch = base64.urlsafe_b64encode(hashlib.sha256(v.encode()).digest()).decode().rstrip("=")
r = w.login("one", code_challenge=ch, code_challenge_method="S256")
need(not w.redeem("one", r.data["code"], code_verifier="w" * 50).ok, "a wrong verifier is accepted")
need(not w.redeem("one", r.data["code"]).ok, "no verifier is needed after a failed attempt")
r = w.login("one", code_challenge=ch, code_challenge_method="S256")
need(w.redeem("one", r.data["code"], code_verifier=v).ok, "the right verifier is refused")
'''
