PROP = 'C20'
NEEDS = "a DPoP proof made for a URL that is the beginning of the token endpoint's"
BREAKS = 'a proof made for another URL is accepted'
EDITS = [
    ('oauth2/add_on/dpop.py', '''    if _dpop["htu"] != _http_info["url"]:
''', '''    if not _http_info["url"].startswith(_dpop["htu"]):
'''),
]
DEMO = '''
import json
from cryptojwt.jwk.ec import new_ec_key
from cryptojwt.jws.jws import JWS
w = World("oidc", add_on={"dpop": {"function": "oidcop.oauth2.add_on.dpop.add_support", "kwargs": {"dpop_signing_alg_values_supported": ["ES256"]}}})
w.add_client("one")
k = new_ec_key("P-256")
k.kid = ""
url = w.ep("token").full_path
def go(htu):
    r = w.login("one")
    jwk = {a: b for a, b in k.serialize().items() if a in ("kty", "crv", "x", "y")}
    pr = JWS(json.dumps({"jti": "j", "htm": "POST", "htu": htu, "iat": CLOCK.t}), alg="ES256").sign_compact(keys=[k], typ="dpop+jwt", jwk=jwk)
    q, hi = w.with_auth(w.code_req("one", r.data["code"]), "one", "post")
    hi.setdefault("headers", {})["dpop"] = pr
    hi.update(url=url, method="POST")
    k.kid = ""
    return w.do("token", q, hi)
need(go(url).ok, "right proof")
need(not go(url[:-2]).ok, "proof for another URL accepted")
'''
