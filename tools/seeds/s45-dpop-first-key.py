PROP = 'C20'
NEEDS = 'a token that is refreshed with a proof of another key than the first'
BREAKS = 'the new token is bound to the first key, not to the one that was proved'
EDITS = [
    ('oidc/token.py', '''                _grant.extra["dpop_jkt"] = _dpop_jkt
''', '''                _grant.extra.setdefault("dpop_jkt", _dpop_jkt)
'''),
]
DEMO = '''
import base64, hashlib, json
from cryptojwt.jwk.ec import new_ec_key
from cryptojwt.jws.jws import JWS
dp = {"dpop": {"function": "oidcop.oauth2.add_on.dpop.add_support", "kwargs": {"dpop_signing_alg_values_supported": ["ES256"]}}}
w = World("oidc", token_handler="jwt", refresh_handler="jwt", add_on=dp)
w.add_client("one")
key = new_ec_key("P-256")
n = [0]
def proof(key):
    n[0] += 1
    key.kid = ""
    return JWS(json.dumps({"jti": "id%d" % n[0], "htm": "POST", "htu": w.ep("token").full_path, "iat": CLOCK.t}), alg="ES256",
               ).sign_compact(keys=[key], typ="dpop+jwt", jwk=key.serialize())
def send(req, key):
    q, hi = w.with_auth(req, "one", "post")
    hi.setdefault("headers", {})
    if key:
        hi["headers"]["dpop"] = proof(key)
    hi["url"], hi["method"] = w.ep("token").full_path, "POST"
    return w.do("token", q, hi)
r = w.login("one", scope="openid offline_access", prompt="consent")
t = send(w.code_req("one", r.data["code"]), key)
need(t.ok and peek(t.data["access_token"]).get("cnf"), "DPoP redemption: %s" % t.brief())
rt = {"grant_type": "refresh_token", "refresh_token": t.data["refresh_token"]}
x = send(rt, key)
need(x.ok and x.data["token_type"] == "DPoP" and peek(x.data["access_token"]).get("cnf"), "refresh with a proof: %s" % x.brief())
rt["refresh_token"] = x.data.get("refresh_token") or rt["refresh_token"]
key2 = new_ec_key("P-256")
x = send(rt, key2)
need(x.ok and peek(x.data["access_token"])["cnf"]["jkt"] == key2.thumbprint("SHA-256").decode(), "bound to another key than the one proved: %s" % x.brief())
'''
