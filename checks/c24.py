"""C24: request objects are trusted only when the client made them."""
import json
from urllib.parse import parse_qsl, urlencode, urlsplit

from cryptojwt.jwe.jwe import JWE
from cryptojwt.jwk.hmac import SYMKey
from cryptojwt.jws.jws import JWS
from cryptojwt.key_jar import KeyJar
from oidcmsg.oauth2 import JWTSecuredAuthorizationRequest
from vlib.clock import CLOCK
from vlib.world import ISSUER, USERS, World, flip, key_bundle, peek

CASES = {"quick": 1200, "thorough": 60000}
CLIENT_KEYS = 3
SERVER_KEYS = 2
RULE = ("One case: an OIDC, OAuth2 or OAuth2 JAR server, with various supported algorithms and with or without request URI support and demand for registration, "
        "with three clients that have registered various object algorithms and request URIs; authorization requests with objects by value, by reference and "
        "pushed, signed by the client, another client, the server, a stranger, by nobody or with something else, altered, encrypted, naming others and in "
        "conflict with the parameters outside.  Whether a request may be served is computed from how the object was made; what was served is read from the "
        "response and the session; every fetch is recorded.  Distinct: by server, client registration, way of delivery, kind of object and outcome.")
MUST_OBSERVE = {"oracle:not-served": 1500, "oracle:served": 600, "oracle:as-in-object": 2500, "oracle:fetch": 500, "oracle:response": 600, "by:value": 1200,
                "by:reference": 800, "by:push": 100, "encrypted": 100, "oracle:nothing-left": 1500, "oracle:no-fetch": 100}
ASYM = ["RS256", "ES256", "PS256", "RS512", "ES384"]
HMAC = ["HS256", "HS512"]


class Web:
    def __init__(self):
        self.docs = {}
        self.got = []

    def get(self, url, **kw):
        self.got.append(url)
        v = self.docs.get(url.split("#")[0])
        if v is None:
            raise ConnectionError(url)

        class R:
            status_code, text = v
        return R()

    def post(self, url, **kw):
        raise ConnectionError(url)

    def __call__(self, method, url, **kw):
        return self.get(url, **kw)


def parameters(rng, w, cid, kind, n):
    p = {"client_id": cid, "redirect_uri": rng.choice(["https://%s.example.com/cb" % cid, "https://%s.example.com/second" % cid]),
         "state": rng.choice(["in", "i n", "i&n=1", "å"]) + str(n)}
    if kind == "oidc":
        p["response_type"] = rng.choice(["code", "code", "code id_token", "id_token token"])
        p["scope"] = rng.choice(["openid", "openid email", "openid profile"])
        p["nonce"] = "n-in-%d" % n
        if rng.random() < 0.3:
            p["claims"] = rng.choice([{"id_token": {"nickname": None}}, {"userinfo": {"email": {"essential": True}}}])
        if rng.random() < 0.2:
            p["max_age"] = rng.choice([600, 86400])
    else:
        p["response_type"] = rng.choice(["code", "code", "token", "code token"])
        p["scope"] = rng.choice(["read", "read write"])
    if rng.random() < 0.15:
        p["response_mode"] = "form_post"
    if rng.random() < 0.2:
        p["login_hint"] = "hint-in"
    return p


def jws(keys, payload, alg, headers=None):
    j = JWS(payload if isinstance(payload, (str, bytes)) else json.dumps(payload), alg=alg)
    if alg == "none":
        return j.sign_compact([])
    ks = [k for k in keys if k.kty == {"R": "RSA", "P": "RSA", "E": "EC", "H": "oct"}[alg[0]] and
          (alg[0] != "E" or k.crv == {"ES256": "P-256", "ES384": "P-384"}[alg])]
    if not ks:
        return None
    return j.sign_compact(keys=ks[:1])


def run_case(rng, rep, i):
    kind = rng.choice(["oidc", "oidc", "oidc", "oauth2", "jar"])
    ak = {}
    sup = None
    if rng.random() < 0.35:
        sup = rng.sample(ASYM + HMAC, rng.randrange(1, 5))
        if rng.random() < 0.2:
            sup.append("none")
        ak["request_object_signing_alg_values_supported"] = sup
    else:
        sup = ["RS256", "RS384", "RS512", "ES256", "ES384", "ES512", "HS256", "HS384", "HS512", "PS256", "PS384", "PS512"]
    eas = ["RSA-OAEP", "RSA-OAEP-256", "ECDH-ES", "A128KW", "A192KW", "A256KW", "ECDH-ES+A128KW", "ECDH-ES+A192KW", "ECDH-ES+A256KW"]
    ees = ["A128CBC-HS256", "A192CBC-HS384", "A256CBC-HS512", "A128GCM", "A192GCM", "A256GCM"]
    if rng.random() < 0.2:
        eas = ["RSA-OAEP"]
        ak["request_object_encryption_alg_values_supported"] = eas
    if rng.random() < 0.2:
        ees = ["A256GCM"]
        ak["request_object_encryption_enc_values_supported"] = ees
    uri_ok = True
    if rng.random() < 0.1:
        uri_ok = ak["request_uri_parameter_supported"] = False
    if kind == "jar":
        ak["request_cls"] = JWTSecuredAuthorizationRequest
    must_register = rng.random() < 0.25
    o = {"authz_kwargs": ak, "keys": rng.randrange(2)}
    par = kind != "jar" and rng.random() < 0.3
    if par:
        o.update(par=True, token_authn=["client_secret_post", "client_secret_basic"])
    if must_register:
        o["capabilities"] = {"require_request_uri_registration": True}
    web = Web()
    w = World("oidc" if kind == "oidc" else "oauth2", rep, httpc=web, **o)
    w.ctx.httpc = web
    w.ctx.keyjar.httpc = web
    if must_register:
        w.ctx.provider_info["require_request_uri_registration"] = True
    CL = ["alpha", "alpha2", "Alpha"]
    reg = {}
    for n, c in enumerate(CL):
        m = {"redirect_uris": [("https://%s.example.com/cb" % c, {}), ("https://%s.example.com/second" % c, {})]}
        alg = rng.choice([None, None, None, "RS256", "ES256", "HS256", "none", "PS256", "HS512"])
        if alg:
            m["request_object_signing_alg"] = alg
        uris = None
        if rng.random() < 0.6:
            uris = ["https://%s.example.com/req" % c, "https://%s.example.com/o/2" % c][:rng.randrange(1, 3)]
            m["request_uris"] = [(u, {}) for u in uris]
        w.add_client(c, keys=n, **m)
        reg[c] = {"alg": alg, "uris": uris}
        rep.sig("client", kind, alg, len(uris or []), must_register, len(sup))
    keys = {c: w.client_keys[c].get_issuer_keys("") for c in CL}
    server_keys = list(key_bundle("server", w.keys_no).keys())
    n_req = 0
    for step in range(rng.randrange(8, 14)):
        CLOCK.advance(rng.choice([0, 1, 30]))
        n_req += 1
        cid = rng.choice(CL)
        other = rng.choice([c for c in CL if c != cid])
        p = parameters(rng, w, cid, kind, n_req)
        how = rng.choice(["value", "value", "reference"] + (["push"] if par else []))
        if kind == "oauth2" and how == "value":
            how = "reference"
        clean = rng.random() < 0.4
        # ---- the object
        body = dict(p, iss=cid)
        why = []
        good = True      # True must be served, False must not, None may be
        allowed = [reg[cid]["alg"]] if reg[cid]["alg"] else sup
        real = [a for a in allowed if a != "none" and a in ASYM + HMAC]
        if not clean and rng.random() < 0.25:
            alg = rng.choice(ASYM + HMAC)
        else:
            alg = rng.choice(real or ["none"])
        k = "own" if clean else rng.choice(["own"] * 4 + ["other-as-self", "other-as-client", "server", "stranger", "none", "none", "hmac-public", "other-no-iss",
                                                          "id-token", "no-iss", "no-iss"])
        if k == "none":
            alg = "none"
        signer = keys[cid]
        secret = w.secrets[cid]
        if k in ("other-as-self", "other-as-client", "other-no-iss"):
            signer, secret = keys[other], w.secrets[other]
        elif k == "server":
            signer, secret = server_keys, "x" * 40
        elif k == "stranger":
            signer, secret = list(key_bundle("server", 1 - w.keys_no).keys()), "no" * 20
        if k == "other-as-self":
            body["iss"] = other
        if k in ("other-no-iss", "no-iss", "server") and (k != "server" or rng.random() < 0.5):
            del body["iss"]
        if k == "server" and "iss" in body:
            body["iss"] = rng.choice([ISSUER, cid])
        obj = None
        if k == "hmac-public":
            # the public key of the client as secret
            alg = "HS256"
            pub = json.dumps([x.serialize() for x in keys[cid] if x.kty == "RSA"][0])
            obj = jws([SYMKey(key=pub)], body, alg)
        elif k == "id-token":
            g = w.authorize(w.areq(cid, response_type="code id_token") if kind == "oidc" else w.areq(cid), "diana")
            obj = g.data.get("id_token") or "a.b.c"
            alg = "RS256"
        else:
            obj = jws(list(signer) + [SYMKey(key=secret)], body, alg)
        if obj is None:
            continue
        if alg == "none" and k in ("other-as-client", "other-no-iss", "server", "stranger") and body.get("iss", cid) == cid:
            k = "none"  # nobody's signature
        if k not in ("own", "none", "no-iss"):
            good = False
            why.append("signer:" + k)
        elif alg not in allowed:
            good = False
            why.append("alg:%s not in %s" % (alg, allowed if len(allowed) < 3 else "supported"))
        elif k == "no-iss":
            good = None
        named = "same" if clean or good is False else rng.choice(["same"] * 6 + ["other", "absent", "iss-other"])
        if named == "other":
            body["client_id"] = other
            if rng.random() < 0.7:
                body["redirect_uri"] = "https://%s.example.com/cb" % other
            good = False
            why.append("names-other")
        elif named == "absent":
            del body["client_id"]
            good = None if good else good
        elif named == "iss-other" and "iss" in body:
            body["iss"] = rng.choice([other, "https://other.example.com", ISSUER])
            good = False
            why.append("iss-other")
        fault = "none" if clean or good is False else rng.choice(["none"] * 8 + ["redirect", "redirect-none", "response_type", "openid", "nonce"])
        if fault == "redirect":
            body["redirect_uri"] = rng.choice(["https://evil.example.com/cb", body.get("redirect_uri", "") + "/x", "https://%s.example.com/cb" % other])
            good = False
        elif fault == "response_type":
            body["response_type"] = rng.choice(["evil", "code evil"])
            good = False
        elif fault == "openid" and kind == "oidc" and how != "push":
            body["scope"] = "email"
            good = False
        elif fault == "nonce" and kind == "oidc":
            body["response_type"] = "id_token token"
            body.pop("nonce", None)
            good = None  # by reference the nonce outside counts
        elif fault != "redirect":
            fault = "none"
        if fault != "none":
            why.append("fault:" + fault)
        if (named != "same" or fault != "none"):
            obj = jws(list(signer) + [SYMKey(key=secret)], body, alg)
        alter = "none" if clean or good is False or alg == "none" else rng.choice(["none"] * 6 + ["payload", "strip", "flip", "header", "swap", "to-none"])
        h, pl, sg = obj.split(".")[:3]
        if alter == "payload":
            obj = ".".join([h, jws([], dict(body, scope=body.get("scope", "") + " phone"), "none").split(".")[1], sg])
        elif alter == "strip":
            obj = ".".join([h, pl, ""])
        elif alter == "flip":
            obj = flip(rng, obj)
        elif alter == "header":
            obj = ".".join([jws([], body, "none").split(".")[0], pl, sg])
        elif alter == "swap":
            x = jws(list(keys[other]) + [SYMKey(key=w.secrets[other])], body, alg)
            obj = ".".join(x.split(".")[:1] + [pl, x.split(".")[2]])
        elif alter == "to-none":
            obj = jws([], body, "none")
        if alter != "none":
            # an unsigned one is fine for those who registered that
            good = False if not ("none" in allowed and alter in ("to-none", "header")) else None
            why.append("altered:" + alter)
        enc = "none" if rng.random() < 0.8 else rng.choice(["jwe", "jwe", "raw", "jwe-cty"])
        if enc == "raw" and (good is False and k not in ("own", "none") or alter != "none"):
            enc = "jwe"
        if enc != "none":
            rep.count("encrypted")
            ea, ee = rng.choice(["RSA-OAEP", "RSA-OAEP-256"]), rng.choice(["A128GCM", "A256GCM", "A128CBC-HS256"])
            sk = [x for x in server_keys if x.kty == "RSA" and x.use == "enc"] or [x for x in server_keys if x.kty == "RSA"]
            inner = obj if enc != "raw" else json.dumps(body)
            kw = {"cty": "JWT"} if enc == "jwe-cty" else {}
            try:
                obj = JWE(inner, alg=ea, enc=ee, **kw).encrypt(keys=sk)
            except Exception:
                continue
            if good is True:
                good = None
            if enc == "raw":
                # unsigned, whatever was meant
                good = None if "none" in allowed and named != "other" and fault in ("none", "nonce") and not any(x.startswith("iss") for x in why) else False
            elif ea not in eas or ee not in ees:
                # not judged by the property (signing is)
                good = None if good is not False else False
            why.append("enc:" + enc)
        # ---- outside
        out = dict(p)
        o_conf = False
        for key, v in (("state", "out"), ("nonce", "n-out"), ("login_hint", "hint-out"), ("scope", "openid phone" if kind == "oidc" else "write"),
                       ("redirect_uri", "https://%s.example.com/cb" % cid), ("response_type", "code"), ("max_age", "5"), ("response_mode", None)):
            if rng.random() < 0.3:
                if v is None:
                    out.pop(key, None)
                else:
                    out[key] = v
                o_conf = True
        for key in list(out):
            if key in ("state", "login_hint", "claims", "max_age", "nonce") and rng.random() < 0.3 and not (key == "nonce" and "code" != out["response_type"]):
                del out[key]
        out["client_id"] = cid
        req = {key: json.dumps(v) if isinstance(v, dict) else v for key, v in out.items()}
        web.got.clear()
        web.docs.clear()
        hi = {}
        before = len(w.sm.db), len(w.ctx.par_db)
        rep.count("by:" + how)
        uri = None
        if how == "value":
            req["request"] = obj
            r = w.authorize(req, "diana")
        elif how == "reference":
            good, uri = reference(rng, rep, w, web, reg, cid, other, obj, good, why, uri_ok, must_register, clean)
            req["request_uri"] = uri
            r = w.authorize(req, "diana")
        else:
            req = {"request": obj, "response_type": p["response_type"], "scope": p["scope"], "client_id": cid}
            req, hi = w.with_auth(req, cid, "post")
            pr = w.do("pushed_authorization", urlencode(req), hi, label="push")
            if pr.ok:
                r = w.authorize({"client_id": cid, "request_uri": pr.data["request_uri"], "response_type": "code", "scope": p["scope"],
                                 "redirect_uri": p["redirect_uri"], "nonce": "n-out"}, "diana")
            else:
                r = pr
        served = bool(r.sid) or any(x in r.data for x in ("code", "access_token", "id_token"))
        rep.sig(kind, how, k, named, fault, alter, enc, good, r.outcome(), bool(reg[cid]["uris"]), reg[cid]["alg"])
        fetches(rep, web, reg, cid, uri, uri_ok, must_register)
        info = {"how": how, "why": why, "body": body, "outside": out, "registered": reg[cid], "alg": alg}
        if good is False:
            if rep.check(not served, "not-served", "a request object with %s (%s) was served: %s" % (why, how, r.brief()), **info):
                rep.check((len(w.sm.db), len(w.ctx.par_db)) == before or how == "push" or k == "id-token", "nothing-left",
                          "a refused request left a session (%s)" % why, **info)
            if r.kind == "redirect" and r.url:
                host = urlsplit(r.url).netloc
                rep.check(host in ("%s.example.com" % cid, ) or (named in ("other", "iss-other") and host == "%s.example.com" % other), "where-errors-go",
                          "a refused request was answered at %s" % r.url, **info)
            continue
        if good is True:
            rep.check(served, "served", "a good request object was refused (%s): %s" % (how, r.brief()), **info)
        if served:
            as_in_object(rep, w, r, body, out, how, kind, info, cid)


def reference(rng, rep, w, web, reg, cid, other, obj, good, why, uri_ok, must_register, clean):
    uris = reg[cid]["uris"]
    if uris:
        u = rng.choice(uris)
        if not clean:
            k = rng.choice(["own"] * 6 + ["fragment", "path", "query", "host", "other", "case", "user", "cut", "cut"])
            b = u
            if k == "fragment":
                u = u + "#abc"   # the hash of the content
            elif k == "path":
                u = u + "/x"
            elif k == "query":
                u = u + "?x=1"
            elif k == "host":
                u = u.replace(".example.com", ".example.com.evil.example")
            elif k == "cut":
                # a part of a registered one
                u = rng.choice([u[:-1], u.rsplit("/", 1)[0], "https://%s.example.com/" % cid, "https://%s.example.com" % cid, "https://%s.example.co" % cid])
            elif k == "user":
                u = u.replace("https://", "https://evil.example@")
            elif k == "case":
                u = u.replace("/req", "/REQ").replace("/o/", "/O/")
            elif k == "other" and reg[other]["uris"]:
                u = reg[other]["uris"][0]
            if u.split("#")[0] not in uris:
                good = False
                why.append("uri:" + k)
    else:
        u = rng.choice(["https://%s.example.com/anything" % cid, "https://internal.example/secret"])
        if must_register:
            good = False
            why.append("none registered")
        elif good is True:
            good = None
    if not uri_ok:
        good = False
        why.append("request_uri not supported")
    status = 200
    if not clean and rng.random() < 0.12:
        k = rng.choice(["404", "302", "garbage", "gone"])
        why.append("http:" + k)
        good = False
        status = {"404": 404, "302": 302}.get(k, 200)
        if k == "garbage":
            obj = rng.choice(["", "<html>", "a.b.c", "{}", json.dumps({"client_id": cid})])
        if k == "gone":
            return good, u
    web.docs[u.split("#")[0]] = (status, obj)
    return good, u


def fetches(rep, web, reg, cid, uri, uri_ok, must_register):
    if uri is None:
        rep.check(not web.got, "no-fetch", "something was fetched though there is no request_uri: %s" % web.got)
        return
    for u in web.got:
        ok = u.split("#")[0] in (reg[cid]["uris"] or []) or (not reg[cid]["uris"] and not must_register and u == uri)
        rep.check(ok and uri_ok, "fetch", "%s was fetched, %s registered %s (registration required: %s, request_uri supported: %s)" % (
            u, cid, reg[cid]["uris"], must_register, uri_ok))
    if not web.got:
        rep.count("oracle:no-fetch")


def norm(key, v):
    if key in ("scope", "response_type", "prompt") and isinstance(v, str):
        return v.split()
    if key == "claims":
        v = json.loads(v) if isinstance(v, str) else v
        return {a: dict(b) for a, b in (v.to_dict() if hasattr(v, "to_dict") else v).items() if b}
    if key == "max_age":
        return int(v)
    return v


def as_in_object(rep, w, r, body, out, how, kind, info, cid):
    sid = r.sid
    if not sid:
        rep.check(False, "as-in-object", "no session with %s" % r.brief(), **info)
        return
    ar = w.sm[sid].authorization_request
    skip = ("iss", "aud", "exp", "iat")
    for key, v in body.items():
        if key in skip:
            continue
        rep.check(norm(key, ar.get(key)) == norm(key, v) if ar.get(key) is not None else False, "as-in-object",
                  "%s is %r in the object, %r was served (%s)" % (key, v, ar.get(key), how), **info)
    for key in out:
        if key not in body and how == "value" and key != "client_id":
            rep.check(key not in ar, "as-in-object", "%s=%r from outside the object was served" % (key, ar.get(key)), **info)
    rep.check(ar["client_id"] == cid and w.sm.decrypt_session_id(sid)[1] == cid, "as-in-object", "served for client %s" % ar["client_id"], **info)
    if "state" in body:
        rep.check(r.data.get("state") == body["state"], "response", "state %r, %r in the object" % (r.data.get("state"), body["state"]), **info)
    if "redirect_uri" in body and r.kind in ("redirect",):
        rep.check((r.url or "").split("?")[0].split("#")[0] == body["redirect_uri"], "response", "answered at %s" % r.url, **info)
    want = set(body.get("response_type", out["response_type"]).split())
    have = {x for x, y in (("code", "code"), ("token", "access_token"), ("id_token", "id_token")) if y in r.data}
    rep.check(have == want, "response", "response type %s in the object, answer has %s" % (want, have), **info)
    if "id_token" in r.data and "nonce" in body:
        rep.check(peek(r.data["id_token"]).get("nonce") == body["nonce"], "response", "nonce of the object is not in the ID token", **info)
