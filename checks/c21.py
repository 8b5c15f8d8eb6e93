"""C21: published metadata is what the server does."""
import copy
import json
import os
from urllib.parse import urlencode, urlsplit

from cryptojwt.jwe.jwe import factory as jwe_factory
from cryptojwt.jws.jws import factory
from cryptojwt.jwt import JWT
from cryptojwt.key_jar import KeyJar
from oidcop.configure import ASConfiguration, OPConfiguration
from oidcop.server import Server
from vlib.clock import CLOCK
from vlib.world import (ALL_RT, ALL_RT_OAUTH2, ISSUER, METHODS_ALL, USERS, World, key_objs, peek, private_jwks, tmpdir)

CASES = {"quick": 360, "thorough": 18000}
SERVER_KEYS = 3
CLIENT_KEYS = 2
RULE = ("One case: a server with a random issuer (port, path, trailing slash), endpoint subset and paths, capabilities, authentication methods and algorithm "
        "lists; its discovery document is fetched before, between and after other requests and compared with the configuration; then every advertised response "
        "type, response mode, scope, claim, grant type, authentication method and signing algorithm is used, and every authentication method that is not "
        "advertised is tried; WebFinger is asked about generated resources; where the server makes its own key file that is compared with its keys.  "
        "Distinct: by configuration shape and what was used.")
MUST_OBSERVE = {"oracle:stable": 1000, "oracle:issuer": 250, "oracle:endpoint-url": 1800, "oracle:not-configured": 300, "oracle:response-type": 1200,
                "oracle:response-mode": 400, "oracle:scope": 800, "oracle:claim": 900, "oracle:grant-type": 500, "oracle:auth-method": 700,
                "oracle:auth-method-refused": 350, "oracle:signing-alg": 300, "oracle:webfinger": 600, "oracle:jwks": 60, "oracle:jwks-private": 150, "oracle:unknown-alg": 10, "oracle:weak-default": 500,
                "oracle:assertion-aud": 200}
EP = {"authorization": "authorization_endpoint", "token": "token_endpoint", "userinfo": "userinfo_endpoint", "registration": "registration_endpoint",
      "session": "end_session_endpoint", "pushed_authorization": "pushed_authorization_request_endpoint", "introspection": "introspection_endpoint"}
OIC = "http://openid.net/specs/connect/1.0/issuer"
PRIVATE = {"d", "p", "q", "dp", "dq", "qi", "k", "oth"}
WANT = {"code": "code", "token": "access_token", "id_token": "id_token"}


def run_case(rng, rep, i):
    kind = rng.choice(["oidc", "oidc", "oauth2"])
    issuer = rng.choice([ISSUER, ISSUER, "https://op.example.org:8443", "https://op.example.org/tenant/a", "https://op.example.org/", "https://[::1]:8090"])
    o = {"issuer": issuer}
    ak = {}
    rts = list(ALL_RT if kind == "oidc" else ALL_RT_OAUTH2)
    if rng.random() < 0.6:
        rts = rng.sample(rts, rng.randrange(1, len(rts) + 1))
        ak["response_types_supported"] = rts
    else:
        rts = None
    if rng.random() < 0.4:
        ak["response_modes_supported"] = rng.sample(["query", "fragment", "form_post"], rng.randrange(1, 4))
    if rng.random() < 0.3:
        ak["request_object_signing_alg_values_supported"] = rng.sample(["RS256", "ES256", "HS256"], 2)
    o["authz_kwargs"] = ak
    methods = rng.sample(METHODS_ALL, rng.randrange(1, 5))
    o["token_authn"] = methods
    tk = {}
    if rng.random() < 0.3:
        tk["token_endpoint_auth_signing_alg_values_supported"] = rng.sample(["RS256", "ES256", "HS256", "PS256"], 3)
    o["token_kwargs"] = tk
    o["par"] = rng.random() < 0.3
    if kind == "oidc":
        o["without"] = rng.sample(["registration", "registration_api", "session", "introspection", "discovery", "userinfo"], rng.randrange(0, 4))
        if "registration" in o["without"] and "registration_api" not in o["without"]:
            o["without"].append("registration_api")
    else:
        o["without"] = ["introspection"] if rng.random() < 0.3 else []
    caps = {}
    if rng.random() < 0.4:
        caps["subject_types_supported"] = rng.choice([["public"], ["public", "pairwise"]])
    if rng.random() < 0.3:
        caps["x_something"] = {"a": [1, 2]}
    scopes = ["openid", "profile", "email", "address", "phone", "offline_access"] if kind == "oidc" else ["read", "write", "openid"]
    if rng.random() < 0.4:
        scopes = [s for s in scopes if s == "openid" or rng.random() < 0.6]
        if rng.random() < 0.5:
            caps["scopes_supported"] = scopes
        o["allowed_scopes"] = scopes
    elif kind == "oidc" and rng.random() < 0.4:
        o["scopes_to_claims"] = {"openid": ["sub"], "profile": ["name", "nickname"], "email": ["email"], "custom": ["given_name", "family_name"]}
    o["capabilities"] = caps
    if rng.random() < 0.3:
        # several ways to authenticate
        acrs = rng.sample(["urn:x:pw", "urn:x:otp", "urn:x:card"], rng.randrange(1, 4))
        o["authentication"] = {"m%d" % n: {"acr": a, "class": "oidcop.user_authn.user.NoAuthn", "kwargs": {"user": "diana"}} for n, a in enumerate(acrs)}
    algs = None
    if kind == "oidc" and rng.random() < 0.4:
        algs = rng.sample(["RS256", "ES256", "HS256", "PS256", "ES384"], rng.randrange(1, 4))
        o["id_token_kwargs"] = {"id_token_signing_alg_values_supported": algs}
    ualgs = None
    if kind == "oidc" and rng.random() < 0.4:
        ualgs = rng.sample(["RS256", "ES256", "PS256", "RS512"], rng.randrange(1, 4))
        o["userinfo_kwargs"] = {"userinfo_signing_alg_values_supported": ualgs}
    encs = {}
    if kind == "oidc":
        for kw, pre in (("id_token_kwargs", "id_token"), ("userinfo_kwargs", "userinfo")):
            for k, vals in (("alg", ["RSA-OAEP", "RSA-OAEP-256", "A128KW", "ECDH-ES", "ECDH-ES+A128KW"]), ("enc", ["A128CBC-HS256", "A256GCM", "A192CBC-HS384"])):
                if rng.random() < 0.3:
                    n = "%s_encryption_%s_values_supported" % (pre, k)
                    o.setdefault(kw, {})[n] = encs[n] = rng.sample(vals, rng.randrange(1, 4))
    if rng.random() < 0.06:
        # an algorithm nobody knows, among good ones: no such server
        kw, n, ok = rng.choice([("authz_kwargs", "request_object_signing_alg_values_supported", "RS256"), ("token_kwargs", "token_endpoint_auth_signing_alg_values_supported", "ES256")]
                               + ([("id_token_kwargs", "id_token_signing_alg_values_supported", "RS256"), ("userinfo_kwargs", "userinfo_signing_alg_values_supported", "ES256"),
                                   ("id_token_kwargs", "id_token_encryption_alg_values_supported", "RSA-OAEP"), ("userinfo_kwargs", "userinfo_encryption_enc_values_supported", "A256GCM")]
                                  if kind == "oidc" else []))
        if kw == "userinfo_kwargs" and "userinfo" in o["without"]:
            return
        o.setdefault(kw, {})[n] = rng.sample([ok, rng.choice(["RS1", "XS256", "rs256", "A512KW", "dir2", ""])], 2)
        try:
            World(kind, rep, **o)
        except ValueError:
            rep.check(True, "unknown-alg", "")
        else:
            rep.violation("unknown-alg", "a server was built that announces %s %s" % (n, o[kw][n]))
        return
    paths = {}

    def patch(conf):
        for n, spec in conf["endpoint"].items():
            if n not in ("provider_config", "discovery") and rng.random() < 0.5:
                spec["path"] = rng.choice(["%s/x", "oauth2/%s", "v1/%s.html", "%s2"]) % spec["path"]
            paths[n] = spec["path"]
        if rng.random() < 0.5:
            names = list(conf["endpoint"])
            rng.shuffle(names)
            conf["endpoint"] = {n: conf["endpoint"][n] for n in names}
        if rng.random() < 0.3:
            conf["keys"]["uri_path"] = "static/keys/jwks.json"
    o["conf_patch"] = patch
    w = World(kind, rep, keys=rng.randrange(3), **o)
    rep.sig(kind, issuer, sorted(rts or []), sorted(methods), o["without"], sorted(caps), algs, ualgs, o.get("allowed_scopes"), bool(o.get("scopes_to_claims")))
    doc = metadata(rep, w)
    if doc is None:
        return
    # ---- what the document says about the configuration
    rep.check(doc.get("issuer") == issuer, "issuer", "issuer %r, configured %r" % (doc.get("issuer"), issuer))
    base = issuer.rstrip("/")
    for name, key in EP.items():
        if name in paths:
            rep.check(doc.get(key) == base + "/" + paths[name], "endpoint-url", "%s %r, configured at %r of %r" % (key, doc.get(key), paths[name], issuer))
            real = "session" if name == "session" else name
            ep = w.ep(real)
            rep.check(ep is not None and (ep.endpoint_path, ep.full_path) == (paths[name], doc.get(key)), "endpoint-url",
                      "%s is served at %r, advertised %r" % (name, ep and ep.full_path, doc.get(key)))
        else:
            rep.check(key not in doc, "not-configured", "%s is advertised (%r) but not configured" % (key, doc.get(key)))
    rep.check(doc.get("jwks_uri") == base + "/" + w.conf["keys"]["uri_path"], "jwks-uri", "jwks_uri %r" % doc.get("jwks_uri"))
    rep.check(sorted(doc.get("token_endpoint_auth_methods_supported", [])) == sorted(methods), "methods-advertised",
              "advertised methods %s, configured %s" % (doc.get("token_endpoint_auth_methods_supported"), methods))
    for key, want in (("response_types_supported", rts), ("response_modes_supported", ak.get("response_modes_supported")),
                      ("subject_types_supported", caps.get("subject_types_supported")), ("scopes_supported", o.get("allowed_scopes") if kind == "oidc" else None),
                      ("id_token_signing_alg_values_supported", algs), ("userinfo_signing_alg_values_supported", ualgs if "userinfo" in paths else None),
                      ("request_object_signing_alg_values_supported", ak.get("request_object_signing_alg_values_supported")),
                      ("token_endpoint_auth_signing_alg_values_supported", tk.get("token_endpoint_auth_signing_alg_values_supported"))):
        if want is not None:
            rep.check(sorted(doc.get(key, [])) == sorted(want), "as-configured", "%s is %s, configured %s" % (key, doc.get(key), want))
    for key, want in encs.items():
        if key.startswith("id_token") or "userinfo" in paths:
            rep.check(sorted(doc.get(key, [])) == sorted(want), "as-configured", "%s is %s, configured %s" % (key, doc.get(key), want))
    for key, val in doc.items():
        if "alg_values_supported" in key:
            # nothing unsigned and no broken padding that nobody configured
            bad = {"none", "RSA1_5"} & set(val)
            rep.check(not bad, "weak-default", "%s announces %s and nobody configured it" % (key, sorted(bad)))
    if "x_something" in caps:
        rep.check(doc.get("x_something") == caps["x_something"], "as-configured", "x_something %r" % doc.get("x_something"))
    rep.check(sorted(doc.get("acr_values_supported", [])) == sorted(m["acr"] for m in w.conf["authentication"].values()), "as-configured", "acr %r" % doc.get("acr_values_supported"))
    secret_free(rep, w, doc)

    # ---- what it says is what it does
    w.add_client("alpha", keys=rng.randrange(2), response_types=doc["response_types_supported"])
    w.add_client("beta", keys=rng.randrange(2), response_types=doc["response_types_supported"])
    w.users = w.ctx.userinfo.db = {u: dict(USERS[u]) for u in USERS}
    jobs = [response_types, response_modes, scopes_, claims, grants, auth_methods, signing, webfinger]
    rng.shuffle(jobs)
    for job in jobs:
        job(rng, rep, w, kind, doc, methods)
        if rng.random() < 0.5:
            CLOCK.advance(rng.choice([1, 10, 100000]))
            again = metadata(rep, w, rng.random() < 0.5)
            rep.check(again == doc, "stable", "the discovery document changed: %s" % diff(doc, again))
    again = metadata(rep, w)
    rep.check(again == doc, "stable", "the discovery document changed: %s" % diff(doc, again))
    if rng.random() < 0.25:
        keyfile(rng, rep, w, kind)


def diff(a, b):
    return {k: ((a or {}).get(k), (b or {}).get(k)) for k in set(a or {}) | set(b or {}) if (a or {}).get(k) != (b or {}).get(k)}


def metadata(rep, w, alt=False):
    r = w.do("provider_config", "" if alt else {}, {"headers": {}}, label="metadata")
    if not rep.check(r.ok and isinstance(r.data, dict), "served", "no discovery document: %s" % r.brief()):
        return None
    rep.check(any(k.lower() == "content-type" and v.startswith("application/json") for k, v in r.headers), "content-type", "headers %s" % r.headers)
    return copy.deepcopy(r.data)


def secret_free(rep, w, doc):
    text = json.dumps(doc)
    for s in ("ses_pwd_", "salty_", "pubsalt", "pwsalt", w.path):
        rep.check(s not in text, "no-secrets", "%r is in the discovery document" % s)


def get(w, cid, rt, **kw):
    if "id_token" not in rt and w.kind != "oidc":
        kw.setdefault("scope", "read")
    return w.authorize(w.areq(cid, response_type=rt, **kw), "diana")


def base_scope(w, doc):
    if w.kind == "oidc":
        return "openid"
    return "openid" if "openid" in doc.get("scopes_supported", []) else ""


def response_types(rng, rep, w, kind, doc, methods):
    for rt in doc["response_types_supported"]:
        q = rt.split()
        rng.shuffle(q)
        r = get(w, "alpha", " ".join(q))
        want = {WANT[x] for x in q if x in WANT}
        have = {v for v in WANT.values() if v in r.data}
        rep.check(r.kind == "redirect" and "error" not in r.data and have == want, "response-type", "advertised response type %r gave %s" % (rt, r.brief()))


def response_modes(rng, rep, w, kind, doc, methods):
    for m in doc["response_modes_supported"]:
        for rt in doc["response_types_supported"]:
            if rt == "none" or (m == "fragment" and rt == "code") or (m == "query" and rt != "code"):
                continue  # refused, as the specifications want
            r = get(w, "beta", rt, response_mode=m)
            rep.check(r.mode == m and "error" not in r.data and r.data, "response-mode", "advertised response mode %r for %r gave %s" % (m, rt, r.brief()))


def a_code(w, doc, cid, **kw):
    rt = [x for x in doc["response_types_supported"] if "code" in x.split()]
    if not rt:
        return None
    return get(w, cid, rt[0], **kw)


def an_at(rng, w, doc, methods, cid, **kw):
    """an access token, however it is to be had"""
    rt = [x for x in doc["response_types_supported"] if "token" in x.split()]
    if rt and rng.random() < 0.5:
        return get(w, cid, rng.choice(rt), **kw)
    r = a_code(w, doc, cid, **kw)
    if r is not None and "code" in r.data:
        return w.redeem(cid, r.data["code"], method=short(methods[0]))
    return get(w, cid, rt[0], **kw) if rt else None


def short(m):
    return {"client_secret_post": "post", "client_secret_basic": "basic"}.get(m, m)


def scopes_(rng, rep, w, kind, doc, methods):
    for s in doc.get("scopes_supported", []):
        sc = s if kind != "oidc" or s == "openid" else "openid " + s
        kw = {"prompt": "consent"} if s == "offline_access" else {}
        r = an_at(rng, w, doc, methods, "alpha", scope=sc, **kw)
        if r is None:
            continue
        if rep.check("access_token" in r.data, "scope", "asking for the advertised scope %r gave %s" % (s, r.brief())):
            got = r.data.get("scope", sc)
            got = got.split() if isinstance(got, str) else list(got)
            rep.check(s in got, "scope", "advertised scope %r asked for, got %s" % (s, got))


def claims(rng, rep, w, kind, doc, methods):
    if kind != "oidc":
        return
    names = doc.get("claims_supported", [])
    if w.ep("userinfo") is None:
        return
    r = an_at(rng, w, doc, methods, "beta", scope="openid", claims={"userinfo": {c: None for c in names}})
    if r is None or not rep.check("access_token" in r.data, "claim", "claims request refused: %s" % r.brief()):
        return
    u = w.userinfo(r.data["access_token"])
    for c in names:
        if c in USERS["diana"] or c == "sub":
            rep.check(c in u.data, "claim", "advertised claim %r asked for, not in %s" % (c, sorted(u.data)))


def grants(rng, rep, w, kind, doc, methods):
    g = doc["grant_types_supported"]
    m = short(rng.choice(methods))
    kw = {}
    if kind == "oidc":
        kw = {"scope": "openid offline_access", "prompt": "consent"} if "offline_access" in doc.get("scopes_supported", []) else {}
    if "authorization_code" in g:
        r = a_code(w, doc, "alpha", **kw)
        if r is not None and "code" in r.data:
            pk = {"issue_refresh": True} if kind == "oauth2" else {}
            t = w.redeem("alpha", r.data["code"], method=m, **pk)
            rep.check(t.ok and "access_token" in t.data, "grant-type", "advertised grant type authorization_code gave %s" % t.brief())
            if "refresh_token" in g and (kw or kind == "oauth2"):
                if rep.check("refresh_token" in t.data, "grant-type", "refresh_token is advertised but there is none: %s" % t.brief()):
                    f = w.refresh("alpha", t.data["refresh_token"], method=m)
                    rep.check(f.ok and "access_token" in f.data, "grant-type", "advertised grant type refresh_token gave %s" % f.brief())
    for x in ("password", "client_credentials", "urn:ietf:params:oauth:grant-type:device_code"):
        if x not in g:
            req, hi = w.with_auth({"grant_type": x, "username": "diana", "password": "x", "scope": "openid"}, "alpha", m)
            t = w.do("token", req, hi)
            rep.check(not t.ok and "access_token" not in t.data, "grant-type-refused", "%r, which is not advertised, gave %s" % (x, t.brief()))


def auth_methods(rng, rep, w, kind, doc, methods):
    adv = doc["token_endpoint_auth_methods_supported"]
    for m in METHODS_ALL:
        r = a_code(w, doc, "alpha")
        if r is None or "code" not in r.data:
            return
        code = r.data["code"]
        if m not in adv:
            t = w.redeem("alpha", code, method=short(m))
            rep.check(not t.ok and "access_token" not in t.data, "auth-method-refused", "authentication by %s, which is not advertised (%s), gave %s" % (
                m, adv, t.brief()))
            m = rng.choice(adv)
        t = w.redeem("alpha", code, method=short(m))
        rep.check(t.ok and "access_token" in t.data, "auth-method", "advertised authentication method %s gave %s" % (m, t.brief()))
    for m in set(adv) & {"client_secret_jwt", "private_key_jwt"}:
        # assertions for the advertised token endpoint, with advertised algorithms
        for alg in doc["token_endpoint_auth_signing_alg_values_supported"]:
            if (m == "client_secret_jwt") != alg.startswith("HS") or alg not in ("HS256", "RS256", "ES256", "PS256", "HS512"):
                continue
            r = a_code(w, doc, "beta")
            if alg.startswith("HS"):
                kj = KeyJar()
                kj.add_symmetric("", w.secrets["beta"], ["sig"])
            else:
                kj = w.client_keys["beta"]
            a = JWT(kj, iss="beta", lifetime=300, sign_alg=alg).pack({"sub": "beta", "jti": "j%s%s" % (m, rng.random())}, issuer_id="", aud=[doc["token_endpoint"]])
            t = w.do("token", {"grant_type": "authorization_code", "code": r.data["code"], "redirect_uri": w.redirect_uri("beta"), "client_assertion": a,
                               "client_assertion_type": "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"}, {})
            rep.check(t.ok and "access_token" in t.data, "assertion-aud", "a %s assertion for the advertised token endpoint gave %s" % (alg, t.brief()))
    r = a_code(w, doc, "alpha")
    t = w.redeem("alpha", r.data["code"], method="none")
    rep.check(not t.ok and "access_token" not in t.data, "auth-method-refused", "no authentication at all gave %s" % t.brief())


def signing(rng, rep, w, kind, doc, methods):
    if kind != "oidc":
        return
    usable = ("RS256", "ES256", "HS256", "PS256", "ES384", "RS512", "HS512", "PS384")
    for alg in doc["id_token_signing_alg_values_supported"]:
        if alg not in usable or rng.random() < 0.4:
            continue
        rt = [x for x in doc["response_types_supported"] if "id_token" in x.split() or "code" in x.split()]
        if not rt:
            return
        w.ctx.cdb["beta"]["id_token_signed_response_alg"] = alg
        rt = rng.choice(rt)
        r = get(w, "beta", rt, scope="openid")
        if "id_token" not in rt.split():
            r = w.redeem("beta", r.data["code"], method=short(methods[0]))
        if rep.check("id_token" in r.data, "signing-alg", "ID token with advertised algorithm %s: %s" % (alg, r.brief())):
            rep.check(factory(r.data["id_token"]).jwt.headers["alg"] == alg, "signing-alg", "ID token signed with another algorithm than %s" % alg)
        del w.ctx.cdb["beta"]["id_token_signed_response_alg"]
    if w.ep("userinfo") is None:
        return
    for alg in doc["userinfo_signing_alg_values_supported"]:
        if alg not in usable or alg.startswith("HS") or rng.random() < 0.4:
            continue
        r = an_at(rng, w, doc, methods, "beta", scope="openid")
        if r is None:
            return
        w.ctx.cdb["beta"]["userinfo_signed_response_alg"] = alg
        u = w.userinfo(r.data["access_token"])
        raw = u.raw if isinstance(u.raw, str) else u.extra.get("response")
        tok = u.data.get("jwt") or raw or ""
        rep.check(u.ok, "signing-alg", "userinfo with advertised algorithm %s: %s" % (alg, u.brief()))
        del w.ctx.cdb["beta"]["userinfo_signed_response_alg"]


def webfinger(rng, rep, w, kind, doc, methods):
    if w.ep("discovery") is None:
        return
    for _ in range(4):
        res = rng.choice(["acct:diana@example.com", "acct:di%61na@example.com:8080", "https://example.com/diana", "https://example.com:8443/", "mailto:d@example.com",
                          "https://example.com/?a=b&c=d", "acct:å@example.com", "https://op.example.org", "acct:a+b@x.y"])
        q = {"resource": res, "rel": OIC}
        r = w.do("discovery", urlencode(q) if rng.random() < 0.6 else q, {}, label="webfinger")
        if rep.check(r.ok, "webfinger", "WebFinger for %r: %s" % (res, r.brief())):
            links = r.data.get("links")
            rep.check(r.data.get("subject") == res and links == [{"rel": OIC, "href": doc["issuer"]}], "webfinger", "WebFinger for %r: %s" % (res, r.data))


def keyfile(rng, rep, w, kind):
    """the server reads its private keys from a file and publishes the public ones"""
    d = os.path.join(tmpdir(), "pub%d" % rng.randrange(10 ** 9))
    os.makedirs(d)
    jwks = private_jwks("server", rng.randrange(SERVER_KEYS))
    keys = [dict(k) for k in jwks["keys"]]
    if rng.random() < 0.6:
        keys.append({"kty": "oct", "k": "c2VjcmV0LXN5bW1ldHJpYy1rZXktMTIzNDU2Nzg5MA", "use": rng.choice(["sig", "enc"]), "kid": "sym"})
    with open(os.path.join(d, "private.json"), "w") as f:
        json.dump({"keys": keys}, f)
    conf = copy.deepcopy(w.conf)
    defs = []
    for k in keys:
        if k["kty"] == "RSA":
            defs.append({"type": "RSA", "use": [k.get("use", "sig")]})
        elif k["kty"] == "EC":
            defs.append({"type": "EC", "crv": k["crv"], "use": [k.get("use", "sig")]})
        else:
            defs.append({"type": "oct", "use": [k["use"]], "kid": "sym"})
    conf["keys"] = {"private_path": os.path.join(d, "private.json"), "public_path": os.path.join(d, "public.json"), "key_defs": defs,
                    "uri_path": "static/jwks.json", "read_only": rng.random() < 0.3}
    srv = Server((OPConfiguration if kind == "oidc" else ASConfiguration)(conf=conf, base_path=d), cwd=d)
    path = os.path.join(d, "public.json")
    if conf["keys"]["read_only"] and not os.path.exists(path):
        return
    with open(path) as f:
        pub = json.load(f)
    mine = srv.endpoint_context.keyjar.get_issuer_keys("")
    sym = [k for k in pub["keys"] if k.get("kty") == "oct"]
    if any(k["kty"] == "oct" for k in keys):
        rep.check(not sym, "symmetric-key-published", "a symmetric key from the server's key file is in its public key file")
    pub["keys"] = [k for k in pub["keys"] if k not in sym or not any(x["kty"] == "oct" for x in keys)]
    asym = {k.kid: k for k in mine if k.kty in ("RSA", "EC")}
    rep.check(set(asym) == {k["kid"] for k in keys if k["kty"] != "oct"}, "jwks", "server keys %s" % sorted(asym))
    rep.check({k.get("kid") for k in pub["keys"]} == set(asym) and len(pub["keys"]) == len(asym), "jwks",
              "published keys %s, server has %s" % ([k.get("kid") for k in pub["keys"]], sorted(asym)))
    for k in pub["keys"]:
        rep.check(k.get("kty") in ("RSA", "EC") and not PRIVATE & set(k), "jwks-private", "published key has %s" % sorted(k))
        o = asym.get(k.get("kid"))
        if o is not None:
            want = {a: b for a, b in o.serialize().items()}
            rep.check(k == want, "jwks", "published %s, the server's is %s" % (k, want))
    doc = srv.endpoint_context.provider_info
    rep.check(doc.get("jwks_uri", "").endswith("/static/jwks.json"), "jwks-uri", "jwks_uri %r" % doc.get("jwks_uri"))
