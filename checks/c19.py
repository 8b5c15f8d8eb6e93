"""C19: pushed authorization requests are used once, by their client, unchanged."""
import base64
import copy
import hashlib
import json
from urllib.parse import urlencode, urlsplit

from cryptojwt.jwt import JWT
from cryptojwt.key_jar import KeyJar

from oidcop.exception import NoSuchAuthentication
from vlib.browser import Browser, authentication
from vlib.clock import CLOCK
from vlib.world import ISSUER, USERS, Res, World, key_objs, peek

CASES = {"quick": 700, "thorough": 24000}
RULE = ("One case: a server (OIDC or OAuth2, with and without PKCE add-on and login pages) with three clients that share a redirect URI and one public "
        "client; a series of pushes (valid with random parameters, as plain parameters or as signed request object, invalid in one way, or with wrong client "
        "authentication) and of uses of the references at the authorization endpoint (front channel with random other parameters, right and wrong client, "
        "used before, expired, mutated, invented).  Every resolved reference is compared with what the same parameters give when sent directly, down to the "
        "tokens and claims obtained.  Distinct: by the sequence of abstract pushes, uses and outcomes.")
MUST_OBSERVE = {"oracle:pushed-served-like-direct": 500, "oracle:used-once": 50, "oracle:foreign-client": 200, "oracle:unknown-reference": 150,
                "oracle:expired": 50, "oracle:push-needs-authentication": 250, "oracle:push-needs-valid-request": 200, "oracle:unique": 800,
                "with-junk-front": 300, "deep-compared": 250, "request-object": 60, "login-pages": 40}
ASSUMPTIONS = ["the pushed authorization endpoint is configured with client authentication methods, like the token endpoint (it has no default either)",
               "the front channel request is itself a valid one: the authorization endpoint asks for response_type (and scope, redirect_uri with OIDC) "
               "also beside a request_uri"]
CLIENT_KEYS = 2
CLIENTS = ["alpha", "alpha2", "Alpha"]
SHARED = "https://shared.example.com/cb"
TTL = 3600


def s256(v):
    return base64.urlsafe_b64encode(hashlib.sha256(v.encode()).digest()).decode().rstrip("=")


def parameters(rng, w, cid, kind, pkce):
    """random valid request parameters"""
    p = {}
    p["redirect_uri"] = rng.choice([SHARED, w.redirect_uri(cid)])
    p["response_type"] = rng.choice(["code", "code", "code token"] + (["code id_token", "id_token token", "code id_token token"] if kind == "oidc" else []))
    if kind == "oidc":
        p["scope"] = rng.choice(["openid", "openid email", "openid profile address", "openid offline_access phone"])
        if "offline_access" in p["scope"]:
            p["prompt"] = "consent"
        elif rng.random() < 0.25:
            p["prompt"] = rng.choice(["login", "none", "consent", "login consent", "select_account"])
        if rng.random() < 0.35:
            p["claims"] = rng.choice([
                {"id_token": {"nickname": None}}, {"userinfo": {"email": {"essential": True}}},
                {"id_token": {"email": None, "given_name": {"essential": True}}, "userinfo": {"name": None}}])
        if rng.random() < 0.3:
            p["max_age"] = rng.choice([0, 1, 300, 86400])
        if rng.random() < 0.2:
            p["acr_values"] = rng.choice(["urn:x", "https://refeds.org/profile/sfa"])
    else:
        p["scope"] = rng.choice(["read", "read write", "write"])
        if rng.random() < 0.2:
            p["prompt"] = rng.choice(["login", "none"])
    if rng.random() < 0.3:
        p["response_mode"] = "form_post"
    if rng.random() < 0.3:
        p["login_hint"] = "tel:123"
    if rng.random() < 0.3:
        p["ui_locales"] = "sv en"
    if rng.random() < 0.3:
        p["x_extra"] = "a&b=c"
    p["state"] = rng.choice(["st", "s t", "s&t=u", "å", "\"<>'"]) + str(rng.randrange(10 ** 6))
    if pkce and rng.random() < 0.7:
        p["code_challenge"], p["code_challenge_method"] = s256("v" * 50), "S256"
    return p


def junk(rng, kind, p):
    """front channel parameters that must not matter (a valid request in themselves)"""
    f = {}
    for k, vals in (("state", ["front"]), ("nonce", ["front-nonce"]), ("login_hint", ["ziggy"]), ("x_extra", ["front"]), ("code_challenge", ["front" * 10]),
                    ("code_challenge_method", ["plain"]), ("response_mode", ["form_post", "fragment", "query"]),
                    ("prompt", ["none", "login", "consent"]), ("max_age", ["0", "5"]), ("resource", ["https://front.example"]),
                    ("claims", ['{"id_token": {"phone_number": null}, "userinfo": {"address": null}}'])):
        if rng.random() < 0.3:
            f[k] = rng.choice(vals)
    if rng.random() < 0.4:
        f["scope"] = rng.choice(["openid phone email address", "openid"]) if kind == "oidc" else rng.choice(["read write admin", "admin"])
    if rng.random() < 0.3:
        f["redirect_uri"] = rng.choice([SHARED, "https://evil.example.com/cb"])
    if rng.random() < 0.3:
        f["response_type"] = rng.choice(["code", "token", "code token"])
    return f


DROP = {"iat", "exp", "jti", "sid", "at_hash", "c_hash", "nonce", "auth_time"}


def run_case(rng, rep, i):
    kind = rng.choice(["oidc", "oidc", "oauth2"])
    pages = rng.random() < 0.2
    pkce = rng.random() < 0.4
    o = {"par": True, "token_authn": ["client_secret_post", "client_secret_basic", "client_secret_jwt", "private_key_jwt", "none"]}
    ttl = TTL
    if rng.random() < 0.4:
        ttl = rng.choice([1, 60, 600])
        o["par_kwargs"] = {"ttl": ttl}
    if rng.random() < 0.4:
        o["token_handler"] = "jwt"
    if pkce:
        o["add_on"] = {"pkce": {"function": "oidcop.oidc.add_on.pkce.add_pkce_support",
                                "kwargs": {"essential": False, "code_challenge_method": ["S256", "plain"]}}}
    if pages:
        o["authentication"] = authentication(USERS)
    w = World(kind, rep, keys=0, **o)
    for n, c in enumerate(CLIENTS):
        w.add_client(c, keys=n % 2, redirect_uris=[("https://%s.example.com/cb" % c, {}), (SHARED, {})])
    w.add_client("public", public=True, redirect_uris=[(SHARED, {})])
    rep.sig(kind, pages, pkce, ttl)
    nonces = [0]
    refs = []  # dict(uri, client, p, used, exp)
    seen = set()

    def nonce():
        nonces[0] += 1
        return "n-%d-%d" % (i, nonces[0])

    def encode(p):
        return {k: json.dumps(v) if isinstance(v, dict) else v for k, v in p.items() if v is not None}

    def push(cid, p, method, how="plain", alter=None):
        req = dict(encode(p), client_id=cid)
        if how == "object":
            kj = KeyJar()
            if rng.random() < 0.5:
                kj.add_symmetric("", w.secrets[cid], ["sig"])
                alg = "HS256"
            else:
                kj, alg = w.client_keys[cid], "ES256"
            body = dict(p, client_id=cid)
            jw = JWT(kj, iss=cid, sign_alg=alg, lifetime=300).pack(body, issuer_id="", aud=[ISSUER])
            req = {"request": jw, "client_id": cid, "response_type": p["response_type"]}
            if kind == "oidc":
                req["scope"] = p["scope"]
            rep.count("request-object")
        req, hi = w.with_auth(req, cid, method)
        if method in ("client_secret_jwt", "private_key_jwt"):
            ep = w.ep("pushed_authorization")
            req["client_assertion"] = w.assertion(cid, method, aud=[ep.full_path])
        if alter:
            req, hi = alter(req, hi)
        return w.do("pushed_authorization", urlencode(req), hi, label="push")

    def pushed(r, cid, p, how):
        if not rep.check(r.ok and str(r.data.get("request_uri", "")).startswith("urn:"), "push-served",
                         "a valid pushed request of %s was refused: %s" % (cid, r.brief()), parameters=p, how=how):
            return None
        uri = r.data["request_uri"]
        rep.check(uri not in seen, "unique", "request_uri given out twice", uri=uri)
        rep.check(r.data.get("expires_in") == ttl, "announced-lifetime", "expires_in %r, configured %s" % (r.data.get("expires_in"), ttl))
        seen.add(uri)
        ref = {"uri": uri, "client": cid, "p": p, "used": False, "exp": CLOCK.t + ttl, "how": how}
        refs.append(ref)
        return ref

    def use(ref_uri, cid, p, front=None, user="diana", cookies=None):
        f = {"client_id": cid, "response_type": p["response_type"] if rng.random() < 0.5 or "id_token" not in p["response_type"] else "code",
             "redirect_uri": p["redirect_uri"], "request_uri": ref_uri}
        if kind == "oidc":
            f["scope"] = "openid"
            f["nonce"] = "front-default"
        f.update(front or {})
        if not pages:
            w.set_user(user)
        return w.do("authorization", urlencode(f), {"cookie": cookies} if cookies else {}, label="use")

    def no_artefacts(r):
        return not any(k in r.data for k in ("code", "access_token", "id_token"))

    def shape(r, state):
        d = {"kind": r.kind, "to": (r.url or "").split("?")[0].split("#")[0], "mode": r.mode, "keys": sorted(k for k in r.data if k != "expires_in"),
             "state": r.data.get("state") == state if "state" in r.data else None, "scope": r.data.get("scope"), "error": r.data.get("error")}
        if r.kind == "exception":
            d["exc"] = type(r.exc).__name__
        return d

    def deep(r, cid, p, nn):
        """everything that can be obtained with the response"""
        out = {"shape": shape(r, p["state"])}
        if r.kind == "login":
            return out
        if "id_token" in r.data:
            c = peek(r.data["id_token"])
            out["idt"] = {k: v for k, v in c.items() if k not in DROP}
            out["idt-nonce"] = c.get("nonce") == nn
            out["sub"] = None
        at = r.data.get("access_token")
        if "code" in r.data:
            kw = {"code_verifier": "v" * 50} if pkce and "code_challenge" in p else {}
            if kw:
                bad = w.redeem(cid, r.data["code"], redirect_uri=p["redirect_uri"])
                out["no-verifier"] = bad.outcome()
            if kind == "oauth2":
                kw["issue_refresh"] = True
            t = w.redeem(cid, r.data["code"], redirect_uri=p["redirect_uri"], **kw)
            out["token"] = (t.ok, sorted(t.data), t.data.get("scope"))
            if "id_token" in t.data:
                c = peek(t.data["id_token"])
                out["t-idt"] = {k: v for k, v in c.items() if k not in DROP}
                out["t-nonce"] = c.get("nonce") == nn
            at = at or t.data.get("access_token")
        if at:
            iv = w.introspect(at, "Alpha")
            out["intro"] = {k: v for k, v in iv.data.items() if k not in ("iat", "exp", "jti")}
            if kind == "oidc":
                ui = w.userinfo(at)
                out["userinfo"] = ui.data
        for k in list(out):
            if isinstance(out[k], dict):
                out[k] = {a: b for a, b in out[k].items() if a not in ("sub",)}
        return out

    steps = rng.randrange(6, 14)
    if rng.random() < 0.04:
        # many at the same time
        rep.count("crowd")
        for _ in range(rng.randrange(8, 40)):
            cid, p = rng.choice(CLIENTS), parameters(rng, w, "alpha", kind, pkce)
            p["redirect_uri"] = SHARED
            if kind == "oidc":
                p["nonce"] = nonce()
            pushed(push(cid, p, "post"), cid, p, "plain")
    for _ in range(steps):
        act = rng.choice(["push", "push", "push", "use", "use", "use", "use", "again", "foreign", "foreign", "unknown", "expired", "badpush", "badpush",
                          "noauth", "noauth", "wait"])
        if act == "wait":
            CLOCK.advance(rng.choice([1, 30, 400]))
            continue
        cid = rng.choice(CLIENTS)
        method = rng.choice(["post", "basic", "client_secret_jwt", "private_key_jwt"])
        if act == "push":
            p = parameters(rng, w, cid, kind, pkce)
            if kind == "oidc":
                p["nonce"] = nonce()
            if refs and rng.random() < 0.15:
                # what was pushed before, once more
                x = rng.choice(refs[-3:])
                cid, p = x["client"], copy.deepcopy(x["p"])
                method = rng.choice(["post", "basic"])
                rep.count("pushed-again")
            how = "object" if rng.random() < 0.2 else "plain"
            r = push(cid, p, method, how)
            rep.sig("push", method, how, sorted(p), r.outcome())
            pushed(r, cid, p, how)
        elif act == "badpush":
            p = parameters(rng, w, cid, kind, pkce)
            if kind == "oidc":
                p["nonce"] = nonce()
            kinds = ["response_type", "redirect_uri", "unregistered type", "request_uri", "request_uri urn"]
            if kind == "oidc":
                kinds += ["openid", "nonce", "offline", "prompt", "claims", "redirect missing"]
            k = rng.choice(kinds)
            q = dict(p)
            if k == "response_type":
                q.pop("response_type")
            elif k == "redirect missing":
                q.pop("redirect_uri")
            elif k == "redirect_uri":
                q["redirect_uri"] = rng.choice(["https://evil.example.com/cb", SHARED + "/x", SHARED + "#f", SHARED + "?a=b"])
            elif k == "unregistered type":
                w.ctx.cdb[cid]["response_types"] = ["code"]
                q["response_type"] = "code token"
            elif k == "request_uri":
                q["request_uri"] = "https://client.example.com/req"
            elif k == "request_uri urn":
                live = [x for x in refs if not x["used"]]
                q["request_uri"] = rng.choice(live)["uri"] if live else "urn:uuid:4c7ab4c5-0ba5-4ad0-a3b5-111111111111"
            elif k == "openid":
                q["scope"] = "email"
            elif k == "nonce":
                q.pop("nonce")
                q["response_type"] = "code id_token"
            elif k == "offline":
                q["scope"] = "openid offline_access"
                q.pop("prompt", None)
            elif k == "prompt":
                q["prompt"] = "none login"
            elif k == "claims":
                q["claims"] = "{not json"
            before = set(w.ctx.par_db)
            r = push(cid, q, method)
            rep.sig("badpush", k, r.outcome())
            rep.check(not r.ok and "request_uri" not in r.data and set(w.ctx.par_db) == before, "push-needs-valid-request",
                      "a pushed request that is not valid (%s) was accepted: %s" % (k, r.brief()), parameters=q)
            if k == "unregistered type":
                from vlib.world import ALL_RT, ALL_RT_OAUTH2
                w.ctx.cdb[cid]["response_types"] = list(ALL_RT if kind == "oidc" else ALL_RT_OAUTH2)
        elif act == "noauth":
            p = parameters(rng, w, cid, kind, pkce)
            p["redirect_uri"] = SHARED
            if kind == "oidc":
                p["nonce"] = nonce()
            k = rng.choice(["none", "none", "wrong secret", "wrong basic", "secret of another", "assertion of another", "public", "altered assertion",
                            "object of another"])
            other = rng.choice([c for c in CLIENTS if c != cid])

            def alter(req, hi):
                for x in ("client_secret", "client_assertion", "client_assertion_type"):
                    req.pop(x, None)
                hi = {}
                jb = "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"
                if k == "wrong secret":
                    req["client_secret"] = w.secrets[cid][:-1]
                elif k == "wrong basic":
                    hi = {"headers": {"authorization": w.basic(cid, "wrong")}}
                elif k == "secret of another":
                    req["client_secret"] = w.secrets[other]
                elif k == "assertion of another":
                    req["client_assertion"] = w.assertion(cid, "client_secret_jwt", aud=[w.ep("pushed_authorization").full_path],
                                                          kj=_symm(w.secrets[other]))
                    req["client_assertion_type"] = jb
                elif k == "altered assertion":
                    a = w.assertion(cid, "client_secret_jwt", aud=[w.ep("pushed_authorization").full_path])
                    j = len(a) - 6
                    req["client_assertion"] = a[:j] + ("A" if a[j] != "A" else "B") + a[j + 1:]
                    req["client_assertion_type"] = jb
                elif k == "public":
                    req["client_id"] = "public"
                elif k == "object of another":
                    # authenticates as another client and pushes an object in the name of this one
                    body = dict(p, client_id=cid)
                    jw = JWT(w.client_keys[other], iss=other, sign_alg="ES256", lifetime=300).pack(body, issuer_id="", aud=[ISSUER])
                    req = {"request": jw, "client_id": other, "client_secret": w.secrets[other], "response_type": p["response_type"], "scope": p["scope"]}
                return req, hi

            before = set(w.ctx.par_db)
            r = push(cid, p, "post", alter=alter)
            rep.sig("noauth", k, r.outcome())
            rep.check(not r.ok and "request_uri" not in r.data and set(w.ctx.par_db) == before, "push-needs-authentication",
                      "a request was accepted without authentication of its client (%s): %s" % (k, r.brief()), parameters=p)
        elif act == "unknown":
            base = rng.choice(refs)["uri"] if refs and rng.random() < 0.6 else "urn:uuid:4c7ab4c5-0ba5-4ad0-a3b5-%012d" % rng.randrange(10 ** 12)
            if refs and base in seen:
                base = rng.choice([base + "0", base[:-1], base.upper(), base + "#x", base[:-4] + "beef" + "0", base.replace("-", "", 1), "urn:uuid:", base + " "])
            if base in seen:
                continue
            p = parameters(rng, w, cid, kind, False)
            r = use(base, cid, p)
            rep.sig("unknown", r.outcome())
            rep.check(no_artefacts(r) and r.kind in ("error", "exception") or "error" in r.data, "unknown-reference",
                      "a reference that was never given out was served: %s" % r.brief(), uri=base)
        elif refs:
            live = [x for x in refs if not x["used"] and x["exp"] > CLOCK.t]
            if act == "again":
                cand = [x for x in refs if x["used"]]
                if not cand:
                    continue
                x = rng.choice(cand)
                r = use(x["uri"], x["client"], x["p"])
                rep.sig("again", r.outcome())
                rep.check(no_artefacts(r) and r.kind in ("error", "exception"), "used-once", "a reference was served a second time: %s" % r.brief())
                continue
            if not live:
                continue
            x = rng.choice(live)
            p = x["p"]
            if act == "expired":
                CLOCK.set(x["exp"] + rng.choice([0, 1, 5000]))
                r = use(x["uri"], x["client"], p)
                rep.sig("expired", r.outcome())
                rep.check(no_artefacts(r) and r.kind in ("error", "exception"), "expired",
                          "a reference was served after the lifetime that was announced: %s" % r.brief(), ttl=ttl)
                x["used"] = True
                continue
            if act == "foreign":
                other = rng.choice([c for c in CLIENTS + ["public"] if c != x["client"]])
                r = use(x["uri"], other, dict(p, redirect_uri=SHARED))
                rep.sig("foreign", r.outcome())
                rep.check(no_artefacts(r) and r.kind in ("error", "exception"), "foreign-client",
                          "a reference pushed by %s was served to %s: %s" % (x["client"], other, r.brief()))
                continue
            # use by the client, with other parameters on the front channel; compared with the direct request
            f = junk(rng, kind, p) if rng.random() < 0.7 else {}
            if f:
                rep.count("with-junk-front")
            x["used"] = True
            cid = x["client"]
            user = rng.choice(sorted(USERS))
            fail = not pages and rng.random() < 0.15
            q = dict(p)
            if kind == "oidc":
                q["nonce"] = nonce()
            direct = dict(encode(q), client_id=cid)
            NSA = NoSuchAuthentication
            if not pages:
                w.set_user(user)
                w.authn_method().fail = NSA if fail else None
            a = use(x["uri"], cid, p, f, user)
            b = w.authorize(direct)
            if pages and a.kind == "login" and b.kind == "login":
                a = Browser(w, "A").submit(a, user)
                b = Browser(w, "B").submit(b, user)
                rep.count("login-pages")
            if not pages:
                w.authn_method().fail = None
            da, db = shape(a, p["state"]), shape(b, p["state"])
            rep.sig("use", sorted(f), x["how"], fail, a.outcome())
            ok = rep.check(da == db, "pushed-served-like-direct", "a pushed request was not served like the same request sent directly",
                           pushed=da, direct=db, parameters=p, front=f, how=x["how"], answer=a.brief())
            if not ok:
                continue
            xa = deep(a, cid, p, p.get("nonce"))
            xb = deep(b, cid, q, q.get("nonce"))
            rep.check(xa == xb, "pushed-served-like-direct", "what a pushed request gives differs from the same request sent directly",
                      pushed=xa, direct=xb, parameters=p, front=f, how=x["how"])
            if "intro" in xa or "idt" in xa:
                rep.count("deep-compared")


def _symm(secret):
    kj = KeyJar()
    kj.add_symmetric("", secret, ["sig"])
    return kj
