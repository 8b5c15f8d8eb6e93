"""C05: confidential endpoints serve only a client that proves who it is."""
import base64
import json

from cryptojwt.jwe.jwe import JWE
from cryptojwt.jwk.hmac import SYMKey
from cryptojwt.jws.jws import JWS
from cryptojwt.jwt import JWT
from cryptojwt.key_jar import KeyJar

from vlib.clock import CLOCK
from vlib.world import ISSUER, METHODS_ALL, World, flip, key_bundle, key_objs

CASES = {"quick": 2500, "thorough": 80000}
RULE = ("One case: a server whose token, introspection and pushed-authorization endpoints have random subsets of the client authentication "
        "methods, with clients of every kind (secret, keys, both, public, expiring secret, secret with reserved characters); a random "
        "sequence of requests each carrying a correct credential or one with a single fault. Non-trivial: at least one faulty "
        "credential was tried. Distinct: by the sequence of (endpoint, client kind, method, fault, outcome). Every twelfth case instead authenticates by the signed request "
        "object of a pushed request.")
MUST_OBSERVE = {"by-request-object": 60, "oracle:foreign-credential-refused": 200, "oracle:bad-credential-refused": 5000, "oracle:good-credential-served": 2000, "oracle:served-as-owner": 2000,
                "oracle:expired-secret-refused": 100, "oracle:replay-refused": 100, "oracle:disabled-method-refused": 500}

EPS = ["token", "introspection", "pushed_authorization"]
SECRETS = {"alpha": "alpha_secret_0123456789abcdefghijklmnopq", "alpha2": "b:%s/e+c r=&t%3A_0123456789abcdefghijklm",
           "Alpha": "alpha_secret_0123456789abcdefghijklmnopqX", "delta": "d" * 40, "omega": "OMEGA_0123456789abcdefghijklmnopqrst"}


def pushed_as(w, uri, c):
    """Whether the pushed request is one that client c can bring to the authorization endpoint."""
    p, r = w.parse("authorization", {"client_id": c, "request_uri": uri, "response_type": "code", "scope": "openid", "redirect_uri": w.redirect_uri(c)}, {})
    return r is None and "error" not in p and p.get("client_id") == c


# client -> (has secret, key number)
KIND = {"alpha": (True, 0), "alpha2": (True, None), "Alpha": (True, 1), "delta": (True, 0), "keyed": (False, 1), "public": (False, None),
        "omega": (True, 2)}


def sym(secret):
    kj = KeyJar()
    kj.add_symmetric("", secret, ["sig"])
    return kj


def by_request_object(rng, rep):
    """clients that authenticate at the pushed authorization endpoint with the signature of their request object"""
    on = rng.random() < 0.8
    methods = rng.sample(METHODS_ALL, rng.randrange(0 if on else 1, 3)) + (["request_param"] if on else [])
    rng.shuffle(methods)
    w = World("oidc", rep, par=True, par_kwargs={"client_authn_method": methods}, token_authn=methods)
    kinds = {"alpha": 0, "alpha2": 1, "Alpha": 2, "plain": None}
    for c, k in kinds.items():
        w.add_client(c, keys=k)
    delta = rng.random() < 0.3
    if delta:
        w.ctx.cdb["alpha"]["client_secret_expires_at"] = CLOCK.t + 150
    exp_at = CLOCK.t + 150
    me = w.ep("pushed_authorization").full_path
    used = []
    jtis = {}
    for n in range(rng.randrange(4, 10)):
        c = rng.choice(["alpha", "alpha", "alpha2", "Alpha"])
        if rng.random() < 0.2:
            CLOCK.advance(rng.choice([1, 70, 100]))
        fault = rng.choice([None, None, None, "other-key", "iss-other", "iss-missing", "iss-unknown", "none-alg", "nosig", "altered", "expired", "replay", "body-other", "hmac-other", "garbage"])
        alg = rng.choice(["RS256", "ES256", "PS256"])
        iss, kno, body = c, kinds[c], c
        other = rng.choice([x for x in ("alpha", "alpha2", "Alpha") if x != c])
        life, iat = rng.choice([100, 300]), CLOCK.t
        if fault == "other-key":
            kno = rng.choice([kinds[other], 3])
        elif fault == "iss-other":
            iss = other
        elif fault == "iss-unknown":
            iss = rng.choice(["nobody", "plain", "alph", ISSUER + "/x"])
        elif fault == "expired":
            life = -rng.choice([30, 100])
        elif fault == "body-other":
            body = rng.choice([other, "plain"])
        pay = dict(w.areq(c), iss=iss, aud=[me], iat=iat, exp=iat + life)
        pay = {k: (" ".join(v) if isinstance(v, list) and k != "aud" else v) for k, v in pay.items()}
        one_time = rng.random() < 0.7
        if one_time:
            jtis[c] = jtis.get(c, 0) + 1
            pay["jti"] = "r%d" % jtis[c]
        if fault == "iss-missing":
            del pay["iss"]
        key = [x for x in key_objs("client", kno) if x.kty == ("EC" if alg[0] == "E" else "RSA") and x.use == "sig"][0]
        if fault == "hmac-other":
            alg, key = "HS256", SYMKey(key=w.secrets["plain"])
        if fault in ("none-alg", "nosig"):
            b = lambda d: base64.urlsafe_b64encode(json.dumps(d).encode()).decode().rstrip("=")
            a = b({"alg": rng.choice(["none", "None"]) if fault == "none-alg" else alg}) + "." + b(pay) + "."
        elif fault == "garbage":
            a = rng.choice(["x", "a.b.c", "e30.e30.", w.secrets[c]])
        else:
            jws = JWS(json.dumps(pay), alg=alg)
            if getattr(key, "kid", ""):
                jws["kid"] = key.kid
            a = jws.sign_compact([key])
        if fault == "altered":
            h, p, sg = a.split(".")
            p = base64.urlsafe_b64encode(json.dumps(dict(pay, state="other", jti="other")).encode()).decode().rstrip("=")
            a = ".".join((h, p, sg))
        if fault == "replay":
            prev = [u for u in used if u[0] == c and u[2] > CLOCK.t]
            if not prev:
                continue
            a = rng.choice(prev)[1]
        ep = rng.choice(["pushed_authorization", "pushed_authorization", "token"])
        if ep == "token":
            code = w.login(body).data["code"]
            req = dict(w.code_req(body, code), request=a)
            req.pop("client_id", None)
        else:
            req = {"request": a, "response_type": "code", "redirect_uri": w.redirect_uri(body), "scope": "openid", "state": "s", "nonce": "n" * 8}
        if rng.random() < 0.7 or body != c:
            req["client_id"] = body
        p, r = w.parse(ep, req, {})
        if r is None:
            r = w.process(ep, p, {})
        ok = ("request_uri" if ep == "pushed_authorization" else "access_token") in r.data
        rep.sig("request_param", ep, fault, on, tuple(methods), r.outcome())
        expired = delta and c == "alpha" and CLOCK.t > exp_at
        if ok and ep == "pushed_authorization":
            rep.check(pushed_as(w, r.data["request_uri"], c), "served-as-owner", "request object of %s not pushed as a request of theirs" % c)
        if not on:
            rep.check(not ok, "disabled-method-refused", "a request object authenticated %s though only %s are enabled" % (c, methods))
        elif fault == "body-other":
            # a push is that of the request object's client or none, see served-as-owner
            if ep == "token":
                rep.check(not ok, "foreign-credential-refused", "a request object of %s bought tokens with the code of %s" % (c, body))
        elif fault is not None:
            rep.check(not ok, "replay-refused" if fault == "replay" else "bad-credential-refused", "request object with fault %s authenticated %s" % (fault, c), request=req)
        elif expired:
            rep.check(not ok, "expired-secret-refused", "client whose registration has expired served")
        elif delta and c == "alpha" and CLOCK.t == exp_at:
            pass
        else:
            if rep.check(ok, "good-credential-served", "%s refused with a correct request object: %s" % (c, r.brief())):
                rep.count("by-request-object")
                if one_time:
                    used.append((c, a, CLOCK.t + life - 1))


def run_case(rng, rep, i):
    if i % 12 == 11:
        return by_request_object(rng, rep)
    kind = rng.choice(["oidc", "oidc", "oauth2"])
    enabled = {e: rng.sample(METHODS_ALL, rng.randrange(1, 5)) for e in EPS}
    with_none = rng.random() < 0.1
    if with_none:
        for e in EPS:
            enabled[e] = enabled[e] + ["none"]
    w = World(kind, rep, par=True, token_authn=enabled["token"],
              introspection_kwargs={"client_authn_method": enabled["introspection"]},
              par_kwargs={"client_authn_method": enabled["pushed_authorization"]})
    exp_at = CLOCK.t + 500
    for c, (sec, k) in KIND.items():
        a = {}
        if sec:
            a["client_secret"] = SECRETS[c]
        if c == "delta":
            a["client_secret_expires_at"] = exp_at
        if c == "omega":
            a["client_secret_expires_at"] = 0
        w.add_client(c, keys=k, public=not sec, **a)
    rep.sig(kind, tuple(sorted((e, tuple(sorted(m))) for e, m in enabled.items())))
    eps = {e: w.ep(e).full_path for e in EPS}
    nontrivial = False
    used = []
    jtis = {}

    def mk_assertion(c, method, ep, fault):
        """an assertion for client c with one fault"""
        iss, sub, aud, alg, life, iat = c, c, [eps[ep]], None, 300, CLOCK.t
        sec, k = KIND[c]
        if method == "client_secret_jwt":
            key, alg = SYMKey(key=SECRETS.get(c, "z" * 40)), rng.choice(["HS256", "HS256", "HS384", "HS512"])
        else:
            alg = rng.choice(["ES256", "RS256", "PS256"])
            key = [x for x in key_objs("client", k if k is not None else 3) if x.kty == ("EC" if alg[0] == "E" else "RSA") and x.use == "sig"][0]
        other = rng.choice([x for x in KIND if x != c])
        # no one's jti is used twice, but two clients' may well be the same, and that of an assertion
        # for someone else is still to be used
        jtis.setdefault(c, 1)
        extra = {"jti": "j%d" % jtis[c]}
        if fault not in ("aud-other", "aud-missing", "sub-other"):
            jtis[c] += 1
        hdr = {}
        if fault == "other-key":
            # signed with a key that is not this client's
            if method == "client_secret_jwt":
                key = SYMKey(key=SECRETS[rng.choice([x for x in SECRETS if SECRETS[x] != SECRETS.get(c)])])
            else:
                n = 3 if KIND[c][1] is not None else 4
                key = [x for x in key_objs("client", n) if x.kty == key.kty and x.use == "sig"][0]
        elif fault == "iss-other":
            iss = other
            if method == "private_key_jwt" and KIND[other][1] == KIND[c][1] or SECRETS.get(other) == SECRETS.get(c):
                iss = "alpha2" if c != "alpha2" else "public"
            sub = iss
        elif fault == "sub-other":
            sub = other
        elif fault == "aud-other":
            aud = rng.choice([["https://other.example.com/token"], [eps[ep] + "x"], [eps[ep][:-1]], [], [ISSUER + ".evil"], ["token"]])
        elif fault == "aud-missing":
            aud = None
        elif fault == "expired":
            life = -rng.choice([17, 30, 100, 10000])  # cryptojwt tolerates 15 s of skew
        elif fault == "future":
            iat = CLOCK.t + 100
        elif fault == "none-alg":
            alg = "none"
        elif fault == "pub-as-hmac":
            alg = "HS256"
            k2 = [x for x in key_objs("client", k if k is not None else 3) if x.kty == "RSA"][0]
            key = SYMKey(key=json.dumps(k2.serialize()))
        elif fault == "jwk-header":
            n = 3 if KIND[c][1] is not None else 4
            key = [x for x in key_objs("client", n) if x.kty == "EC" and x.use == "sig"][0]
            alg = "ES256"
            hdr = {"jwk": key.serialize()}
        pay = {"iss": iss, "sub": sub, "iat": iat, "exp": iat + life}
        if aud is not None:
            pay["aud"] = aud
        pay.update(extra)
        if fault == "jwe":
            enc = [x for x in w.ctx.keyjar.get_issuer_keys("") if x.use == "enc" and x.kty == "RSA"]
            return JWE(json.dumps(pay), alg="RSA-OAEP", enc="A128GCM").encrypt(keys=enc)
        if alg == "none":
            b = lambda d: base64.urlsafe_b64encode(json.dumps(d).encode()).decode().rstrip("=")
            a = b({"alg": rng.choice(["none", "None", "NONE"])}) + "." + b(pay) + "."
        else:
            jws = JWS(json.dumps(pay), alg=alg, **hdr)
            if getattr(key, "kid", ""):
                jws["kid"] = key.kid
            a = jws.sign_compact([key])
        if fault == "altered":
            h, p, sg = a.split(".")
            part = rng.choice(["h", "p", "s"])
            if part == "s":
                sg = flip(rng, sg[:-1]) + sg[-1]
            elif part == "p":
                p2 = dict(pay, jti="other")
                p = base64.urlsafe_b64encode(json.dumps(p2).encode()).decode().rstrip("=")
            else:
                h = flip(rng, h[:-1]) + h[-1]
            a = ".".join((h, p, sg))
        elif fault == "nosig":
            a = a.rsplit(".", 1)[0] + "."
        elif fault == "cut":
            a = a[:-rng.randrange(2, 20)]
        return a

    def request(ep, c):
        if ep == "token":
            r = w.login(c, user=rng.choice(["diana", "ziggy"]))
            if not r.ok:
                return None
            return {"grant_type": "authorization_code", "code": r.data["code"], "redirect_uri": w.redirect_uri(c), "client_id": c}
        if ep == "introspection":
            return {"token": "whatever"}
        return w.areq(c)

    def served(ep, r):
        if ep == "token":
            return r.ok and "access_token" in r.data
        if ep == "introspection":
            return r.ok and "active" in r.data
        return "request_uri" in r.data

    def owner_stored(ep, r, c):
        return ep != "pushed_authorization" or pushed_as(w, r.data["request_uri"], c)

    JF = ["other-key", "iss-other", "sub-other", "aud-other", "aud-missing", "expired", "future", "none-alg", "pub-as-hmac", "jwk-header",
          "jwe", "altered", "nosig", "cut", "replay", "wrong-endpoint", "body-other", "body-other"]
    SF = ["flip", "prefix", "ext", "case", "empty", "foreign", "missing", "space", "wrong-id", "raw-basic", "no-scheme", "none-str", "body-other"]

    for n in range(rng.randrange(4, 12)):
        ep = rng.choice(EPS)
        c = rng.choice(list(KIND) + ["delta"] * 3)
        sec, k = KIND[c]
        method = rng.choice(METHODS_ALL)
        if rng.random() < 0.25:
            CLOCK.advance(rng.choice([1, 100, 251, 400]))
        base = request(ep, c)
        if base is None:
            rep.check(False, "login", "authorization of %s failed" % c)
            return
        fault = None
        if rng.random() < 0.6:
            fault = rng.choice(SF if method.endswith(("basic", "post")) else JF)
        if used and rng.random() < 0.15:
            c, _, method, ep, _, _ = rng.choice(used)
            sec, k = KIND[c]
            fault, base = "replay", request(ep, c)
            if method.endswith("_jwt") and rng.random() < 0.12:
                # a lot happens before it is used again
                rep.count("crowded-replay")
                for _ in range(rng.randrange(15, 60)):
                    w.parse(ep, {"token": "whatever", "client_assertion": mk_assertion(c, method, ep, None),
                                 "client_assertion_type": "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"}, {})
        if fault == "body-other":
            # everything but the credential is another client's
            if method == "client_secret_post":
                continue
            body = rng.choice([x for x in KIND if x != c and x != "delta"])
            base = request(ep, body)
            base["client_id"] = body
        usable = (sec if method.startswith("client_secret") else k is not None)
        req, hi = dict(base), {}
        owner = c
        if method in ("client_secret_basic", "client_secret_post"):
            s = SECRETS.get(c, "")
            cid = c
            if fault == "flip":
                s = flip(rng, s) if s else "x"
            elif fault == "prefix":
                s = s[:-1] if s else "x"
            elif fault == "ext":
                s = s + "X" if c != "alpha" else s + "Y"
            elif fault == "case":
                s = s.swapcase() if s.swapcase() != s else s + "1"
            elif fault == "empty":
                s = ""
            elif fault == "foreign":
                s = SECRETS[rng.choice([x for x in SECRETS if x != c])]
            elif fault == "space":
                s = rng.choice([" " + s, s + " ", s + "\n", "\t" + s])
            elif fault == "none-str":
                s = rng.choice(["None", "null", "undefined", "0"])
            elif fault == "wrong-id":
                cid = rng.choice([c.upper(), c + " ", "nobody", "", "*", rng.choice([x for x in KIND if x != c])])
            if method == "client_secret_post":
                req["client_id"] = cid
                req["client_secret"] = s
                if fault == "missing":
                    del req["client_secret"]
                elif fault in ("raw-basic", "no-scheme"):
                    req["client_secret"] = w.basic(c, s)
            else:
                a = w.basic(cid, s)
                if fault == "missing":
                    a = "Basic " + base64.b64encode(cid.encode()).decode()
                elif fault == "raw-basic":
                    a = "Basic %s:%s" % (cid, s)
                elif fault == "no-scheme":
                    a = rng.choice([a[6:], "basic" + a[5:] + "x", "Bearer " + a[6:], "Digest " + a[6:]])
                hi = {"headers": {"authorization": a}}
        else:
            if fault == "replay":
                prev = [u for u in used if u[0] == c and u[2] == method and ep == u[3] and u[5] >= CLOCK.t]
                if not prev:
                    continue
                a = rng.choice(prev)[1]
            elif fault == "wrong-endpoint":
                a = mk_assertion(c, method, rng.choice([e for e in EPS if e != ep]), None)
            else:
                a = mk_assertion(c, method, ep, fault)
            req["client_assertion"] = a
            req["client_assertion_type"] = "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"
            if fault != "body-other" and rng.random() < 0.5:
                req.pop("client_id", None) if ep != "pushed_authorization" else None
        p, r = w.parse(ep, req, hi)
        if r is None:
            pid = p.get("client_id")
            r = w.process(ep, p, hi)
        else:
            pid = None
        w.log("%s/%s/%s" % (ep, method, fault), req, r)
        ok = served(ep, r)
        expired = c == "delta" and CLOCK.t > exp_at
        edge = c == "delta" and CLOCK.t == exp_at
        rep.sig(ep, c, method, fault, method in enabled[ep], expired, r.outcome())
        if with_none:
            if expired and pid == c:
                rep.check(not ok, "expired-secret-refused", "client with expired secret served at %s without authentication" % ep)
            continue
        if ok:
            rep.check(pid == owner, "served-as-owner", "%s credential of %s served as %s" % (method, owner, pid))
        info = dict(enabled=enabled[ep], answer=r.brief(), request={x: str(v)[:200] for x, v in req.items()}, http=hi)
        if fault == "body-other":
            nontrivial = True
            rep.check(not ok or (ep != "token" and pid == owner and owner_stored(ep, r, owner)), "foreign-credential-refused",
                      "%s served a request of %s authenticated as %s by %s (as %s)" % (ep, body, c, method, pid), **info)
        elif fault is not None:
            nontrivial = True
            rep.check(not ok, "replay-refused" if fault == "replay" else "bad-credential-refused",
                      "%s served %s with %s fault %s" % (ep, c, method, fault), **info)
        elif not usable:
            rep.check(not ok, "bad-credential-refused", "%s served %s that has no credential for %s" % (ep, c, method), **info)
        elif expired:
            rep.check(not ok, "expired-secret-refused", "%s served %s whose secret has expired" % (ep, c), **info)
        elif edge:
            pass
        elif method not in enabled[ep]:
            rep.check(not ok, "disabled-method-refused", "%s served %s by %s which is not enabled" % (ep, c, method), **info)
        else:
            rep.check(ok, "good-credential-served", "%s refused %s with a correct %s: %s" % (ep, c, method, r.brief()), **info)
            if "client_assertion" in req:
                used.append((c, req["client_assertion"], method, ep, None, CLOCK.t + 300))
    if not nontrivial:
        rep.case_sig = []


CLIENT_KEYS = 5
