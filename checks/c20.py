"""C20: DPoP-bound tokens name the key that was proven."""
import base64
import hashlib
import json

from cryptojwt.jwk.ec import new_ec_key
from cryptojwt.jwk.hmac import SYMKey
from cryptojwt.jwk.rsa import new_rsa_key
from cryptojwt.jws.jws import JWS

from vlib.clock import CLOCK
from vlib.world import USERS, World, peek

CASES = {"quick": 450, "thorough": 16000}
RULE = ("One case: a server (OIDC or OAuth2, JWT or opaque access tokens, random allowed algorithms) with the DPoP add-on and several sessions; a random "
        "sequence of code and refresh requests with no proof, a right proof of one of several keys, or a proof with one fault (altered, signed by another key, "
        "unsigned, symmetric, wrong type, missing member, wrong method or URL, contradictory members).  The binding in each token is compared with an "
        "independent thumbprint computation.  Distinct: by configuration and sequence of proofs and outcomes.")
MUST_OBSERVE = {"refresh-again": 100, "front-channel-again": 100, "oracle:bound-to-proven-key": 400, "oracle:faulty-proof-refused": 700, "oracle:unbound-without-proof": 300, "oracle:right-proof-served": 500,
                "oracle:still-usable": 60, "oracle:introspection-type": 1000, "refresh-other-key": 50, "contradictory": 60}
_KEYS = {}


def keys():
    if not _KEYS:
        for n in range(3):
            _KEYS["P-256", n] = new_ec_key("P-256")
            _KEYS["P-384", n] = new_ec_key("P-384")
            _KEYS["RSA", n] = new_rsa_key()
    return _KEYS


ALG_KEY = {"ES256": "P-256", "ES384": "P-384", "RS256": "RSA", "PS256": "RSA", "RS512": "RSA"}


def thumb(jwk):
    m = {"EC": ("crv", "kty", "x", "y"), "RSA": ("e", "kty", "n"), "oct": ("k", "kty")}[jwk["kty"]]
    s = json.dumps({k: jwk[k] for k in sorted(m)}, separators=(",", ":"))
    return b64(hashlib.sha256(s.encode()).digest())


def b64(b):
    return base64.urlsafe_b64encode(b).decode().rstrip("=")


def pub(key):
    return {k: v for k, v in key.serialize(private=False).items() if k in ("kty", "crv", "x", "y", "n", "e")}


def sign(key, alg, header, body):
    key.kid = ""
    hdr = {k: v for k, v in header.items() if k != "alg"}
    return JWS(json.dumps(body), alg=alg).sign_compact(keys=[key], **hdr)


def raw(header, body, sig=b""):
    return "%s.%s.%s" % (b64(json.dumps(header).encode()), b64(json.dumps(body).encode()), b64(sig))


FAULTS = ["typ", "typ", "typ missing", "alg none", "HS256 oct", "HS256 public key", "alg not allowed", "altered signature", "altered body", "altered header", "other key",
          "other key same type", "jwk missing", "jwk in body", "no jti", "no htm", "no htu", "no iat", "htm", "htm", "htu", "htu", "garbage", "truncated", "kid",
          "no signature", "nested"]


def run_case(rng, rep, i):
    K = keys()
    kind = rng.choice(["oidc", "oidc", "oauth2"])
    allowed = rng.choice([None, ["ES256"], ["ES256", "RS256"], ["ES256", "ES384", "PS256"], ["RS512", "RS256", "ES256", "ES384", "PS256"]])
    o = {"token_handler": rng.choice(["jwt", "jwt", "default"]), "refresh_handler": rng.choice(["jwt", "default"]),
         "code_handler": rng.choice(["default", "jwt"])}
    o["add_on"] = {"dpop": {"function": "oidcop.oauth2.add_on.dpop.add_support",
                            "kwargs": {"dpop_signing_alg_values_supported": allowed} if allowed else {}}}
    o["token_authn"] = ["client_secret_basic", "client_secret_post", "none"]
    w = World(kind, rep, keys=0, **o)
    allowed = allowed or ["RS256"]
    for c in ("alpha", "alpha2"):
        w.add_client(c, keys=0)
    w.add_client("public", public=True)
    url = w.ep("token").full_path
    rep.sig(kind, allowed, o["token_handler"])
    n = [0]

    def proof(fault=None):
        """(header value, key it proves)"""
        n[0] += 1
        alg = rng.choice(allowed)
        key = K[ALG_KEY[alg], rng.randrange(3)]
        other = K[ALG_KEY[alg], (list(K.values()).index(key) + 3) // 3 % 3]
        if other is key:
            other = [K[ALG_KEY[alg], j] for j in range(3) if K[ALG_KEY[alg], j] is not key][0]
        h = {"typ": "dpop+jwt", "alg": alg, "jwk": pub(key)}
        b = {"jti": "j%d-%d" % (i, n[0]), "htm": "POST", "htu": url, "iat": CLOCK.t}
        if fault is None:
            if rng.random() < 0.2:
                h["x5t"] = "whatever"
                b["extra"] = 1
            return sign(key, alg, h, b), key
        if fault == "typ":
            h["typ"] = rng.choice(["JWT", "dpop", "at+jwt", "dpop+jwts", "DPOP"])
        elif fault == "typ missing":
            del h["typ"]
            if rng.random() < 0.5:
                b["typ"] = "dpop+jwt"
        elif fault == "alg none":
            h["alg"] = rng.choice(["none", "None", "NONE"])
            return raw(h, b, rng.choice([b"", b"x"])), key
        elif fault == "HS256 oct":
            sk = SYMKey(key="A" * 32)
            h["jwk"] = {"kty": "oct", "k": b64(b"A" * 32)}
            return sign(sk, "HS256", h, b), key
        elif fault == "HS256 public key":
            sk = SYMKey(key=json.dumps(pub(key)))
            return sign(sk, "HS256", h, b), key
        elif fault == "alg not allowed":
            bad = [a for a in ALG_KEY if a not in allowed]
            if not bad:
                h["typ"] = "JWT"
            else:
                alg = rng.choice(bad)
                key = K[ALG_KEY[alg], 0]
                h["jwk"] = pub(key)
        elif fault.startswith("altered"):
            p = sign(key, alg, h, b).split(".")
            j = {"altered header": 0, "altered body": 1, "altered signature": 2}[fault]
            if j == 1:
                p[1] = b64(json.dumps(dict(b, iat=b["iat"] + 1)).encode())
            elif j == 0:
                p[0] = b64(json.dumps(dict(h, jwk=pub(other))).encode())
            else:
                m = rng.randrange(len(p[2]) - 1)
                p[2] = p[2][:m] + ("A" if p[2][m] != "A" else "B") + p[2][m + 1:]
            return ".".join(p), key
        elif fault == "other key":
            # the header names a key, another signs
            return sign(other, alg, h, b), key
        elif fault == "other key same type":
            h["kid"] = "x"
            return sign(other, alg, h, b), key
        elif fault == "jwk missing":
            del h["jwk"]
        elif fault == "jwk in body":
            b["jwk"] = h.pop("jwk")
        elif fault in ("no jti", "no htm", "no htu", "no iat"):
            v = b.pop(fault[3:])
            if rng.random() < 0.4:
                h[fault[3:]] = v
        elif fault == "htm":
            b["htm"] = rng.choice(["GET", "post", "PUT", "", " POST", "POSTS"])
        elif fault == "htu":
            b["htu"] = rng.choice([url + "/", url[:-1], url.replace("https", "http"), "https://evil.example.com/token", w.ep("introspection").full_path, url + "?a=b",
                                   url + "#x", "", url.upper(), "token"])
        elif fault == "garbage":
            return rng.choice(["garbage", "a.b.c", "..", "eyJ.eyJ.x", "0", "null", "Bearer x", raw({}, {})]), key
        elif fault == "truncated":
            p = sign(key, alg, h, b)
            return p[: rng.randrange(1, len(p) - 4)], key
        elif fault == "no signature":
            p = sign(key, alg, h, b).split(".")
            return p[0] + "." + p[1] + ".", key
        elif fault == "nested":
            return sign(key, alg, h, {"request": sign(key, alg, h, b)}), key
        elif fault == "kid":
            h["jwk"] = dict(pub(other), kid="k1")
            h["kid"] = "k1"
            return sign(key, alg, h, b), key
        return sign(key, alg, h, b), key

    def contradictory():
        """signed by the key of the header, but with members of the header repeated in the body"""
        n[0] += 1
        alg = rng.choice(allowed)
        key = K[ALG_KEY[alg], 0]
        h = {"typ": "dpop+jwt", "alg": alg, "jwk": pub(key)}
        b = {"jti": "j%d-%d" % (i, n[0]), "htm": "POST", "htu": url, "iat": CLOCK.t}
        k = rng.choice(["jwk", "jwk", "alg", "typ", "jkt"])
        if k == "jwk":
            b["jwk"] = pub(K[ALG_KEY[alg], 1])
        elif k == "alg":
            b["alg"] = "none"
        elif k == "typ":
            b["typ"] = "JWT"
        else:
            b["dpop_jkt"] = b["cnf"] = b["jkt"] = "somebody"
        return sign(key, alg, h, b), key

    def ask(s, what, hdr, extra=None):
        """one token request; hdr None: no DPoP header at all"""
        cid = s["client"]
        method = "none" if cid == "public" else rng.choice(["post", "basic"])
        if what == "code":
            req = w.code_req(cid, s["code"])
        else:
            req = {"grant_type": "refresh_token", "refresh_token": s["rt"], "client_id": cid}
        req.update(extra or {})
        req, hi = w.with_auth(req, cid, method)
        if hdr is not None:
            hi.setdefault("headers", {})["dpop"] = hdr
        elif rng.random() < 0.6:
            hi.setdefault("headers", {})["accept"] = "*/*"
        hi["url"], hi["method"] = url, "POST"
        kw = {"issue_refresh": True} if kind == "oauth2" else {}
        return w.do("token", req, hi, label="token:%s" % what, **kw)

    def binding(r, s):
        """(thumbprint or None, known?)"""
        at = r.data["access_token"]
        jkt = None
        known = False
        if at.count(".") == 2:
            known = True
            jkt = (peek(at).get("cnf") or {}).get("jkt")
        rec = w.sm.find_token(w.sm.get_session_info_by_token(at)["session_id"], at)
        return jkt, known, rec.token_type

    def judge(r, key, s):
        i = w.introspect(r.data["access_token"], "alpha").data
        if i.get("active"):
            rep.check(i.get("token_type", r.data["token_type"]).lower() == r.data["token_type"].lower(), "introspection-type",
                      "a token given out as %s is a %s token by introspection" % (r.data["token_type"], i.get("token_type")))
        if key is None:
            jkt, known, tt = binding(r, s)
            return rep.check(jkt is None and r.data.get("token_type") == "Bearer" and tt.lower() == "bearer", "unbound-without-proof",
                             "a request without proof gave token_type %r (%r), bound to %r" % (r.data.get("token_type"), tt, jkt))
        jkt, known, tt = binding(r, s)
        want = thumb(pub(key))
        return rep.check((jkt == want or not known) and r.data.get("token_type") == "DPoP" and tt == "DPoP", "bound-to-proven-key",
                         "a proof with key %s gave token_type %r (%r), bound to %r" % (want, r.data.get("token_type"), tt, jkt))

    def took(r, s):
        # the one used before works as well
        if r.data.get("refresh_token") and (s["rt"] is None or rng.random() < 0.6):
            s["rt"] = r.data["refresh_token"]
        elif s["rt"] is not None:
            rep.count("refresh-again")

    sessions = []
    for _ in range(rng.randrange(2, 5)):
        cid = rng.choice(["alpha", "alpha2", "public"])
        kw = {"scope": "openid offline_access", "prompt": "consent"} if kind == "oidc" else {}
        user = rng.choice(sorted(USERS))
        front = rng.random() < 0.4
        if front:
            kw = {"scope": "openid"} if kind == "oidc" else {}
        req = w.areq(cid, response_type="code token" if front else "code", **kw)
        r = w.authorize(req, user=user)
        if not rep.check(r.kind == "redirect" and "code" in r.data, "authorized", "authorization refused: %s" % r.brief()):
            return
        sessions.append({"client": cid, "code": r.data["code"], "rt": None, "last": None, "born": CLOCK.t, "user": user, "req": req, "cookies": r.cookies})
        if front:
            judge(r, None, sessions[-1])
    for _ in range(rng.randrange(4, 12)):
        s = rng.choice(sessions)
        if rng.random() < 0.2:
            CLOCK.advance(rng.choice([1, 20, 100]))
        if "token" in s["req"]["response_type"] and rng.random() < 0.3 and CLOCK.t - s["born"] < 290:
            # the same request once more, by single sign-on
            r = w.authorize(dict(s["req"]), user=s["user"], cookies=s["cookies"])
            if rep.check(r.kind == "redirect" and "access_token" in r.data, "authorized", "authorization refused: %s" % r.brief()):
                rep.count("front-channel-again")
                judge(r, None, s)
                if s["code"] is None:
                    s["code"], s["born"] = r.data["code"], CLOCK.t
            continue
        what = "code" if s["code"] else "refresh"
        if what == "refresh" and not s["rt"] or what == "code" and CLOCK.t - s["born"] > 290:
            continue
        mode = rng.choice(["right", "right", "none", "fault", "fault", "fault", "contradict"])
        extra = {"dpop_jkt": rng.choice([thumb(pub(K["P-256", 2])), "somebody"])} if rng.random() < 0.25 else {}
        if mode == "fault":
            f = rng.choice(FAULTS)
            hdr, key = proof(f)
            r = ask(s, what, hdr, extra)
            rep.sig(what, "fault", f, r.outcome())
            rep.check(not r.ok and not any(k in r.data for k in ("access_token", "refresh_token", "id_token")), "faulty-proof-refused",
                      "a proof with fault %r was served: %s" % (f, r.brief()), proof=hdr[:400])
            if r.ok:
                s["code"] = None
                took(r, s)
                continue
            if rng.random() < 0.25:
                hdr, key = proof()
                r = ask(s, what, hdr)
                if rep.check(r.ok and "access_token" in r.data, "still-usable", "after a refused proof the right one is refused: %s" % r.brief()):
                    judge(r, key, s)
                    s["code"] = None
                    took(r, s)
            continue
        if mode == "contradict":
            hdr, key = contradictory()
            rep.count("contradictory")
            r = ask(s, what, hdr, extra)
            rep.sig(what, "contradict", r.outcome())
            if r.ok:
                judge(r, key, s)
                s["code"] = None
                took(r, s)
            continue
        hdr, key = proof() if mode == "right" else (rng.choice([None, None, ""]), None)
        r = ask(s, what, hdr, extra)
        rep.sig(what, mode, bool(extra), key is not None and s["last"] is key, r.outcome())
        if not rep.check(r.ok and "access_token" in r.data, "right-proof-served", "a %s request with %s proof was refused: %s" % (what, mode, r.brief())):
            s["code"] = None
            continue
        if what == "refresh" and s["last"] is not None and key is not s["last"]:
            rep.count("refresh-other-key")
        judge(r, key, s)
        s["last"] = key
        s["code"] = None
        took(r, s)
