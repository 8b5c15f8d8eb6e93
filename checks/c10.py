"""C10: forged, altered or misplaced tokens are never honoured."""
import base64
import json

from cryptojwt.jwk.hmac import SYMKey
from cryptojwt.jws.jws import JWS

from vlib.clock import CLOCK
from vlib.story import AC, AT, IT, RT, Story
from vlib.world import ISSUER, World, flip, key_objs

CASES = {"quick": 900, "thorough": 30000}
RULE = ("One case: sessions of several users and clients on one server and on a second server (other keys and passwords, same issuer), then "
        "strings made from genuine tokens (altered characters, truncated, extended, blanks, re-signed by the client, a foreign or a symmetric key, "
        "alg none, payload of one under the signature of another, tokens of the other server, random) presented at userinfo, introspection and the "
        "token endpoint in every grant type, and genuine tokens in every wrong place; none is honoured, nothing is issued and every genuine token "
        "still works where it belongs. Distinct: by (handlers, kind of forgery, class, place, outcome).")
MUST_OBSERVE = {"oracle:forged-userinfo": 900, "oracle:forged-introspection": 1800, "oracle:forged-token-endpoint": 5000,
                "oracle:misplaced-userinfo": 800, "oracle:misplaced-introspection": 800, "oracle:misplaced-token-endpoint": 1500,
                "oracle:nothing-issued": 5000, "oracle:genuine-still-works": 2000}
SERVER_KEYS = 2
CLIENT_KEYS = 3


def b64(d):
    return base64.urlsafe_b64encode(json.dumps(d).encode()).decode().rstrip("=")


def unb64(s):
    return json.loads(base64.urlsafe_b64decode(s + "=" * (-len(s) % 4)))


def sign(payload, key, alg, **hdr):
    j = JWS(json.dumps(payload), alg=alg, **hdr)
    if getattr(key, "kid", ""):
        j["kid"] = key.kid
    return j.sign_compact([key])


def forge(rng, w, t, others, foreign):
    """(name, string) made from the genuine token string t"""
    kinds = ["flip", "flip", "flip-last", "truncate", "extend", "blank", "case", "swap", "random", "foreign-server", "dup", "double", "quote"]
    jwt = t.count(".") == 2
    if jwt:
        kinds += ["none", "none-sig", "foreign-key", "client-key", "client-iss", "hmac-pub", "hmac-secret", "jwk", "payload-swap", "claims", "nosig",
                  "header", "4parts", "typ"]
    k = rng.choice(kinds)
    if k == "flip":
        return k, flip(rng, t)
    if k == "flip-last":
        return k, t[:-1] + rng.choice([c for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_=" if c != t[-1]])
    if k == "truncate":
        return k, t[: -rng.choice([1, 1, 2, 3, 4, 8, len(t) // 2])]
    if k == "extend":
        return k, t + rng.choice(["A", "=", "==", "AAAA", ".", ".A", "\u00e5", "\x00"])
    if k == "blank":
        return k, rng.choice([" " + t, t + " ", t + "\n", "\t" + t, t[:30] + "\n" + t[30:], t[:30] + " " + t[30:]])
    if k == "case":
        return k, rng.choice([t.swapcase(), t.upper(), t.lower()])
    if k == "swap":
        o = rng.choice(others)
        n = min(len(o), len(t)) // 2
        return k, t[:n] + o[n:]
    if k == "random":
        n = rng.choice([0, 1, 8, 40, 400])
        return k, "".join(rng.choice("ABCDEFabcdef0123456789-_.") for _ in range(n))
    if k == "foreign-server":
        return k, rng.choice(foreign)
    if k == "dup":
        return k, t + "," + t
    if k == "double":
        return k, t + t
    if k == "quote":
        return k, rng.choice(['"%s"' % t, "%s%%00" % t, "Bearer " + t, t.replace("A", "%41", 1)])
    h, p, s = t.split(".")
    pay = unb64(p)
    if k == "none":
        return k, b64({"alg": "none"}) + "." + p + "."
    if k == "none-sig":
        return k, b64({"alg": rng.choice(["none", "None", "nOnE", "", "HS256"]), "typ": "JWT"}) + "." + p + "." + s
    if k == "foreign-key":
        key = rng.choice([x for x in key_objs("server", 1) if x.use == "sig"])
        return k, sign(pay, key, {"RSA": "RS256"}.get(key.kty) or {"P-256": "ES256", "P-384": "ES384"}[key.crv])
    if k in ("client-key", "client-iss"):
        key = [x for x in key_objs("client", 0) if x.kty == "EC"][0]
        if k == "client-iss":
            pay = dict(pay, iss="alpha")
        return k, sign(pay, key, "ES256")
    if k == "hmac-pub":
        key = [x for x in key_objs("server", 0) if x.use == "sig" and x.kty == "RSA"][0]
        return k, sign(pay, SYMKey(key=json.dumps(key.serialize()), kid=key.kid), "HS256")
    if k == "hmac-secret":
        c = rng.choice(["alpha", "alpha2"])
        return k, sign(rng.choice([pay, dict(pay, iss=c)]), SYMKey(key=w.secrets[c]), "HS256")
    if k == "jwk":
        key = [x for x in key_objs("client", 2) if x.kty == "EC"][0]
        return k, sign(pay, key, "ES256", jwk=key.serialize())
    if k == "payload-swap":
        o = [x for x in others if x.count(".") == 2 and x != t]
        if not o:
            return "flip", flip(rng, t)
        o = rng.choice(o).split(".")
        return k, rng.choice([".".join((h, o[1], s)), ".".join((h, p, o[2])), ".".join((o[0], p, s))]) if o[0] != h else ".".join((h, o[1], s))
    if k == "claims":
        c = rng.choice([{"exp": CLOCK.t + 10 ** 6}, {"ttype": rng.choice(["T", "A", "R"])}, {"sid": "x"}, {"scope": ["admin"]}, {"jti": "y"},
                        {"token_class": "access_token"}])
        return k, h + "." + b64(dict(pay, **c)) + "." + s
    if k == "nosig":
        return k, h + "." + p + rng.choice(["", "."])
    if k == "header":
        hd = unb64(h)
        hd.pop("kid", None)
        return k, b64(dict(hd, x="y")) + "." + p + "." + s
    if k == "4parts":
        return k, t + "." + s
    if k == "typ":
        return k, b64(dict(unb64(h), typ="at+jwt")) + "." + p + "." + s


def run_case(rng, rep, i):
    kind = rng.choice(["oidc", "oidc", "oidc", "oauth2"])
    o = {"token_handler": rng.choice(["jwt", "jwt", "default"]), "refresh_handler": rng.choice(["default", "jwt"]),
         "code_handler": rng.choice(["default", "jwt"])}
    if rng.random() < 0.3:
        o["shared_password"] = "the same for all 0123456789"
    w2 = World(kind, None, keys=1, pw="1", **dict(o, **({"shared_password": "another"} if "shared_password" in o else {})))
    w = World(kind, rep, keys=0, pw="0", **o)
    try:
        _case(rng, rep, w, w2, kind, o)
    finally:
        w2.close()


def _case(rng, rep, w, w2, kind, o):
    foreign = []
    ss = []
    for ww, r_ in ((w2, None), (w, rep)):
        for c in ("alpha", "alpha2"):
            ww.add_client(c, keys=0 if c == "alpha" else 1)
    sc = {"oidc": ["openid offline_access", "openid email offline_access"], "oauth2": ["read"]}[kind]
    w2.set_user("diana")
    rq = w2.areq("alpha", scope=sc[0], response_type="code id_token" if kind == "oidc" else "code", prompt="consent")
    r = w2.authorize(rq, "diana")
    foreign += [v for k, v in r.data.items() if k in ("code", "id_token")]
    r = w2.redeem("alpha", r.data["code"], issue_refresh=True)
    foreign += [v for k, v in r.data.items() if k in ("access_token", "refresh_token", "id_token")]
    s = Story(w, rep, rng)
    for n in range(rng.randrange(2, 4)):
        g, r = s.authorize(rng.choice(["diana", "ziggy"]), rng.choice(["alpha", "alpha2"]), rng.choice(sc),
                           rt=rng.choice(["code", "code id_token token"]) if kind == "oidc" else "code")
        if not rep.check(g is not None, "setup", "authorization refused %s" % r.brief()):
            return
        if rng.random() < 0.6 or n == 0:
            r, new = s.redeem(g.code, issue_refresh=True)
            if not rep.check(RT in new, "setup", "code not redeemed %s" % r.brief()):
                return
    fresh_code = [g.code for g in s.grants if not g.code.used]
    rep.sig(kind, str(sorted(o.items())))

    def state():
        return [(t.value, t.revoked, t.used) for g in s.grants for t in w.sm[g.sid].issued_token]

    before = state()
    everything = [t.value for t in s.tokens]

    def attack(val, place, cid):
        """present val; returns (honoured, Res)"""
        if place == "userinfo":
            r = w.userinfo(val, rng.choice(["header", "body"]))
            return r.ok and bool(r.data), r
        if place == "introspection":
            r = w.introspect(val, cid)
            return r.data.get("active") is not None and r.data.get("active") is not False or "sub" in r.data, r
        if place == AC:
            g = rng.choice(s.grants)
            r = w.redeem(cid, val, redirect_uri=w.redirect_uri(cid), issue_refresh=True)
        else:
            r = w.refresh(cid, val, issue_refresh=True)
        return r.ok or any(x in r.data for x in (AT, RT, IT)), r

    places = (["userinfo"] if kind == "oidc" else []) + ["introspection", AC, RT]
    for n in range(rng.randrange(15, 30)):
        t = rng.choice(s.tokens)
        cid = t.grant.client if rng.random() < 0.8 else rng.choice(["alpha", "alpha2"])
        if rng.random() < 0.6:
            name, val = forge(rng, w, t.value, everything, foreign)
            if val in everything:
                continue
            place = rng.choice(places)
            if rng.random() < 0.7:  # where the genuine one would work
                place = {AC: [AC], RT: [RT, "introspection"], AT: places[:-2], IT: places}[t.cls]
                place = rng.choice(place)
            ok, r = attack(val, place, cid)
            rep.sig(name, t.cls, place, r.outcome())
            rep.check(not ok, "forged-" + (place if place in ("userinfo", "introspection") else "token-endpoint"),
                      "%s %s honoured at %s" % (name, t.cls, place), answer=r.brief(), string=val, genuine=t.value)
        else:
            wrong = [p for p in places if not (p == t.cls or (p == "userinfo" and t.cls == AT) or (p == "introspection" and t.cls in (AT, RT)))]
            place = rng.choice(wrong)
            ok, r = attack(t.value, place, cid)
            rep.sig("genuine", t.cls, place, r.outcome())
            rep.check(not ok, "misplaced-" + (place if place in ("userinfo", "introspection") else "token-endpoint"),
                      "genuine %s honoured at %s" % (t.cls, place), answer=r.brief())
        now = state()
        rep.check(now == before, "nothing-issued", "a refused token changed the sessions: %s -> %s" % (len(before), len(now)))
        before = now
    # the genuine ones still work
    for t in s.tokens:
        if t.cls == AT:
            if kind == "oidc":
                ok, r = s.userinfo_ok(t.value)
                rep.check(ok, "genuine-still-works", "genuine access token refused at userinfo: %s" % r.brief())
            ok, r = s.introspect_active(t.value, t.grant.client)
            rep.check(ok, "genuine-still-works", "genuine access token inactive: %s" % r.brief())
    for t in [x for x in s.tokens if x.cls == RT]:
        r, new = s.refresh(t, issue_refresh=True)
        rep.check(AT in new, "genuine-still-works", "genuine refresh token refused: %s" % r.brief())
    for t in fresh_code:
        r, new = s.redeem(t, issue_refresh=True)
        rep.check(AT in new, "genuine-still-works", "genuine code refused: %s" % r.brief())
