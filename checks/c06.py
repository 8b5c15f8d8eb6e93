"""C06: scopes never widen along a grant."""
from cryptojwt.jwt import JWT
from cryptojwt.key_jar import KeyJar

from vlib.clock import CLOCK
from vlib.story import AC, AT, IT, RT, Story
from vlib.world import World, peek

CASES = {"quick": 1500, "thorough": 50000}
RULE = ("One case: a server (OIDC or OAuth2, opaque or JWT tokens, with or without deny_unknown_scopes, server- and client-level allowed "
        "scopes), several sessions with random scope sets, then refresh chains that narrow, keep, try to widen, reorder or duplicate "
        "scopes with any refresh token of the chain, and re-inspection of every older token. Non-trivial: at least one refresh asked "
        "for an explicit scope or a forbidden scope was requested. Distinct: by the sequence of scope operations and outcomes.")
MUST_OBSERVE = {"oracle:scope-subset-of-request": 2000, "oracle:jwt-scope": 500, "oracle:introspection-scope": 1000,
                "oracle:widening-refused": 200, "oracle:narrowing-served": 500, "oracle:unknown-scope-refused": 100,
                "oracle:known-scope-served": 100, "oracle:refresh-scope-stated": 500}

BASE = ["profile", "email", "address", "phone", "offline_access"]
API = ["read", "write", "admin", "a:b", "https://api.example.com/x.y"]


def scopes(x):
    if x is None:
        return None
    return set(x.split(" ")) - {""} if isinstance(x, str) else set(x) - {""}


def run_case(rng, rep, i):
    kind = rng.choice(["oidc", "oidc", "oauth2"])
    deny = rng.random() < 0.4
    cap = {"deny_unknown_scopes": True} if deny else {}
    o = {"token_handler": rng.choice(["jwt", "jwt", "default"]), "refresh_handler": rng.choice(["default", "jwt"]),
         "code_handler": rng.choice(["default", "jwt"]), "capabilities": cap}
    s2c = None
    if rng.random() < 0.5:
        s2c = {"openid": ["sub"], "profile": ["name"], "email": ["email"], "offline_access": [], "read": [], "write": ["nickname"], "a:b": []}
        o["scopes_to_claims"] = s2c
    sa = None
    if rng.random() < 0.4:
        sa = o["allowed_scopes"] = ["openid", "offline_access", "email", "read", "admin", "https://api.example.com/x.y"]
    if kind == "oidc":
        o["par"] = True
    w = World(kind, rep, **o)
    server_allowed = set(sa) if sa else set(s2c) if s2c else {"openid", "profile", "email", "address", "phone", "offline_access"}
    allowed = {}
    for c in ("alpha", "alpha2", "Alpha"):
        x = {}
        allowed[c] = server_allowed
        if c == "alpha2":
            x["allowed_scopes"] = ["openid", "email", "read", "offline_access", "a:b"] if rng.random() < 0.85 else []
            allowed[c] = set(x["allowed_scopes"])
        if c == "Alpha":
            x["scopes_to_claims"] = {"openid": ["sub"], "offline_access": [], "gamma_only": ["name"], "write": []}
            allowed[c] = set(x["scopes_to_claims"])
        w.add_client(c, **x)
    s = Story(w, rep, rng)
    rep.sig(kind, o["token_handler"], deny, bool(s2c))
    nontrivial = False
    universe = BASE + API + ["gamma_only"]
    iss_kw = lambda: {"issue_refresh": True} if kind == "oauth2" or rng.random() < 0.5 else {}

    def inspect(t, when):
        """what is said about this token's scope now"""
        g = t.grant
        asked = set(g.scope)
        seen = {}
        p = peek(t.value) if t.cls == AT and o["token_handler"] == "jwt" else None
        if p is not None and "scope" in p:
            seen["jwt"] = scopes(p["scope"])
        c = rng.choice(list(w.secrets))
        r = w.introspect(t.value, c)
        if r.data.get("active"):
            seen["introspection"] = scopes(r.data.get("scope")) or set()
        for k, v in seen.items():
            rep.check(v <= asked, "scope-subset-of-request", "%s of %r has scope %s, the user was asked for %s (%s)"
                      % (k, t, sorted(v), sorted(asked), when))
            if t.scope is not None:
                rep.check(v == set(t.scope), "%s-scope" % k, "%s says scope %s of %r whose response said %s (%s)"
                          % (k, sorted(v), t, sorted(t.scope), when))

    for n in range(rng.randrange(1, 4)):
        cid = rng.choice(["alpha", "alpha", "alpha2", "Alpha"])
        pool = universe if rng.random() < 0.5 else [x for x in universe if x in allowed[cid]]
        sc = rng.sample(pool, min(len(pool), rng.randrange(0, 5)))
        if kind == "oidc":
            sc.insert(rng.randrange(len(sc) + 1), "openid")
        if "offline_access" not in sc and rng.random() < 0.5:
            sc.append("offline_access")
        rts = ["code", "code", "code token"] + (["code id_token"] if kind == "oidc" else ["token"])
        rt = rng.choice(rts)
        if not sc and "token" in rt:
            rt = "code"
        req_scope = " ".join(sc)
        bad = sorted(set(sc) - allowed[cid])
        before = len(w.sm.db)
        via = rng.choice(["plain", "plain", "par", "object"]) if kind == "oidc" and deny else "plain"
        user = rng.choice(["diana", "ziggy"])
        if via != "plain":
            req = w.areq(cid, scope=req_scope, **({"prompt": "consent"} if "offline_access" in sc else {}))
            mini = {"client_id": cid, "scope": "openid", "response_type": "code", "redirect_uri": req["redirect_uri"],
                    "nonce": "abcdefgh", "state": "x"}
            if via == "par":
                pr, hi = w.with_auth(req, cid, "basic")
                p = w.do("pushed_authorization", pr, hi)
                if "request_uri" not in p.data:
                    rep.sig("par-refused", bool(bad))
                    rep.check(bool(bad), "known-scope-served", "pushed request with allowed scopes refused: %s" % p.brief())
                    continue
                r = w.authorize(dict(mini, request_uri=p.data["request_uri"]), user=user)
            else:
                kj = KeyJar()
                kj.add_symmetric("", w.secrets[cid], ["sig"])
                r = w.authorize(dict(mini, request=JWT(kj, iss=cid, sign_alg="HS256", lifetime=100).pack(dict(req, aud=w.issuer))), user=user)
            rep.sig("authz-" + via, bool(bad), r.outcome())
            if bad:
                nontrivial = True
                rep.check(not r.ok and len(w.sm.db) == before, "unknown-scope-refused",
                          "scopes %s not allowed for %s but the %s request was served" % (bad, cid, via), answer=r.brief())
            else:
                rep.check(r.ok, "known-scope-served", "allowed scopes %s refused (%s): %s" % (sc, via, r.brief()))
            continue
        g, r = s.authorize(user, cid, req_scope, rt=rt) if sc else s.authorize(user, cid, "", rt=rt, )
        rep.sig("authz", len(sc), rt, bool(bad), r.outcome())
        if deny and bad:
            nontrivial = True
            rep.check(g is None and not r.ok and len(w.sm.db) == before, "unknown-scope-refused",
                      "scopes %s not allowed for %s but the request was served" % (bad, cid), answer=r.brief())
            continue
        if not sc:
            if g is None:
                continue  # scope is not optional here
        elif deny:
            rep.check(g is not None, "known-scope-served", "allowed scopes %s refused: %s" % (sc, r.brief()))
        else:
            rep.check(g is not None, "authz-served", "request for scope %s refused: %s" % (sc, r.brief()))
        if g is None:
            continue
        g.scope = list(sc)
        if "scope" in r.data:
            rep.check(scopes(r.data["scope"]) <= set(sc), "scope-subset-of-request", "authorization response has scope %s, asked was %s"
                      % (r.data["scope"], sc))
        for t in g.tokens:
            if t.cls == AT:
                t.scope = None  # the authorization response may name only those known
                inspect(t, "front channel")
            elif t.cls == AC:
                t.scope = list(sc)

    for step in range(rng.randrange(4, 14)):
        codes = [t for t in s.tokens if t.cls == AC and t.active() and not t.used]
        rts = [t for t in s.tokens if t.cls == RT and t.active() is True]
        if codes and (not rts or rng.random() < 0.3):
            t = rng.choice(codes)
            r, new = s.redeem(t, **iss_kw())
            rep.sig("redeem", r.outcome(), RT in new)
            if not rep.check(r.ok, "redeem-served", "redemption refused: %s" % r.brief()):
                continue
            asked = set(t.grant.scope)
            sc = scopes(r.data.get("scope")) or set()
            rep.check(sc <= asked, "scope-subset-of-request", "token response has scope %s, asked was %s" % (sorted(sc), sorted(asked)))
            for x in new.values():
                x.scope = sorted(sc)
                if x.cls in (AT, RT):
                    inspect(x, "redeemed")
            continue
        if not rts:
            continue
        t = rng.choice(rts)
        g = t.grant
        # what a refresh with this token may ask for
        roof = set(t.parent.scope or [])
        mode = rng.choice(["none", "same", "narrow", "narrow", "widen", "outside", "dup", "case", "near", "self"])
        ask = None
        if mode == "same":
            ask = sorted(roof)
        elif mode == "narrow":
            ask = rng.sample(sorted(roof), rng.randrange(1, len(roof) + 1)) if roof else None
            if ask and "offline_access" in roof and rng.random() < 0.7 and "offline_access" not in ask:
                ask.append("offline_access")
        elif mode == "widen":
            extra = [x for x in universe + ["openid"] if x not in roof]
            ask = sorted(roof) + [rng.choice(extra)]
        elif mode == "outside":
            ask = [rng.choice([x for x in universe if x not in roof])]
        elif mode == "dup":
            ask = sorted(roof) + sorted(roof)[:1]
        elif mode == "case":
            x = sorted(roof)[0].upper() if roof else "X"
            ask = sorted(roof) + [x] if x not in roof else None
        elif mode == "near" and roof:
            # part of a name, or names run together, is another name
            x = rng.choice(sorted(roof))
            y = rng.choice([x[:-1], x[1:], x[:4], x + x, x + ",", "".join(sorted(roof)), ",".join(sorted(roof))]).strip()
            ask = (sorted(roof) if rng.random() < 0.5 else []) + [y] if y and " " not in y else None
        elif mode == "self":
            ask = sorted(t.scope or [])
        if ask == []:
            ask = None
        ntok = len(w.sm[g.sid].issued_token)
        r, new = s.refresh(t, scope=ask, **iss_kw())
        rep.sig("refresh", mode, t.depth(), len(roof), r.outcome(), RT in new)
        if ask is not None:
            nontrivial = True
        if ask is not None and not set(ask) <= roof:
            rep.check(not r.ok and AT not in r.data and RT not in r.data and len(w.sm[g.sid].issued_token) == ntok, "widening-refused",
                      "refresh asking for %s served, token held %s" % (ask, sorted(roof)), answer=r.brief())
            continue
        if not rep.check(r.ok, "narrowing-served", "refresh asking for %s of %s refused: %s" % (ask, sorted(roof), r.brief())):
            continue
        sc = scopes(r.data.get("scope")) or set()
        want = set(ask) if ask is not None else roof
        rep.check(sc == want, "refresh-scope-stated", "refresh asking for %s of %s answered scope %s" % (ask, sorted(roof), sorted(sc)))
        rep.check(sc <= set(g.scope), "scope-subset-of-request", "refresh response has scope %s, asked was %s" % (sorted(sc), g.scope))
        for x in new.values():
            x.scope = sorted(sc)
            if x.cls in (AT, RT):
                inspect(x, "refreshed")
        if rng.random() < 0.3:
            # what was issued before has not changed
            old = [x for x in s.tokens if x.cls in (AT, RT) and x.active()]
            for x in rng.sample(old, min(3, len(old))):
                inspect(x, "later")
    if not nontrivial:
        rep.case_sig = []
