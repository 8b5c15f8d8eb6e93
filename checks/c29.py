"""C29: everything the server says about a token agrees."""
import json

from vlib.clock import CLOCK
from vlib.story import AC, AT, IT, NEVER, RT, Story
from vlib.world import ISSUER, USERS, World, peek

CASES = {"quick": 700, "thorough": 40000}
RULE = ("One case: a server (OIDC or OAuth2, JWT or opaque access and refresh tokens, generated usage rules, handler lifetimes, subject types and user "
        "data) issues access and refresh tokens by code, implicit, hybrid, single sign-on and refresh with narrowed scopes; at several clock positions, "
        "also the last second before and the first after expiry, what the token response said, the JWT itself, introspection by each client, the session "
        "record, userinfo and ID Token say about it are compared with one another. Distinct: by configuration and sequence of requests.")
MUST_OBSERVE = {"oracle:introspection-agrees": 6000, "oracle:jwt-agrees": 3000, "oracle:response-scope": 1500, "oracle:expires-in": 1500,
                "oracle:record-agrees": 6000, "oracle:owner-not-caller": 2500, "oracle:works-until-exp": 250, "oracle:stops-at-exp": 250,
                "oracle:sub-agrees": 2500, "flow:implicit": 150, "flow:hybrid": 150, "flow:refresh": 300, "narrowed": 100, "oracle:unchanged": 2000}
HOSTILE = {"sub": "somebody-else", "iss": "https://evil.example", "aud": ["evil"], "exp": 1, "iat": 5, "client_id": "evil", "scope": "admin", "active": False,
           "token_type": "evil", "username": "evil", "sid": "evil", "jti": "evil", "token_class": "evil", "cnf": {"jkt": "evil"}}

ALLOWED = ["openid", "profile", "email", "address", "phone", "offline_access"]     # a server without configured scopes


def gen_rules(rng):
    r = {AC: {"supports_minting": [AT, RT, IT], "max_usage": 1, "expires_in": rng.choice([60, 300])}, AT: {}, RT: {"supports_minting": [AT, RT, IT]}}
    for c in (AT, RT):
        if rng.random() < 0.7:
            r[c]["expires_in"] = rng.choice([5, 60, 299, 600, 3600, 10000, -1])
    return r


def as_list(v):
    return v.split() if isinstance(v, str) else list(v or [])


def run_case(rng, rep, i):
    kind = rng.choice(["oidc", "oidc", "oauth2"])
    users = json.loads(json.dumps(USERS))
    hostile = rng.random() < 0.4
    if hostile:
        for u in users.values():
            u.update({k: v for k, v in HOSTILE.items() if rng.random() < 0.7})
    rules = gen_rules(rng) if rng.random() < 0.9 else None
    life = {AT: rng.choice([3600, 100, 777, 5000]), RT: rng.choice([86400, 1000])}
    o = {"usage_rules": rules, "users": users, "grant_expires_in": rng.choice([43200, 43200, 0, 800]),
         "issuer": rng.choice([ISSUER, ISSUER, ISSUER + "/tenant"])}
    th, rh = rng.choice(["default", "jwt", "jwt"]), rng.choice(["default", "jwt"])
    cls = {"default": {}, "jwt": {"class": "oidcop.token.jwt_token.JWTToken"}}
    o["token_handler"] = dict(cls[th], kwargs={"lifetime": life[AT]})
    o["refresh_handler"] = dict(cls[rh], kwargs={"lifetime": life[RT]})
    if th == "jwt" and rng.random() < 0.4:
        o["token_handler"]["kwargs"]["alg"] = rng.choice(["RS256", "ES384", "PS256"])
    w = World(kind, rep, **o)
    cl = {}
    for c in ("alpha", "alpha2", "Alpha"):
        e = {}
        if kind == "oidc":
            e["subject_type"] = rng.choice(["public", "pairwise"])
        if rng.random() < 0.4:
            ac = {}
            for point in ("introspection", "access_token", "userinfo"):
                if rng.random() < 0.6:
                    ac[point] = rng.sample(sorted(HOSTILE), 4) + ["email", "nickname"]
            e["add_claims"] = {"always": ac, "by_scope": {p: rng.random() < 0.5 for p in ("introspection", "access_token")}}
        if rng.random() < 0.4:
            e["token_usage_rules"] = {k: gen_rules(rng)[k] for k in rng.sample([AT, RT], 1)}
        if rng.random() < 0.2:
            e["allowed_scopes"] = ["openid", "email", "profile", "offline_access", "read"]
        w.add_client(c, **e)
        cl[c] = e
    s = Story(w, rep, rng)
    s.life.update(life)
    rep.sig(kind, str(rules), str(life), o["grant_expires_in"], th, rh, hostile, json.dumps(cl, sort_keys=True))
    first = {}

    def issued(g, t, r, flow):
        """right after the response"""
        rep.count("flow:" + flow)
        d = r.data
        if t.cls == AT:
            has = set(w.sm[g.sid].find_scope(t.value))
            said = set(as_list(d["scope"])) if d.get("scope") is not None else None
            mech = "response-scope"
            if flow in ("implicit", "hybrid") and said != has and said == has & set(cl[g.client].get("allowed_scopes", ALLOWED)):
                mech = "authorization-response-scope-filtered"
            rep.check(said is None or said == has, mech, "the %s response says scope %r, the token has %r" % (flow, d.get("scope"), sorted(has)))
            rep.check(said is not None or has == set(g.scope), "response-scope", "the %s response says no scope, asked %s, the token has %s" % (flow, g.scope, sorted(has)))
            t.scope = sorted(has)
            if t.exp is NEVER:
                rep.check("expires_in" not in d, "expires-in", "expires_in %r for a token that does not expire" % d.get("expires_in"))
            else:
                rep.check("expires_in" in d and int(d["expires_in"]) == t.exp - CLOCK.t, "expires-in",
                          "%s response says expires_in %r, the token expires in %s" % (flow, d.get("expires_in"), t.exp - CLOCK.t), rules=g.rules)
            rep.check(str(d.get("token_type", "")).lower() == "bearer", "response-type", "token_type %r" % d.get("token_type"))
        look(t)

    def look(t):
        """everything that can be known about the token now"""
        g = t.grant
        act = t.active()
        rec = w.sm[g.sid].get_token(t.value)
        if not rep.check(rec is not None, "record-agrees", "%r is not in the session's record" % t):
            return
        grant = w.sm[g.sid]
        exp = 0 if t.exp is NEVER else t.exp
        rep.check(rec.expires_at == exp and rec.issued_at == t.iat and rec.token_class == t.cls, "record-agrees",
                  "record says exp %s iat %s %s, expected %s %s %s" % (rec.expires_at, rec.issued_at, rec.token_class, exp, t.iat, t.cls))
        what = {"sub": grant.sub, "client_id": g.client, "iat": t.iat, "iss": w.issuer}
        if exp:
            what["exp"] = exp
        jwt = th if t.cls == AT else rh
        scope = set(t.scope) if t.scope is not None else None
        if jwt == "jwt":
            try:
                hdr, p = w.verify_jwt(t.value)
            except Exception as e:
                rep.violation("jwt-agrees", "the token can not be verified with the published keys: %r" % e)
                return
            for k, v in what.items():
                rep.check(p.get(k) == v, "jwt-agrees", "JWT %s: %s is %r, expected %r" % (t.cls, k, p.get(k), v))
            if not exp:
                rep.check("exp" not in p, "jwt-agrees", "JWT of a token that does not expire has exp %r" % p.get("exp"))
            if scope is not None:
                rep.check(set(as_list(p.get("scope"))) == scope, "jwt-agrees", "JWT has scope %r, the response said %r" % (p.get("scope"), sorted(scope)))
            rep.check(as_list(p.get("aud")) == [g.client], "jwt-agrees", "JWT has aud %r for a token of %s" % (p.get("aud"), g.client))
            rep.check(p.get("token_class") == t.cls, "jwt-agrees", "token_class %r" % p.get("token_class"))
        got = None
        for c in rng.sample(sorted(cl), 2):
            kw = {"release": ["username"]} if rng.random() < 0.3 else {}
            req, hi = w.with_auth({"token": t.value}, c, rng.choice(["post", "basic"]))
            r = w.do("introspection", req, hi, label="introspect", **kw)
            d = r.data
            if act is None:
                continue
            if not rep.check(r.kind == "ok" and (d.get("active") is True) == act, "active-agrees", "introspection says active %r, the token is %s" % (
                    d.get("active"), act), answer=r.brief()):
                return
            if not act:
                continue
            for k, v in what.items():
                rep.check(d.get(k) == v, "introspection-agrees", "introspection of %s by %s: %s is %r, expected %r" % (t.cls, c, k, d.get(k), v))
            if not exp:
                rep.check(not d.get("exp"), "introspection-agrees", "introspection of a token that does not expire has exp %r" % d.get("exp"))
            if scope is not None:
                rep.check(set(as_list(d.get("scope"))) == scope, "introspection-agrees", "introspection has scope %r, the response said %r" % (
                    d.get("scope"), sorted(scope)))
            rep.check(as_list(d.get("aud")) == [g.client], "introspection-agrees", "introspection has aud %r for a token of %s" % (d.get("aud"), g.client))
            if jwt == "jwt":
                rep.check(set(as_list(d.get("scope"))) == set(as_list(p.get("scope"))), "introspection-agrees", "scope %r in introspection, %r in the JWT" % (
                    d.get("scope"), p.get("scope")))
            if t.cls == AT:
                rep.check(str(d.get("token_type", "bearer")).lower() == "bearer", "introspection-agrees", "token_type %r" % d.get("token_type"))
            if c != g.client:
                rep.check(d.get("client_id") != c, "owner-not-caller", "introspection names the caller")
            if kw:
                rep.check(d.get("username") == g.user, "introspection-agrees", "username %r for %s" % (d.get("username"), g.user))
            elif not hostile:
                rep.check("username" not in d, "introspection-agrees", "username without being asked")
            cmp = {k: d.get(k) for k in ("sub", "client_id", "iat", "iss", "exp", "aud", "scope", "token_type")}
            rep.check(first.setdefault(t.value, cmp) == cmp, "unchanged", "introspection said %s, now %s" % (first[t.value], cmp))
        if kind == "oidc" and t.cls == AT and act and CLOCK.t - g.at < 3600:
            u = w.userinfo(t.value)
            rep.check(u.ok and u.data.get("sub") == grant.sub, "sub-agrees", "userinfo says sub %r, the session %r" % (u.data.get("sub"), grant.sub), answer=u.brief())

    cookies = {}
    for n in range(rng.randrange(2, 5)):
        cid, user = rng.choice(sorted(cl)), rng.choice(sorted(users))
        if kind == "oauth2":
            sc = rng.choice(["read", "read write", "openid email", "email"])
            rts = ["code", "token", "code token"]
        else:
            sc = rng.choice(["openid", "openid email", "openid profile email offline_access", "openid unknown"])
            rts = ["code", "code", "id_token token", "code token", "code id_token token"]
        rt = rng.choice(rts)
        kw = {}
        if cid in cookies and rng.random() < 0.3:
            kw["cookies"], kw["again"], user = cookies[cid]
            rt = kw["again"]["response_type"]
        g, r = s.authorize(user, cid, sc, rt=rt, **kw)
        if not rep.check(g is not None, "authorization-served", "authorization refused: %s" % r.brief()):
            return
        if r.cookies:
            cookies[cid] = (r.cookies, g.req, user)
        for t in g.tokens:
            if t.cls == AT and t.value == r.data.get("access_token"):
                issued(g, t, r, "implicit" if "code" not in rt else "hybrid")
            if t.cls == IT and t.value == r.data.get("id_token"):
                p = peek(t.value)
                rep.check(p["sub"] == w.sm[g.sid].sub and as_list(p["aud"]) == [cid], "sub-agrees", "ID Token sub %r aud %r" % (p["sub"], p["aud"]))
        if "code" in r.data:
            if rng.random() < 0.3:
                CLOCK.advance(rng.choice([1, 20, 50]))
            t0 = CLOCK.t
            r, new = s.redeem(s.grants[s.grants.index(g)].code, issue_refresh=True)
            if not r.ok:
                rep.check(g.code.exp <= t0 or not g.active(), "code-served", "code refused: %s" % r.brief())
                continue
            issued(g, new[AT], r, "code")
            if RT in new:
                look(new[RT])
            if IT in new:
                p = peek(new[IT].value)
                rep.check(p["sub"] == w.sm[g.sid].sub and as_list(p["aud"]) == [cid], "sub-agrees", "ID Token sub %r aud %r" % (p["sub"], p["aud"]))
    for step in range(rng.randrange(4, 10)):
        rts = [t for t in s.tokens if t.cls == RT and t.active()]
        op = rng.choice(["refresh", "refresh", "look", "look", "edge", "tick"])
        if op == "refresh" and rts:
            t = rng.choice(rts)
            base = t.parent.scope or t.grant.scope
            scope = rng.sample(base, rng.randrange(1, len(base) + 1)) if rng.random() < 0.4 else None
            r, new = s.refresh(t, scope=scope, issue_refresh=rng.random() < 0.5)
            if rep.check(r.ok, "refresh-served", "usable %r refused: %s" % (t, r.brief())):
                if scope is not None:
                    rep.count("narrowed")
                    rep.check(set(as_list(r.data.get("scope"))) == set(scope), "response-scope", "scope %r asked, %r in the answer" % (scope, r.data.get("scope")))
                issued(t.grant, new[AT], r, "refresh")
                if RT in new:
                    look(new[RT])
        elif op == "look":
            look(rng.choice([t for t in s.tokens if t.cls in (AT, RT)]))
        elif op == "tick":
            s.tick()
        elif op == "edge":
            ts = [t for t in s.tokens if t.cls in (AT, RT) and t.exp is not NEVER and t.exp > CLOCK.t + 1 and t.active()]
            if ts:
                t = min(rng.sample(ts, min(2, len(ts))), key=lambda x: x.exp)
                CLOCK.set(t.exp - 1)
                if t.grant.active():
                    rep.count("oracle:works-until-exp")
                    look(t)
                CLOCK.set(t.exp + 1)
                rep.count("oracle:stops-at-exp")
                look(t)
