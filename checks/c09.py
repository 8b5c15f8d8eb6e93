"""C09: usage rules decide what a token may mint, how often and for how long."""
from vlib.clock import CLOCK
from vlib.story import AC, AT, IT, RT, NEVER, Story, effective_rules
from vlib.world import World

CASES = {"quick": 1500, "thorough": 60000}
RULE = ("One case: random server usage rules (possibly none) and random per-client rules (absent, empty, empty per class, partial, naming "
        "classes the server does not), then authorizations (new and single sign-on), redemptions, refreshes, direct minting of every class "
        "from every class and clock jumps around each expiry; the classes returned, the number of uses, expires_in and activity are "
        "compared with the effective rules computed independently. Non-trivial: a client overrides or a limit was reached. Distinct: "
        "by rules and by the sequence of operations and outcomes.")
MUST_OBSERVE = {"sso-authorizations": 300, "oracle:effective-rules": 2000, "oracle:minted-classes": 1500, "oracle:forbidden-mint-refused": 500,
                "oracle:allowed-mint-happens": 500, "oracle:max-usage-refused": 20, "oracle:expires-in": 1000,
                "oracle:at-active": 300, "oracle:at-inactive": 80, "oracle:refresh-forbidden": 30,
                "not-yet-valid": 100, "oracle:denied": 800, "ended-grant-mint": 60}
CL = [AC, AT, RT, IT]


def gen_rule(rng, cls):
    r = {}
    if rng.random() < 0.7:
        r["expires_in"] = rng.choice([30, 60, 300, 900, 5000, -1])
    if rng.random() < 0.6:
        r["supports_minting"] = rng.sample([AT, RT, IT], rng.randrange(0, 4))
        if rng.random() < 0.7 and AT not in r["supports_minting"] and cls in (AC, RT):
            r["supports_minting"].append(AT)
    if cls == AC:
        r["max_usage"] = 1
    elif cls == RT and rng.random() < 0.4:
        r["max_usage"] = rng.choice([1, 2, 3])
    return r


def gen_rules(rng, p):
    return {c: gen_rule(rng, c) for c in CL if rng.random() < p}


def run_case(rng, rep, i):
    kind = rng.choice(["oidc", "oidc", "oauth2"])
    server = gen_rules(rng, 0.8) if rng.random() < 0.85 else rng.choice([None, {}])
    o = {"usage_rules": server, "token_handler": rng.choice(["default", "jwt"]), "refresh_handler": rng.choice(["default", "jwt"]),
         "code_handler": rng.choice(["default", "jwt"])}
    if rng.random() < 0.3:
        o["access_token_kwargs"] = {"lifetime": 777}
    o["grant_expires_in"] = rng.choice([43200, 43200, 4000, 900])
    w = World(kind, rep, **o)
    crules = {}
    for c in ("plain", "one", "two"):
        x = None
        if c != "plain":
            x = gen_rules(rng, 0.5)
            for k in CL:
                if rng.random() < 0.1:
                    x[k] = {}
            if rng.random() < 0.1:
                x = {}
        crules[c] = x
        w.add_client(c, **({} if x is None else {"token_usage_rules": x}))
    s = Story(w, rep, rng)
    s.life[AT] = 777 if "access_token_kwargs" in o else 3600
    rep.sig(kind, str(server), str(sorted(crules.items())))
    nontrivial = False

    def rules_ok(when):
        for c in crules:
            exp = effective_rules(server or {}, crules[c])
            got = w.ctx.authz.usage_rules(c)
            rep.check(got == exp, "effective-rules", "effective rules of %s are %s, expected %s (%s)" % (c, got, exp, when),
                      server=server, client=crules[c])
            for k in CL:
                rep.check(w.ctx.authz.usage_rules_for(c, k) == exp.get(k, {}), "effective-rules",
                          "usage_rules_for(%s, %s) wrong (%s)" % (c, k, when))

    rules_ok("start")
    cookies = {}
    for n in range(rng.randrange(1, 5)):
        user, cid = rng.choice(["diana", "ziggy"]), rng.choice(list(crules))
        sc = "read" if kind == "oauth2" else rng.choice(["openid", "openid email", "openid offline_access"])
        rts = ["code", "code", "code token"] + (["code id_token"] if kind == "oidc" else [])
        kw = {}
        if cookies.get(cid) and rng.random() < 0.6:
            kw["cookies"], user = cookies[cid][0], cookies[cid][1].user
            if rng.random() < 0.3:
                kw["again"] = cookies[cid][1].req
            rep.count("sso-authorizations")
        rep.sig("authz", cid, bool(kw), "again" in kw)
        g, r = s.authorize(user, cid, sc, rt=rng.choice(rts), **kw)
        if rep.check(g is not None, "authorization-served", "authorization refused: %s" % r.brief()):
            if r.cookies:
                cookies[cid] = (r.cookies, g)
            for t in g.tokens:
                if t.cls == AT and t.value == r.data.get("access_token"):
                    _expires(rep, t, r)
    for step in range(rng.randrange(6, 18)):
        if not s.tokens:
            return
        op = rng.choice(["redeem", "refresh", "refresh", "refresh", "mint", "mint", "mint", "tick", "probe", "probe", "end", "deny", "deny"])
        if op == "redeem":
            cs = [t for t in s.tokens if t.cls == AC and not t.used]
            if not cs:
                continue
            t = rng.choice(cs)
            exp = t.active()
            ir = rng.choice([True, False, None])
            r, new = s.redeem(t, **({} if ir is None else {"issue_refresh": ir}))
            rep.sig("redeem", exp, ir, r.outcome(), sorted(new))
            if exp is True:
                want = set()
                if AT in t.mints:
                    want.add(AT)
                if RT in t.mints and (ir or (ir is None and kind == "oidc" and "offline_access" in t.grant.scope)):
                    want.add(RT)
                if kind == "oidc" and IT in t.mints:
                    want.add(IT)
                if AT not in want:
                    rep.check(not new and AT not in r.data, "minted-classes", "code whose rules allow %s returned %s, expected no token"
                              % (t.mints, sorted(new)), answer=r.brief(), rules=t.grant.rules)
                    s.tokens.remove(t)  # nothing is promised about a code that can not mint an access token
                    nontrivial = True
                    continue
                rep.check(r.kind == "ok" and set(new) == want, "minted-classes", "code whose rules allow %s returned %s, expected %s"
                          % (t.mints, sorted(new), sorted(want)), answer=r.brief(), rules=t.grant.rules)
                if AT in new:
                    _expires(rep, new[AT], r)
            elif exp is False:
                rep.check(not r.ok, "expired-refused", "expired %r served" % t)
        elif op == "deny":
            # a refused request is not a use
            ts = [t for t in s.tokens if t.cls in (RT, AC) and t.active() is True and not (t.cls == AC and t.used)]
            if not ts:
                continue
            t = rng.choice(ts)
            cid, other = t.grant.client, rng.choice([c for c in crules if c != t.grant.client])
            for _ in range(rng.choice([1, 1, 3])):
                how = rng.choice(["scope", "client", "unauthenticated", "type"] if t.cls == RT else ["redirect", "unauthenticated", "type"])
                if t.cls == RT:
                    r = w.refresh(other if how == "client" else cid, t.value, scope="read openid something else" if how == "scope" else None,
                                  method="none" if how == "unauthenticated" else "post", **({"grant_type": "authorization_code"} if how == "type" else {}))
                else:
                    r = w.redeem(cid, t.value, redirect_uri="https://elsewhere.example.net/cb" if how == "redirect" else t.grant.redirect_uri,
                                 method="none" if how == "unauthenticated" else "post", **({"grant_type": "refresh_token"} if how == "type" else {}))
                rep.check(not r.ok, "denied", "a request with the wrong %s for %r is served" % (how, t), answer=r.brief())
                rep.sig("deny", t.cls, how)
        elif op == "refresh":
            rs = [t for t in s.tokens if t.cls == RT]
            if not rs:
                continue
            t = rng.choice(rs)
            exp = t.active()
            ir = rng.choice([True, True, False])
            n0 = len(w.sm[t.grant.sid].issued_token)
            full = t.max_usage is not None and t.used >= t.max_usage
            r, new = s.refresh(t, issue_refresh=ir)
            rep.sig("refresh", t.depth(), exp, full, ir, r.outcome(), sorted(new))
            if exp is True and AT not in t.mints:
                nontrivial = True
                rep.check(not r.ok and AT not in r.data and len(w.sm[t.grant.sid].issued_token) == n0, "refresh-forbidden",
                          "refresh token that may mint only %s was served" % t.mints, answer=r.brief())
            elif exp is True:
                want = {AT}
                if RT in t.mints and ir:
                    want.add(RT)
                if kind == "oidc" and IT in t.mints:
                    want.add(IT)
                rep.check(r.kind == "ok" and set(new) == want, "minted-classes", "refresh token whose rules allow %s returned %s, expected %s"
                          % (t.mints, sorted(new), sorted(want)), answer=r.brief(), rules=t.grant.rules)
                if AT in new:
                    _expires(rep, new[AT], r)
            elif exp is False:
                rep.check(not r.ok, "max-usage-refused" if full else "expired-refused", "inactive %r (used %d of %s) served"
                          % (t, t.used, t.max_usage), answer=r.brief())
                nontrivial |= full
        elif op == "mint":
            t = rng.choice(s.tokens)
            cls = rng.choice([AC, AT, RT] + ([IT] if kind == "oidc" else []))
            gr = w.sm[t.grant.sid]
            exp = t.active()
            if exp is None or (t.cls == IT and exp != t.grant.active()):  # the record of an ID Token has no life of its own
                continue
            n0 = len(gr.issued_token)
            kw = {"not_before": CLOCK.t + rng.choice([1, 50, 400])} if cls != IT and rng.random() < 0.25 else {}
            r = w.call("mint %s from %r" % (cls, t), gr.mint_token, session_id=t.grant.sid, endpoint_context=w.ctx, token_class=cls,
                       based_on=gr.get_token(t.value), **kw)
            done = r.kind == "ok" and r.raw is not None
            allowed = exp is True and cls in t.mints
            if IT in (t.cls, cls) and t.cls == IT:
                allowed = exp is True and cls in (t.grant.rules.get(IT) or {}).get("supports_minting", [])
            rep.sig("mint", t.cls, cls, exp, done)
            if allowed:
                if rep.check(done, "allowed-mint-happens", "%r may mint %s but: %s" % (t, cls, r.brief()), rules=t.grant.rules):
                    new = s.add_token(r.raw.value, cls, t.grant, t, via="mint")
                    new.nbf = kw.get("not_before")
                    if new.nbf:
                        rep.count("not-yet-valid")
            else:
                if t.grant.active() is False:
                    rep.count("ended-grant-mint")
                rep.check(not done and len(gr.issued_token) == n0, "forbidden-mint-refused",
                          "%r (active %s, may mint %s) minted %s" % (t, exp, t.mints, cls), rules=t.grant.rules)
        elif op == "end":
            if rng.random() < 0.15:
                g = rng.choice(s.grants)
                w.sm.revoke_grant(g.sid)
                g.revoked = True
                rep.sig("end")
        elif op == "tick":
            s.tick()
            rep.sig("tick")
        elif op == "probe":
            t = rng.choice(s.tokens)
            exp = t.active()
            if exp is None or t.cls == IT:
                continue
            rec = w.sm.find_token(t.grant.sid, t.value)
            got = rec.is_active() and w.sm[t.grant.sid].is_active()
            rep.check(got == exp, ("at-" if t.cls == AT else "other-") + ("active" if exp else "inactive"),
                      "%r: active=%s expected %s" % (t, got, exp), age=CLOCK.t - t.iat, rules=t.grant.rules.get(t.cls), used=t.used)
            if t.cls in (AT, RT):
                act, r = s.introspect_active(t.value, t.grant.client)
                rep.check(act == exp, ("at-" if t.cls == AT else "other-") + ("active" if exp else "inactive"),
                          "introspection says active=%s for %r" % (act, t), age=CLOCK.t - t.iat, rules=t.grant.rules.get(t.cls))
            if not exp:
                nontrivial = True
    rules_ok("end")
    if not nontrivial and not any(crules.values()):
        rep.case_sig = []


def _expires(rep, t, r):
    got = r.data.get("expires_in")
    want = None if t.exp is NEVER else t.exp - CLOCK.t
    rep.check((int(got) if got is not None else None) == want, "expires-in",
              "expires_in is %s, the rules say %s" % (got, want), rules=t.grant.rules)
