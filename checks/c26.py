"""C26: refresh works as configured and never outlives its grant."""
from vlib.clock import CLOCK
from vlib.story import AC, AT, IT, RT, Story
from vlib.world import World, peek

CASES = {"quick": 2400, "thorough": 120000}
RULE = ("One case: a server (OIDC or OAuth2) with generated grant types at the endpoint, in the provider's capabilities and per client, rotation "
        "settings at server and clients, rules for the refresh token, issue_refresh given or not; several authorizations with and without "
        "offline_access are redeemed and then refreshed 6-24 times with current, old, foreign, revoked, expired and mutated refresh tokens, "
        "narrowed scopes and unsupported grant types. Each answer's members, the usability of every token before and the number of issued "
        "tokens are compared with the model. Non-trivial: a chain of two refreshes or a refusal happened. Distinct: by configuration and "
        "sequence of operations and outcomes.")
MUST_OBSERVE = {"oracle:refresh-served": 800, "oracle:refresh-refused": 400, "oracle:refresh-members": 800, "oracle:new-tokens-distinct": 1500,
                "oracle:code-refresh-token": 800, "oracle:rotated-refused": 60, "oracle:kept-served": 100, "oracle:grant-type-refused": 60,
                "oracle:refused-issues-nothing": 500, "oracle:refresh-after-grant-end": 30, "chain>=3": 60, "offline-access": 200,
                "oracle:refused-changes-nothing": 100, "oracle:lineage": 800}

H = "oidcop.%s.token.%s"


def gen_rt_rule(rng):
    r = {}
    if rng.random() < 0.6:
        r["expires_in"] = rng.choice([60, 300, 3000, 86400, 100000])
    x = rng.random()
    if x < 0.75:
        r["supports_minting"] = [AT] + rng.sample([RT, IT], rng.choice([0, 1, 1, 2, 2]))
    elif x < 0.8:
        r["supports_minting"] = rng.sample([RT, IT], rng.choice([0, 1, 2]))
    if rng.random() < 0.25:
        r["max_usage"] = rng.choice([1, 2, 3])
    return r


def run_case(rng, rep, i):
    kind = rng.choice(["oidc", "oidc", "oauth2"])
    rules = {AC: {"expires_in": 300, "supports_minting": [AT] + rng.choice([[RT, IT], [RT, IT], [RT], [IT]]), "max_usage": 1},
             AT: {"expires_in": 600}, RT: gen_rt_rule(rng)}
    if rng.random() < 0.1:
        del rules[RT]
    tk = {}
    egt = rng.choice(["all", "all", "all", "dict", "dict", "nocode", "norefresh", "refreshFalse"])
    full = {"authorization_code": {"class": H % (kind, "AccessTokenHelper")}, "refresh_token": {"class": H % (kind, "RefreshTokenHelper")}}
    ep_supports = {"authorization_code", "refresh_token"}
    if egt != "all":
        if egt == "nocode":
            del full["authorization_code"]
            ep_supports.discard("authorization_code")
        elif egt == "norefresh":
            del full["refresh_token"]
            ep_supports.discard("refresh_token")
        elif egt == "refreshFalse":
            full["refresh_token"]["kwargs"] = False
            ep_supports.discard("refresh_token")
        tk["grant_types_supported"] = full
    srv_rotate = rng.choice([None, None, True, False])
    if srv_rotate is not None:
        tk["revoke_refresh_on_issue"] = srv_rotate
    pgt = rng.choice([["authorization_code", "implicit", "refresh_token"]] * 4 + [["authorization_code", "implicit"]])
    gexp = rng.choice([43200, 43200, 4000, 900, 0])
    w = World(kind, rep, usage_rules=rules, token_kwargs=tk, capabilities={"grant_types_supported": pgt}, grant_expires_in=gexp,
              token_handler=rng.choice(["default", "jwt"]), refresh_handler=rng.choice(["default", "jwt"]))
    cl = {}
    for c in ("a", "b", "c"):
        extra = {}
        x = rng.random()
        if x < 0.2:
            extra["grant_types_supported"] = ["authorization_code", "refresh_token"]
        elif x < 0.3:
            extra["grant_types_supported"] = ["authorization_code"]
        elif x < 0.35:
            extra["grant_types_supported"] = ["refresh_token", "implicit"]
        if rng.random() < 0.4:
            extra["revoke_refresh_on_issue"] = rng.random() < 0.5
        if rng.random() < 0.3:
            extra["token_usage_rules"] = {RT: gen_rt_rule(rng)}
        cl[c] = extra
        w.add_client(c, **extra)
    rep.sig(kind, str(rules), egt, srv_rotate, pgt, gexp, str(cl))
    s = Story(w, rep, rng)
    seen = set()

    def supports(c, gt):
        return gt in ep_supports and gt in cl[c].get("grant_types_supported", [gt])

    def rotates(c):
        return bool(cl[c].get("revoke_refresh_on_issue", srv_rotate))

    def count(g):
        return len(w.sm[g.sid].issued_token)

    def fresh(new, r):
        for t in new.values():
            rep.check(t.value not in seen, "new-tokens-distinct", "%r returned although it was handed out before" % t, answer=r.brief())
            seen.add(t.value)

    nontrivial = False
    for n in range(rng.randrange(1, 4)):
        cid, user = rng.choice(sorted(cl)), rng.choice(["diana", "ziggy"])
        off = kind == "oidc" and rng.random() < 0.55
        sc = "read write" if kind == "oauth2" else "openid email" + (" offline_access" if off else "")
        g, r = s.authorize(user, cid, sc)
        if not rep.check(g is not None, "authorization-served", "authorization refused: %s" % r.brief()):
            return
        if off:
            rep.count("offline-access")
            rep.check("offline_access" in w.sm[g.sid].scope, "offline-scope", "offline_access asked with consent is not in the grant's scope")
        code = g.code
        seen.add(code.value)
        n0 = count(g)
        ir = rng.choice([None, None, True, False])
        r, new = s.redeem(code, **({} if ir is None else {"issue_refresh": ir}))
        rep.sig("redeem", off, ir, r.outcome(), sorted(new))
        if not supports(cid, "authorization_code"):
            nontrivial = True
            rep.check(not r.ok and not set(r.data) & {AT, RT, IT}, "grant-type-refused",
                      "client %s redeemed a code although the grant type is not supported" % cid, answer=r.brief())
            rep.check(count(g) == n0, "refused-issues-nothing", "a refused grant type issued tokens")
            continue
        rep.check(r.kind == "ok" and AT in new, "code-served", "code not redeemed: %s" % r.brief())
        want = (RT in code.mints and "refresh_token" in cl[cid].get("grant_types_supported", pgt)
                and bool(ir if ir is not None else (kind == "oidc" and off)))
        rep.check((RT in new) == want, "code-refresh-token", "code response %s a refresh token, expected %s" % (
            "has" if RT in new else "lacks", want), issue_refresh=ir, offline=off, mints=code.mints, client=cl[cid], provider=pgt)
        fresh(new, r)

    for step in range(rng.randrange(6, 24)):
        rts = [t for t in s.tokens if t.cls == RT]
        if not rts:
            break
        # mostly the youngest tokens, sometimes an old one
        t = rts[-1] if rng.random() < 0.5 else rng.choice(rts)
        g = t.grant
        op = rng.choice(["refresh"] * 8 + ["foreign", "mutated", "code-as-rt", "at-as-rt", "revoke", "revoke-grant", "tick", "tick", "end"])
        if op == "tick":
            s.tick()
            continue
        if op == "end":
            if gexp and g.active() and rng.random() < 0.3:
                CLOCK.set(g.exp + 1)
                op = "refresh"
            else:
                continue
        if op == "revoke":
            if rng.random() < 0.4:
                s.revoke_token(t, rng.random() < 0.5)
            continue
        if op == "revoke-grant":
            if rng.random() < 0.25:
                s.revoke_grant(g)
            continue
        n0 = count(g)
        before = {x: (x.revoked, x.used) for x in g.tokens}
        if op in ("foreign", "mutated", "code-as-rt", "at-as-rt"):
            by, value = g.client, t.value
            if op == "foreign":
                by = rng.choice([c for c in cl if c != g.client])
            elif op == "mutated":
                k = rng.randrange(len(value))
                value = rng.choice([value[:-2], value[:k] + value[k + 3:], value + "A", value[::-1], ""])
            elif op == "code-as-rt":
                value = g.code.value
            else:
                ats = [x for x in g.tokens if x.cls == AT]
                value = rng.choice(ats).value
            r = w.refresh(by, value, issue_refresh=True)
            rep.sig(op, r.outcome())
            rep.check(not r.ok and not set(r.data) & {AT, RT, IT}, "refresh-refused", "%s refresh was served" % op, answer=r.brief())
            rep.check(count(g) == n0, "refused-issues-nothing", "%s refresh issued tokens" % op)
            nontrivial = True
            # the rightful owner is not affected
            gr = w.sm[g.sid]
            for x in g.tokens:
                tok = gr.get_token(x.value)
                if tok is not None:
                    rep.check(tok.revoked == before[x][0], "refused-changes-nothing", "%s refresh changed %r" % (op, x))
            continue
        scope = None
        base = t.parent.scope or g.scope    # what C06 allows a refresh to ask for
        if rng.random() < 0.25:
            scope = rng.sample(base, rng.randrange(1, len(base) + 1))
        ir = rng.choice([None, None, True, True, False])
        act = t.active()
        sup = supports(g.client, "refresh_token")
        r, new = s.refresh(t, scope=scope, **({} if ir is None else {"issue_refresh": ir}))
        rep.sig("refresh", t.depth(), act, sup, ir, scope and len(scope), r.outcome(), sorted(new))
        if not sup:
            nontrivial = True
            rep.check(not r.ok and not set(r.data) & {AT, RT, IT}, "grant-type-refused",
                      "client %s refreshed although the grant type is not supported" % g.client, answer=r.brief())
            rep.check(count(g) == n0, "refused-issues-nothing", "a refused grant type issued tokens")
            continue
        if act is None:
            if r.ok:
                fresh(new, r)
                if RT in new and rotates(g.client):
                    t.revoked = True
            continue
        if act is False or AT not in t.mints:
            nontrivial = True
            rep.check(not r.ok and not set(r.data) & {AT, RT, IT}, "refresh-refused",
                      "%r which is %s was served" % (t, "not usable" if act is False else "not allowed to mint an access token"),
                      answer=r.brief(), revoked=t.revoked, used=t.used, max_usage=t.max_usage, grant=g.active())
            if t.revoked and getattr(t, "rotated", False):
                rep.count("oracle:rotated-refused")
            if g.exp is not None and CLOCK.t > g.exp:
                rep.count("oracle:refresh-after-grant-end")
            rep.check(count(g) == n0, "refused-issues-nothing", "a refused refresh issued tokens")
            continue
        if not rep.check(r.kind == "ok" and AT in new, "refresh-served", "usable %r was refused: %s" % (t, r.brief()),
                         used=t.used, max_usage=t.max_usage, rotates=rotates(g.client)):
            continue
        if t.used > 1:
            rep.count("oracle:kept-served")
        scn = scope if scope is not None else base
        want = {AT}
        if ir if ir is not None else (kind == "oidc" and "offline_access" in scn):
            if RT in t.mints:
                want.add(RT)
        if kind == "oidc" and IT in t.mints and "openid" in scn:
            want.add(IT)
        got = set(new)
        if scope is not None and ir is None and "offline_access" in base and "offline_access" not in scope:
            got.discard(RT)     # whether narrowing away offline_access ends the chain is left open
            want.discard(RT)
        rep.check(got == want, "refresh-members", "refresh by a token whose rules allow %s returned %s, expected %s" % (
            t.mints, sorted(got), sorted(want)), answer=r.brief(), issue_refresh=ir, scope=scn)
        fresh(new, r)
        rep.check(r.data.get("token_type", "").lower() == "bearer", "token-type", "token_type is %r" % r.data.get("token_type"))
        gr = w.sm[g.sid]
        for x in new.values():
            tok = gr.get_token(x.value)
            rep.check(tok is not None and tok.based_on == t.value, "lineage", "%r is not recorded as based on the refresh token used" % x)
            if x.depth() >= 4:
                rep.count("chain>=3")
            if x.depth() >= 3:
                nontrivial = True
        if IT in new:
            p = peek(new[IT].value)
            rep.check(p is not None and p.get("sub") == gr.sub and g.client in p.get("aud", []), "id-token-of-session",
                      "ID Token from a refresh belongs to someone else", payload=p)
        if rotates(g.client):
            if RT in new:
                t.revoked = True
                t.rotated = True
            else:
                # said to be about the issue of a new refresh token; which it is without one is left open
                t.revoked = bool(gr.get_token(t.value).revoked)
                t.rotated = t.revoked
        rep.check(gr.get_token(t.value).revoked == t.revoked, "rotation", "refresh token is %s after use, expected %s" % (
            "revoked" if gr.get_token(t.value).revoked else "kept", "revoked" if t.revoked else "kept"),
                  client=cl[g.client], server=srv_rotate)
        # an old access token is not touched by a refresh
        for x in g.tokens:
            if x.cls == AT and x is not new.get(AT) and rng.random() < 0.3:
                s.probe(x)
        for x in new.values():
            if x.cls in (AT, RT):
                s.probe(x)
    for t in s.tokens:
        if t.cls in (AT, RT) and rng.random() < 0.5:
            s.probe(t)
    if nontrivial:
        rep.nontrivial = True
