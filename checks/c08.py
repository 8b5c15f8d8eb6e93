"""C08: revocation reaches exactly the tokens it should."""
from vlib.clock import CLOCK
from vlib.story import AC, AT, IT, RT, NEVER, Story
from vlib.world import World

CASES = {"quick": 700, "thorough": 30000}
RULE = ("One case builds token trees (redemption, refresh chains up to depth 8, direct minting from codes and refresh tokens) in several "
        "grants of several users at several clients, then applies a random sequence of revocations: session manager revoke_token with "
        "and without recursion, Grant.revoke_token by value, by parent and of everything, revoke_grant, revoke_client_session, and "
        "new tokens in between. After every revocation EVERY token of EVERY grant is compared with the model at userinfo, "
        "introspection and in the session record. Non-trivial: a revocation hit a token with descendants or a grant with tokens. "
        "Distinct: by the sequence of (operation, class and depth of target, number of tokens affected).")
MUST_OBSERVE = {"oracle:all-introspection-access_token-inactive": 500, "oracle:all-introspection-access_token-active": 500,
                "oracle:record-active": 2000, "oracle:record-inactive": 2000, "deep-revocations": 50, "many-grants": 8,
                "oracle:all-introspection-refresh_token-active": 300, "oracle:all-introspection-refresh_token-inactive": 300}
RULES = {AC: {"expires_in": 5000, "supports_minting": [AT, RT, IT], "max_usage": 1},
         AT: {"expires_in": 5000}, RT: {"expires_in": 86400, "supports_minting": [AT, RT, IT]}}


def run_case(rng, rep, i):
    kind = rng.choice(["oidc", "oidc", "oauth2"])
    w = World(kind, rep, usage_rules=RULES, token_handler=rng.choice(["default", "jwt"]), refresh_handler=rng.choice(["default", "jwt"]))
    for c in ("alpha", "alpha2"):
        w.add_client(c)
    s = Story(w, rep, rng)
    rep.sig(kind)
    nontrivial = False
    users = ["diana", "ziggy"] if rng.random() < 0.8 else ["a", "a;b"]
    if users[0] == "a":
        for u in users:
            w.users[u] = {"name": u}
    kw = {"issue_refresh": True}
    crowd = rng.random() < 0.04

    def direct(parent, cls):
        gr = w.sm[parent.grant.sid]
        r = w.call("mint %s from %r" % (cls, parent), gr.mint_token, session_id=parent.grant.sid, endpoint_context=w.ctx, token_class=cls,
                   token_handler=w.sm.token_handler[cls], based_on=gr.get_token(parent.value))
        if r.kind == "ok" and r.raw is not None:
            return s.add_token(r.raw.value, cls, parent.grant, parent, via="mint")
        return None

    def grow(n):
        for _ in range(n):
            op = rng.choice(["authz", "redeem", "redeem", "refresh", "refresh", "refresh", "mint", "mint"])
            if not s.grants or op == "authz":
                if len(s.grants) < 5:
                    g, r = s.authorize(rng.choice(users), rng.choice(["alpha", "alpha2"]), "read" if kind == "oauth2" else "openid",
                                       rt=rng.choice(["code", "code token"]))
                    if not rep.check(g is not None, "authorization-served", "authorization refused: %s" % r.brief()):
                        return
            elif op == "redeem":
                cs = [t for t in s.tokens if t.cls == AC and t.active()]
                if cs:
                    r, new = s.redeem(rng.choice(cs), **kw)
                    rep.check(r.ok, "active-code-served", "active code refused: %s" % r.brief())
            elif op == "refresh":
                rs = [t for t in s.tokens if t.cls == RT and t.active()]
                if rs:
                    t = rng.choice(rs[-3:])
                    r, new = s.refresh(t, **kw)
                    rep.check(r.ok, "active-refresh-served", "active %r refused: %s" % (t, r.brief()))
            elif op == "mint":
                ps = [t for t in s.tokens if t.cls in (AC, RT) and t.active()]
                if ps:
                    direct(rng.choice(ps), rng.choice([AT, RT]))

    def compare():
        for t in s.tokens:
            exp = t.active()
            rec = w.sm.find_token(t.grant.sid, t.value)
            got = rec is not None and rec.is_active() and w.sm[t.grant.sid].is_active()
            if exp is not None:
                rep.check(got == exp, "record-" + ("active" if exp else "inactive"),
                          "session record says active=%s for %r, the model says %s" % (got, t, exp), via=t.via)
            if t.cls in (AT, RT):
                s.probe(t, "all-")

    if crowd:
        # someone who is at the same place all the time
        rep.count("many-grants")
        u, c = rng.choice(users), rng.choice(["alpha", "alpha2"])
        for _ in range(rng.randrange(9, 24)):
            g, r = s.authorize(u, c, "read" if kind == "oauth2" else "openid", rt=rng.choice(["code", "code token"]))
            rep.check(g is not None, "authorization-served", "authorization refused: %s" % r.brief())
        ts = [t for t in s.tokens if t.cls == AC and t.active()]
        t = rng.choice(ts)
        for _ in range(rng.randrange(6, 24)):
            t = direct(t, RT) or t
    grow(rng.randrange(5, 12))
    for step in range(rng.randrange(2, 7)):
        if not s.tokens:
            break
        op = rng.choice(["sm", "sm", "sm-rec", "sm-rec", "sm-rec", "g-rec", "g-one", "g-parent", "g-all", "grant", "client"] + ["client"] * (8 if crowd else 0))
        inner = [t for t in s.tokens if t.children]
        t = rng.choice(inner if inner and rng.random() < 0.7 else s.tokens)
        g = t.grant
        n0 = sum(1 for x in s.tokens if x.active())
        gr = w.sm[g.sid]
        if op == "sm":
            s.revoke_token(t, False)
        elif op == "sm-rec":
            s.revoke_token(t, True)
        elif op == "g-rec":
            s.grant_revoke_token(t, True)
        elif op == "g-one":
            s.grant_revoke_token(t, False)
        elif op == "g-parent":
            rec = rng.random() < 0.7
            w.call("grant.revoke_token(based_on=%r,%s)" % (t, rec), gr.revoke_token, based_on=t.value, recursive=rec)
            for c in t.children:
                c.revoked = True
                if rec:
                    for d in c.descendants():
                        d.revoked = True
        elif op == "g-all":
            if rng.random() < 0.7:
                continue
            w.call("grant.revoke_token()", gr.revoke_token)
            for x in g.tokens:
                x.revoked = True
        elif op == "grant":
            s.revoke_grant(g)
        elif op == "client":
            s.revoke_client_session(g)
        hit = n0 - sum(1 for x in s.tokens if x.active())
        if hit > 1:
            nontrivial = True
        if t.children and op in ("sm-rec", "g-rec", "g-parent"):
            rep.count("deep-revocations")
        rep.sig(op, t.cls, t.depth(), hit, len(s.tokens))
        compare()
        # a revoked token stays revoked whatever happens next
        dead = [x for x in s.tokens if x.cls in (AC, RT) and x.active() is False]
        if dead:
            x = rng.choice(dead)
            if x.cls == RT:
                r = w.refresh(x.grant.client, x.value, **kw)
                rep.check(not r.ok, "revoked-refused", "revoked %r still served" % x, answer=r.brief())
            elif not x.used:
                r = w.redeem(x.grant.client, x.value, redirect_uri=x.grant.redirect_uri, **kw)
                rep.check(not r.ok, "revoked-refused", "revoked %r still served" % x, answer=r.brief())
        dead = [x for x in s.tokens if x.cls in (AC, RT) and x.active() is False]
        if dead:
            x = rng.choice(dead)
            rep.check(direct(x, AT) is None, "revoked-mints-nothing", "revoked or used up %r minted an access token" % x)
        if rng.random() < 0.5:
            grow(rng.randrange(1, 5))
            compare()
    if not nontrivial:
        rep.case_sig = []
