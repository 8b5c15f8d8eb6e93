"""C07: a token works exactly as long as it is active."""
from vlib.clock import CLOCK
from vlib.story import AC, AT, IT, RT, NEVER, Story
from vlib.world import World

CASES = {"quick": 900, "thorough": 40000}
RULE = ("One case is a random history on a fresh server with random token handlers, lifetimes, max_usage and grant lifetime: authorizations "
        "in every response type, redemptions, refreshes, replays, revocations at every level (token, token tree, grant, client session, "
        "session removal), logins after revocation and clock jumps to one second before and after every expiry. After every step "
        "random tokens are presented at userinfo, introspection and the token endpoint and each answer is compared with the reference "
        "model. Non-trivial: the history made at least one token inactive. Distinct: by the sequence of operations and verdicts.")
MUST_OBSERVE = {"oracle:record-active": 300, "oracle:record-inactive": 300, "oracle:userinfo-access_token-active": 500, "oracle:userinfo-access_token-inactive": 500,
                "oracle:introspection-access_token-active": 500, "oracle:introspection-access_token-inactive": 500,
                "oracle:introspection-refresh_token-active": 300, "oracle:introspection-refresh_token-inactive": 300,
                "oracle:token-endpoint-serves-active": 500, "oracle:token-endpoint-refuses-inactive": 500,
                "oracle:introspection-leak": 1000}
ASSUMPTIONS = ["the second in which a lifetime ends is not judged", "userinfo also requires the user's authentication to be valid (one hour)"]


def mk(rng, rep):
    kind = rng.choice(["oidc", "oidc", "oidc", "oauth2"])
    u = {AC: {"expires_in": rng.choice([60, 300, 700]), "supports_minting": [AT, RT, IT], "max_usage": 1},
         AT: {"expires_in": rng.choice([60, 600, 4000, -1])},
         RT: {"expires_in": rng.choice([600, 5000, 86400, -1]), "supports_minting": [AT, RT, IT]}}
    if rng.random() < 0.3:
        u[RT]["max_usage"] = rng.choice([1, 2, 3])
    for c in (AC, AT, RT):
        if rng.random() < 0.15:
            u[c].pop("expires_in")
    if rng.random() < 0.1:
        u[AT] = {}
    o = {"usage_rules": u, "grant_expires_in": rng.choice([43200, 43200, 900, 3000, None]),
         "code_handler": rng.choice(["default", "jwt"]), "token_handler": rng.choice(["default", "jwt"]),
         "refresh_handler": rng.choice(["default", "jwt"])}
    w = World(kind, rep, **o)
    w.add_client("alpha", keys=0)
    w.add_client("alpha2", keys=1)
    w.add_client("Alpha", token_usage_rules={AT: {"expires_in": 120}, RT: {"expires_in": 240}})
    return kind, o, w


def run_case(rng, rep, i):
    kind, o, w = mk(rng, rep)
    s = Story(w, rep, rng)
    rep.sig(kind, sorted((c, sorted((k, str(v)) for k, v in r.items())) for c, r in o["usage_rules"].items()), o["grant_expires_in"])
    died = False
    kw = {"issue_refresh": True}

    def authorize():
        user, cid = rng.choice(["diana", "ziggy"]), rng.choice(["alpha", "alpha2", "Alpha"])
        rts = ["code", "code", "code token"] + (["code id_token", "code id_token token", "id_token token"] if kind == "oidc" else ["token"])
        g, r = s.authorize(user, cid, "read" if kind == "oauth2" else rng.choice(["openid", "openid email"]), rt=rng.choice(rts))
        rep.check(g is not None, "authorization-served", "authorization refused: %s" % r.brief())
        rep.sig("authz", user, cid, r.outcome())
        return g

    def probe_random(n):
        ts = [t for t in s.tokens]
        for t in rng.sample(ts, min(n, len(ts))):
            got = s.probe(t)
            rep.sig("p", t.cls, got)
            exp = t.active()
            if exp is not None and not t.grant.removed and t.cls != IT:
                gr = w.sm[t.grant.sid]
                spec = gr.get_spec(gr.get_token(t.value))
                rep.check((spec is not None) == exp, "record-" + ("active" if exp else "inactive"), "the grant's specification of %r is %r, the model says it is %s" % (
                    t, spec, "active" if exp else "inactive"), revoked=t.revoked, grant=t.grant.active())

    for step in range(rng.randrange(10, 30)):
        op = rng.choice(["authz", "redeem", "redeem", "refresh", "refresh", "tick", "tick", "revoke", "replay", "tree"])
        if not s.grants:
            op = "authz"
        if op == "authz":
            if len(s.grants) < 5:
                authorize()
        elif op == "redeem":
            cs = [t for t in s.tokens if t.cls == AC and not t.used]
            if not cs:
                continue
            t = rng.choice(cs)
            exp = t.active()
            r, new = s.redeem(t, method=rng.choice(["post", "basic"]), **kw)
            rep.sig("redeem", exp, r.outcome())
            _judge(rep, t, exp, r)
        elif op == "refresh":
            rs = [t for t in s.tokens if t.cls == RT]
            if not rs:
                continue
            t = rng.choice(rs)
            exp = t.active()
            r, new = s.refresh(t, **kw)
            rep.sig("refresh", t.depth(), exp, r.outcome())
            _judge(rep, t, exp, r)
        elif op == "replay":
            cs = [t for t in s.tokens if t.cls == AC and t.used]
            if not cs:
                continue
            t = rng.choice(cs)
            inside = (t.exp is NEVER or CLOCK.t < t.exp) and t.grant.active() is True
            if not inside:
                continue
            r = w.redeem(t.grant.client, t.value, redirect_uri=t.grant.redirect_uri, **kw)
            rep.check(not r.ok, "token-endpoint-refuses-inactive", "%r served a second time" % t, answer=r.brief())
            if kind == "oidc":
                died = True
                for d in t.descendants():
                    d.revoked = True
        elif op == "tick":
            s.tick()
            rep.sig("tick")
        elif op == "revoke":
            if rng.random() < 0.4:
                continue
            what = rng.choice(["token", "token-rec", "gtoken", "grant", "client", "remove"])
            died = True
            if what in ("token", "token-rec", "gtoken"):
                ts = [t for t in s.tokens if not t.grant.removed]
                if not ts:
                    continue
                t = rng.choice(ts)
                if what == "gtoken":
                    s.grant_revoke_token(t, rng.random() < 0.5)
                else:
                    s.revoke_token(t, what == "token-rec")
                rep.sig(what, t.cls, t.depth())
            else:
                gs = [g for g in s.grants if not g.removed]
                if not gs:
                    continue
                g = rng.choice(gs)
                if what == "grant":
                    s.revoke_grant(g)
                elif what == "client":
                    s.revoke_client_session(g)
                    if rng.random() < 0.5 and len(s.grants) < 6:
                        # a new login at the same client starts afresh
                        g2, r = s.authorize(g.user, g.client, "read" if kind == "oauth2" else "openid")
                        if rep.check(g2 is not None, "authorization-served", "login after revocation refused: %s" % r.brief()):
                            r, new = s.redeem(g2.code, **kw)
                            _judge(rep, g2.code, True if g2.code.exp is NEVER or g2.code.exp > CLOCK.t else None, r)
                else:
                    s.remove_session(g)
                rep.sig(what)
        elif op == "tree":
            # every token of one grant at this moment
            g = rng.choice(s.grants)
            for t in g.tokens[-12:]:
                s.probe(t)
            rep.sig("tree", len(g.tokens))
            continue
        if s.tokens and rng.random() < 0.6:
            probe_random(2)
    # in the end all tokens die
    if s.tokens:
        probe_random(6)
        for t in s.tokens:
            died |= t.active() is False
    if not died:
        rep.case_sig = []


def _judge(rep, t, exp, r):
    if exp is True:
        rep.check(r.ok and "access_token" in r.data, "token-endpoint-serves-active", "active %r refused: %s" % (t, r.brief()),
                  age=CLOCK.t - t.iat)
    elif exp is False:
        rep.check(not r.ok and "access_token" not in r.data, "token-endpoint-refuses-inactive", "inactive %r served" % t,
                  age=CLOCK.t - t.iat, revoked=t.revoked, grant=t.grant.active(), answer=r.brief())
