"""C01: an authorization code buys tokens at most once."""
from vlib.clock import CLOCK
from vlib.story import AC, AT, RT, Story
from vlib.world import World

CASES = {"quick": 2400, "thorough": 60000}
RULE = ("One case is a random history over 1-3 sessions on a fresh server (OIDC or OAuth2, opaque or JWT codes): good and bad "
        "redemptions, batches of concurrent redemptions of one code whose parse and process steps are executed in a random "
        "order (optionally with refreshes and clock advances in between), refresh chains, replays. Non-trivial: at least one code "
        "was presented twice. Distinct: by the sequence of abstract operations and outcomes.")
MUST_OBSERVE = {"oracle:first-redemption-succeeds": 100, "oracle:at-most-one-success": 200,
                "oracle:replay-revokes-descendants": 50, "interleaved-batches": 100, "oracle:failed-presentation-yields-nothing": 100}
ASSUMPTIONS = ["steps of concurrent requests interleave at the boundary between Endpoint.parse_request and process_request, "
               "which is where an integrator's framework may switch; the library itself has no threads or awaits inside a step"]

CLIENTS = ["alpha", "alpha2", "Alpha"]
TOKEN_KEYS = ("access_token", "refresh_token", "id_token")


def mk(rng, rep):
    kind = rng.choice(["oidc", "oidc", "oidc", "oauth2"])
    o = {"code_handler": rng.choice(["default", "jwt"]), "refresh_handler": rng.choice(["default", "jwt"]),
         "token_handler": rng.choice(["default", "jwt"])}
    w = World(kind, rep, keys=0, **o)
    for c in CLIENTS:
        w.add_client(c, keys=0)
    # one redirect URI shared between clients, so that only the client binding differs
    for c in CLIENTS:
        w.ctx.cdb[c]["redirect_uris"].append(("https://shared.example.com/cb", {}))
    return kind, o, w


def run_case(rng, rep, i):
    kind, o, w = mk(rng, rep)
    s = Story(w, rep, rng)
    rep.sig(kind, o["code_handler"])
    succ = {}
    tainted = set()  # codes whose descendants' state is not determined by the statement

    def is_token(r):
        return any(k in r.data for k in TOKEN_KEYS)

    def presented(code, r, why):
        succ.setdefault(code.value, 0)
        if is_token(r) and r.kind != "error":
            succ[code.value] += 1
        rep.check(succ[code.value] <= 1, "at-most-one-success",
                  "code of %s was redeemed %d times (last: %s)" % (code.grant.label(), succ[code.value], why), last=r.brief())
        if not r.ok:
            rep.check(not is_token(r), "failed-presentation-yields-nothing", "error response carries tokens", answer=r.brief())

    def kwargs():
        k = {"method": rng.choice(["post", "basic", "private_key_jwt", "client_secret_jwt"])}
        if kind == "oauth2":
            k["issue_refresh"] = True
        elif rng.random() < 0.3:
            k["issue_refresh"] = rng.choice([True, False])
        return k

    nontrivial = False
    for n in range(rng.randrange(1, 4)):
        user, cid = rng.choice(["diana", "ziggy", "lemmy"]), rng.choice(CLIENTS)
        scope = "read" if kind == "oauth2" else rng.choice(["openid", "openid offline_access", "openid profile offline_access"])
        kw = {}
        if rng.random() < 0.5:
            kw["redirect_uri"] = "https://shared.example.com/cb"
        rts = ["code", "code token"] + (["code id_token", "code id_token token"] if kind == "oidc" else [])
        g, r = s.authorize(user, cid, scope, rt=rng.choice(rts), **kw)
        if not rep.check(g is not None and g.code is not None, "code-issued", "no code: %s" % r.brief()):
            return

    for step in range(rng.randrange(5, 14)):
        codes = [g.code for g in s.grants]
        code = rng.choice(codes)
        op = rng.choice(["good", "good", "bad", "bad", "batch", "batch", "replay", "refresh", "refresh", "tick", "probe"])
        if op == "good":
            exp = code.active()
            was = succ.get(code.value, 0)
            r, new = s.redeem(code, **kwargs())
            presented(code, r, "sequential")
            rep.sig("redeem", was, exp, r.outcome())
            if was:
                nontrivial = True
                code.used = 1
                _after_replay(s, rep, kind, code, r, tainted)
            elif exp is True:
                rep.check(r.ok and "access_token" in r.data, "first-redemption-succeeds",
                          "legitimate first redemption refused: %s" % r.brief())
            elif exp is False:
                rep.check(not r.ok, "late-redemption-refused", "expired code was redeemed", answer=r.brief())
        elif op == "replay":
            done = [c for c in codes if succ.get(c.value)]
            if not done:
                continue
            code = rng.choice(done)
            nontrivial = True
            r, new = s.redeem(code, **kwargs())
            presented(code, r, "replay")
            rep.sig("replay", r.outcome())
            _after_replay(s, rep, kind, code, r, tainted)
        elif op == "bad":
            was = succ.get(code.value, 0)
            how = rng.choice(["client", "uri", "secret", "gt"])
            g = code.grant
            if how == "client":
                other = rng.choice([c for c in CLIENTS if c != g.client])
                r, new = s.redeem(code, by=other, **kwargs())
            elif how == "uri":
                r, new = s.redeem(code, redirect_uri=g.redirect_uri + rng.choice(["/", "x", "?a=b"]), **kwargs())
            elif how == "secret":
                req = w.code_req(g.client, code.value, redirect_uri=g.redirect_uri)
                req["client_secret"] = "not the secret"
                r = w.do("token", req, {}, label="redeem")
            else:
                req, hi = w.with_auth(w.code_req(g.client, code.value, redirect_uri=g.redirect_uri, grant_type="refresh_token"), g.client)
                r = w.do("token", req, hi, label="redeem")
            presented(code, r, "bad " + how)
            rep.sig("bad", how, was, r.outcome())
            rep.check(not r.ok and not is_token(r), "bad-presentation-refused",
                      "presentation with wrong %s was served: %s" % (how, r.brief()))
            if was:
                tainted.add(code.value)
        elif op == "batch":
            # k requests in flight at the same time; their steps in random order
            k = rng.choice([2, 2, 3, 4])
            nontrivial = True
            rep.count("interleaved-batches")
            flights = []
            exp = code.active()
            before = succ.get(code.value, 0)
            foreign = False
            for f in range(k):
                by = code.grant.client
                if rng.random() < 0.15:
                    by = rng.choice(CLIENTS)
                    foreign |= by != code.grant.client
                kw = kwargs()
                req, hi = w.with_auth(w.code_req(by, code.value, redirect_uri=code.grant.redirect_uri), by, kw["method"])
                flights.append({"req": req, "hi": hi, "by": by, "pk": {x: kw[x] for x in kw if x == "issue_refresh"}, "st": 0})
            order = []
            got = None
            pending = list(range(k))
            while pending:
                f = rng.choice(pending)
                fl = flights[f]
                if fl["st"] == 0:
                    p, res = w.parse("token", fl["req"], fl["hi"])
                    fl["p"], fl["st"] = p, 1
                    order.append("p%d" % f)
                    if res is not None:
                        fl["res"] = res
                        pending.remove(f)
                else:
                    fl["res"] = w.process("token", fl["p"], fl["hi"], **fl["pk"])
                    order.append("x%d" % f)
                    pending.remove(f)
                if "res" in fl:
                    r = fl["res"]
                    w.log("redeem~%d" % f, fl["req"], r)
                    presented(code, r, "interleaved " + " ".join(order))
                    if r.ok:
                        rep.check(fl["by"] == code.grant.client, "bad-presentation-refused",
                                  "foreign client %s redeemed the code of %s" % (fl["by"], code.grant.client))
                        if got is None:
                            got = s.took(r, code, "code")
                elif rng.random() < 0.15:
                    rts = [t for t in s.tokens if t.cls == RT and t.active() and t.grant is not code.grant]
                    if rts:
                        s.refresh(rng.choice(rts))
            rep.sig("batch", k, before, exp, tuple(order), tuple(sorted(f["res"].outcome() for f in flights)))
            rep.count("steps-interleaved", len(order))
            if exp is True and not before and not foreign:
                rep.check(got is not None, "first-redemption-succeeds",
                          "no one of %d concurrent redemptions of a fresh code succeeded" % k,
                          outcomes=[f["res"].brief() for f in flights])
            # concurrent presentations may or may not count as replays
            tainted.add(code.value)
        elif op == "refresh":
            rts = [t for t in s.tokens if t.cls == RT and t.active() is True]
            if rts:
                t = rng.choice(rts)
                kw = {"issue_refresh": True} if kind == "oauth2" else {}
                r, new = s.refresh(t, **kw)
                rep.sig("refresh", t.depth(), r.outcome())
                if _root(t).value not in tainted:
                    rep.check(r.ok, "refresh-of-live-token", "refresh refused: %s" % r.brief())
        elif op == "tick":
            s.tick()
            rep.sig("tick")
        elif op == "probe":
            ts = [t for t in s.tokens if t.cls in (AT, RT) and _root(t).value not in tainted]
            if ts:
                s.probe(rng.choice(ts), "other-")
    if not nontrivial:
        rep.case_sig = []


def _root(t):
    while t.parent is not None:
        t = t.parent
    return t


def _after_replay(s, rep, kind, code, r, tainted):
    rep.check(not r.ok, "replay-refused", "second presentation of a code was served", answer=r.brief())
    if kind != "oidc" or not (code.exp is None or CLOCK.t < code.exp) or code.grant.active() is not True:
        tainted.add(code.value)
        return
    for d in code.descendants():
        d.revoked = True
    tainted.discard(code.value)
    for d in code.descendants():
        if d.cls == AT:
            ok, u = s.userinfo_ok(d.value)
            rep.check(not ok, "replay-revokes-descendants", "access token at depth %d still works at userinfo after replay of its code" % d.depth(),
                      answer=u.brief())
        if d.cls in (AT, RT):
            act, u = s.introspect_active(d.value, d.grant.client)
            rep.check(not act, "replay-revokes-descendants", "%r still active after replay of its code" % d, answer=u.brief())
        if d.cls == RT:
            rr = s.w.refresh(d.grant.client, d.value)
            rep.check(not rr.ok, "replay-revokes-descendants", "%r still refreshes after replay of its code" % d, answer=rr.brief())
    # and nothing else
    for t in s.tokens:
        if t.cls == AT and t.grant is not code.grant and _root(t).value not in tainted:
            s.probe(t, "other-")
