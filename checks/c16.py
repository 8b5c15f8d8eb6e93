"""C16: a server that is dumped and loaded at any point behaves as if that never happened."""
import copy
import json

from vlib.clock import CLOCK
from vlib.world import World, peek

CASES = {"quick": 160, "thorough": 5000}
CLIENT_KEYS = 2
RULE = ("One case: a random sequence of 25-45 operations (authorizations with and without cookies, redemptions, refreshes, userinfo, introspection, revocations, "
        "removals, pushed requests, client assertions fresh and replayed, dynamic registrations and use of them, clock advances) performed on two servers: one "
        "runs undisturbed, the other is dumped at random points (about one in four), passed through JSON and loaded into a fresh server of the same configuration "
        "(or flushed and loaded into itself). Every answer, abstracted from random values by order of first appearance, is compared. Distinct: by operation sequence.")
MUST_OBSERVE = {"oracle:same-answer": 4000, "oracle:same-dump": 700, "oracle:dump-untouched": 700, "mode:context": 300, "mode:session": 150, "mode:same": 150,
                "op:authorize": 500, "op:redeem": 300, "op:refresh": 100, "op:userinfo": 100, "op:introspect": 100, "op:push": 50, "op:use-push": 30, "op:assertion": 50,
                "op:replay-assertion": 30, "op:register": 50, "op:use-registered": 20, "op:read-registered": 20, "op:revoke-token": 40, "op:revoke-client": 20,
                "op:remove": 20, "op:prompt-none": 50, "op:end-session": 30, "refused-somewhere": 300}

RANDOM = {"code", "access_token", "refresh_token", "request_uri", "client_secret", "registration_access_token", "jti", "sid", "at_hash", "c_hash", "url", "registration_client_uri"}
UIDS = ["diana", "ziggy", "lemmy"]


class Side:
    def __init__(self, kind, opts, mode, rep=None, path=None):
        self.kind, self.opts, self.mode = kind, opts, mode
        self.w = World(kind, rep, path=path, **copy.deepcopy(opts)) if path else World(kind, rep, **copy.deepcopy(opts))
        clients(self.w)
        self.codes, self.ats, self.rts, self.idts, self.sids, self.pars, self.assertions, self.regs, self.cookies = [], [], [], [], [], [], [], [], {}
        self.names = {}

    def canon(self, k, v):
        if isinstance(v, str) and (k in RANDOM or k == "sub" and "conf_patch" in self.opts):
            return "<%d>" % self.names.setdefault(v, len(self.names))
        if k == "id_token" and isinstance(v, str):
            return self.canon("it", peek(v))
        if isinstance(v, dict):
            return tuple(sorted((a, self.canon(a, b)) for a, b in v.items()))
        if isinstance(v, (list, tuple)):
            return tuple(self.canon(k, x) for x in v)
        if isinstance(v, str) and (v in self.names or k in ("client_id", "sub", "aud") and len(v) > 12 and len(v) < 40):
            # ids that are random on dynamic registration, ephemeral subjects
            return "<%d>" % self.names.setdefault(v, len(self.names))
        if k == "scope" and isinstance(v, str):
            return tuple(sorted(v.split()))
        return repr(v)

    def see(self, r):
        """what the peer learns"""
        out = [r.outcome()]
        out.append(self.canon("data", {k: v for k, v in r.data.items() if k not in ("error_description",)}))
        if r.get("access_token") and self.opts.get("token_handler") == "jwt":
            p = peek(r.get("access_token"))
            out.append(self.canon("payload", {k: v for k, v in p.items()}))
        out.append((r.mode, len(r.cookies)))
        return tuple(out)

    def took(self, r, cid):
        if r.get("code"):
            self.codes.append((cid, r.get("code")))
        if r.get("access_token"):
            self.ats.append((cid, r.get("access_token")))
        if r.get("refresh_token"):
            self.rts.append((cid, r.get("refresh_token")))
        if r.get("id_token"):
            self.idts.append((cid, r.get("id_token")))

    # ---------------------------------------------------------------- migration
    def migrate(self, rep, mode):
        rep.count("mode:" + mode)
        w = self.w
        if mode == "same":
            state = w.sm.dump()
            text = json.dumps(state)
            w.sm.flush()
            spec = json.loads(text)
            w.sm.load(spec)
            again = w.sm.dump()
        else:
            n = World(self.kind, None, path=w.path, **copy.deepcopy(self.opts))
            n.secrets, n.client_keys, n.nstate, n._hist = w.secrets, w.client_keys, w.nstate, w._hist
            n.users = w.users
            if n.ctx.userinfo is not None:
                n.ctx.userinfo.db = n.users
            n.authn_method().user = w.authn_method().user
            if mode == "session":
                clients(n)
                text = json.dumps(w.sm.dump())
                spec = json.loads(text)
                n.sm.load(spec, init_args={"server_get": n.server.server_get, "handler": n.sm.token_handler})
                again = n.sm.dump()
            else:
                text = json.dumps(w.ctx.dump())
                spec = json.loads(text)
                n.ctx.load(spec, init_args={"server_get": n.server.server_get, "handler": n.ctx.session_manager.token_handler})
                n.sm = n.ctx.session_manager
                again = n.ctx.dump()
            self.w = n
        raw = text
        text = plain(json.loads(text))
        a2 = plain(again)
        rep.check(a2 == text, "same-dump", "dumping after loading (%s) gives another state: %s" % (mode, diff(json.loads(text), json.loads(a2))))
        before = json.loads(raw)
        for x in (before, spec):
            x.pop("keyjar", None)  # cryptojwt's KeyJar.load consumes what it is given
        rep.check(spec == before, "dump-untouched", "loading (%s) changed the dumped object: %s" % (mode, diff(before, spec)))


def plain(state):
    """as text, without what cryptojwt's KeyJar keeps about fetching (and changes while loading)"""
    s = json.loads(json.dumps(state))
    for iss in (s.get("keyjar") or {}).get("issuers", {}).values():
        for b in iss.get("bundles", []):
            b.pop("last_updated", None)
            for k in b.get("keys", []):
                k.pop("inactive_since", None)
                if k.get("use") in (None, ""):
                    k.pop("use", None)
    return json.dumps(s, sort_keys=True)


def diff(a, b, p=""):
    if type(a) is not type(b):
        return "%s: %r -> %r" % (p, a, b)
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return "%s/%s only in %s" % (p, k, "first" if k in a else "second")
            d = diff(a[k], b[k], p + "/" + k[:40])
            if d:
                return d
    elif isinstance(a, list):
        if len(a) != len(b):
            return "%s: length %d -> %d" % (p, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, p + "/%d" % i)
            if d:
                return d
    elif a != b:
        return "%s: %r -> %r" % (p, a, b)
    return None


def clients(w):
    w.add_client("alpha", revoke_refresh_on_issue=True)
    w.add_client("alpha2", keys=0, subject_type="pairwise", token_endpoint_auth_method="private_key_jwt")
    w.add_client("Alpha", keys=1, subject_type="ephemeral", redirect_uris=[("https://gamma.example.com/cb", {"a": ["b"]})],
                 token_usage_rules={"access_token": {"expires_in": 50}, "refresh_token": {"supports_minting": ["access_token"], "max_usage": 3}})


def run_case(rng, rep, i):
    kind = rng.choice(["oidc", "oidc", "oidc", "oauth2"])
    mode = rng.choice(["context", "context", "session", "same"])
    opts = {"token_handler": rng.choice(["jwt", "default"]), "code_handler": rng.choice(["default", "jwt"]), "refresh_handler": rng.choice(["default", "jwt"]),
            "par": True, "grant_expires_in": rng.choice([43200, 900])}
    if rng.random() < 0.3:
        def patch(conf):
            conf.pop("session_params")
        opts["conf_patch"] = patch
    if rng.random() < 0.4:
        opts["add_on"] = {"pkce": {"function": "oidcop.oidc.add_on.pkce.add_pkce_support", "kwargs": {"essential": False}}}
    if rng.random() < 0.3:
        opts.setdefault("add_on", {})["extra"] = {"function": "oidcop.oauth2.add_on.extra_args.add_support", "kwargs": {"authorization": {"iss": "issuer"}}}
    if rng.random() < 0.3 and kind == "oidc":
        opts["login_hint_lookup"] = {"class": "oidcop.login_hint.LoginHintLookup", "kwargs": {}}
        opts["login_hint2acrs"] = {"class": "oidcop.login_hint.LoginHint2Acrs", "kwargs": {"scheme_map": {"email": ["a"]}}}
    if rng.random() < 0.3 and kind == "oidc":
        opts["scopes_to_claims"] = {"openid": ["sub"], "profile": ["name"], "special": ["tier"], "offline_access": []}
    A = Side(kind, opts, mode, rep=rep)
    T = Side(kind, opts, mode, path=A.w.path)
    fresh = mode == "session"  # only the session manager goes along
    tr = [(kind, mode), tuple(sorted((k, str(v)) for k, v in opts.items() if k != "conf_patch"))]
    ops = ["authorize"] * 4 + ["redeem"] * 4 + ["refresh"] * 4 + ["userinfo", "introspect", "introspect", "userinfo", "tick", "tick", "revoke-token", "revoke-grant",
                                                                 "revoke-client", "remove", "prompt-none", "reauthorize", "replay", "pkce"]
    if not fresh:
        ops += ["push", "use-push", "assertion", "replay-assertion", "register", "use-registered", "read-registered", "end-session"]
    n = rng.randrange(25, 46)
    for step in range(n):
        k = rng.choice(ops)
        same = rng.random() < 0.5
        if tr[-1] != "M" and len(tr[-1]) == 2 and tr[-1][1] == "ok" and rng.random() < 0.4:
            k, same = {"redeem": ("refresh", True), "refresh": (rng.choice(["introspect", "userinfo", "refresh"]), True)}.get(tr[-1][0], (k, same))
        if kind == "oauth2" and k in ("userinfo", "register", "use-registered", "read-registered", "end-session"):
            k = "introspect"
        user, cid = rng.choice(UIDS), rng.choice(["alpha", "alpha2", "Alpha"])
        br = rng.choice(["b1", "b2"])
        pick = rng.randrange(10 ** 6)
        rt = rng.choice(["code", "code", "code id_token token", "id_token", "token"] if kind == "oidc" else ["code", "code", "token", "code token"])
        scope = rng.choice(["openid profile offline_access", "openid offline_access", "openid email special"] if kind == "oidc" else ["read", "read write"])
        extra = {"prompt": "consent"} if "offline" in scope else {}
        if rng.random() < 0.2 and kind == "oidc":
            extra["claims"] = {"userinfo": {"nickname": None}, "id_token": {"email": {"essential": True}}}
        if rng.random() < 0.2:
            extra["state"] = rng.choice(["s s", "\u00e5"])
        method = {"alpha2": "private_key_jwt"}.get(cid, "post")
        dt = rng.choice([1, 20, 60, 200, 700, 4000])
        issue = rng.random() < 0.5
        narrow = rng.choice([None, None, ["openid"], ["openid", "offline_access"], ["openid", "profile"]] if kind == "oidc" else [None, ["read"], ["write"]])

        rng_lst = [lambda S: S.ats, lambda S: S.rts]

        def one(S):
            w = S.w
            sm = w.sm

            def choose(lst):
                return lst[pick % len(lst)] if lst else None

            def auth(**kw):
                req = w.areq(cid, response_type=rt, scope=scope, **dict(extra, **kw))
                jar = [c for c in S.cookies.get(br, []) if c["name"] == "oidc_op"] if same else None
                r = w.authorize(req, user, cookies=jar)
                if r.ok and r.kind == "redirect":
                    S.took(r, cid)
                    if r.sid:
                        S.sids.append(r.sid)
                    if r.cookies:
                        S.cookies[br] = r.cookies
                return r
            if k == "authorize":
                return S.see(auth())
            if k == "pkce":
                r = auth(code_challenge="abc" * 15, code_challenge_method="plain")
                code = r.get("code")
                out = S.see(r)
                if code:
                    t = w.redeem(cid, code, method, code_verifier="abc" * 15 if issue else "x" * 45)
                    S.took(t, cid)
                    out += S.see(t)
                return out
            if k == "reauthorize":
                req = w.areq(cid, response_type="code", scope="openid" if kind == "oidc" else "read", state="again", nonce="again" if kind == "oidc" else None)
                jar = [c for c in S.cookies.get(br, []) if c["name"] == "oidc_op"]
                r = w.authorize(req, user, cookies=jar)
                if r.ok and r.kind == "redirect":
                    S.took(r, cid)
                    S.cookies[br] = r.cookies or S.cookies.get(br, [])
                return S.see(r)
            if k == "prompt-none":
                m = w.authn_method()
                jar = [c for c in S.cookies.get(br, []) if c["name"] == "oidc_op"] if same else None
                req = w.areq(cid, prompt="none", **({"id_token_hint": choose(S.idts)[1]} if issue and S.idts and kind == "oidc" else {}))
                r = w.authorize(req, user, cookies=jar)
                if r.ok and r.kind == "redirect":
                    S.took(r, cid)
                return S.see(r)
            if k in ("redeem", "replay"):
                c = choose(S.codes) if k == "replay" else (S.codes[-1] if S.codes else None)
                if c is None:
                    return ("nothing",)
                m = {"alpha2": "private_key_jwt"}.get(c[0], "post")
                r = w.redeem(c[0], c[1], m, issue_refresh=issue)
                if r.ok:
                    S.took(r, c[0])
                return S.see(r)
            if k == "refresh":
                c = S.rts[-1] if S.rts and same else choose(S.rts)
                if c is None:
                    return ("nothing",)
                r = w.refresh(c[0], c[1], scope=narrow, method={"alpha2": "private_key_jwt"}.get(c[0], "post"), issue_refresh=issue)
                if r.ok:
                    rep.count("narrowed") if narrow else None
                    S.took(r, c[0])
                return S.see(r)
            if k == "userinfo":
                c = S.ats[-1] if S.ats and same else choose(S.ats)
                return S.see(w.userinfo(c[1])) if c else ("nothing",)
            if k == "introspect":
                c = (rng_lst[pick % 2](S) or [None])[-1] if same else choose(S.ats + S.rts)
                return S.see(w.introspect(c[1], rng_cid)) if c else ("nothing",)
            if k == "revoke-token":
                c = choose(S.ats + S.rts + S.codes)
                if c is None:
                    return ("nothing",)
                r = w.call("revoke_token", lambda: sm.revoke_token(sm.get_session_info_by_token(c[1])["session_id"], c[1], recursive=issue))
                return (r.outcome(),)
            if k in ("revoke-grant", "revoke-client", "remove"):
                sid = choose(S.sids)
                if sid is None:
                    return ("nothing",)
                f = {"revoke-grant": sm.revoke_grant, "revoke-client": sm.revoke_client_session, "remove": sm.remove_session}[k]
                return (w.call(k, f, sid).outcome(),)
            if k == "push":
                req, hi = w.with_auth(w.areq(cid, response_type=rt, scope=scope, **extra), cid, "post")
                r = w.do("pushed_authorization", req, hi)
                if r.ok:
                    S.pars.append((cid, r.get("request_uri")))
                return S.see(r)
            if k == "use-push":
                c = choose(S.pars)
                if c is None:
                    return ("nothing",)
                r = w.authorize({"client_id": c[0], "request_uri": c[1], "response_type": "code", "scope": "openid", "redirect_uri": w.redirect_uri(c[0])}, user)
                if r.ok and r.kind == "redirect":
                    S.took(r, c[0])
                return S.see(r)
            if k == "assertion":
                a = w.assertion("alpha2", jti="j%d" % step)
                S.assertions.append(a)
                return S.see(w.do("token", {"grant_type": "authorization_code", "code": (choose(S.codes) or ("", "x"))[1], "redirect_uri": w.redirect_uri("alpha2"),
                                            "client_assertion": a, "client_assertion_type": "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"}))
            if k == "replay-assertion":
                a = choose(S.assertions)
                if a is None:
                    return ("nothing",)
                c = [x for x in S.codes if x[0] == "alpha2"]
                r = w.do("token", {"grant_type": "authorization_code", "code": c[-1][1] if c else "x", "redirect_uri": w.redirect_uri("alpha2"),
                                   "client_assertion": a, "client_assertion_type": "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"})
                return S.see(r)
            if k == "register":
                m = {"redirect_uris": ["https://dyn%d.example.com/cb" % step] + (["https://dyn%d.example.com/cb2?x=y" % step] if same else []),
                     "response_types": ["code"], "client_name": "dyn%d" % step}
                r = w.do("registration", m)
                if r.ok:
                    S.regs.append((r.get("client_id"), r.get("client_secret"), r.get("registration_access_token"), m["redirect_uris"][-1]))
                return S.see(r)
            if k == "use-registered":
                g = choose(S.regs)
                if g is None:
                    return ("nothing",)
                w.secrets[g[0]] = g[1]
                r = w.authorize({"client_id": g[0], "redirect_uri": g[3], "response_type": "code", "scope": "openid", "state": "x", "nonce": "n%d" % step}, user)
                out = S.see(r)
                if r.get("code"):
                    t = w.redeem(g[0], r.get("code"), "basic", redirect_uri=g[3])
                    if t.ok:
                        S.took(t, g[0])
                    out += S.see(t)
                return out
            if k == "read-registered":
                g = choose(S.regs)
                if g is None:
                    return ("nothing",)
                r = w.do("registration_read", "client_id=" + g[0], {"headers": {"authorization": "Bearer " + (g[2] if issue else S.regs[0][2])}})
                return S.see(r)
            if k == "end-session":
                h = choose(S.idts)
                if h is None:
                    return ("nothing",)
                r = w.do("session", {"id_token_hint": h[1]}, {"cookie": S.cookies.get(br, [])})
                return (r.outcome(), r.kind)
            return ("nothing",)

        if k == "tick":
            if rng.random() < 0.6:
                CLOCK.advance(dt)
            tr.append((k, dt))
        else:
            rng_cid = rng.choice(["alpha", "Alpha"])
            a = one(A)
            b = one(T)
            rep.count("op:" + k) if a != ("nothing",) else None
            rep.count("%s:%s" % (k, a[0]))
            if "error" in str(a[0]) or "exc" in str(a[0]) or "err" in str(a[0]):
                rep.count("refused-somewhere")
            tr.append((k, a[0]))
            if not rep.check(a == b, "same-answer", "%s answered differently after dump and load (%s): %s" % (k, mode, pair(a, b))):
                return
        if rng.random() < 0.27:
            m = mode if mode != "context" or rng.random() < 0.8 else "same"
            T.migrate(rep, m)
            M = tr.pop() if rng.random() < 0.5 else None
            tr.append("M")
            if M is not None:
                tr.append(M)  # what comes next goes on from there
    rep.sig(*tr)


def pair(a, b):
    def j(x):
        if isinstance(x, tuple):
            if x and all(isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], str) for y in x):
                return {k: j(v) for k, v in x}
            return [j(y) for y in x]
        return x
    return diff(j(a), j(b))
