"""C27: serving requests changes neither configuration nor another server."""
import copy
import json
import os

from oidcop.exception import NoSuchAuthentication

from vlib.clock import CLOCK
from vlib.driver import Driver, isolated
from vlib.world import ALL_RT, ALL_RT_OAUTH2, START, USERS, World, mkconf, tmpdir

CASES = {"quick": 160, "thorough": 6000}
RULE = ("Two kinds of case, everything in child processes of its own. history: a probe (for every client authorization with several scopes, claims and response "
        "types, redemption, userinfo, introspection, refresh, registration, discovery, logout) is answered by a fresh server; another one serves a generated "
        "history of 40-90 operations (valid, refused, registrations, logouts, revocations, malformed) and then the same probe, after it a third server built "
        "from the very same configuration object serves it too: answers (random values and times normalised), client and user data, configuration and "
        "discovery are compared. pair: two servers (separate configurations, or one dictionary copied with another issuer) serve two generated scripts "
        "merged in time; each has to answer as when it is alone, and everything one of them issued is presented to the other. Distinct: by options and scripts.")
MUST_OBSERVE = {"oracle:same-answer": 3000, "oracle:same-answer-rebuilt": 3000, "oracle:client-data": 100, "oracle:user-data": 50, "oracle:configuration": 150,
                "oracle:discovery": 50, "oracle:alone": 2500, "oracle:foreign-access-token": 200, "oracle:foreign-code": 100, "oracle:foreign-refresh": 40,
                "oracle:foreign-cookie": 60, "oracle:foreign-session": 100, "oracle:foreign-hint": 60, "oracle:foreign-client": 40, "oracle:foreign-registration": 40,
                "kind:history": 60, "kind:pair": 60, "plain": 40, "served": 2000}
CLIENT_KEYS = 3
RULES = {
    "authorization_code": {"expires_in": 300, "supports_minting": ["access_token", "refresh_token", "id_token"], "max_usage": 1},
    "access_token": {"expires_in": 600},
    "refresh_token": {"expires_in": 86400, "supports_minting": ["access_token", "refresh_token", "id_token"]},
}
SCOPES = ["openid", "openid profile", "openid email offline_access", "openid address phone", "openid profile email address research", "openid offline_access read"]
CLAIMS = [None, None, {"userinfo": {"nickname": None, "email": {"essential": True}}}, {"id_token": {"given_name": None, "auth_time": {"essential": True}}},
          {"userinfo": {"tier": {"value": "gold"}}, "id_token": {"acr": None, "email": None}}]
S2C = {"openid": ["sub"], "profile": ["name", "nickname"], "email": ["email", "email_verified"], "research": ["eduperson_scoped_affiliation", "tier"],
       "offline_access": [], "read": []}


def options(rng):
    kind = "oidc" if rng.random() < 0.8 else "oauth2"
    o = {"kind": kind, "token_handler": rng.choice(["jwt", "default"]), "refresh_handler": rng.choice(["jwt", "default"]), "code_handler": rng.choice(["jwt", "default"])}
    if rng.random() < 0.5:
        r = copy.deepcopy(RULES)
        if rng.random() < 0.5:
            r["access_token"] = {"expires_in": rng.choice([60, 3000]), "max_usage": rng.choice([1, 2, 5])}
        if rng.random() < 0.3:
            r["refresh_token"]["max_usage"] = rng.choice([1, 3])
        if rng.random() < 0.3:
            del r["authorization_code"]["expires_in"]
        o["usage_rules"] = r
    elif rng.random() < 0.3:
        o["usage_rules"] = None
    for k in ("userinfo_kwargs", "id_token_kwargs", "access_token_kwargs", "introspection_kwargs"):
        if kind == "oauth2" and k in ("userinfo_kwargs", "id_token_kwargs") or rng.random() < 0.4:
            continue
        d = {}
        if rng.random() < 0.5:
            d["add_claims_by_scope"] = rng.random() < 0.7
        if rng.random() < 0.5:
            d["enable_claims_per_client"] = True
        if rng.random() < 0.5:
            d["base_claims"] = rng.choice([{"tier": None}, {"email": None, "email_verified": None}, {"given_name": {"essential": True}}])
        if rng.random() < 0.3:
            d["always_add_claims"] = rng.choice([["nickname"], {"tier": None}])
        if k == "access_token_kwargs" and o["token_handler"] != "jwt":
            continue
        o[k] = d
    cap = {}
    if kind == "oidc" and rng.random() < 0.5:
        cap["scopes_supported"] = rng.choice([["openid", "profile", "email", "offline_access"], ["openid", "profile", "email", "address", "phone", "offline_access", "research", "read"]])
    if rng.random() < 0.3:
        cap["response_types_supported"] = list(ALL_RT if kind == "oidc" else ALL_RT_OAUTH2)
    o["capabilities"] = cap
    if rng.random() < 0.4:
        o["scopes_to_claims"] = S2C
    if rng.random() < 0.3:
        o["allowed_scopes"] = ["openid", "profile", "email", "research", "offline_access", "read"]
    ao = {}
    if rng.random() < 0.3:
        ao["pkce"] = {"function": "oidcop.oidc.add_on.pkce.add_pkce_support", "kwargs": {"essential": False, "code_challenge_method": "S256 S384"}}
    if rng.random() < 0.25:
        ao["dpop"] = {"function": "oidcop.oauth2.add_on.dpop.add_support", "kwargs": {"dpop_signing_alg_values_supported": ["ES256"]}}
    if kind == "oidc" and rng.random() < 0.3:
        ao["scopes"] = {"function": "oidcop.oidc.add_on.custom_scopes.add_custom_scopes", "kwargs": {"research": ["tier", "nickname"], "email": ["email"]}}
    if rng.random() < 0.25:
        ao["extra"] = {"function": "oidcop.oauth2.add_on.extra_args.add_support", "kwargs": {"authorization": {"op": "issuer"}, "token": {}}}
    if ao:
        o["add_on"] = ao
    if rng.random() < 0.5:
        o["par"] = True
    if rng.random() < 0.3:
        o["session_params"] = {"password": "pw%d" % rng.randrange(3), "salt": "s", "sub_func": {
            "public": {"class": "oidcop.session.manager.PublicID", "kwargs": {"salt": rng.choice(["x", "y"])}},
            "pairwise": {"class": "oidcop.session.manager.PairWiseID", "kwargs": {"salt": rng.choice(["x", "y"])}}}}
    if rng.random() < 0.3:
        o["grant_expires_in"] = rng.choice([500, 5000])
    return o


def client_meta(rng, o, n):
    m = {}
    if rng.random() < 0.4:
        m["token_usage_rules"] = rng.choice([{"access_token": {"expires_in": 111}}, {"refresh_token": {"expires_in": 2000}, "authorization_code": {"expires_in": 90}},
                                             {"access_token": {"max_usage": 2}}, {"refresh_token": {}}, {"authorization_code": {"supports_minting": ["access_token", "id_token"]}}])
    if rng.random() < 0.4:
        m["add_claims"] = {"always": rng.choice([{}, {"userinfo": ["tier"]}, {"id_token": {"nickname": None}, "access_token": ["email"]}, {"introspection": ["name"]}]),
                           "by_scope": rng.choice([{}, {"userinfo": True, "id_token": True}, {"userinfo": False, "access_token": True}, {"introspection": True}])}
    if rng.random() < 0.25:
        m["scopes_to_claims"] = {"openid": ["sub"], "profile": ["gender", "birthdate"], "email": ["email"], "offline_access": []}
    if rng.random() < 0.25:
        m["allowed_scopes"] = ["openid", "profile", "offline_access", "read"]
    if rng.random() < 0.3:
        m["id_token_signed_response_alg"] = rng.choice(["RS256", "ES256", "ES384"])
    if rng.random() < 0.2:
        m["userinfo_signed_response_alg"] = rng.choice(["RS256", "ES256"])
    if rng.random() < 0.2:
        m["subject_type"] = rng.choice(["pairwise", "public"])
        m["sector_identifier_uri"] = "https://sector.example.com/%d" % n
    if rng.random() < 0.3:
        m["redirect_uris"] = [("https://c%d.example.com/cb" % n, {"foo": ["bar"]}), ("https://c%d.example.com/cb2" % n, {})]
    if rng.random() < 0.3:
        m["post_logout_redirect_uri"] = ["https://c%d.example.com/bye" % n, ""]
    if rng.random() < 0.3:
        m["backchannel_logout_uri"] = "https://c%d.example.com/bc" % n
    if rng.random() < 0.2:
        m["frontchannel_logout_uri"] = "https://c%d.example.com/fc" % n
    if rng.random() < 0.2:
        m["grant_types_supported"] = ["authorization_code", "implicit", "refresh_token"]
    return m


class Answering:
    """clients that take every message"""

    def __call__(self, method, url, **kw):
        class R:
            status_code = 200
            text = ""
            headers = {}
        return R()

    def post(self, url, **kw):
        return self("POST", url)

    def get(self, url, **kw):
        raise ConnectionError(url)


def server(spec, rep=None, conf=None):
    o = copy.deepcopy(spec["opts"])
    kind = o.pop("kind")
    if conf is not None:
        o["conf"] = conf
    w = World(kind, rep, keys=spec["keys"], path=spec.get("path"), plain=spec["plain"], issuer=spec["issuer"], pw=spec["pw"], httpc=Answering(), users=copy.deepcopy(spec["users"]), **o)
    w.ctx.httpc = Answering()
    for n, (c, m) in enumerate(spec["clients"]):
        w.add_client(c, keys=n, **m)
    return w


def spec_of(rng, name, tag, opts=None):
    users = copy.deepcopy(USERS)
    return {"opts": opts or options(rng), "keys": 0, "plain": rng.random() < 0.5, "issuer": "https://%s.example.org" % name, "pw": name, "users": users,
            "clients": [("c%d" % n, None) for n in range(rng.randrange(2, 4))], "tag": tag}


def fill(rng, spec):
    spec["clients"] = [(c, client_meta(rng, spec["opts"], n)) for n, (c, _) in enumerate(spec["clients"])]
    return spec


REG = [{"redirect_uris": ["https://new.example.net/cb"], "response_types": ["code"]},
       {"redirect_uris": ["https://new.example.net/cb", "https://new.example.net/cb2?x=y"], "response_types": ["code", "code id_token"], "subject_type": "public",
        "id_token_signed_response_alg": "ES256", "client_name": "N"},
       {"redirect_uris": ["https://new.example.net/cb#frag"]}, {"redirect_uris": []}, {"response_types": ["code"]},
       {"redirect_uris": ["https://new.example.net/cb"], "id_token_signed_response_alg": "XX1"},
       {"redirect_uris": ["https://new.example.net/cb"], "subject_type": "pairwise", "grant_types": ["authorization_code"]}]


def gen(rng, spec, n):
    """n abstract operations"""
    kind = spec["opts"]["kind"]
    cl = [c for c, _ in spec["clients"]]
    us = sorted(spec["users"])
    rts = ALL_RT if kind == "oidc" else ALL_RT_OAUTH2
    ops = []
    kinds = ["authz"] * 6 + ["redeem"] * 5 + ["refresh"] * 3 + ["userinfo"] * 4 + ["introspect"] * 2 + ["logout", "register", "register", "read_registration", "dyn_login",
             "push", "pushed", "discovery", "webfinger", "api", "create", "bad", "bad"]
    for _ in range(n):
        k = rng.choice(kinds)
        op = {"op": k, "client": rng.choice(cl), "user": rng.choice(us), "k": rng.choice([-1, -1, -1, rng.randrange(1000)])}
        if k in ("authz", "push", "dyn_login"):
            kw = {"scope": rng.choice(SCOPES) if kind == "oidc" else rng.choice(["read", "read write", "openid profile"]), "response_type": rng.choice(["code", "code", rng.choice(rts)])}
            if "offline_access" in kw["scope"]:
                kw["prompt"] = "consent"
            c = rng.choice(CLAIMS)
            if c and kind == "oidc":
                kw["claims"] = copy.deepcopy(c)
            if rng.random() < 0.1:
                kw["redirect_uri"] = rng.choice(["https://evil.example/cb", "https://c0.example.com/cb", None])
            if rng.random() < 0.1:
                kw["response_mode"] = rng.choice(["form_post", "fragment", "query"])
            if rng.random() < 0.1:
                kw["max_age"] = rng.choice(["0", "1000"])
            if k == "dyn_login":
                kw["response_type"], kw["redirect_uri"] = "code", "https://new.example.net/cb"
            op["kw"] = kw
            if rng.random() < 0.4:
                op["cookie"] = rng.randrange(1000)
        elif k in ("redeem", "refresh"):
            op["method"] = rng.choice(["post", "basic", "client_secret_jwt", "private_key_jwt"]) if rng.random() < 0.6 else "post"
            if rng.random() < 0.1:
                op["by"] = rng.choice(cl)
                op["method"] = "post"
            if k == "redeem" and rng.random() < 0.1:
                op["kw"] = {"redirect_uri": "https://evil.example/cb"}
            if k == "refresh" and rng.random() < 0.3:
                op["scope"] = rng.choice(["openid", "openid profile", "openid admin"])
        elif k == "userinfo":
            op["how"] = rng.choice(["header", "body"])
        elif k == "introspect":
            op["what"] = rng.choice(["ats", "ats", "rts", "codes", "idts"])
        elif k == "logout":
            op.update(hint=rng.random() < 0.8, with_cookie=rng.random() < 0.8, cookie=rng.choice([-1, rng.randrange(1000)]), confirm=rng.choice([None, "one", "all"]),
                      uri=rng.choice([None, "https://c0.example.com/bye", "https://evil.example/bye"]))
        elif k == "register":
            op["meta"] = rng.choice(REG)
        elif k == "create":
            op["rules"] = rng.choice([{}, {"access_token": {"expires_in": 77, "max_usage": 1}}, {"refresh_token": {"expires_in": 78}, "authorization_code": {"max_usage": 3, "supports_minting": []}}])
        elif k == "webfinger":
            op["resource"] = rng.choice(["acct:diana@example.org", "https://op.example.org/x", "nonsense"])
        elif k == "api":
            op.update(fn=rng.choice(["revoke_token", "revoke_grant", "revoke_client_session", "revoke_token"]), k2=rng.randrange(1000), recursive=rng.random() < 0.5)
        elif k == "bad":
            op.update(op="raw", **rng.choice([
                {"ep": "token", "request": {"grant_type": "authorization_code", "code": "xxx", "redirect_uri": "https://c0.example.com/cb", "client_id": cl[0], "client_secret": "wrong"}},
                {"ep": "token", "request": {"grant_type": "magic"}}, {"ep": "authorization", "request": "client_id=%s" % cl[0]}, {"ep": "authorization", "request": "client_id=unknown&response_type=code"},
                {"ep": "authorization", "request": "client_id=%s&response_type=nonsense&scope=openid&redirect_uri=https%%3A%%2F%%2Fc1.example.com%%2Fcb" % cl[-1]},
                {"ep": "introspection", "request": {"token": "xxx"}},
                {"ep": "introspection", "request": {"token": "xxx", "client_id": cl[0], "client_secret": "secret_of_%s_0123456789abcdefghijklmnop" % cl[0]}}]))
            op.pop("client")
        ops.append(op)
    return ops


def probe(spec):
    """the operations whose answers are compared"""
    kind = spec["opts"]["kind"]
    ops = [{"op": "discovery"}]
    for n, (c, _) in enumerate(spec["clients"]):
        u = sorted(spec["users"])[n % 3]
        sc = ["openid profile email address research offline_access", "openid email"] if kind == "oidc" else ["read write openid"]
        for s in sc:
            kw = {"scope": s, "response_type": "code"}
            if kind == "oidc":
                kw["prompt"] = "consent"
                if s == "openid email":
                    kw["claims"] = {"userinfo": {"nickname": None, "tier": None}, "id_token": {"given_name": None}}
            ops += [{"op": "authz", "client": c, "user": u, "kw": kw}, {"op": "redeem", "k": -1}, {"op": "introspect", "k": -1, "client": spec["clients"][0][0]}, {"op": "userinfo", "k": -1},
                    {"op": "userinfo", "k": -1}, {"op": "refresh", "k": -1}, {"op": "userinfo", "k": -1, "how": "body"}, {"op": "introspect", "k": -1, "what": "rts", "client": c},
                    {"op": "refresh", "k": -1, "scope": "openid"}, {"op": "introspect", "k": -1, "client": c}, {"op": "redeem", "k": -1}]
        rt = "code id_token token" if kind == "oidc" else "code token"
        ops += [{"op": "authz", "client": c, "user": u, "kw": {"scope": "openid profile", "response_type": rt}}, {"op": "introspect", "k": -1, "client": c}, {"op": "userinfo", "k": -1},
                {"op": "authz", "client": c, "user": u, "kw": {"redirect_uri": "https://evil.example/cb"}}, {"op": "push", "client": c, "kw": {}}, {"op": "pushed", "k": -1, "user": u}]
        if kind == "oidc":
            ops.append({"op": "logout", "k": -1, "cookie": -1, "confirm": "one"})
    for m in REG[:3]:
        ops.append({"op": "register", "meta": m})
    ops += [{"op": "create", "client": spec["clients"][0][0], "user": "diana", "rules": {}}, {"op": "read_registration", "k": -1}, {"op": "dyn_login", "k": -1, "client": "", "kw": {"redirect_uri": "https://new.example.net/cb", "scope": "openid profile"}}, {"op": "redeem", "k": -1},
            {"op": "userinfo", "k": -1}, {"op": "webfinger", "resource": "acct:diana@example.org"}, {"op": "discovery"}]
    return ops


def freeze(v, depth=0):
    if depth > 12:
        return "..."
    if isinstance(v, dict):
        return {str(k): freeze(x, depth + 1) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [freeze(x, depth + 1) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted(str(x) for x in v)
    if v is None or isinstance(v, (str, int, float, bool)):
        return v
    if type(v).__module__ == "oidcop.configure":
        return {k: freeze(x, depth + 1) for k, x in vars(v).items()}
    return "<%s>" % type(v).__name__


def snapshot(w, clients):
    ctx = w.ctx
    return {"clients": {c: {k: freeze(x) for k, x in ctx.cdb[c].items() if k != "auth_method"} if c in ctx.cdb else None for c in clients},
            "users": freeze(w.ctx.userinfo.db if w.ctx.userinfo is not None else {}), "conf": freeze(w.server.conf), "given": freeze(w.conf),
            "rules": freeze(getattr(ctx.authz, "grant_config", None)), "discovery": freeze(w.do("provider_config", {}).data)}


def run_case(rng, rep, i):
    if i % 2 == 0:
        history_case(rng, rep)
    else:
        pair_case(rng, rep)


def diff(a, b):
    """first place where two frozen values differ"""
    if type(a) == type(b) and isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a:
                return ".%s added: %r" % (k, b[k])
            if k not in b:
                return ".%s gone: %r" % (k, a[k])
            if a[k] != b[k]:
                return "." + k + diff(a[k], b[k])
    if type(a) == type(b) and isinstance(a, list) and len(a) == len(b):
        for n, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return "[%d]%s" % (n, diff(x, y))
    return ": %r became %r" % (a, b)


def compare(rep, ref, got, script, mech, msg, hist=None):
    for n, (a, b) in enumerate(zip(ref, got)):
        rep.count("served" if a[1].get("outcome") in ("ok", "redirect", "login") else "not-served")
        if not rep.check(a == b, mech, "%s: operation %d %s%s" % (msg, n, json.dumps(script[n], default=str)[:200], diff(a[1], b[1])[:400]), op=a[0], tail=hist[-25:] if hist else None):
            return
    rep.check(len(ref) == len(got), mech, "%s: %d answers instead of %d" % (msg, len(got), len(ref)))


def history_case(rng, rep):
    spec = fill(rng, spec_of(rng, "op", "h"))
    spec["path"] = os.path.join(tmpdir(), "h%d" % rng.randrange(10 ** 9))
    script = gen(rng, spec, rng.randrange(40, 90))
    t = START
    for op in script:
        t += rng.choice([0, 0, 0, 0, 1, 1, 5, 40, 200, 700])
        op["at"] = t
    t_probe = t + rng.choice([1, 5000])
    pr = probe(spec)
    rep.sig("history", json.dumps([spec["opts"], spec["clients"], spec["plain"]], sort_keys=True, default=str), len(script))
    rep.count("kind:history")
    if spec["plain"]:
        rep.count("plain")
    names = [c for c, _ in spec["clients"]]

    def reference():
        CLOCK.set(t_probe)
        return Driver(server(spec)).run(pr)

    def after():
        w = server(spec)
        before = snapshot(w, names)
        d = Driver(w, START)
        tr = d.run(script)
        aft = snapshot(w, names)
        hist = list(w.history())
        CLOCK.set(t_probe)
        d2 = Driver(w)
        d2.norm.names.update({c: "<old%d>" % n for n, c in enumerate(d.dyn)})
        got = d2.run(pr)
        spec2 = dict(spec, path=spec["path"])
        CLOCK.set(t_probe)
        conf = w.conf
        again = Driver(server(spec2, conf=conf)).run(pr)
        return before, aft, tr, got, again, hist

    ref = isolated(reference)
    before, aft, tr, got, again, hist = isolated(after)
    for op, a in tr:
        rep.count("h:%s:%s" % (op, a.get("outcome", "-")))
    for c in names:
        rep.check(before["clients"][c] == aft["clients"][c], "client-data", "data of client %s%s" % (c, diff(before["clients"][c], aft["clients"][c])[:400]), tail=hist[-25:])
    rep.check(before["users"] == aft["users"], "user-data", "user data%s" % diff(before["users"], aft["users"])[:400], tail=hist[-25:])
    for k in ("conf", "given", "rules"):
        rep.check(before[k] == aft[k], "configuration", "configuration (%s)%s" % (k, diff(before[k], aft[k])[:400]), tail=hist[-25:])
    rep.check(before["discovery"] == aft["discovery"], "discovery", "discovery document%s" % diff(before["discovery"], aft["discovery"])[:400], tail=hist[-25:])
    compare(rep, ref, got, pr, "same-answer", "after a history, compared with a fresh server", hist)
    compare(rep, ref, again, pr, "same-answer-rebuilt", "a server built later from the same configuration, compared with the first one", hist)


def pair_case(rng, rep):
    mode = rng.choice(["separate", "separate", "same-options", "copied", "copied"])
    a = spec_of(rng, "one", "a")
    b = spec_of(rng, "two", "b", opts=copy.deepcopy(a["opts"]) if mode in ("same-options", "copied") else None)
    b["keys"] = 1
    fill(rng, a)
    fill(rng, b)
    if rng.random() < 0.5:
        n = min(len(a["clients"]), len(b["clients"]))
        b["clients"][:n] = a["clients"][:n]
    for u in b["users"].values():
        if rng.random() < 0.5:
            u["name"] = "Other " + u.get("name", "")
            u["tier"] = "bronze"
    if mode == "copied":
        a["plain"] = b["plain"] = True
    base = os.path.join(tmpdir(), "p%d" % rng.randrange(10 ** 9))
    specs = [a, b]
    for n, s in enumerate(specs):
        # one dictionary copied: the key files are the same too
        s["path"] = base if mode == "copied" else base + s["tag"]
    merged = []
    gens = [gen(rng, s, rng.randrange(20, 40)) for s in specs]
    left = [list(g) for g in gens]
    t = START
    while left[0] or left[1]:
        n = rng.randrange(2)
        if not left[n]:
            n = 1 - n
        t += rng.choice([0, 0, 0, 0, 1, 5, 40, 200])
        op = left[n].pop(0)
        op["at"] = t
        merged.append((n, op))
    tail = [probe(s) for s in specs]
    # the probes, operation by operation in alternation
    for k in range(max(len(x) for x in tail)):
        for n in (0, 1):
            if k < len(tail[n]):
                op = dict(tail[n][k], at=t)
                merged.append((n, op))
    cross = {k: rng.random() for k in range(len(merged))}
    rep.sig("pair", mode, json.dumps([[s["opts"], s["clients"], s["plain"]] for s in specs], sort_keys=True, default=str), len(merged))
    rep.count("kind:pair")
    rep.count("mode:" + mode)
    if a["plain"] or b["plain"]:
        rep.count("plain")

    def alone(n):
        conf = None
        if mode == "copied" and n == 1:
            # what it says about the other issuer is part of the configuration
            o = copy.deepcopy(specs[0]["opts"])
            os.makedirs(base, exist_ok=True)
            conf = dict(mkconf(o.pop("kind"), path=base, issuer=specs[0]["issuer"], pw=specs[0]["pw"], **o), issuer=specs[1]["issuer"])
        w = server(specs[n], conf=conf)
        d = Driver(w, START)
        d.run([op for k, op in merged if k == n])
        return d.out

    def together():
        ws = [server(specs[0])]
        if mode == "copied":
            c = dict(ws[0].conf, issuer=specs[1]["issuer"])
            ws.append(server(specs[1], conf=c))
        else:
            ws.append(server(specs[1]))
        ds = [Driver(w, START) for w in ws]
        foreign = []
        for k, (n, op) in enumerate(merged):
            ds[n].step(op)
            if cross[k] < 0.15:
                foreign.extend(present(ds[n], ds[1 - n], mode, int(cross[k] * 10 ** 7)))
        return [d.out for d in ds], foreign, [w.history()[-30:] for w in ws]

    refs = [isolated(lambda n=n: alone(n)) for n in (0, 1)]
    outs, foreign, hist = isolated(together)
    for n in (0, 1):
        for op, x in outs[n]:
            rep.count("p:%s:%s" % (op, x.get("outcome", "-")))
        compare(rep, refs[n], outs[n], [op for k, op in merged if k == n], "alone", "server %d (%s) next to another one, compared with alone" % (n, mode), hist[n])
    for what, ok, msg in foreign:
        rep.check(ok, "foreign-" + what, msg, mode=mode, tail=hist[0][-10:] + hist[1][-10:])


def present(d, e, mode, k):
    """everything server d issued is shown to server e; -> [(what, refused, message)]"""
    out = []
    w = e.w
    cid = [c for c in w.ctx.cdb if c in w.secrets and c not in e.dyn]
    cid = cid[k % len(cid)]
    t = d.pick(d.ats, k)
    if t:
        if w.ep("userinfo") is not None:
            r = w.userinfo(t[0], "header" if k % 2 else "body")
            out.append(("access-token", not r.ok, "userinfo for another server's access token: %s" % r.brief()))
        r = w.introspect(t[0], cid)
        out.append(("access-token", r.data.get("active") is not True and not set(r.data) - {"active", "error", "error_description"}, "introspection of another server's access token: %s" % r.brief()))
    t = d.pick(d.rts, k)
    if t:
        r = w.refresh(t[1] if t[1] in w.secrets else cid, t[0])
        out.append(("refresh", not r.ok, "refresh with another server's token: %s" % r.brief()))
    t = d.pick(d.codes, k)
    if t:
        r = w.redeem(t[1] if t[1] in w.secrets else cid, t[0])
        out.append(("code", not r.ok, "redemption of another server's code: %s" % r.brief()))
    t = d.pick(d.sids, k)
    if t:
        r = w.call("foreign sid", lambda: w.sm[t])
        out.append(("session", not r.ok, "session id of another server resolves to %r" % (r.raw,)))
        r = w.call("foreign sid", w.sm.get_session_info, t, grant=True)
        out.append(("session", not r.ok, "session id of another server has info %r" % (r.raw,)))
    t = d.pick(d.cookies, k)
    if t and mode != "copied":
        m = w.authn_method()
        m.fail = NoSuchAuthentication
        r = w.authorize(w.areq(cid), cookies=copy.deepcopy(t))
        m.fail = None
        out.append(("cookie", not (r.kind == "redirect" and r.ok), "a cookie of another server logs in: %s" % r.brief()))
    t = d.pick(d.idts, k)
    if t and w.ep("session") is not None:
        r = w.do("session", {"id_token_hint": t[0]}, {})
        out.append(("hint", not r.ok, "another server's ID token accepted as id_token_hint: %s" % r.brief()))
    t = d.pick(d.dyn, k)
    if t:
        r = w.authorize(w.areq(cid, client_id=t, redirect_uri="https://new.example.net/cb"))
        out.append(("client", not r.ok and r.kind != "redirect" and t not in w.ctx.cdb, "a client of another server is known: %s" % r.brief()))
    t = d.pick(d.regs, k)
    if t and t[1] and w.ep("registration_read") is not None:
        r = w.do("registration_read", "client_id=" + t[0], {"headers": {"authorization": "Bearer " + t[1]}})
        out.append(("registration", not r.ok, "registration of another server read: %s" % r.brief()))
    t = d.pick(d.pars, k)
    if t and w.ep("pushed_authorization") is not None:
        r = w.authorize(w.areq(t[1] if t[1] in w.ctx.cdb else cid, request_uri=t[0]))
        out.append(("pushed", not r.ok, "request pushed to another server used: %s" % r.brief()))
    return out
