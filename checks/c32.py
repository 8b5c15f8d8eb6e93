"""C32: cookies and session_state are what browsers and relying parties need."""
import hashlib
from urllib.parse import urlencode, urlsplit

from vlib.browser import Browser, authentication
from vlib.clock import CLOCK
from vlib.world import ISSUER, World

CASES = {"quick": 500, "thorough": 25000}
RULE = ("One case: a server with or without check_session_iframe, generated cookie names, flags and keys, and clients whose redirect URIs have ports, capitals, paths, "
        "queries and colliding identifiers; two browsers log in, return by cookie, ask with prompt=none, log out; every session_state is recomputed from what the "
        "client's page has (client_id, its origin as a browser tells it, the browser's session management cookie), also with other clients' identifiers and origins; "
        "every cookie's flags and lifetime are compared with the configuration. Distinct: by configuration and sequence of (request, outcome).")
MUST_OBSERVE = {"oracle:session-state": 1500, "oracle:other-client-or-origin": 1500, "oracle:absent": 600, "oracle:flags": 4000, "oracle:max-age": 1000,
                "oracle:logout-ends": 300, "oracle:announced": 300, "oracle:salts-differ": 1500, "origin:port": 200, "origin:default-port": 100, "origin:capitals": 100,
                "mode:form_post": 100, "by:cookie": 300}
ASSUMPTIONS = ["what the session_state is for a redirect URI with a custom scheme (no origin) is not judged", "error responses may carry a session_state",
               "that the cookie is readable for the iframe's script is a matter of the configured flags"]

URIS = ["https://%s.example.com/cb", "https://%s.example.com:8443/cb", "https://%s.example.com:443/cb?x=1", "http://%s.localhost:80/cb", "https://%s.EXAMPLE.com/CB",
        "http://127.0.0.1:3000/%s", "https://rp.example.com/%s", "https://[::1]:8443/%s", "https://rp.example.com:444/%s?a=b%%20c"]
PATHS = ["check_session_iframe", "session/check.html"]


def origin(uri):
    """as window.origin has it"""
    u = urlsplit(uri)
    host = u.hostname
    if ":" in host:
        host = "[%s]" % host
    if u.port and (u.scheme, u.port) not in (("https", 443), ("http", 80)):
        host += ":%d" % u.port
    return "%s://%s" % (u.scheme, host)


def verifies(state, client_id, org, opbs):
    p = state.split(".")
    if len(p) != 2 or not p[1] or " " in state:
        return False
    return hashlib.sha256((client_id + " " + org + " " + opbs + " " + p[1]).encode()).hexdigest() == p[0]


def registered(uri):
    b, _, q = uri.partition("?")
    from urllib.parse import parse_qs

    return b, (parse_qs(q) if q else {})


def run_case(rng, rep, i):
    on = rng.random() < 0.75
    names = rng.choice([{"session": "oidc_op", "register": "oidc_op_rp", "session_management": "sman"},
                        {"session": "sso", "register": "reg", "session_management": "sso_state"}])
    flags = rng.choice([None, {}, {"samesite": "Lax", "secure": True}, {"samesite": "None", "httponly": False, "secure": True, "path": "/", "domain": "example.com"}])
    wantflags = {"samesite": "None", "httponly": True, "secure": True} if flags is None else flags
    keys = rng.choice([[{"type": "OCT", "use": ["enc"], "kid": "enc"}, {"type": "OCT", "use": ["sig"], "kid": "sig"}],
                       [{"type": "OCT", "use": ["sig"], "kid": "sig"}], [{"type": "OCT", "use": ["enc"], "kid": "enc"}]])
    path = rng.choice(PATHS)

    ck = {"keys": {"key_defs": keys, "read_only": False}, "name": dict(names)}
    if flags is not None:
        ck["flags"] = dict(flags)
    o = {"authentication": authentication(["diana", "ziggy"], 1, rng.choice([300, 3600])), "cookie_kwargs": ck}
    if on:
        o["session_kwargs"] = {"check_session_iframe": path}
    w = World("oidc", rep, **o)
    cl = {}
    pool = rng.sample(URIS, 4)
    for n, cid in enumerate(rng.choice([["c1", "c12", "C1", "c.1"], ["alpha", "alpha2", "Alpha", "alph"]])):
        uri = pool[n] % rng.choice(["one", "rp", cid.lower().replace(".", "-")]) if "%s" in pool[n] else pool[n]
        w.add_client(cid, redirect_uris=[registered(uri)])
        cl[cid] = uri
    pi = w.ctx.provider_info
    if on:
        rep.check(pi.get("check_session_iframe") == ISSUER + "/" + path, "announced", "check_session_iframe announced as %r" % pi.get("check_session_iframe"))
    else:
        rep.check("check_session_iframe" not in pi, "announced", "check_session_iframe announced as %r though not configured" % pi.get("check_session_iframe"))
    salts = set()
    browsers = [Browser(w, "b%d" % k) for k in range(2)]
    last = {}

    def cookies(r):
        for c in r.cookies:
            got = {k: v for k, v in c.items() if k not in ("name", "value", "expires", "max-age")}
            rep.check(got == wantflags, "flags", "cookie %s has the flags %r, configured %r" % (c["name"], got, wantflags))
            rep.check(c["name"] in names.values(), "flags", "a cookie named %s" % c["name"])

    def judge(b, cid, r):
        cookies(r)
        if not r.ok:
            return
        rep.count("mode:%s" % r.mode)
        ss = r.data.get("session_state")
        sm = [c["value"] for c in r.cookies if c["name"] == names["session_management"]]
        if not on:
            rep.check(ss is None and not sm, "absent", "session_state %r, cookie %r though session management is not configured" % (ss, sm))
            return
        if not ss or len(sm) != 1:
            rep.violation("session-state", "session_state %r and %d session management cookies in a response to %s" % (ss, len(sm), cid))
            return
        org = origin(cl[cid])
        u = urlsplit(cl[cid])
        rep.count("origin:" + ("default-port" if u.port in (80, 443) else "port" if u.port else "capitals" if u.netloc != u.netloc.lower() else "plain"))
        held = b.jar[names["session_management"]]["value"]
        rep.check(verifies(ss, cid, org, held), "session-state", "the page of %s at %s can not verify session_state %s with its cookie" % (cid, org, ss))
        for c2, u2 in list(cl.items()) + [(cid, cl[cid] + "x"), (cid + " ", cl[cid])]:
            if c2 != cid and not (c2 == cid and origin(u2) == org):
                rep.check(not verifies(ss, c2, org, held), "other-client-or-origin", "session_state of %s verifies for client %r" % (cid, c2))
            if origin(u2) != org:
                rep.check(not verifies(ss, cid, origin(u2), held), "other-client-or-origin", "session_state of %s at %s verifies at %s" % (cid, org, origin(u2)))
        salt = ss.split(".")[1]
        rep.check(salt not in salts, "salts-differ", "two responses have the salt %s" % salt)
        salts.add(salt)
        last[(b.name, cid)] = (ss, org)

    for _ in range(rng.randint(8, 16)):
        b = rng.choice(browsers)
        cid = rng.choice(list(cl))
        x = rng.random()
        if x < 0.75:
            kw = {"response_type": rng.choice(["code", "code", "id_token", "code id_token", "id_token token", "code id_token token"]), "redirect_uri": cl[cid]}
            if rng.random() < 0.3:
                kw["response_mode"] = rng.choice(["form_post", "fragment"])
            if rng.random() < 0.2:
                kw["prompt"] = rng.choice(["none", "login"])
            req = w.areq(cid, **kw)
            r = b.visit(req)
            if r.kind == "login":
                cookies(r)
                r = b.submit(r, rng.choice(["diana", "ziggy"]))
            elif r.ok:
                rep.count("by:cookie")
            judge(b, cid, r)
            rep.sig("authz", kw["response_type"], kw.get("response_mode"), kw.get("prompt"), r.outcome())
        elif x < 0.85:
            # logged out: what the application does
            ks = w.ep("session").kill_cookies()
            before = b.jar.get(names["session_management"])
            class R:
                pass
            rr = R()
            rr.cookies = ks
            cookies(rr)
            rep.check({c["name"] for c in ks} == {names["session"], names["session_management"]} and
                      all(not c["value"] and "1970" in str(c.get("expires")) or str(c.get("max-age")) in ("0", "-1") for c in ks),
                      "logout-ends", "the cookies after logout are %r" % ks)
            b.keep(rr)
            rep.check(not b.jar, "logout-ends", "the browser still has %s" % sorted(b.jar))
            if before:
                for (bn, c2), (ss, org) in last.items():
                    if bn == b.name:
                        rep.check(not verifies(ss, c2, org, ""), "logout-ends", "session_state of %s still verifies after logout" % c2)
            r = b.visit(w.areq(cid, redirect_uri=cl[cid], prompt="none"))
            rep.check(not r.ok, "logout-ends", "without cookies prompt=none is served")
            rep.sig("logout", bool(before))
        else:
            CLOCK.advance(rng.choice([1, 30, 299, 4000]))
        # a cookie lives as long as asked
        n = rng.choice([0, 1, 60, 3600, 86400, -1])
        c = w.ctx.new_cookie(name=rng.choice(list(names.values())), max_age=n, state="s") if rng.random() < 0.5 else \
            w.ctx.cookie_handler.make_cookie_content(names["register"], "v", "t", max_age=n)
        life = c.get("max-age")
        if n > 0:
            rep.check(str(life) == str(n) and "expires" not in c, "max-age", "a cookie for %d seconds has max-age %r, expires %r" % (n, life, c.get("expires")))
        elif n == 0:
            rep.check(life is None and "expires" not in c, "max-age", "a session cookie has max-age %r, expires %r" % (life, c.get("expires")))
        else:
            rep.check("1970" in str(c.get("expires")) or str(life) in ("0", "-1"), "max-age", "a cookie to delete has %r" % c)
    rep.sig("conf", on, flags is None, len(keys), sorted(cl.values()))
