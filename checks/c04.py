"""C04: authorization responses only go to a registered redirect URI."""
import json
from urllib.parse import parse_qsl, quote, urlencode

from cryptojwt.jwt import JWT
from oidcop.exception import NoSuchAuthentication

from vlib.world import World

CASES = {"quick": 2500, "thorough": 80000}
RULE = ("One case: a server and clients with randomly built sets of registered redirect URIs (ports, paths, percent-encoding, several "
        "queries for one base, blank parameters, custom schemes), then authorization requests with registered, mutated, foreign and "
        "absent redirect_uri under every response mode and outcome (served, login required, PAR, unsigned request object). "
        "Non-trivial: at least one unregistered redirect_uri was tried. Distinct: by the sequence of (mutation, mode, outcome).")
MUST_OBSERVE = {"oracle:target-registered": 1000, "oracle:unregistered-refused": 1000, "oracle:registered-served": 500,
                "oracle:error-redirect": 50, "oracle:default-uri": 15, "oracle:no-default-uri": 30}
RESP = {"code", "state", "iss", "client_id", "scope", "error", "error_description", "session_state", "access_token", "token_type",
        "expires_in", "id_token", "error_uri"}

HOSTS = ["https://rp.example.com", "https://rp.example.com:8443", "http://localhost:3000", "https://rp.example.org", "https://xn--rp-ka.example"]
PATHS = ["/cb", "/cb/", "/CB", "/a/b/cb", "/cb%20x", "/cb%2Fx", "", "/", "/cb;v=1", "/~u/cb"]
QUERIES = [{}, {}, {}, {"foo": ["bar"]}, {"foo": ["bar", "low"]}, {"tenant": ["a b&c"]}, {"x": [""]}, {"foo": ["bar"], "s": ["1"]},
           {"foo": ["b\u00e5r"]}]
CUSTOM = ["com.example.app:/cb", "myapp://cb"]


def mk_uri(rng):
    if rng.random() < 0.1:
        return rng.choice(CUSTOM), {}
    return rng.choice(HOSTS) + rng.choice(PATHS), rng.choice(QUERIES)


def full(e):
    b, q = e
    return b if not q else b + "?" + urlencode(q, doseq=True)


def mutate(rng, u):
    k = rng.choice(["slash", "suffix", "host-suffix", "host-prefix", "userinfo", "scheme", "port", "path", "dotdot", "case", "query", "blankq",
                    "dup", "fragment", "emptyfrag", "encode", "decode", "tab", "newline", "space", "nul", "bslash", "trunc", "valpart",
                    "semicolon", "double-encode", "percent-frag"])
    b, _, q = u.partition("?")
    sch, _, rest = b.partition(":")
    m = {
        "slash": lambda: b + "/" + ("?" + q if q else ""),
        "suffix": lambda: b + "evil" + ("?" + q if q else ""),
        "host-suffix": lambda: u.replace("example.", "example.evil.", 1),
        "host-prefix": lambda: u.replace("://", "://evil.", 1),
        "userinfo": lambda: u.replace("://", "://rp.example.com@", 1),
        "scheme": lambda: ("http" if sch == "https" else "https") + ":" + rest + ("?" + q if q else ""),
        "port": lambda: u.replace(".com", ".com:444", 1) if ".com" in u else u + ":1",
        "path": lambda: b + "/x" + ("?" + q if q else ""),
        "dotdot": lambda: b + "/../cb" + ("?" + q if q else ""),
        "case": lambda: u[:-1] + u[-1].swapcase(),
        "query": lambda: u + ("&" if q else "?") + "evil=1",
        "blankq": lambda: u + ("&" if q else "?") + "evil=",
        "dup": lambda: u + ("&" + q if q else "?a"),
        "fragment": lambda: u + "#frag",
        "emptyfrag": lambda: u + "#",
        "encode": lambda: u[:-1] + "%%%02X" % ord(u[-1]),
        "decode": lambda: u.replace("%20", " ").replace("%2F", "/"),
        "tab": lambda: u[:9] + "\t" + u[9:],
        "newline": lambda: u + "\n",
        "space": lambda: " " + u,
        "nul": lambda: u + "\x00",
        "bslash": lambda: u.replace("://", ":\\\\", 1),
        "trunc": lambda: u[:-1],
        "valpart": lambda: u + "x" if q else u + "?",
        "semicolon": lambda: u + ";a=b",
        "double-encode": lambda: u.replace("%", "%25") if "%" in u else u + "%20",
        "percent-frag": lambda: u + "%23frag",
    }[k]()
    return k, m


def canon(u):
    """what a registered entry and a target are compared by"""
    b, _, q = u.partition("?")
    s, sep, rest = b.partition(":")
    return s.lower() + sep + rest, sorted(parse_qsl(q, keep_blank_values=True))


def same_entry(u, entries):
    """requested URI equal to one registered entry, compared without interpretation of its characters"""
    if "#" in u or any(ord(c) <= 32 or ord(c) == 127 for c in u):
        return False
    return any(canon(u) == canon(full(e)) for e in entries)


def run_case(rng, rep, i):
    kind = rng.choice(["oidc", "oidc", "oauth2"])
    w = World(kind, rep, par=True, capabilities={"request_object_signing_alg_values_supported": ["none", "ES256", "HS256"]} if rng.random() < 0.5 else {})
    clients = {}
    for c in ("alpha", "beta", "gamma"):
        es = [mk_uri(rng) for _ in range(rng.choice([1, 1, 2, 3, 5]))]
        if rng.random() < 0.3:
            b = es[0][0]
            if not b.startswith(("com.", "myapp")):
                es += [(b, q) for q in rng.sample(QUERIES, 2) if (b, q) not in es]
        clients[c] = es
        w.add_client(c, redirect_uris=[(b, dict(q)) for b, q in es])
    w.add_client("nouri")
    del w.ctx.cdb["nouri"]["redirect_uris"]
    clients["nouri"] = []
    rep.sig(kind, tuple(len(e) for e in clients.values()))
    method = w.authn_method()
    nontrivial = False

    def observe(r, cid, what):
        """wherever the browser is sent must be registered"""
        target = None
        if r.kind == "redirect":
            target = r.url
        elif r.kind == "login":
            target = (r.extra.get("extra_args") or {}).get("return_uri")
        if target is None:
            return
        base, _, frag = target.partition("#")
        if r.mode == "fragment" or r.mode == "form_post" or r.kind == "login":
            left = base
        else:
            b, _, q = base.partition("?")
            pq = parse_qsl(q, keep_blank_values=True)
            keep = [(k, v) for k, v in pq if k not in RESP]
            left = b + ("?" + urlencode(keep) if keep else "")
        rep.check(any(canon(left) == canon(full(e)) for e in clients.get(cid, [])), "target-registered",
                  "browser sent to %r, not registered for %s (%s)" % (target[:200], cid, what), registered=clients.get(cid))

    for n in range(rng.randrange(3, 9)):
        cid = rng.choice(list(clients))
        entries = clients[cid]
        method.fail = None
        what = rng.choice(["registered", "registered", "mutated", "mutated", "mutated", "foreign", "absent", "unknown-client"])
        kw = {}
        if kind == "oidc" and rng.random() < 0.2:
            method.fail = NoSuchAuthentication
            if rng.random() < 0.8:
                kw["prompt"] = "none"
        mode = rng.choice([None, None, "query", "fragment", "form_post"])
        if mode:
            kw["response_mode"] = mode
        rt = rng.choice(["code", "code", "code token"] + (["id_token"] if kind == "oidc" else ["token"]))
        if not entries and what in ("registered", "mutated"):
            what = "foreign"
        name = cid
        if what == "registered":
            uri, mk = full(rng.choice(entries)), "-"
        elif what == "mutated":
            mk, uri = mutate(rng, full(rng.choice(entries)))
        elif what == "foreign":
            mk, uri = "foreign", full(rng.choice([e for c in clients if c != cid for e in clients[c]]))
        elif what == "unknown-client":
            mk, uri, name = "-", full(mk_uri(rng)), "nobody"
        else:
            mk, uri = "-", None
        ok_uri = uri is not None and same_entry(uri, entries) and name == cid
        via = rng.choice(["plain", "plain", "plain", "par", "object"])
        before = len(w.sm.db)
        req = {"client_id": name, "scope": "openid" if kind == "oidc" else "read", "state": "s%d" % n, "response_type": rt}
        if kind == "oidc":
            req["nonce"] = "n-0123456789"
        req.update(kw)
        if uri is not None:
            req["redirect_uri"] = uri
        if via == "par" and name in w.secrets and "response_mode" not in req:
            pr, hi = w.with_auth(dict(req), name, "basic")
            p = w.do("pushed_authorization", pr, hi)
            if "request_uri" in p.data:
                r = w.authorize({"client_id": name, "request_uri": p.data["request_uri"], "response_type": rt,
                                 "redirect_uri": uri if uri and rng.random() < 0.5 else full(entries[0]) if entries else "https://x.example/",
                                 "scope": req["scope"], **({"nonce": req["nonce"]} if kind == "oidc" else {})}, user="diana")
            else:
                r = p
        elif via == "object" and name in w.secrets and kind == "oidc":
            # (a plain OAuth2 server does not know the request parameter)
            obj = _hs(w, name, dict(req))
            outer = dict(req, request=obj)
            if entries:
                outer["redirect_uri"] = full(rng.choice(entries))
            r = w.authorize(outer, user="diana")
        else:
            via = "plain"
            r = w.authorize(req, user="diana")
        rep.sig(what, mk, via, mode, rt, method.fail is not None, kw.get("prompt"), r.outcome())
        observe(r, name, "%s %s via %s" % (what, mk, via))
        if uri is None:
            if len(entries) != 1:
                rep.check(r.kind in ("error", "exception"), "no-default-uri", "request without redirect_uri served though %s has %d registered"
                          % (cid, len(entries)), answer=r.brief())
            elif via == "plain" and kind == "oauth2" and not mode:
                rep.check(r.kind == "redirect" and r.ok, "default-uri", "request without redirect_uri refused though one is registered",
                          answer=r.brief())
            continue
        if not ok_uri:
            nontrivial = True
            # the parameters of a request object replace the outer ones; anything that is refused is fine
            rep.check(r.kind in ("error", "exception") and len(w.sm.db) == before, "unregistered-refused",
                      "redirect_uri %r (%s %s) via %s is not registered for %s but: %s" % (uri, what, mk, via, name, r.brief()),
                      registered=entries)
        elif via == "plain":
            bad_mode = mode == "query" and rt != "code" or mode == "fragment" and rt == "code"
            if method.fail is not None:
                if kw.get("prompt") == "none":
                    errs = ("login_required", "invalid_request") if bad_mode else ("login_required",)
                    rep.check(r.kind == "redirect" and r.data.get("error") in errs, "error-redirect",
                              "login_required not delivered to the registered URI: %s" % r.brief())
            elif not bad_mode:
                rep.check(r.kind == "redirect" and r.ok, "registered-served", "registered redirect_uri %r refused: %s" % (uri, r.brief()),
                          registered=entries)
    if not nontrivial:
        rep.case_sig = []


def _hs(w, cid, claims):
    from cryptojwt.key_jar import KeyJar
    kj = KeyJar()
    kj.add_symmetric("", w.secrets[cid], ["sig"])
    return JWT(kj, iss=cid, sign_alg="HS256", lifetime=300).pack(dict(claims, aud=w.issuer))
