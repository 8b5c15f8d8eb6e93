"""C31: a configuration means what it says."""
import base64
import copy
import hashlib
import json
import logging.config
import os
import shutil
import tempfile

from oidcmsg.configure import create_from_config_file

import oidcop.configure as cfg
import oidcop.logging as oplog
import oidcop.scopes as scopes
from vlib.clock import CLOCK
from vlib.world import DEF_USAGE, USERS, World, mkconf, peek

CASES = {"quick": 900, "thorough": 40000}
RULE = ("Two kinds of case. object: a configuration with generated values for a random subset of the parameters (nested, with file names, lists, {domain} and "
        "{port} in URIs), given as dictionary, JSON or YAML file, with and without base_path, own file attributes, as provider or authorization server; "
        "the resulting object is compared with a model of the rules, then every mutable part of it is changed and another object, the values given and the "
        "defaults of the module compared with their copies. server: a server from which a random subset of the parameters is left out runs logins, refreshes and "
        "clock jumps; lifetimes, token forms, scopes and metadata are compared with the documented defaults. extended: the same for the extended configuration the package ships. logging: what reaches logging.config.dictConfig (replaced by a recorder) for sequences of configure_logging calls. Distinct: by parameters given and their shape.")
MUST_OBSERVE = {"oracle:values": 5000, "oracle:defaults": 2500, "oracle:based": 600, "oracle:domain-port": 300, "oracle:input-untouched": 800,
                "oracle:defaults-untouched": 1000, "oracle:independent": 800, "oracle:file-equals-dict": 150, "oracle:server-default": 700,
                "oracle:logging": 40, "kind:server": 80, "kind:extended": 30, "oracle:extended": 200, "kind:object": 600}
ASSUMPTIONS = ["what an explicitly empty value means (empty or default) is left open",
               "whether default file names are based at base_path when no file attributes are named is left open",
               "base_path is absolute"]

# the documented defaults, copied here
RULES = {"authorization_code": {"supports_minting": ["access_token", "refresh_token", "id_token"], "max_usage": 1}, "access_token": {},
         "refresh_token": {"supports_minting": ["access_token", "refresh_token"], "expires_in": -1}}
S2C = {"openid": ["sub"],
       "profile": ["name", "given_name", "family_name", "middle_name", "nickname", "profile", "picture", "website", "gender", "birthdate", "zoneinfo",
                   "locale", "updated_at", "preferred_username"],
       "email": ["email", "email_verified"], "address": ["address"], "phone": ["phone_number", "phone_number_verified"], "offline_access": []}
JWTT = "oidcop.token.jwt_token.JWTToken"
DEFAULTS = {
    "capabilities": {"subject_types_supported": ["public", "pairwise"],
                     "grant_types_supported": ["authorization_code", "implicit", "urn:ietf:params:oauth:grant-type:jwt-bearer", "refresh_token"]},
    "cookie_handler": {"class": "oidcop.cookie_handler.CookieHandler",
                       "kwargs": {"keys": {"private_path": "private/cookie_jwks.json", "read_only": False,
                                           "key_defs": [{"type": "OCT", "use": ["enc"], "kid": "enc"}, {"type": "OCT", "use": ["sig"], "kid": "sig"}]},
                                  "name": {"session": "oidc_op", "register": "oidc_op_rp", "session_management": "sman"}}},
    "claims_interface": {"class": "oidcop.session.claims.ClaimsInterface", "kwargs": {}},
    "authz": {"class": "oidcop.authz.AuthzHandling", "kwargs": {"grant_config": {"usage_rules": RULES, "expires_in": 43200}}},
    "httpc_params": {"verify": False, "timeout": 4},
    "issuer": "https://{domain}:{port}",
    "template_dir": "templates",
    "token_handler_args": {"jwks_file": "private/token_jwks.json", "code": {"kwargs": {"lifetime": 600}},
                           "token": {"class": JWTT, "kwargs": {"lifetime": 3600}}, "refresh": {"class": JWTT, "kwargs": {"lifetime": 86400}},
                           "id_token": {"class": "oidcop.token.id_token.IDToken", "kwargs": {}}},
    "scopes_to_claims": S2C,
}
AS_DEFAULTS = dict(DEFAULTS, claims_interface={"class": "oidcop.session.claims.OAuth2ClaimsInterface", "kwargs": {}})
FILES = ["server_key", "server_cert", "filename", "template_dir", "private_path", "public_path", "db_file", "jwks_file"]
NAMES = ["add_on", "allowed_scopes", "authz", "authentication", "base_url", "capabilities", "claims_interface", "client_db", "cookie_handler", "endpoint",
         "httpc_params", "issuer", "keys", "scopes_to_claims", "session_params", "template_dir", "token_handler_args", "userinfo"]
OP_NAMES = NAMES + ["id_token", "login_hint2acrs", "login_hint_lookup", "sub_func"]
WORDS = ["a", "keys", "x/y", "../up", "private/jwks.json", "/abs/file", "", "{domain}", "{nothing}", "with space", "åäö", "~", "./here"]


def gen_tree(rng, depth, uris):
    """nested values as a configuration may have them; file names and URIs at any depth"""
    r = {}
    for _ in range(rng.randint(1, 4)):
        x = rng.random()
        if x < 0.3:
            r[rng.choice(FILES + ["file", "path", "dir"])] = rng.choice(WORDS)
        elif x < 0.4 and uris:
            r[rng.choice(["issuer", "base_url"])] = rng.choice(["https://{domain}/x", "https://{domain}:{port}/y", ["https://{domain}", "http://b:{port}"], ""])
        elif x < 0.65 and depth:
            r[rng.choice(["kwargs", "conf", "db", "keys", "one", "two"])] = gen_tree(rng, depth - 1, uris)
        elif x < 0.8:
            r[rng.choice(["list", "key_defs", "scopes"])] = [rng.choice([1, "openid", {"type": "OCT", "private_path": "in/list"}, ["z"], None]) for _ in range(rng.randint(0, 3))]
        else:
            r["v%d" % rng.randint(0, 5)] = rng.choice([0, 1, -1, 3600, True, False, None, "", "text", {}, [], 1.5, "{domain}", "{port} {x}"])
    return r


def gen_conf(rng, names):
    conf = {}
    for n in names:
        if rng.random() < 0.55:
            continue
        if n == "issuer":
            conf[n] = rng.choice(["https://example.com", "https://{domain}", "https://{domain}:{port}/path", "https://op.{domain}/", None])
        elif n == "base_url":
            conf[n] = rng.choice(["https://{domain}:{port}", "https://fixed.example.com/x", "{domain}"])
        elif n == "template_dir":
            conf[n] = rng.choice(["templates", "/abs/templates", "tmpl/x"])
        elif n == "allowed_scopes":
            conf[n] = rng.choice([["openid"], ["openid", "email", "x y"], None])
        elif n == "scopes_to_claims":
            conf[n] = rng.choice([{"openid": ["sub"], "own": ["a", "b"]}, {"profile": []}, None])
        elif n in ("httpc_params", "client_db"):
            conf[n] = rng.choice([{"verify": True}, {"timeout": 0, "verify": "ca.pem"}, None])
        else:
            conf[n] = gen_tree(rng, rng.randint(0, 3), True) if rng.random() < 0.95 else None
    for _ in range(rng.choice([0, 0, 1, 2])):
        conf[rng.choice(["domain", "port", "unknown", "logging", "keyz"])] = None
    for k in list(conf):
        if k == "domain":
            conf[k] = rng.choice(["op.example.org", "localhost", "127.0.0.1"])
        elif k == "port":
            conf[k] = rng.choice([443, 8080])
        elif k in ("unknown", "logging", "keyz"):
            conf[k] = {"filename": "some.log", "version": 1}
    return conf


def place(v, base, files):
    if isinstance(v, dict):
        r = {}
        for k, x in v.items():
            if k in files and isinstance(x, str) and (k == "template_dir" or x) and not x.startswith("/"):
                r[k] = os.path.join(base, x) if x or not base else "./" + x
            else:
                r[k] = place(x, base, files)
        return r
    return v


def fill(v, domain, port, key=None):
    if key in ("issuer", "base_url"):
        if isinstance(v, list):
            return [x.format(domain=domain, port=port) for x in v]
        return v.format(domain=domain, port=port) if isinstance(v, str) else v
    if isinstance(v, dict):
        return {k: fill(x, domain, port, k) for k, x in v.items()}
    return v


def chk(rep, name, ok, msg):
    rep.count("oracle:" + name)
    if not ok:
        rep.violation(name, msg())


def same(a, b):
    """equal values of equal kinds"""
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def spoil(v, seen=None):
    """changes everything that can be changed"""
    seen = set() if seen is None else seen
    if id(v) in seen:
        return
    seen.add(id(v))
    if isinstance(v, dict):
        for x in list(v.values()):
            spoil(x, seen)
        for k in list(v):
            if not isinstance(v[k], (dict, list)):
                v[k] = "spoiled"
        v["spoiled"] = "yes"
    elif isinstance(v, list):
        for x in v:
            spoil(x, seen)
        v.append("spoiled")


def snap(c):
    return {k: copy.deepcopy(c[k]) for k in c.keys() if not k.startswith("_")}


PRISTINE = {n: copy.deepcopy(getattr(m, n)) for m, n in ((cfg, "OP_DEFAULT_CONFIG"), (cfg, "AS_DEFAULT_CONFIG"), (cfg, "DEFAULT_EXTENDED_CONF"), (scopes, "SCOPE2CLAIMS"))}


def check_defaults(rep, when):
    for m, n in ((cfg, "OP_DEFAULT_CONFIG"), (cfg, "AS_DEFAULT_CONFIG"), (cfg, "DEFAULT_EXTENDED_CONF"), (scopes, "SCOPE2CLAIMS")):
        chk(rep, "defaults-untouched", getattr(m, n) == PRISTINE[n], lambda: "the module's %s changed: %s" % (n, when))
        if getattr(m, n) != PRISTINE[n]:
            v = getattr(m, n)
            v.clear()
            v.update(copy.deepcopy(PRISTINE[n]))


def object_case(rng, rep, i):
    op = rng.random() < 0.6
    cls, names, defaults = (cfg.OPConfiguration, OP_NAMES, DEFAULTS) if op else (cfg.ASConfiguration, NAMES, AS_DEFAULTS)
    conf = gen_conf(rng, names)
    orig = copy.deepcopy(conf)
    base = rng.choice(["", "", "/srv/op", "/srv/op/"])
    fattr = rng.choice([None, None, None, ["private_path"], ["file", "db_file"]])
    kw = {"base_path": base}
    if fattr:
        kw["file_attributes"] = fattr
    args = {}
    if rng.random() < 0.3:
        args = {"domain": rng.choice(["arg.example.org", "127.0.0.1"]), "port": rng.choice([444, 443])}
        kw.update(args)
    rep.count("kind:object")
    c = cls(conf=conf, **kw)
    chk(rep, "input-untouched", same(conf, orig), lambda: "building a configuration changed what it was given: %r -> %r" % (orig, conf))
    domain, port = orig.get("domain", "127.0.0.1"), orig.get("port", 80)
    files = fattr or FILES
    allfiles = set(files) | {"template_dir"}

    def expected(dom, prt):
        want = {}
        for n in names:
            v = orig.get(n)
            if not v and v is not None:
                continue
            if v is None:
                if n in defaults:
                    want[n] = fill({n: defaults[n]}, dom, prt)[n]
                continue
            d = {n: copy.deepcopy(v)}
            if base:
                d = place(d, base, allfiles)
            want[n] = fill(d, dom, prt)[n]
        return want

    want = expected(domain, port)
    other = expected(args["domain"], args["port"]) if args else want
    for n in names:
        key = "key_conf" if n == "keys" else n
        v = orig.get(n)
        if not v and v is not None:
            continue
        if n not in want:
            chk(rep, "absent", c.get(key) is None, lambda: "%s was not given and has no default, it is %r" % (n, c.get(key)))
            continue
        w, o = want[n], other[n]
        got = c.get(key)
        if n == "template_dir":
            if v is None:
                ok = got in (os.path.abspath(w), os.path.abspath(os.path.join(base, w)))
            else:
                ok = got == os.path.abspath(w)
            chk(rep, "values", ok, lambda: "template_dir is %r, given %r base %r" % (got, v, base))
            continue
        if v is None:
            based = place({n: w}, base, files)[n] if base else w
            chk(rep, "defaults", same(got, o) or same(got, w) or same(got, based), lambda: "%s was left out; %r instead of the default %r" % (n, got, w))
        else:
            if base and not same(place({n: v}, base, allfiles)[n], v):
                rep.count("oracle:based")
            if "{domain}" in json.dumps(v) or "{port}" in json.dumps(v):
                rep.count("oracle:domain-port")
            chk(rep, "values", same(got, o) or same(got, w), lambda: "%s: given %r, base %r, domain %r port %r: the configuration holds %r, not %r" % (n, v, base, domain, port, got, w))
        if args and not same(o, w):
            # the arguments win over the configuration
            if same(got, w):
                rep.violation("arguments-domain-port", "%s: %r although called with domain %s and port %s" % (n, got, args["domain"], args["port"]))
            else:
                rep.count("oracle:arguments")
    # nothing is shared
    c2 = cls(conf=conf, **kw)
    s2 = snap(c2)
    chk(rep, "same-again", all(same(c.get(k), s2[k]) for k in s2), lambda: "two configurations of one dictionary differ")
    for k in list(c.keys()):
        if not k.startswith("_"):
            spoil(c[k])
    chk(rep, "independent", same(snap(c2), s2), lambda: "changing a configuration changed another: %s" % [k for k in s2 if not same(c2[k], s2[k])])
    chk(rep, "input-untouched", same(conf, orig), lambda: "changing a configuration changed what it was made from: %s" % [k for k in orig if not same(conf.get(k), orig[k])])
    check_defaults(rep, "a configuration was changed")
    c3 = cls(conf=conf, **kw)
    chk(rep, "independent", same(snap(c3), s2), lambda: "a later configuration differs: %s" % [k for k in s2 if not same(c3.get(k), s2[k])])
    spoil(conf)
    chk(rep, "independent", same(snap(c3), s2), lambda: "changing what was given changed the configuration: %s" % [k for k in s2 if not same(c3.get(k), s2[k])])
    # and from a file
    if rng.random() < 0.3:
        d = tempfile.mkdtemp(prefix="oidcv.")
        try:
            if rng.random() < 0.5:
                fn = os.path.join(d, "conf.json")
                json.dump(orig, open(fn, "w"))
            else:
                import yaml

                fn = os.path.join(d, "conf.yaml")
                yaml.safe_dump(orig, open(fn, "w"))
            f = create_from_config_file(cls, filename=fn, **kw)
            chk(rep, "file-equals-dict", same(snap(f), s2), lambda: "the configuration from %s differs in %s" % (fn, [k for k in s2 if not same(f.get(k), s2[k])]))
        finally:
            shutil.rmtree(d, ignore_errors=True)
    # provider and authorization server defaults do not mix
    o = (cfg.ASConfiguration if op else cfg.OPConfiguration)(conf={})
    chk(rep, "defaults", o["claims_interface"] == (AS_DEFAULTS if op else DEFAULTS)["claims_interface"], lambda: "claims interface of an empty configuration: %r" % o["claims_interface"])
    rep.sig("object", op, sorted(orig), bool(base), bool(fattr), bool(args))


DROP = ["authz", "token_handler_args", "capabilities", "cookie_handler", "claims_interface", "httpc_params", "scopes_to_claims", "template_dir"]


def server_case(rng, rep, i):
    kind = rng.choice(["oidc", "oidc", "oauth2"])
    drop = {d for d in DROP if rng.random() < 0.5}
    rep.count("kind:server")
    here = os.getcwd()
    d = tempfile.mkdtemp(prefix="oidcv.")
    os.chdir(d)
    try:
        o = {}
        hp = {k: v for k, v in (("verify", rng.choice([True, False, "/etc/ca.pem"])), ("timeout", rng.choice([1, 2.5, 30])),
                                ("client_cert", "c.pem"), ("client_key", "k.pem")) if rng.random() < 0.6}
        if "client_cert" not in hp:
            hp.pop("client_key", None)
        hp = hp or {"verify": True}
        life = {"code": 600, "token": 3600, "refresh": 86400}
        if "token_handler_args" not in drop:
            life = {"code": rng.choice([100, 600, 1000]), "token": rng.choice([50, 3600, 5000]), "refresh": rng.choice([5000, 86400])}
            o.update(code_handler={"kwargs": {"lifetime": life["code"]}}, token_handler={"class": JWTT, "kwargs": {"lifetime": life["token"]}},
                     refresh_handler={"class": JWTT, "kwargs": {"lifetime": life["refresh"]}})
        rules, gexp = RULES, 43200
        if "authz" not in drop:
            rules, gexp = rng.choice([(DEF_USAGE, 43200), (RULES, 2000), (DEF_USAGE, 500)])
            o.update(usage_rules=rules, grant_expires_in=gexp)

        def patch(c):
            for k in drop:
                c.pop(k, None)
            if "httpc_params" not in drop:
                c["httpc_params"] = copy.deepcopy(hp)

        w = World(kind, rep, conf_patch=patch, **o)
        w.add_client("one", response_types=["code"])
        ctx = w.ctx

        def sd(mech, ok, msg):
            chk(rep, "server-default", ok, lambda: "%s without %s: %s" % (mech, sorted(drop), msg))

        def lifetime(cls, name):
            e = rules.get(cls, {}).get("expires_in")
            return life[name] if e is None else e

        def end(t0, cls, name, born):
            e = lifetime(cls, name)
            return born + gexp if e < 0 else min(t0 + e, born + gexp)

        scope = "openid offline_access profile" if kind == "oidc" else "one two"
        pr = {"prompt": "consent"} if kind == "oidc" else {}
        # the code
        if rules.get("authorization_code", {}).get("max_usage") == 1:
            r = w.login("one", scope=scope, **pr)
            t1, t2 = w.redeem("one", r.data.get("code")), w.redeem("one", r.data.get("code"))
            sd("code once", t1.ok and not t2.ok, "the first use of a code is %s, the second %s" % (t1.ok and "served" or "refused", t2.ok and "served" or "refused"))
        for delta in (-2, 2):
            born = CLOCK.now()
            r = w.login("one", scope=scope, **pr)
            if not r.ok:
                sd("login", False, "an ordinary login fails: %r" % (r.data,))
                return
            CLOCK.set(end(born, "authorization_code", "code", born) + delta)
            t = w.redeem("one", r.data["code"])
            sd("code lifetime", t.ok == (delta < 0) or (delta < 0 and lifetime("authorization_code", "code") >= gexp),
               "%s s from the end of its life (%s, grant %s) the code is %s" % (delta, lifetime("authorization_code", "code"), gexp, t.ok and "accepted" or "refused"))
        born = CLOCK.now()
        r = w.login("one", scope=scope, **pr)
        t = w.redeem("one", r.data["code"])
        if not t.ok:
            sd("redeem", False, "an ordinary token request fails: %r" % (t.data,))
            return
        sd("expires_in", t.data.get("expires_in") == lifetime("access_token", "token"),
           "expires_in %r, lifetime %r" % (t.data.get("expires_in"), lifetime("access_token", "token")))
        if kind == "oidc":
            sd("token members", "id_token" in t.data and "refresh_token" in t.data, "members %s" % sorted(t.data))
            at = t.data["access_token"]
            sd("access token form", at.count(".") == 2, "the access token is no JWT")
            u = w.userinfo(at)
            if CLOCK.now() < end(born, "access_token", "token", born) - 1:
                # what the scope profile releases, and no more
                have = {k for k in w.users["diana"] if k in S2C["profile"]} | {"sub"}
                sd("profile claims", u.ok and {k for k in u.data if k in w.users["diana"] or k == "sub"} == have, "userinfo %r" % (u.data if not u.ok else sorted(u.data),))
            rt = t.data.get("refresh_token")
            ft = w.refresh("one", rt) if rt and CLOCK.now() + 10 < end(born, "refresh_token", "refresh", born) else None
            if ft is not None:
                sd("refresh", ft.ok and "access_token" in ft.data and "refresh_token" in ft.data, "refresh: %r" % (sorted(ft.data) if ft.ok else ft.data,))
                sd("refresh id_token", ("id_token" in (ft.data or {})) == ("id_token" in rules["refresh_token"]["supports_minting"]),
                   "ID Token with the refresh: %s" % ("id_token" in (ft.data or {})))
            e = end(born, "access_token", "token", born)
            if e < born + 3600:
                # (the authentication is valid for an hour)
                CLOCK.set(e - 2)
                sd("access token lives", w.userinfo(at).ok, "the access token is refused before the end of its life")
                CLOCK.set(e + 2)
                sd("access token ends", not w.userinfo(at).ok, "the access token works after the end of its life")
            if rt:
                t0 = born
                e = end(t0, "refresh_token", "refresh", born)
                if e - 2 > CLOCK.now():
                    CLOCK.set(e - 2)
                    sd("refresh token lives", w.refresh("one", rt).ok, "the refresh token (%s, grant %s) is refused before the end of its life" % (lifetime("refresh_token", "refresh"), gexp))
                if e + 2 > CLOCK.now():
                    CLOCK.set(e + 2)
                sd("refresh token ends", not w.refresh("one", rt).ok, "the refresh token works after the end of its life")
        pi = ctx.provider_info
        if "capabilities" in drop and kind == "oidc":
            sd("capabilities", set(pi.get("subject_types_supported", [])) == {"public", "pairwise"}
               and set(pi.get("grant_types_supported", [])) == set(DEFAULTS["capabilities"]["grant_types_supported"]),
               "announced %r %r" % (pi.get("subject_types_supported"), pi.get("grant_types_supported")))
        if "cookie_handler" in drop:
            sd("cookies", set(ctx.cookie_handler.name.items()) == set(DEFAULTS["cookie_handler"]["kwargs"]["name"].items()), "cookie names %r" % ctx.cookie_handler.name)
            ck = ctx.cookie_handler.make_cookie_content("oidc_op", "v", "sso")
            p = ctx.cookie_handler.parse_cookie("oidc_op", [ck])
            sd("cookies", bool(p) and p[0]["value"] == "v" and p[0]["type"] == "sso", "a cookie does not come back: %r" % p)
        hw = DEFAULTS["httpc_params"] if "httpc_params" in drop else {k: v for k, v in hp.items() if not k.startswith("client")}
        if "client_cert" in hp and "httpc_params" not in drop:
            hw["cert"] = (hp["client_cert"], hp["client_key"]) if "client_key" in hp else hp["client_cert"]
        sent = []

        class Nobody:
            def get(self, url, **kw):
                sent.append(kw)
                raise ConnectionError("nobody there")

        ctx.httpc = Nobody()
        if kind == "oidc":
            # what the HTTP client gets when the server fetches something
            w.do("registration", {"redirect_uris": ["https://a.example/cb"], "sector_identifier_uri": "https://a.example/s.json"})
            sd("httpc_params", sent and {k: v for k, v in sent[0].items()} == hw, "the HTTP client gets %r, configured %r" % (sent, hw))
        if kind == "oidc":
            # a configuration that is only a dictionary: TLS certificates are verified unless it says otherwise
            want = rng.choice([None, None, True, False])
            hp2 = rng.choice([None, None, {}, {"timeout": 3}, {"verify": True}, {"verify_ssl": False}])

            def patch2(c):
                c.pop("httpc_params", None)
                if want is not None:
                    c["verify_ssl"] = want
                if hp2 is not None:
                    c["httpc_params"] = copy.deepcopy(hp2)

            w2 = World(kind, rep, conf_patch=patch2, plain=True)
            del sent[:]
            w2.ctx.httpc = Nobody()
            w2.do("registration", {"redirect_uris": ["https://a.example/cb"], "sector_identifier_uri": "https://a.example/s.json"})
            v = (hp2 or {}).get("verify", (hp2 or {}).get("verify_ssl"))
            v = v if hp2 else want
            sd("tls", len(sent) == 1 and (sent[0].get("verify") is not False or v is False) and sent[0].get("timeout") == (hp2 or {}).get("timeout")
               and (v is None or sent[0].get("verify") is v),
               "the HTTP client gets %r, with verify_ssl %r and httpc_params %r" % (sent, want, hp2))
        check_defaults(rep, "a server was built and used (left out: %s)" % sorted(drop))
        rep.sig("server", kind, sorted(drop), gexp)
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)


def extended_case(rng, rep, i):
    """the extended configuration that is shipped as an example means what it says, too"""
    rep.count("kind:extended")
    here = os.getcwd()
    d = tempfile.mkdtemp(prefix="oidcv.")
    os.chdir(d)
    try:
        with open("passwd.json", "w") as f:
            json.dump({"diana": "krall"}, f)
        with open("users.json", "w") as f:
            json.dump(USERS, f)
        os.mkdir("templates")
        conf = fill(copy.deepcopy(cfg.DEFAULT_EXTENDED_CONF), "op.example.org", 8443)
        conf["authentication"] = mkconf("oidc", path=d)["authentication"]
        w = World("oidc", rep, conf=conf, path=d)
        w.add_client("one", response_types=["code", "code id_token", "token", "id_token token"])
        w.add_client("two", response_types=["code"])

        def ex(mech, ok, msg):
            chk(rep, "extended", ok, lambda: "the extended configuration: %s: %s" % (mech, msg))

        ex("issuer", w.issuer == "https://op.example.org:8443", w.issuer)
        scope = rng.choice(["openid", "openid profile", "openid email", "openid research_and_scholarship", "openid profile offline_access"])
        pr = {"prompt": "consent"} if "offline_access" in scope else {}
        ver, meth = "verifier-" + "".join(rng.choice("abcdefghijklmnopqrstuvwxyz0123456789-._~") for _ in range(50)), rng.choice([None, "S256", "S384", "S512", "plain", ""])
        if meth is not None:
            h = {"S256": "sha256", "S384": "sha384", "S512": "sha512"}.get(meth)
            pr["code_challenge"] = base64.urlsafe_b64encode(hashlib.new(h, ver.encode()).digest()).decode().rstrip("=") if h else ver
            if meth:
                pr["code_challenge_method"] = meth
        born = CLOCK.now()
        r = w.login("one", scope=scope, **pr)
        if meth in ("plain", ""):
            ex("pkce", not r.ok or "code" not in r.data, "a code for code_challenge_method %r" % meth)
            return
        if not (r.ok and "code" in r.data):
            ex("login", False, "refused: %s" % r.brief())
            return
        kw = {"code_verifier": ver} if meth else {}
        wrong = rng.choice(["none", "other-client", "verifier", "late", "redirect", None, None, None])
        if wrong == "late":
            CLOCK.set(born + 602)
            ex("code lifetime", not w.redeem("one", r.data["code"], **kw).ok, "a code of 602 s is accepted")
            return
        if wrong == "none":
            ex("client authentication", not w.redeem("one", r.data["code"], method="none", **kw).ok, "a code is redeemed without authentication")
        elif wrong == "other-client":
            ex("owner", not w.redeem("two", r.data["code"], redirect_uri=w.redirect_uri("one"), **kw).ok, "another client redeems the code")
            return
        elif wrong == "verifier" and meth:
            for v in (ver[:-1], ver + "a", "", pr["code_challenge"], None):
                ex("pkce", not w.redeem("one", r.data["code"], **({"code_verifier": v} if v is not None else {})).ok, "the verifier %r serves for %r" % (v, ver))
            return
        elif wrong == "redirect":
            ex("redirect", not w.redeem("one", r.data["code"], redirect_uri="https://two.example.com/cb", **kw).ok, "the code is redeemed with another redirect_uri")
            return
        CLOCK.set(born + rng.choice([0, 100, 597]))
        at0 = CLOCK.now()
        t = w.redeem("one", r.data["code"], **kw)
        if not t.ok:
            ex("redeem", False, "refused: %s" % t.brief())
            return
        ex("tokens", {"access_token", "id_token"} <= set(t.data) and ("refresh_token" in t.data) == ("offline_access" in scope) and t.data.get("expires_in") == 3600, "%s" % t.brief())
        if t.data.get("id_token"):
            idt = w.verify_jwt(t.data["id_token"])[1]
            have = {k for k in idt if k in USERS["diana"] and k != "sub"}
            ex("id_token claims", have == {"email", "email_verified"}, "the ID Token has %s" % sorted(have))
        at, rt = t.data["access_token"], t.data.get("refresh_token")
        u = w.userinfo(at)
        may = {"sub"}
        for x in scope.split():
            may |= set(S2C.get(x, [])) | ({"name", "given_name", "family_name", "email", "email_verified", "eduperson_scoped_affiliation"} if x == "research_and_scholarship" else set())
        want = {k for k in may if k in USERS["diana"]} - {"sub"}
        have = {k for k in u.data if k in USERS["diana"] and k != "sub"}
        ex("userinfo claims", u.ok and have == want, "with %s the userinfo has %s, not %s" % (scope, sorted(have), sorted(want)))
        q = w.introspect(at, "one")
        ex("introspection", q.ok and q.data.get("active") is True, "introspection: %r" % (q.data,))
        ex("introspection", not w.do("introspection", {"token": at, "client_id": "one"}).ok, "introspection without authentication")
        if rt and rng.random() < 0.7:
            f = w.refresh("one", rt)
            ex("refresh", f.ok and "access_token" in f.data and "refresh_token" in f.data and "id_token" not in f.data, "refresh: %s" % f.brief())
            ex("refresh owner", not w.refresh("two", rt).ok, "another client refreshes")
        # (the authentication is valid for an hour)
        CLOCK.set(born + 3598)
        ex("access token lifetime", w.userinfo(at).ok, "the access token is refused before its end")
        CLOCK.set(at0 + 3602)
        ex("access token lifetime", not w.userinfo(at).ok and w.introspect(at, "one").data.get("active") is not True, "the access token works after its end")
        if rt:
            # (a refresh token that expires with its grant)
            CLOCK.set(born + 43202)
            ex("grant lifetime", not w.refresh("one", rt).ok, "a refresh token works after the end of its grant")
        r = w.login("one", scope="openid profile")
        t = w.redeem("one", r.data.get("code"))
        t2 = w.redeem("one", r.data.get("code"))
        ex("code once", t.ok and not t2.ok, "a code: first use %s, second %s" % (t.ok, t2.ok))
        check_defaults(rep, "the extended configuration was used")
        rep.sig("extended", scope, meth, wrong)
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)


LOGGING = {"version": 1, "formatters": {"default": {"format": "%(asctime)s %(name)s %(levelname)s %(message)s"}},
           "handlers": {"default": {"class": "logging.StreamHandler", "formatter": "default"}}, "root": {"handlers": ["default"], "level": "INFO"}}


def logging_case(rng, rep, i):
    """which configuration reaches the logging module; that itself is left alone"""
    got = []
    own = {"version": 1, "root": {"handlers": ["x"], "level": rng.choice(["ERROR", "INFO", "WARNING"])}, "handlers": {"x": {"class": "logging.NullHandler"}}}
    path = tempfile.mkdtemp()
    places = [m for m in (logging.config, oplog) if hasattr(m, "dictConfig")]
    real = logging.config.dictConfig
    for m in places:
        m.dictConfig = lambda c: got.append(copy.deepcopy(c))
    seq = []
    try:
        fn = os.path.join(path, "logging.yaml")
        with open(fn, "w") as fp:
            json.dump(own, fp)
        for _ in range(rng.randint(2, 5)):
            src, debug = rng.choice(["default", "default", "dict", "file", "no-file"]), rng.random() < 0.5
            seq.append((src, debug))
            given = copy.deepcopy(own)
            kw = {"default": {}, "dict": {"config": given}, "file": {"filename": fn}, "no-file": {"filename": fn + "x"}}[src]
            del got[:]
            oplog.configure_logging(debug=debug, **kw)
            want = copy.deepcopy(own if src in ("dict", "file") else LOGGING)
            if debug:
                want["root"]["level"] = "DEBUG"
            rep.check(got == [want], "logging", "%s: logging was configured with %s" % (seq, got))
            rep.check(given == own, "input-untouched", "configure_logging changed the configuration it was given: %s" % given)
    finally:
        for m in places:
            m.dictConfig = real
        shutil.rmtree(path)
    rep.sig("logging", seq)


def run_case(rng, rep, i):
    if i % 30 == 9:
        logging_case(rng, rep, i)
    elif i % 10 == 7:
        extended_case(rng, rep, i)
    elif i % 5 == 0:
        server_case(rng, rep, i)
    else:
        object_case(rng, rep, i)
