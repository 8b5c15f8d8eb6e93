"""C28: malformed input is refused and leaves no trace."""
import base64
import copy
import json
from urllib.parse import quote, urlencode

from oidcop.exception import NoSuchAuthentication

from vlib.clock import CLOCK
from vlib.report import short
from vlib.story import AC, AT, IT, RT, Story
from vlib.world import ALL_RT, ALL_RT_OAUTH2, ISSUER, METHODS_ALL, USERS, World, flip

CASES = {"quick": 260, "thorough": 9000}
RULE = ("One case: a server with three clients and several sessions with codes, access and refresh tokens; 30-45 requests at random endpoints, each a valid "
        "one with 1-3 mutations (parameters dropped, duplicated, emptied, retyped, truncated, flipped, garbage, oversized, control characters, nested; broken "
        "headers, cookies, JWTs; bodies of any bytes) or with an exception raised at some point in session store, client database, user database, keys, token "
        "handlers, cookies or HTTP, or both. Requests that cannot be valid any more must not be answered with a token, code, claim or registration; after every "
        "refused request the sessions, clients, registrations and pushed requests are compared with before; from time to time all known tokens are probed and "
        "new sessions made. Distinct: by endpoint, mutation, fault and outcome.")
MUST_OBSERVE = {"oracle:refused": 3000, "oracle:no-trace": 3500, "oracle:clients": 3500, "oracle:nothing-leaks": 3500, "oracle:fault-refused": 20, "oracle:fault-others": 400,
                "oracle:still-userinfo": 300, "oracle:still-login": 250, "fault-fired": 500, "mut:drop": 300, "mut:type": 250, "mut:garbage": 250, "mut:body": 200,
                "ep:authz": 500, "ep:redeem": 400, "ep:refresh": 300, "ep:userinfo": 400, "ep:introspection": 400, "ep:registration": 200, "ep:read": 100,
                "ep:session": 200, "ep:pushed": 200, "ep:webfinger": 100, "ep:cookie": 150}
CLIENT_KEYS = 3
GARBAGE = ["", " ", "\x00", "xxx", "å∂ß", "\U0001f600", "%", "%zz", "a=b&c=d", "{", "[]", "null", "true", "-1", "1e999", "' OR '1'='1", "../../etc/passwd", "<script>", "eyJhbGciOiJub25lIn0.e30.",
           "a.b.c", "...", ".", "a.b.c.d.e", "\n\r\nSet-Cookie: x=y", "x" * 20000, "\ud800", "__class__", "{{7*7}}", "eyJhbGciOiJIUzI1NiJ9.e30.AAAA", ";;", "0:", "-1:xx"]
TYPES = [None, 0, -1, 1.5, True, False, [], {}, [[]], [None], {"a": {"b": [1]}}, ["x", "y"], 10 ** 30, b"\xff\xfe", {"$ne": None}, [{}], float("nan")]
BODIES = ["", "\x00", "%%%", "&&&=", "{", "[1,2]", "null", "\"str\"", "[" * 3000, "{\"a\":" * 500, "x" * 100000, b"\xff\xfe", b"", None, [], 5, "=&=", "a" * 50 + "=" + "b" * 5, "\ud800", "5", {}, {"": ""},
          {"x": {"y": "z"}}, "a;b;c", "<xml/>"]
SECRET_KEYS = {"access_token", "refresh_token", "id_token", "code", "client_secret", "registration_access_token", "request_uri", "sub", "name", "email", "username", "redirect_uris", "jti", "nickname", "links"}


class Boom(Exception):
    pass


class Control:
    """raises once, at the n-th hooked call of the chosen places"""

    def __init__(self):
        self.where = set()
        self.left = 0
        self.fired = None
        self.exc = Boom

    def arm(self, where, nth, exc):
        self.where, self.left, self.fired, self.exc = set(where), nth, None, exc

    def off(self):
        self.where = set()

    def hit(self, place):
        if place in self.where and self.fired is None:
            self.left -= 1
            if self.left < 0:
                self.fired = place
                # to the session database these two mean that there is no such entry
                exc = Boom if place == "store" and self.exc in (KeyError, ValueError) else self.exc
                raise exc("injected at %s" % place)


def hook(ctl, obj, place, names):
    """give the object a class whose methods tell the controller first"""
    base = type(obj)

    def wrap(name):
        orig = getattr(base, name)

        def f(self, *a, **k):
            ctl.hit(place)
            return orig(self, *a, **k)
        return f

    ns = {n: wrap(n) for n in names if hasattr(base, n)}
    if ns:
        obj.__class__ = type(base.__name__, (base,), ns)


PLACES = ["store", "clients", "userinfo", "keys", "code-handler", "token-handler", "refresh-handler", "id-token-handler", "cookies", "authn"]


def install(w, ctl):
    hook(ctl, w.sm.db, "store", ["__getitem__", "__setitem__", "get", "__delitem__"])

    class Clients(dict):
        def __getitem__(self, k):
            ctl.hit("clients")
            return dict.__getitem__(self, k)

        def get(self, k, d=None):
            ctl.hit("clients")
            return dict.get(self, k, d)

        def __setitem__(self, k, v):
            ctl.hit("clients")
            dict.__setitem__(self, k, v)

    w.ctx.cdb = Clients(w.ctx.cdb)
    hook(ctl, w.ctx.userinfo, "userinfo", ["__call__"])
    hook(ctl, w.ctx.keyjar, "keys", ["get", "get_signing_key", "get_issuer_keys", "get_jwt_verify_keys", "get_encrypt_key"])
    for cls, h in w.sm.token_handler.handler.items():
        if h is not None:
            hook(ctl, h, {AC: "code-handler", AT: "token-handler", RT: "refresh-handler", IT: "id-token-handler"}[cls], ["__call__", "info"])
    hook(ctl, w.ctx.cookie_handler, "cookies", ["make_cookie_content", "parse_cookie"])
    hook(ctl, w.authn_method(), "authn", ["authenticated_as", "__call__"])


def state(w):
    db = {k: json.dumps(v, sort_keys=True, default=str) for k, v in w.sm.dump()["db"].items()}
    return db


def clients(w):
    return {c: json.dumps({k: x for k, x in dict.items(v) if k != "auth_method"}, sort_keys=True, default=str) for c, v in dict.items(w.ctx.cdb)}


def rest(w):
    return json.dumps([sorted(w.ctx.registration_access_token), sorted(w.ctx.par_db), w.ctx.provider_info, w.users], sort_keys=True, default=str)


# ------------------------------------------------------------------ requests
class R:
    """a request that would be served: parameters, how they are sent, and those that decide"""

    def __init__(self, kind, ep, params, hi=None, matter=(), enc="dict", grant=None, token=None, **kw):
        self.kind, self.ep, self.params, self.hi, self.matter, self.enc = kind, ep, params, hi or {}, list(matter), enc
        self.grant, self.token, self.kw = grant, token, kw
        self.wrong = set()  # members that make it certainly not valid any more
        self.muts = []
        self.body = None
        self.header = None  # as it was
        self.uri = params.get("redirect_uri")

    def undo(self, m):
        """an optional member is not there any more: only what else is wrong counts"""
        self.wrong.discard(m)

    @property
    def bad(self):
        return bool(self.wrong)

    def wire(self):
        if self.body is not None:
            return self.body[0]
        p = self.params
        if self.enc == "query":
            flat = []
            for k, v in p.items():
                vs = v if isinstance(v, list) else [v]
                for x in vs:
                    if isinstance(x, (dict, list)):
                        x = json.dumps(x, default=str)
                    flat.append((k, x if isinstance(x, (str, bytes)) else str(x)))
            return "&".join("%s=%s" % (quote(k, safe="", errors="replace"), quote(x, safe="", errors="replace") if isinstance(x, str) else quote(x, safe="")) for k, x in flat)
        if self.enc == "json":
            return json.dumps(p, default=str)
        return p


def client_auth(rng, w, cid, params, matter):
    m = rng.choice(["post", "basic", "client_secret_jwt", "private_key_jwt"])
    p, hi = w.with_auth(params, cid, m)
    if m == "post":
        matter += ["client_secret", "client_id"]
    elif m == "basic":
        p.pop("client_id", None)
        matter += ["@authorization"]
    else:
        p.pop("client_id", None)
        matter += ["client_assertion", "client_assertion_type"]
    return p, hi


def build(rng, rep, w, s, regs, kind):
    oidc = w.kind == "oidc"
    cid = rng.choice(["alpha", "alpha2", "Alpha"])
    if kind == "authz":
        rt = rng.choice(ALL_RT if oidc else ALL_RT_OAUTH2)
        req = w.areq(cid, response_type=rt, scope=rng.choice(["openid", "openid profile email", "openid offline_access"]))
        if rng.random() < 0.3 and oidc:
            req["claims"] = json.dumps({"userinfo": {"nickname": None}, "id_token": {"email": {"essential": True}}})
        for k, v in (("max_age", "500"), ("acr_values", "x y"), ("ui_locales", "en"), ("login_hint", "diana"), ("display", "page"), ("prompt", rng.choice(["login", "consent", "none"])),
                     ("response_mode", rng.choice(["form_post", "fragment"])), ("code_challenge", "x" * 43)):
            if rng.random() < 0.12:
                req[k] = v
        r = R(kind, "authorization", req, matter=["client_id", "response_type", "redirect_uri"], enc=rng.choice(["query", "query", "query", "dict"]))
        if rng.random() < 0.4 and s.cookies:
            r.hi["cookie"] = copy.deepcopy(rng.choice(s.cookies))
        return r
    if kind == "redeem":
        codes = [t for t in s.tokens if t.cls == AC and t.active() is True]
        if not codes:
            return None
        t = rng.choice(codes)
        m = ["grant_type", "code", "redirect_uri"]
        p, hi = client_auth(rng, w, t.grant.client, w.code_req(t.grant.client, t.value, redirect_uri=t.grant.redirect_uri), m)
        return R(kind, "token", p, hi, m, enc=rng.choice(["dict", "query"]), grant=t.grant, token=t)
    if kind == "refresh":
        rts = [t for t in s.tokens if t.cls == RT and t.active() is True]
        if not rts:
            return None
        t = rng.choice(rts)
        m = ["grant_type", "refresh_token"]
        p, hi = client_auth(rng, w, t.grant.client, {"grant_type": "refresh_token", "refresh_token": t.value, "client_id": t.grant.client}, m)
        return R(kind, "token", p, hi, m, enc=rng.choice(["dict", "query"]), grant=t.grant, token=t)
    if kind == "userinfo":
        ats = [t for t in s.tokens if t.cls == AT and t.active() is True]
        if not ats or not oidc:
            return None
        t = rng.choice(ats)
        if rng.random() < 0.6:
            return R(kind, "userinfo", {}, {"headers": {"authorization": "Bearer " + t.value}}, ["@authorization"], grant=t.grant, token=t)
        return R(kind, "userinfo", {"access_token": t.value}, {}, ["access_token"], enc=rng.choice(["dict", "query"]), grant=t.grant, token=t)
    if kind == "introspection":
        ats = [t for t in s.tokens if t.cls in (AT, RT) and t.active() is True]
        if not ats:
            return None
        t = rng.choice(ats)
        m = ["token"]
        p, hi = w.with_auth({"token": t.value}, cid, rng.choice(["post", "basic"]))
        m += ["@authorization"] if hi else ["client_secret", "client_id"]
        if rng.random() < 0.2:
            p["token_type_hint"] = rng.choice(["access_token", "refresh_token", "nonsense"])
        return R(kind, "introspection", p, hi, m, enc=rng.choice(["dict", "query"]), grant=t.grant, token=t)
    if kind == "registration" and oidc:
        p = {"redirect_uris": ["https://new.example.net/cb"], "response_types": ["code"], "client_name": "N", "contacts": ["a@example.net"], "subject_type": "public"}
        for k, v in (("id_token_signed_response_alg", "ES256"), ("jwks", {"keys": []}), ("post_logout_redirect_uri", "https://new.example.net/bye"), ("grant_types", ["authorization_code"]),
                     ("logo_uri", "https://new.example.net/logo.png"), ("default_max_age", 500), ("sector_identifier_uri", "https://sector.example.net/x")):
            if rng.random() < 0.15:
                p[k] = v
        return R(kind, "registration", p, {}, ["redirect_uris"], enc="json")
    if kind == "read" and oidc:
        if not regs:
            return None
        c, rat = rng.choice(regs)
        return R(kind, "registration_read", {"client_id": c}, {"headers": {"authorization": "Bearer " + rat}}, ["client_id", "@authorization"], enc=rng.choice(["query", "dict"]))
    if kind == "session" and oidc:
        idts = [t for t in s.tokens if t.cls == IT and t.grant.active() is True]
        if not idts:
            return None
        t = rng.choice(idts)
        r = R(kind, "session", {"id_token_hint": t.value, "state": "x"}, {}, ["id_token_hint"], enc="dict", grant=t.grant)
        if rng.random() < 0.5 and t.grant in s.cookie_of:
            r.hi["cookie"] = copy.deepcopy(s.cookie_of[t.grant])
        return r
    if kind == "pushed":
        m = ["redirect_uri", "response_type"]
        p, hi = client_auth(rng, w, cid, w.areq(cid), m)
        if "client_assertion" in p or hi:
            p["client_id"] = cid
        return R(kind, "pushed_authorization", p, hi, m, enc=rng.choice(["query", "dict"]))
    if kind == "webfinger" and oidc:
        return R(kind, "discovery", {"resource": "acct:diana@example.org", "rel": "http://openid.net/specs/connect/1.0/issuer"}, {}, [], enc=rng.choice(["query", "dict"]))
    if kind == "cookie" and s.cookies:
        # only a valid cookie stands for a user here
        r = R(kind, "authorization", w.areq(cid), {"cookie": copy.deepcopy(rng.choice(s.cookies))}, ["@cookie"], enc="query")
        return r
    return None


# ------------------------------------------------------------------ mutations
def change(rng, v):
    """a value that stands for something else"""
    v = v if isinstance(v, str) else json.dumps(v, default=str)
    while True:
        k = rng.choice(["garbage", "garbage", "flip", "trunc", "append", "type", "empty", "huge", "type"])
        if k == "garbage":
            n = rng.choice(GARBAGE)
        elif k == "flip" and len(v) > 3:
            n = flip(rng, v)
        elif k == "trunc" and len(v) > 9:
            n = v[:rng.randrange(1, len(v) - 7)]
        elif k == "append":
            n = v + rng.choice(["x", "\x00", "å", "AAAA", ".", "%00", "XXXX"])
        elif k == "type":
            n = rng.choice(TYPES)
        elif k == "empty":
            n = ""
        elif k == "huge":
            n = v * 50 if len(v) < 2000 else v + v
        else:
            continue
        if n != v and not (isinstance(n, list) and v in n):
            return k, n


def optional(r, m):
    """may be left out"""
    if m == "redirect_uri":  # an OAuth2 client with one redirect URI
        return r.kind != "redeem"
    return m == "id_token_hint" and "cookie" in r.hi  # the cookie says who it is


def as_good(r, m, n):
    """another value that serves as well"""
    if m == "response_type" and isinstance(n, str):
        return set(n.split()) in [set(x.split()) for x in ALL_RT]
    if m == "redirect_uri" and isinstance(n, str):  # a scheme in capitals
        return n.partition(":")[0].islower() is False and n.partition(":")[0].lower() == "https" and n.partition(":")[2] == str(r.uri).partition(":")[2]
    return False


SENSE = {
    # well formed, but asking for something that is not to be had; True: certainly refused
    "refresh": [({"scope": "openid profile email address phone offline_access other"}, True), ({"scope": "nothing"}, True), ({"scope": ""}, False),
                ({"grant_type": "authorization_code"}, True), ({"grant_type": "password"}, True), ({"requested_token_type": "x"}, False)],
    "redeem": [({"redirect_uri": "https://alpha.example.com/other"}, True), ({"grant_type": "refresh_token"}, True), ({"grant_type": "client_credentials"}, True),
               ({"code_verifier": "y" * 43}, False), ({"scope": "openid other"}, False)],
    "authz": [({"prompt": "none login"}, False), ({"request": "a.b.c"}, False), ({"request_uri": "https://nowhere.example.net/r"}, False), ({"request_uri": "urn:uuid:00000000-0000-0000-0000-000000000000"}, False),
              ({"id_token_hint": "a.b.c"}, False), ({"max_age": "-1"}, False), ({"max_age": "soon"}, False), ({"response_mode": "carrier_pigeon"}, False), ({"scope": ""}, False), ({"scope": "profile"}, False),
              ({"claims": "{"}, False), ({"claims": json.dumps({"id_token": {"sub": {"value": "someone else"}}})}, False), ({"acr_values": "unheard-of"}, False),
              ({"claims": json.dumps({"id_token": {"acr": {"essential": True, "value": "unheard-of"}}})}, False), ({"nonce": ""}, False), ({"response_type": "token code code"}, False)],
    "introspection": [({"token": "unknown"}, False)],
    "registration": [({"redirect_uris": ["https://new.example.net/cb#frag"]}, True), ({"redirect_uris": ["http://new.example.net/cb"], "application_type": "web", "response_types": ["id_token"], "grant_types": ["implicit"]}, False),
                     ({"response_types": ["carrier pigeon"]}, False), ({"subject_type": "martian"}, False), ({"id_token_signed_response_alg": "XS1"}, False), ({"jwks_uri": "https://nowhere.example.net/k"}, False),
                     ({"token_endpoint_auth_method": "magic"}, False), ({"sector_identifier_uri": "http://plain.example.net/x"}, False), ({"sector_identifier_uri": "https://nowhere.example.net/x"}, False),
                     ({"redirect_uris": ["https://a.example.net/cb", "https://b.example.net/cb"], "subject_type": "pairwise"}, False), ({"post_logout_redirect_uri": "https://new.example.net/bye#x"}, False),
                     ({"redirect_uris": ["custom:/cb"], "application_type": "web"}, False), ({"policy_uri": "https://elsewhere.example.org/p"}, False), ({"grant_types": ["magic"]}, False),
                     ({"userinfo_encrypted_response_enc": "A128CBC-HS256"}, False), ({"default_acr_values": ["unheard-of"]}, False)],
    "session": [({"post_logout_redirect_uri": "https://elsewhere.example.net/bye"}, False), ({"client_id": "nobody"}, False)],
    "pushed": [({"request_uri": "urn:uuid:00000000-0000-0000-0000-000000000000"}, False), ({"redirect_uri": "https://elsewhere.example.net/cb"}, True), ({"response_type": "carrier pigeon"}, False),
               ({"request": "a.b.c"}, False), ({"scope": ""}, False), ({"response_mode": "carrier_pigeon"}, False)],
}


def sense(rng, r):
    p, sure = rng.choice(SENSE[r.kind])
    if any(k in r.params and r.params[k] == v for k, v in p.items()):
        return
    r.params.update(copy.deepcopy(p))
    r.muts.append("sense:" + ",".join(p))
    for k in p:
        r.wrong.discard(k)
        if sure or k == "token":
            r.wrong.add(k)


def mutate(rng, r):
    if r.body is not None:
        return
    if r.kind in SENSE and rng.random() < 0.2:
        return sense(rng, r)
    k = rng.random()
    keys = list(r.params)
    if k < 0.07 and r.enc != "json" or k < 0.15 and r.enc == "json":
        r.body = [rng.choice(BODIES)]
        r.muts.append("body")
        # the authorization header still stands for something; everything else is gone
        if r.matter and r.matter != ["@authorization"] and "cookie" not in r.hi:
            r.wrong.add("@body")
        else:
            r.wrong = {m for m in r.wrong if m.startswith("@")}
        return
    if k < 0.62 and r.matter:
        m = rng.choice(r.matter)
        if m == "@cookie":
            bad_cookie(rng, r)
            r.wrong.add("@cookie")
        elif m == "@authorization":
            bad_header(rng, r)
        else:
            if m not in r.params:
                return
            if rng.random() < 0.3:
                r.params.pop(m)
                r.muts.append("drop")
                r.wrong.discard(m) if optional(r, m) else r.wrong.add(m)
            else:
                kind, n = change(rng, r.params[m])
                r.params[m] = n
                r.muts.append(kind)
                if as_good(r, m, n):
                    r.wrong.discard(m)
                    return
                r.wrong.discard(m) if optional(r, m) and not (isinstance(n, str) and n.strip()) else r.wrong.add(m)
        if r.muts and r.muts[-1] in ("drop", "garbage", "flip", "trunc", "append", "type", "empty", "huge"):
            r.muts[-1] += ":" + m
        return
    if k < 0.85 and keys:
        m = rng.choice(keys)
        if m in r.matter:
            # twice the same parameter, with the right value among them
            r.params[m] = [r.params[m], rng.choice(GARBAGE)] if rng.random() < 0.5 else [r.params[m]] * 2
            r.muts.append("dup:" + m)
        else:
            r.wrong.discard(m)
            if rng.random() < 0.3:
                r.params.pop(m)
                r.muts.append("drop:" + m)
            else:
                kind, n = change(rng, r.params[m])
                r.params[m] = n
                r.muts.append(kind + ":" + m)
        return
    # something more
    m = rng.choice(["scope", "state", "nonce", "claims", "request", "request_uri", "id_token_hint", "max_age", "prompt", "registration", "client_id", "client_secret", "token", "sid", "user", "session_id",
                    "acr_values", "login_hint", "__verified_request", "response_mode", "code_verifier", "dpop_jkt", "post_logout_redirect_uri", "logout_hint", "x" * 50, "", "token_type_hint",
                    "client_assertion", "jwks", "client_id_issued_at", "expires_in", "redirect_uris", "authenticated", "issue_refresh"])
    if m in r.matter:
        return
    r.params[m] = rng.choice(GARBAGE + TYPES)
    r.wrong.discard(m)
    r.muts.append("extra:" + m)


def bad_header(rng, r):
    h = (r.hi.get("headers") or {}).get("authorization")
    if not isinstance(h, str) or " " not in h:
        return  # broken already
    h = r.hi["headers"]["authorization"]
    scheme, _, val = h.partition(" ")
    opts = ["", scheme, scheme + " ", val, "Digest " + val, "Bearer Bearer " + val[:-1] + "\x00", scheme + "\x00" + val, scheme + " " + (flip(rng, val) if len(val) > 3 else "\x00"), scheme + " " + val[: len(val) // 2], scheme + " " + val + "AAAA",
            scheme + " " + rng.choice(GARBAGE), scheme + " " + base64.b64encode(rng.choice(GARBAGE).encode("utf-8", "replace")).decode(), ("Basic " if scheme == "Bearer" else "Bearer ") + val,
            "Basic " + base64.b64encode(b":").decode(), "Basic " + base64.b64encode(b"alpha").decode(), "Basic " + base64.b64encode(b"alpha:").decode(), None, 5, [h], {}, "å " + val]
    n = r.hi["headers"]["authorization"] = rng.choice(opts)
    if r.header is None:
        r.header = h
    if n == r.header or same_basic(r.header, n):
        r.wrong.discard("@authorization")
        return
    if rng.random() < 0.1:
        r.hi = rng.choice([{}, {"headers": {}}, {"headers": {"x": "y"}}])
    r.wrong.add("@authorization")
    r.muts.append("header")


def same_basic(a, b):
    """base64 has more than one way to say the same"""
    try:
        x, y = ([*v.partition(" ")] for v in (a, b))
        return x[0] == y[0] == "Basic" and base64.b64decode(x[2]) == base64.b64decode(y[2])
    except Exception:
        return False


def bad_cookie(rng, r):
    c = r.hi["cookie"]
    k = rng.randrange(9)
    if r.muts and "cookie" in r.muts:
        return
    if k == 0:
        for x in c:
            x["value"] = flip(rng, x["value"]) if len(x["value"]) > 3 else "x"
    elif k == 1:
        for x in c:
            x["value"] = rng.choice(GARBAGE)
    elif k == 2:
        for x in c:
            x["value"] = x["value"][: len(x["value"]) // 2]
    elif k == 3:
        for x in c:
            x["name"] = rng.choice(["sman", "oidc_op_rp", "", "xx"])
    elif k == 4:
        c[:] = []
    elif k == 5:
        for x in c:
            x["value"] = "|".join(reversed(x["value"].split("|")))
    elif k == 6:
        for x in c:
            x["value"] = rng.choice(["|", "||", "|||", "a|b|c|d", "1|2|3"])
    elif k == 7:
        for x in c:
            x["value"] = rng.choice([None, 5, [], {}])
    else:
        r.hi["cookie"] = rng.choice([None, "", [], [{}], [None], [{"name": "oidc_op"}], "oidc_op=x", 5, [{"value": "x"}]])
    r.muts.append("cookie")


# ------------------------------------------------------------------ the case
def login(rng, rep, w, s, label="start"):
    cid = rng.choice(["alpha", "alpha2", "Alpha"])
    u = rng.choice(sorted(USERS))
    oidc = w.kind == "oidc"
    rt = rng.choice(["code", "code", "code id_token token" if oidc else "code token"])
    sc = rng.choice(["openid offline_access", "openid profile email offline_access"]) if oidc else "read openid"
    g, r = s.authorize(u, cid, sc, rt=rt)
    if not rep.check(g is not None, "still-login", "a valid authorization request is not served any more: %s" % r.brief(), when=label):
        return None
    ck = [c for c in r.cookies if c["name"] == "oidc_op"]
    if ck:
        s.cookies.append(ck)
        s.cookie_of[g] = ck
    return g


def redeem(rep, w, s, g, label="start"):
    kw = {} if w.kind == "oidc" else {"issue_refresh": True}
    r, new = s.redeem(g.code, **kw)
    rep.check(r.ok, "still-redeem", "a valid code is not redeemed any more: %s" % r.brief(), when=label)
    return new


def run_case(rng, rep, i):
    kind = "oidc" if rng.random() < 0.75 else "oauth2"
    rules = {AC: {"supports_minting": [AT, RT, IT], "max_usage": 1, "expires_in": 3000}, AT: {"expires_in": 3000}, RT: {"supports_minting": [AT, RT, IT], "expires_in": 40000}}
    o = {"capabilities": {"scopes_supported": ["openid", "profile", "email", "offline_access", "read"]}} if kind == "oidc" else {}
    w = World(kind, rep, keys=rng.choice([0, 1]), usage_rules=rules, par=True, token_handler=rng.choice(["jwt", "default"]), refresh_handler=rng.choice(["jwt", "default"]),
              code_handler=rng.choice(["jwt", "default"]), introspection_kwargs={}, httpc=NoNet(), **o)
    w.ctx.httpc = NoNet()
    w.ctx.keyjar.httpc = NoNet()
    for n, c in enumerate(["alpha", "alpha2", "Alpha"]):
        e = {}
        if rng.random() < 0.3:
            e["id_token_signed_response_alg"] = "ES256"
        w.add_client(c, keys=n, **e)
    ctl = Control()
    install(w, ctl)
    s = Story(w, rep, rng)
    s.life[IT] = 40000
    s.cookies, s.cookie_of = [], {}
    regs = []
    for _ in range(rng.randrange(3, 5)):
        g = login(rng, rep, w, s)
        if g is not None and rng.random() < 0.7:
            redeem(rep, w, s, g)
    if kind == "oidc":
        r = w.do("registration", json.dumps({"redirect_uris": ["https://r.example.net/cb"], "response_types": ["code"]}))
        if rep.check(r.ok and "client_id" in r.data, "registered", "registration refused: %s" % r.brief()):
            regs.append((r.data["client_id"], r.data["registration_access_token"]))
    kinds = ["authz"] * 4 + ["redeem"] * 3 + ["refresh"] * 3 + ["userinfo"] * 3 + ["introspection"] * 3 + ["registration"] * 2 + ["read", "session", "session", "pushed", "pushed", "webfinger", "cookie", "cookie"]
    before = (state(w), clients(w), rest(w))
    for n in range(rng.randrange(30, 46)):
        if rng.random() < 0.1:
            CLOCK.advance(rng.choice([1, 7]))
        k = rng.choice(kinds)
        r = build(rng, rep, w, s, regs, k)
        if r is None:
            if k in ("redeem", "refresh"):
                g = login(rng, rep, w, s, "step %d" % n)
                if g is not None and k == "refresh":
                    redeem(rep, w, s, g, "step %d" % n)
                before = (state(w), clients(w), rest(w))
            continue
        fault = rng.random() < 0.3
        if not fault or rng.random() < 0.4:
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                mutate(rng, r)
        if k == "cookie":
            w.authn_method().fail = NoSuchAuthentication
        exc = None
        if fault:
            exc = rng.choice([Boom, Boom, RuntimeError, ValueError, TypeError, KeyError, OSError, AttributeError])
            pl = rng.choice([[rng.choice(PLACES)], [rng.choice(PLACES)], PLACES])
            ctl.arm(pl, rng.choice([0, 0, 1, 1, 2, 3, 4, 6, 9, 14, 20]), exc)
        res = send(rng, w, r)
        ctl.off()
        w.authn_method().fail = None
        after = (state(w), clients(w), rest(w))
        fired = ctl.fired if fault else None
        judge(rep, w, s, r, res, before, after, fired, exc)
        rep.count("ep:" + k)
        for m in r.muts:
            rep.count("mut:" + m.split(":")[0])
        if fired:
            rep.count("fault-fired")
        rep.sig(k, r.muts, fired, res.outcome())
        # what a served request changed
        if after != before:
            resync(w, s, r, res, after, regs)
        before = after
        if n % 9 == 8:
            check_alive(rng, rep, w, s, regs, n)
            before = (state(w), clients(w), rest(w))
    check_alive(rng, rep, w, s, regs, "end")


class NoNet:
    def __call__(self, *a, **k):
        raise ConnectionError("no network")

    get = post = request = __call__


def send(rng, w, r):
    kw = {"issue_refresh": True} if r.kind in ("redeem", "refresh") and w.kind == "oauth2" else {}
    return w.do(r.ep, r.wire(), copy.deepcopy(r.hi), label=r.kind, **kw)


def succeeded(r, res):
    """was something given?"""
    if r.kind == "introspection":
        return res.data.get("active") is True
    if r.kind in ("authz", "cookie"):
        return res.kind == "redirect" and res.ok
    if r.kind == "session":
        return res.kind == "redirect"
    return res.ok


def leaks(r, res):
    """members only a granted request may have in its answer"""
    d = res.data if isinstance(res.data, dict) else {}
    out = sorted(k for k in d if k in SECRET_KEYS and d[k])
    return out


def judge(rep, w, s, r, res, before, after, fired, exc):
    info = {"request": short(str(r.params), 400), "http": short(str(r.hi), 300), "body": short(str(r.body), 100), "mutations": r.muts, "fault": fired, "exception": getattr(exc, "__name__", None), "answer": res.brief()}
    given = succeeded(r, res)
    if r.bad:
        rep.check(not given, "refused", "%s with %s was served: %s" % (r.kind, r.muts, res.brief()), **info)
        if fired:
            rep.check(not given, "fault-refused", "%s with %s and a fault in %s was served: %s" % (r.kind, r.muts, fired, res.brief()), **info)
    refused = not given
    if refused:
        if res.kind != "exception":
            rep.check(not leaks(r, res), "nothing-leaks", "refusal of %s tells %s" % (r.kind, leaks(r, res)), **info)
        else:
            rep.count("oracle:nothing-leaks")
    own = set()
    if r.grant is not None:
        p = w.sm.decrypt_session_id(r.grant.sid)
        own = {";;".join(p[:n]) for n in (1, 2, 3)}
    if refused and not fired:
        for n, what in ((0, "no-trace"), (1, "clients"), (2, "rest")):
            rep.check(before[n] == after[n], what, "%s with %s was refused (%s) and changed %s" % (r.kind, r.muts, res.brief(), changed(before[n], after[n])), **info)
    elif refused:
        # something broke on the way: nobody else notices
        ch = [k for k in before[0] if before[0][k] != after[0].get(k)]
        alien = [k for k in ch if k not in own and not grown(before[0][k], after[0].get(k))]
        rep.check(not alien, "fault-others", "%s with a fault in %s (%s) changed other sessions: %s" % (r.kind, fired, res.brief(), [(k, diffs(before[0][k], after[0].get(k))) for k in alien]), **info)
        rep.check(all(before[1][c] == after[1].get(c) for c in before[1]), "fault-clients", "%s with a fault in %s changed clients: %s" % (r.kind, fired, changed(before[1], after[1])), **info)


def grown(a, b):
    """only got another subordinate"""
    if b is None:
        return False
    x, y = json.loads(a)[1], json.loads(b)[1]
    if "subordinate" not in x or "subordinate" not in y:
        return False
    sx, sy = x.pop("subordinate"), y.pop("subordinate")
    return x == y and sy[:len(sx)] == sx


def diffs(a, b):
    if b is None:
        return "gone"
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    return "...%s -> %s" % (a[max(0, i - 60):i + 60], b[max(0, i - 20):i + 60])


def changed(a, b):
    if isinstance(a, dict):
        out = ["%s added" % short(k, 60) for k in b if k not in a] + ["%s gone" % short(k, 60) for k in a if k not in b] + [k + " " + diffs(a[k], b[k]) for k in a if k in b and a[k] != b[k]]
        return "; ".join(out)
    return diffs(a, b)


def resync(w, s, r, res, after, regs):
    """the model follows what served requests (or faults) did"""
    if succeeded(r, res):
        if r.kind in ("redeem", "refresh"):
            s.took(res, r.token, r.kind)
        if r.kind == "registration" and "client_id" in res.data:
            regs.append((res.data["client_id"], res.data["registration_access_token"]))
    elif r.token is not None and r.kind in ("redeem",):
        # a fault may have cost the code
        s.tokens.remove(r.token)


def check_alive(rng, rep, w, s, regs, n):
    """what was valid is served as before"""
    for t in rng.sample(s.tokens, min(len(s.tokens), 8)):
        if t.cls != IT:
            s.probe(t, "still-")
    g = login(rng, rep, w, s, n)
    if g is not None:
        new = redeem(rep, w, s, g, n)
        if AT in new:
            s.probe(new[AT], "still-")
    live = [t for t in s.tokens if t.cls == RT and t.active() is True]
    if live:
        t = rng.choice(live)
        kw = {} if w.kind == "oidc" else {"issue_refresh": True}
        r, new = s.refresh(t, **kw)
        rep.check(r.ok, "still-refresh", "a valid refresh token is refused: %s" % r.brief(), when=n)
    if regs:
        c, rat = rng.choice(regs)
        r = w.do("registration_read", "client_id=" + c, {"headers": {"authorization": "Bearer " + rat}}, label="registration_read")
        rep.check(r.ok and r.data.get("client_id") == c, "still-registration", "a registration can not be read: %s" % r.brief(), when=n)
    r = w.do("provider_config", {})
    rep.check(r.ok and r.data.get("issuer") == w.issuer, "still-discovery", "discovery fails: %s" % r.brief(), when=n)
