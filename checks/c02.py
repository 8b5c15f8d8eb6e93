"""C02: codes and refresh tokens are bound to client and redirect_uri."""
import random

from vlib.clock import CLOCK
from vlib.story import AC, AT, IT, RT, Story
from vlib.world import World, peek

CASES = {"quick": 1800, "thorough": 60000}
RULE = ("One case: a server (OIDC or OAuth2, any handler mix) with four clients that share redirect URIs, several sessions of "
        "several users, then a random sequence of presentations of codes and refresh tokens by right and wrong clients, with right "
        "and wrong redirect URIs (mutations of the right one and other registered ones), different authentication methods. "
        "Non-trivial: at least one presentation by a foreign client or with a foreign redirect_uri. Distinct: by the sequence of "
        "abstract presentations and outcomes.")
MUST_OBSERVE = {"oracle:foreign-client-refused": 300, "oracle:foreign-uri-refused": 200, "oracle:owner-served": 300,
                "oracle:tokens-in-right-session": 300}
TOKEN_KEYS = ("access_token", "refresh_token", "id_token")
CLIENTS = ["alpha", "alpha2", "Alpha", "public"]
URIS = ["https://shared.example.com/cb", "https://shared.example.com/cb2", "https://shared.example.com/cb%20x",
        "https://shared.example.com/CB", "myapp:/cb"]


def mutate_uri(rng, uri, reg):
    k = rng.randrange(12)
    if k == 0:
        return uri + "/", "slash"
    if k == 1:
        return uri[:-1], "truncated"
    if k == 2:
        return uri.upper(), "upper"
    if k == 3:
        return uri + "?a=b", "query"
    if k == 4:
        return uri + "#x", "fragment"
    if k == 5:
        return uri + " ", "blank"
    if k == 6:
        j = rng.randrange(len(uri))
        return uri[:j] + "%%%02X" % ord(uri[j]) + uri[j + 1:], "encoded"
    if k == 7:
        return "", "empty"
    if k == 8:
        return None, "missing"
    if k == 9:
        return uri.replace("https://", "http://"), "scheme"
    if k == 10:
        return uri + "evil", "suffix"
    others = [u for u in reg if u != uri]
    return rng.choice(others), "other registered"


def run_case(rng, rep, i):
    kind = rng.choice(["oidc", "oidc", "oauth2"])
    o = {k: rng.choice(["default", "jwt"]) for k in ("code_handler", "token_handler", "refresh_handler")}
    o["token_authn"] = ["client_secret_basic", "client_secret_post", "client_secret_jwt", "private_key_jwt", "none"]
    w = World(kind, rep, keys=0, **o)
    for c in CLIENTS:
        uris = [(u, {}) for u in URIS]
        w.add_client(c, keys=0, public=(c == "public"), redirect_uris=uris)
    s = Story(w, rep, rng)
    rep.sig(kind)
    methods = ["post", "basic", "client_secret_jwt", "private_key_jwt", "none"]

    def kw(by):
        k = {"method": rng.choice(methods) if by != "public" else "none"}
        if kind == "oauth2":
            k["issue_refresh"] = True
        return k

    for n in range(rng.randrange(2, 5)):
        scope = "read" if kind == "oauth2" else rng.choice(["openid offline_access", "openid offline_access email"])
        g, r = s.authorize(rng.choice(["diana", "ziggy", "lemmy"]), rng.choice(CLIENTS), scope,
                           redirect_uri=rng.choice(URIS), rt=rng.choice(["code", "code token"]))
        if not rep.check(g is not None, "authorized", "authorization refused: %s" % r.brief()):
            return

    def right_session(g, r):
        """every token of the response resolves to the session of the grant"""
        for k in TOKEN_KEYS:
            v = r.data.get(k)
            if not v:
                continue
            if k == "id_token":
                p = peek(v)
                aud = p["aud"] if isinstance(p["aud"], list) else [p["aud"]]
                rep.check(aud == [g.client], "tokens-in-right-session", "ID Token for %s, expected %s" % (aud, g.client))
                rep.check(p["sub"] == subs.setdefault((g.user, "sub"), p["sub"]), "tokens-in-right-session", "ID Token sub changed")
                continue
            try:
                info = w.sm.get_session_info_by_token(v, grant=True)
            except Exception as e:
                rep.check(False, "tokens-in-right-session", "%s of a successful response does not resolve: %r" % (k, e))
                continue
            rep.check(info["user_id"] == g.user and info["client_id"] == g.client
                      and info["grant_id"] == gid[g.sid], "tokens-in-right-session",
                      "%s belongs to %s/%s, expected %s" % (k, info["user_id"], info["client_id"], g.label()))
            iv = w.introspect(v, "alpha")
            rep.check(iv.data.get("client_id") == g.client, "tokens-in-right-session",
                      "introspection names client %s, expected %s" % (iv.data.get("client_id"), g.client), answer=iv.brief())

    subs = {}
    gid = {g.sid: w.sm.decrypt_session_id(g.sid)[2] for g in s.grants}
    nontrivial = False
    for step in range(rng.randrange(5, 13)):
        t = rng.choice([t for t in s.tokens if t.cls in (AC, RT)])
        g = t.grant
        foreign = rng.random() < 0.5
        by = rng.choice([c for c in CLIENTS if c != g.client]) if foreign else g.client
        act = t.active()
        if t.cls == AC:
            uri, uk = g.redirect_uri, "same"
            if rng.random() < 0.4:
                uri, uk = mutate_uri(rng, g.redirect_uri, URIS)
                if uri == g.redirect_uri:
                    uk = "same"
            k = kw(by)
            if uri is None:
                req = w.code_req(by, t.value)
                req.pop("redirect_uri")
                req, hi = w.with_auth(req, by, k["method"])
                r = w.do("token", req, hi, label="redeem", **{x: k[x] for x in k if x == "issue_refresh"})
                new = s.took(r, t, "code") if r.ok else {}
            else:
                r, new = s.redeem(t, by=by, redirect_uri=uri, **k)
        else:
            uk = "-"
            k = kw(by)
            r, new = s.refresh(t, by=by, **k)
        toks = [x for x in TOKEN_KEYS if x in r.data]
        rep.sig(t.cls, foreign, uk, k["method"], act, r.outcome())
        # "none" does not prove anything: confidential clients may still be served with it since
        # the endpoint was configured to accept it; the binding must hold all the same
        if foreign:
            nontrivial = True
            rep.check(not r.ok and not toks, "foreign-client-refused",
                      "%s of %s was served to %s (%s)" % (t.cls, g.client, by, k["method"]), answer=r.brief())
        elif t.cls == AC and uk != "same":
            nontrivial = True
            rep.check(not r.ok and not toks, "foreign-uri-refused",
                      "code for redirect_uri %r served with %r (%s)" % (g.redirect_uri, uri, uk), answer=r.brief())
        elif act is True:
            rep.check(r.ok and "access_token" in r.data, "owner-served", "owner refused: %s" % r.brief(), cls=t.cls)
        if r.ok and not foreign:
            right_session(g, r)
        if t.cls == AC and t.used and act is not True and kind == "oidc":
            # a replay: what was minted is gone (C01); do not use it any further here
            for d in t.descendants():
                d.revoked = True
    if not nontrivial:
        rep.case_sig = []
