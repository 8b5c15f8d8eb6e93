"""C15: logout ends the sessions it should and only tells who it must."""
import base64
import html
import json
from html.parser import HTMLParser
from urllib.parse import parse_qs, parse_qsl, urlsplit

from cryptojwt.jws.jws import factory
from cryptojwt.jwt import JWT
from cryptojwt.key_jar import KeyJar
from vlib.clock import CLOCK
from vlib.story import AC, AT, RT, IT, Story
from vlib.world import ISSUER, USERS, World, flip, key_bundle, peek

CASES = {"quick": 340, "thorough": 12000}
SERVER_KEYS = 3
CLIENT_KEYS = 2
RULE = ("One case: 2-3 users with sessions at 2-5 clients that have a back-channel, front-channel, both or no logout URI, several post-logout URIs, signing "
        "algorithms and ways of registration; end-session requests with all sorts of cookies, hints, redirect URIs and states; confirmed (for one or all "
        "clients) by the way the example application does it, with clients that fail to answer; afterwards every token of every session is compared with "
        "the model and every message to a client with what it has to be.  Distinct: by client configuration, request kind and outcome.")
MUST_OBSERVE = {"oracle:served": 250, "oracle:refused": 500, "oracle:nothing-yet": 700, "oracle:verify-page": 250, "oracle:logout-token": 150, "oracle:frame": 60,
                "oracle:told": 300, "oracle:lt-userinfo": 500, "oracle:lt-introspection": 1500, "oracle:dead-code": 30, "oracle:dead-refresh": 60,
                "confirmed:all": 60, "confirmed:one": 60, "post-redirect": 60, "client-down": 20, "client-removed": 20, "others-alive": 500, "oracle:alien-page": 60}
NASTY = ["st1", "a b", "&x=y", "#frag", "%20", "å€", "\"><script>", "", "=?&", "a&state=evil", "\n\r"]


class Frame(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.seen = []
        self.text = []

    def handle_starttag(self, tag, attrs):
        self.seen.append((tag, attrs))

    def handle_endtag(self, tag):
        self.seen.append(("/" + tag, []))

    def handle_data(self, data):
        if data.strip():
            self.text.append(data)


class Out:
    """where the server's own HTTP requests end"""

    def __init__(self, rng):
        self.rng = rng
        self.sent = []
        self.docs = {}
        self.trouble = set()

    def post(self, url, data=None, headers=None, **kw):
        self.sent.append((url, data, dict(headers or {})))
        host = urlsplit(url).netloc
        if host in self.trouble:
            k = self.rng.randrange(3)
            if k == 0:
                raise ConnectionError("no route to host")

        class R:
            status_code = self.rng.choice([200, 204]) if host not in self.trouble else self.rng.choice([400, 500, 501, 504])
            text = ""
        return R()

    def get(self, url, **kw):
        self.sent.append((url, None, {}))
        raise ConnectionError(url)

    def __call__(self, method, url, **kw):
        return self.post(url, **kw) if method == "POST" else self.get(url, **kw)


def run_case(rng, rep, i):
    out = Out(rng)
    verify_page = ISSUER + "/verify_logout"
    sign = rng.choice(["ES256", "RS256", "ES256"])
    w = World("oidc", rep, httpc=out, session_kwargs={"signing_alg": sign}, token_handler=rng.choice(["jwt", "default"]),
              usage_rules={"authorization_code": {"expires_in": 3600, "supports_minting": ["access_token", "refresh_token", "id_token"], "max_usage": 1},
                           "access_token": {"expires_in": 100000}, "refresh_token": {"expires_in": 100000, "supports_minting": ["access_token", "refresh_token", "id_token"]}},
              keys=rng.randrange(2))
    w.ctx.httpc = out
    users = rng.sample(sorted(USERS), rng.randrange(2, 4))
    clients = []
    conf = {}
    for n in range(rng.randrange(2, 6)):
        c = "rp%d" % n
        kind = rng.choice(["bc", "bc", "fc", "fc", "both", "none"])
        m = {}
        host = "https://rp%d.example.com" % n
        if kind in ("bc", "both"):
            m["backchannel_logout_uri"] = rng.choice([host + "/bc", host + "/bc?tenant=%d" % n])
        if kind in ("fc", "both"):
            m["frontchannel_logout_uri"] = rng.choice([host + "/fc", host + "/fc?x=1&y=2", host + "/fc?q=%22%3E", host + "/f\"><script>alert(1)</script>"])
            if rng.random() < 0.6:
                m["frontchannel_logout_session_required"] = rng.random() < 0.7
        if rng.random() < 0.75:
            m["post_logout_redirect_uri"] = host + rng.choice(["/bye", "/bye?a=b", "/bye/", "/bye?a=b&c=d%20e"])
        alg = rng.choice(["RS256", "ES256", "HS256", None])
        if alg:
            m["id_token_signed_response_alg"] = alg
        if rng.random() < 0.4 and "\"" not in json.dumps(m.get("frontchannel_logout_uri", "")):
            r = w.do("registration", json.dumps(dict(m, redirect_uris=[host + "/cb"], response_types=["code", "id_token", "code id_token", "code id_token token"],
                                                     token_endpoint_auth_method="client_secret_post")))
            if not rep.check("client_id" in r.data, "registered", "registration refused: %s" % r.brief()):
                continue
            c = r.data["client_id"]
            w.secrets[c] = r.data["client_secret"]
        else:
            st = dict(m)
            if "post_logout_redirect_uri" in st:
                b, _, q = st["post_logout_redirect_uri"].partition("?")
                st["post_logout_redirect_uri"] = [b, parse_qs(q) if q else ""]
            w.add_client(c, keys=n % 2, **st)
            if rng.random() < 0.7:
                del w.ctx.cdb[c]["client_id"]  # as read from a configuration file
        conf[c] = m
        clients.append(c)
        rep.sig("client", kind, alg, sorted(m))
    if not clients:
        return
    s = Story(w, rep, rng)
    cookies = {}  # grant -> session cookie
    idts = {}     # (user, client) -> [id tokens]
    for n in range(rng.randrange(3, 8)):
        u, c = rng.choice(users), rng.choice(clients)
        login(rng, rep, w, s, u, c, cookies, idts)
        CLOCK.advance(rng.choice([0, 1, 30]))
        if n == 0 and rng.random() < 0.04:
            # someone who is at the same place all the time
            rep.count("many-grants")
            for _ in range(rng.randrange(8, 20)):
                login(rng, rep, w, s, u, c, cookies, idts)

    for n in range(rng.randrange(5, 12)):
        CLOCK.advance(rng.choice([0, 1, 30]))
        live = [g for g in s.grants if not g.revoked and g in cookies]
        if not live or rng.random() < 0.15:
            login(rng, rep, w, s, rng.choice(users), rng.choice(clients), cookies, idts)
            continue
        g = rng.choice(live)
        req, hi, good, why = end_request(rng, rep, w, s, g, clients, conf, cookies, idts)
        before = state(w)
        out.sent.clear()
        r = w.do("session", dict(req), hi, label="end_session")
        rep.sig(why, r.outcome(), "post_logout_redirect_uri" in req)
        rep.check(state(w) == before and not out.sent, "nothing-yet", "an end session request already changed sessions or told clients (%s)" % why)
        if not good:
            rep.check(r.kind in ("error", "exception"), "refused", "end session request with %s accepted: %s" % (why, r.brief()), why=why, req=req)
            continue
        if not rep.check(r.kind == "redirect", "served", "good end session request refused: %s" % r.brief(), why=why, req=req):
            continue
        p = urlsplit(r.url)
        q = parse_qsl(p.query)
        rep.check(r.url.split("?")[0] == verify_page and [k for k, _ in q] == ["sjwt"], "verify-page", "end session goes to %r" % r.url)
        sj = dict(q).get("sjwt", "")
        pl = peek(sj) or {}
        want_uri = req.get("post_logout_redirect_uri") or ISSUER + "/post_logout"
        got_uri = pl.get("redirect_uri", "")
        extra = [("state", req["state"])] if "post_logout_redirect_uri" in req and req.get("state") else []
        rep.check(got_uri.split("?")[0] == want_uri.split("?")[0]
                  and parse_qsl(urlsplit(got_uri).query, keep_blank_values=True) == parse_qsl(urlsplit(want_uri).query, keep_blank_values=True) + extra
                  and not urlsplit(got_uri).fragment, "verify-page", "after logout to %r, not %r with state %r" % (got_uri, want_uri, req.get("state")), how="redirect")
        if extra:
            rep.count("post-redirect")
        rep.check(pl.get("sid") is not None and s.same_grant(pl["sid"], g.sid) and pl.get("iss") == ISSUER and pl.get("aud") == [ISSUER], "verify-page",
                  "the page is about another session: %r" % {k: pl[k] for k in pl if k != "sid"})
        # ---- pages nobody asked for
        ep = w.ep("session")
        for k, bad in alien_pages(rng, w, sj, pl, sign):
            try:
                info = ep.unpack_signed_jwt(bad)
            except Exception:
                info = None
            rep.check(info is None, "alien-page", "a logout page with %s was accepted" % k, how=k)
        if rng.random() < 0.2:
            continue  # the user says no
        # ---- the user confirms
        CLOCK.advance(rng.choice([0, 5, 300]))
        alla = rng.random() < 0.5
        out.sent.clear()
        gone = {}
        if alla and rng.random() < 0.2:  # a client that was removed in the meantime
            c = rng.choice(clients)
            gone[c] = w.ctx.cdb.pop(c)
            rep.count("client-removed")
        out.trouble = {urlsplit(conf[c]["backchannel_logout_uri"]).netloc for c in clients if "backchannel_logout_uri" in conf[c] and rng.random() < 0.2}
        try:
            info = ep.unpack_signed_jwt(sj)
            frames = list(ep.do_verified_logout(alla=alla, **info))
        except Exception as e:
            rep.check(False, "confirmed", "confirmed logout (%s) failed: %r" % ("all" if alla else "one", e))
            frames = []
        rep.count("confirmed:" + ("all" if alla else "one"))
        w.note("confirm", g.label(), "all" if alla else "one", [x[0] for x in out.sent], len(frames))
        over = {c for c in clients if any(x.user == g.user and x.client == c for x in s.grants)} if alla else {g.client}
        told(rep, w, conf, s, g.user, over - set(gone), out, frames, idts, alla)
        w.ctx.cdb.update(gone)
        was = [x for x in s.grants if x.user == g.user and x.client in over and not x.revoked]
        for x in s.grants:
            if x.user == g.user and x.client in over:
                x.revoked = True
        for t in s.tokens:
            s.probe(t, "lt-")
            if not t.grant.revoked:
                rep.count("others-alive")
        for x in was:
            for t in x.tokens:
                if t.cls == AC and not t.used:
                    r = w.redeem(x.client, t.value, redirect_uri=x.redirect_uri)
                    rep.check(not r.ok, "dead-code", "code of a session that was logged out redeemed")
                elif t.cls == RT:
                    r = w.refresh(x.client, t.value)
                    rep.check(not r.ok, "dead-refresh", "refresh token of a session that was logged out used")
        # a login afterwards works
        if rng.random() < 0.5:
            login(rng, rep, w, s, g.user, g.client, cookies, idts)


def login(rng, rep, w, s, u, c, cookies, idts):
    scope = rng.choice(["openid", "openid profile", "openid offline_access"])
    g, r = s.authorize(u, c, scope, rt=rng.choice(["code", "code id_token", "id_token", "code id_token token"]))
    if not rep.check(g is not None, "logged-in", "authorization refused: %s" % r.brief()):
        return
    cookies[g] = [k for k in r.cookies if k["name"] == "oidc_op"]
    if r.get("id_token"):
        idts.setdefault((u, c), []).append((g, r.data["id_token"]))
    if g.code is not None and rng.random() < 0.65:
        q, new = s.redeem(g.code)
        if rep.check(AT in new, "logged-in", "code refused: %s" % q.brief()) and IT in new:
            idts.setdefault((u, c), []).append((g, q.data["id_token"]))


def state(w):
    return json.dumps(w.sm.dump().get("db"), sort_keys=True, default=str)


def content(v):
    """what the parts of a cookie say (base64 has several spellings of the same octets)"""
    res = []
    parts = v.split("|")
    # the time in front of an encrypted cookie is a copy of the one inside
    for part in parts[1:] if len(parts) == 4 else parts:
        try:
            res.append(base64.b64decode(part))
        except ValueError:
            res.append(part)
    return res


def flip_content(rng, v):
    while True:
        n = flip(rng, v)
        if content(n) != content(v):
            return n


def end_request(rng, rep, w, s, g, clients, conf, cookies, idts):
    """(request, http_info, good, why)"""
    req, why = {}, []
    good = True
    clean = rng.random() < 0.45
    ck = cookies[g]
    own = [t for x, t in idts.get((g.user, g.client), []) if x.sid == g.sid]
    allt = [(x, t) for k, l in idts.items() for x, t in l]
    k = "own" if clean else rng.choice(["own"] * 5 + ["none", "flip", "name", "value"])
    if k != "own":
        good = False
        why.append("cookie:" + k)
        if k == "none":
            ck = []
        elif k == "flip":
            ck = [dict(c, value=flip_content(rng, c["value"])) for c in ck]
        elif k == "name":
            ck = [dict(c, name="oidc_op_rp") for c in ck]
        else:
            ck = [dict(c, value=json.dumps({"sid": g.sid})) for c in ck]
    hint = None
    h = rng.choice(["own"] * 3 + ["none"]) if clean else rng.choice(["own"] * 7 + ["none"] * 3 + ["other", "other", "other", "client-key", "client-as-op", "alg-none", "secret", "garbage", "access", "flip", "aud", "sub", "expired"])
    if h == "own":
        if own:
            hint = rng.choice(own)
            if factory(hint).jwt.headers["alg"].startswith("HS"):
                # signed with a secret of the client: whether it is taken as a hint is left open
                good = None if good else good
            elif (peek(hint) or {}).get("exp", 0) <= CLOCK.t:
                good = None if good else good
        else:
            h = "none"
    kj = KeyJar()
    kj.add_kb("", key_bundle("client", rng.randrange(2)))
    base = {"sub": w.sm[g.sid].sub, "aud": [g.client], "sid": g.sid}
    if h == "other":
        bad = [(x, t) for x, t in allt if x.client != g.client or x.user != g.user]
        same = [(x, t) for x, t in bad if w.sm[x.sid].sub == base["sub"]]
        if same and rng.random() < 0.7:
            # the same subject at another client
            bad = same
            rep.count("hint-same-sub")
        if bad:
            x, hint = rng.choice(bad)
            if rng.random() < 0.6:
                req["client_id"] = x.client
        else:
            h = "garbage"
    if h == "client-key":
        hint = JWT(kj, iss=ISSUER, lifetime=300, sign_alg="ES256").pack(base, issuer_id="")
    elif h == "client-as-op":
        signer = rng.choice([c for c in clients if c in w.client_keys] or [None])
        if signer:
            hint = JWT(w.client_keys[signer], iss=signer, lifetime=300, sign_alg=rng.choice(["ES256", "RS256"])).pack(base, issuer_id="")
        else:
            h = "garbage"
    elif h == "alg-none":
        hint = JWT(kj, iss=ISSUER, lifetime=300, sign_alg="none").pack(base, issuer_id="")
    elif h == "secret":
        signer = rng.choice([g.client] + clients)
        kj2 = KeyJar()
        kj2.add_symmetric("", w.secrets[signer], ["sig"])
        hint = JWT(kj2, iss=rng.choice([signer, signer, ISSUER]), lifetime=300, sign_alg="HS256").pack(base, issuer_id="")
    elif h == "garbage":
        hint = rng.choice(["x", "a.b.c", "e30.e30.", "eyJhbGciOiJub25lIn0.e30."])
    elif h == "access":
        ats = [t.value for t in s.tokens if t.cls in (AT, RT, AC) and t.grant is g]
        hint = rng.choice(ats) if ats else "x.y.z"
    elif h == "flip":
        hint = flip(rng, rng.choice(own)) if own else "y"
    elif h in ("aud", "sub"):
        p = dict(base)
        p["aud" if h == "aud" else "sub"] = ["someone"] if h == "aud" else "someone"
        own_kj = KeyJar()
        own_kj.add_kb("", key_bundle("server", w.keys_no))
        hint = JWT(own_kj, iss=ISSUER, lifetime=300, sign_alg="RS256").pack(p, issuer_id="")
    elif h == "expired":
        # whether an expired hint is taken is left open
        own_kj = KeyJar()
        own_kj.add_kb("", key_bundle("server", w.keys_no))
        hint = JWT(own_kj, iss=ISSUER, lifetime=-300, sign_alg="RS256").pack(base, issuer_id="")
        good = None if good else good
    if h not in ("own", "none", "expired"):
        good = False
        why.append("hint:" + h)
    if hint is not None:
        req["id_token_hint"] = hint
    # ---- where to afterwards
    reg = conf[g.client].get("post_logout_redirect_uri")
    others = [(c, conf[c]["post_logout_redirect_uri"]) for c in clients if c != g.client and conf[c].get("post_logout_redirect_uri")]
    k = (rng.choice(["own", "own", "none"]) if h == "own" else "none") if clean else rng.choice(["none"] * 4 + ["own"] * 7 + ["other", "other-named", "query", "path", "fragment", "redirect_uri", "host"])
    if k in ("own", "query", "path", "fragment", "host") and not reg:
        k = "redirect_uri"
    if k in ("other", "other-named") and not others:
        k = "redirect_uri"
    if k != "none":
        if k == "own":
            u = reg
        elif k in ("other", "other-named"):
            c, u = rng.choice(others)
            if k == "other-named":
                req["client_id"] = c
        elif k == "query":
            u = reg + ("&" if "?" in reg else "?") + "x=evil"
        elif k == "path":
            u = reg.split("?")[0] + "/more" + ("?" + reg.split("?")[1] if "?" in reg else "")
        elif k == "fragment":
            u = reg + "#x"
        elif k == "host":
            u = reg.replace(".example.com", ".example.com.evil.example")
        else:
            u = w.redirect_uri(g.client)
        req["post_logout_redirect_uri"] = u
        if k != "own":
            good = False
            why.append("uri:" + k)
        elif hint is None:
            good = False
            why.append("no-hint")
    if rng.random() < 0.6:
        req["state"] = rng.choice(NASTY)
        if req["state"] == "":
            del req["state"]
    hi = {"cookie": ck, "headers": {}}
    if good is None:
        # outcome not determined by the property: make it a request that is not judged
        req.pop("id_token_hint", None)
        if "post_logout_redirect_uri" in req:
            good = False
            why.append("no-hint")
        else:
            good = True
    return req, hi, good, "+".join(why) or "good"


def alien_pages(rng, w, sj, pl, sign):
    kj = KeyJar()
    kj.add_kb("", key_bundle("client", 0))
    pay = {k: v for k, v in pl.items() if k not in ("iss", "aud", "exp", "iat")}
    yield "changed", flip(rng, sj)
    yield "client-key", JWT(kj, iss=ISSUER, lifetime=300, sign_alg=sign).pack(pay, issuer_id="", recv=ISSUER)
    yield "alg-none", JWT(kj, iss=ISSUER, lifetime=300, sign_alg="none").pack(pay, issuer_id="", recv=ISSUER)
    k3 = KeyJar()
    k3.add_kb("", key_bundle("server", 2))
    yield "other-provider", JWT(k3, iss=ISSUER, lifetime=300, sign_alg=sign).pack(pay, issuer_id="", recv=ISSUER)
    if w.secrets:
        k4 = KeyJar()
        k4.add_symmetric("", rng.choice(sorted(w.secrets.values())), ["sig"])
        yield "secret", JWT(k4, iss=ISSUER, lifetime=300, sign_alg="HS256").pack(pay, issuer_id="", recv=ISSUER)
    yield "garbage", rng.choice(["", "x", "a.b.c"])


def told(rep, w, conf, s, user, over, out, frames, idts, alla):
    had = {c for c in over if idts.get((user, c))}
    # ---- back-channel
    urls = {}
    for url, data, hdr in out.sent:
        cs = [c for c in over if conf[c].get("backchannel_logout_uri") == url]
        if not rep.check(len(cs) == 1, "told", "logout told to %r, registered by no client that is logged out" % url, how="back"):
            continue
        c = cs[0]
        urls.setdefault(c, []).append(data)
        if urlsplit(url).netloc in out.trouble:
            rep.count("client-down")
        form = parse_qsl(data or "", keep_blank_values=True)
        rep.check([k for k, _ in form] == ["logout_token"], "logout-token", "posted %r" % [k for k, _ in form])
        rep.check(any(k.lower() == "content-type" and v == "application/x-www-form-urlencoded" for k, v in hdr.items()), "logout-token", "headers %r" % hdr)
        tok = dict(form).get("logout_token", "")
        alg = conf[c].get("id_token_signed_response_alg", "RS256")
        j = factory(tok)
        if not rep.check(bool(j) and j.jwt.headers.get("alg") == alg, "logout-token", "logout token for %s not signed with %s" % (c, alg), how="alg"):
            continue
        if alg.startswith("HS"):
            kj = KeyJar()
            kj.add_symmetric("", w.secrets[c], ["sig", "ver"])
            keys = kj.get_issuer_keys("")
        else:
            kj = KeyJar()
            kj.import_jwks(w.server_jwks(), "")
            keys = kj.get_issuer_keys("")
        try:
            p = j.verify_compact(tok, keys=keys, sigalg=alg)
        except Exception as e:
            rep.check(False, "logout-token", "logout token for %s does not verify: %r" % (c, e), how="signature")
            continue
        rep.check(p.get("iss") == ISSUER and p.get("aud") == [c], "logout-token", "logout token of %r for %r" % (p.get("iss"), p.get("aud")), how="aud")
        rep.check(p.get("events") == {"http://schemas.openid.net/event/backchannel-logout": {}}, "logout-token", "events %r" % p.get("events"), how="events")
        rep.check("nonce" not in p, "logout-token", "nonce in a logout token", how="nonce")
        rep.check(isinstance(p.get("iat"), int) and abs(p["iat"] - CLOCK.t) <= 1, "logout-token", "iat %r" % p.get("iat"), how="iat")
        jtis = w.__dict__.setdefault("_jtis", set())
        rep.check(isinstance(p.get("jti"), str) and p["jti"] and p["jti"] not in jtis, "logout-token", "jti %r" % p.get("jti"), how="jti")
        jtis.add(p.get("jti"))
        known = [peek(t) or {} for _, t in idts.get((user, c), [])]
        subs = {w.sm[x.sid].sub for x in s.grants if x.user == user and x.client == c}
        ok = "sid" in p or "sub" in p
        if "sid" in p and known:
            ok = ok and p["sid"] in {k.get("sid") for k in known}
        elif "sid" in p:
            ok = ok and any(s.same_grant(p["sid"], x.sid) for x in s.grants if x.user == user and x.client == c)
        if "sub" in p:
            ok = ok and p["sub"] in subs
        # the session id of a client that also had sessions without ID Token
        if not ok and "sid" in p and not alla:
            ok = any(s.same_grant(p["sid"], x.sid) and x.code is not None and not x.code.used for x in s.grants if x.user == user and x.client == c)
        rep.check(ok, "logout-token", "the logout token names a session %s does not know" % c, how="sid")
    # ---- front-channel
    fr = {}
    for f in frames:
        fp = Frame()
        fp.feed(f)
        fp.close()
        tags = [t for t in fp.seen if t[0] not in ("/iframe",)]
        attrs = dict(tags[0][1]) if tags else {}
        if not rep.check(len(tags) == 1 and tags[0][0] == "iframe" and set(attrs) == {"src"} and not fp.text, "frame", "frame markup %r" % f, how="markup"):
            continue
        src = attrs["src"]
        cs = []
        for c in over:
            reg = conf[c].get("frontchannel_logout_uri")
            if reg and src.split("?")[0] == reg.split("?")[0]:
                cs.append(c)
        if not rep.check(len(cs) == 1, "told", "front-channel logout of %r, registered by no client that is logged out" % src, how="front"):
            continue
        c = cs[0]
        fr.setdefault(c, []).append(src)
        reg = conf[c]["frontchannel_logout_uri"]
        got = parse_qsl(urlsplit(src).query, keep_blank_values=True)
        base = parse_qsl(urlsplit(reg).query, keep_blank_values=True)
        if conf[c].get("frontchannel_logout_session_required"):
            ex = dict(x for x in got if x not in base)
            known = {(peek(t) or {}).get("sid") for _, t in idts.get((user, c), [])}
            sids_ok = ex.get("sid") in known or any(s.same_grant(ex.get("sid"), x.sid) for x in s.grants if x.user == user and x.client == c and ex.get("sid"))
            rep.check(sorted(x for x in got if x[0] not in ("iss", "sid")) == sorted(base) and ex.get("iss") == ISSUER and sids_ok, "frame",
                      "frame query %r for %r" % (got, reg), how="query")
        else:
            rep.check(got == base, "frame", "frame query %r for %r" % (got, reg), how="query")
    # ---- everybody who has to know
    for c in over:
        m = conf[c]
        bc, fc = "backchannel_logout_uri" in m, "frontchannel_logout_uri" in m
        n = len(urls.get(c, [])) + len(fr.get(c, []))
        if (bc or fc) and (c in had):
            rep.check(n >= 1, "told", "%s has an ID token of the session and was not told" % c, how="missing")
        rep.check(len(urls.get(c, [])) <= 1 or alla, "told", "%s told %d times" % (c, len(urls.get(c, []))), how="often")
