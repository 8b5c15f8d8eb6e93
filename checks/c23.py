"""C23: responses are delivered in the right place, intact and uncacheable."""
import json
from html.parser import HTMLParser
from urllib.parse import parse_qsl, urlencode, urlsplit

from oidcop.exception import NoSuchAuthentication
from vlib.browser import Browser, authentication
from vlib.world import FormParser, ALL_RT, ALL_RT_OAUTH2, ISSUER, USERS, World, peek

CASES = {"quick": 650, "thorough": 20000}
RULE = ("One case: a server (OIDC or OAuth2, with and without extra-args add-on, session management and login pages) and clients whose redirect URIs have "
        "none, some or awkward query components; authorization requests over all response types and modes with states of arbitrary characters, served and "
        "refused; then the token, userinfo, introspection and registration answers.  Redirects and form pages are taken apart with independent parsers. "
        "Distinct: by configuration, response types, modes, character classes and outcomes.")
MUST_OBSERVE = {"oracle:place": 2000, "oracle:state": 2000, "oracle:artefacts": 1500, "oracle:no-token-in-query": 2000, "oracle:form-markup": 500,
                "oracle:uncacheable": 2500, "oracle:content-type": 2500, "oracle:error-place": 200, "login-pages": 150, "nasty-state": 800,
                "oracle:userdata-intact": 300, "oracle:response-type-registered": 100, "oracle:who": 700}
NASTY = ["\"", "'", "<", ">", "&", "&amp;", "\"/><script>alert(1)</script>", "+", "%", "%20", "%2B", "%00", "#", "?", "=", ";", ",", " ", "  ", "\t", "\n", "/", "\\",
         "å", "\u20ac", "\U0001f600", "\u200b", "\u00a0", "{", "}", "{0}", "{inputs}", "[", "]", "|", "^", "`", "$", "javascript:", "a=b&code=evil", "access_token=x",
         "<!--", "-->", "</form>", "&#34;", "&quot;", "&lt", "\u2028", "e\u0301", "none", "null", "true", "1", "0", "['a']", '{"a": "b"}', '["x"]']
OUT_FMT = {"token": "json", "introspection": "json", "userinfo": "json", "registration": "json"}
TOKENS = ("access_token", "id_token", "refresh_token")


class Page(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.tags, self.inputs, self.form, self.text, self.odd = [], [], None, [], []

    def handle_starttag(self, tag, attrs):
        self.tags.append(tag)
        d = dict(attrs)
        if len(d) != len(attrs):
            self.odd.append("attribute repeated in %s" % tag)
        if tag == "form":
            self.form = d
        elif tag == "input":
            self.inputs.append((d.get("name"), d.get("value")))
            if set(d) != {"type", "name", "value"} or d["type"] != "hidden":
                self.odd.append("input with attributes %s" % sorted(d))
        elif tag == "body":
            if set(d) - {"onload"}:
                self.odd.append("body with attributes %s" % sorted(d))

    def handle_data(self, data):
        if data.strip():
            self.text.append(data.strip())

    def handle_comment(self, data):
        self.odd.append("comment")

    def handle_decl(self, d):
        if not d.lower().startswith("doctype html"):
            self.odd.append("declaration")

    def unknown_decl(self, d):
        self.odd.append("declaration")

    def handle_pi(self, d):
        self.odd.append("processing instruction")


def nasty(rng):
    k = rng.randrange(4)
    if k == 0:
        return "st%d" % rng.randrange(10 ** 9), False
    if k == 1:
        return rng.choice(NASTY) + str(rng.randrange(1000)), True
    if k == 2:
        return "".join(rng.choice(NASTY) for _ in range(rng.randrange(1, 8))) + "z", True
    return "x" + "".join(chr(rng.choice([rng.randrange(1, 13), rng.randrange(14, 127), rng.randrange(128, 0xd7ff), rng.randrange(0x10000, 0x10ffff)]))
                         for _ in range(rng.randrange(1, 30))) + "x", True


def dup(pairs):
    ks = [k for k, _ in pairs]
    return sorted({k for k in ks if ks.count(k) > 1})


def run_case(rng, rep, i):
    kind = rng.choice(["oidc", "oidc", "oauth2"])
    users = json.loads(json.dumps(USERS))
    for u in users.values():
        for c in ("name", "nickname", "email"):
            if rng.random() < 0.5:
                u[c] = nasty(rng)[0]
    pages = rng.random() < 0.3
    o = {"users": users, "token_handler": rng.choice(["default", "jwt"])}
    extra = {}
    if rng.random() < 0.3:
        extra = {"authorization": {"op": "issuer"}}
        o["add_on"] = {"extra": {"function": "oidcop.oauth2.add_on.extra_args.add_support", "kwargs": {"args": None}}}
        o["add_on"]["extra"]["kwargs"] = json.loads(json.dumps(extra))
    if kind == "oidc" and rng.random() < 0.3:
        o["session_kwargs"] = {"check_session_iframe": ISSUER + "/check_session.html"}
    if pages:
        o["authentication"] = authentication(users)
    w = World(kind, rep, keys=0, **o)
    base = ALL_RT if kind == "oidc" else ALL_RT_OAUTH2
    clients, links, may = {}, {}, {}
    for n, q in enumerate([{}, {"a": ["b"]}, {"x": ["1", "2"], "y": ["å b&c=d"]}, {}]):
        cid = "c%d" % n
        b = ["https://c0.example.com/cb", "https://c1.example.com/cb", "https://c2.example.com/c%20b", "https://c3.example.com"][n]
        links[cid] = {k: rng.choice(["https://%s.example.com/%s" % (cid, k), b + "/" + nasty(rng)[0]]) for k in ("logo_uri", "tos_uri", "policy_uri") if rng.random() < 0.5}
        may[cid] = list(base) + ["none"]
        if n == 3 and rng.random() < 0.7:
            may[cid] = rng.choice([None, None, rng.sample(base, rng.randrange(1, len(base)))])
        w.add_client(cid, keys=0, redirect_uris=[(b, q)], response_types=may[cid] or [], **links[cid])
        if may[cid] is None:
            if rng.random() < 0.5:
                del w.ctx.cdb[cid]["response_types"]
            may[cid] = ["code"]
        clients[cid] = (b, [(k, v) for k, vs in q.items() for v in vs])
    rep.sig(kind, pages, bool(extra), "session_kwargs" in o)

    def headers_ok(r, name, fmt="json"):
        """of the answer of an endpoint"""
        h = {}
        for k, v in r.headers or []:
            h.setdefault(k.lower(), []).append(v)
        ct = h.get("content-type", [])
        want = {"json": "application/json", "html": "text/html", "url": "application/x-www-form-urlencoded"}[fmt]
        rep.check(len(ct) == 1 and ct[0].split(";")[0].strip().lower() == want, "content-type", "%s answer has content type %r, expected %s" % (name, ct, want))
        cc = ",".join(h.get("cache-control", [])).lower()
        rep.check("no-store" in cc and "no-cache" in ",".join(h.get("pragma", [])).lower(), "uncacheable",
                  "%s answer may be cached: %r" % (name, r.headers))

    def took_apart(r, cid):
        """(mode, parameters) from the url or the page alone"""
        b, q = clients[cid]
        if r.mode == "form_post":
            pg = Page()
            pg.feed(r.raw)
            pg.close()
            ok = rep.check(not pg.odd and pg.tags == ["html", "head", "title", "body", "form"] + ["input"] * len(pg.inputs)
                           and pg.text == ["Submit This Form"] and pg.form is not None and set(pg.form) == {"method", "action"}
                           and pg.form["method"].lower() == "post", "form-markup",
                           "the form page has markup that does not belong there", tags=pg.tags, odd=pg.odd, text=pg.text, page=r.raw)
            if not ok:
                return None, None
            sp = urlsplit(pg.form["action"])
            rep.check(parse_qsl(sp.query, keep_blank_values=True) == q and not sp.fragment and pg.form["action"].split("?")[0] == b, "place",
                      "form goes to %r" % pg.form["action"], registered=clients[cid])
            headers_ok(r, "form_post page", "html")
            return "form_post", pg.inputs
        headers_ok(r, "redirect", "url")
        loc, _, frag = r.url.partition("#")
        head, _, query = loc.partition("?")
        qq = parse_qsl(query, keep_blank_values=True)
        rep.check(head == b, "place", "redirected to %r, registered %r" % (head, b))
        rep.check(not any(k in TOKENS for k, _ in qq), "no-token-in-query", "a token is in the query component: %r" % r.url[:300])
        # all characters of a URI are printable ASCII
        rep.check(all(33 <= ord(c) < 127 for c in r.url), "place", "the location is not a URI: %r" % r.url[:300])
        if frag:
            rep.check(qq == q, "place", "query component is %r, registered %r" % (qq, q), url=r.url[:400])
            return "fragment", parse_qsl(frag, keep_blank_values=True)
        rest = list(qq)
        for x in q:
            if not rep.check(x in rest, "place", "registered query component %r is lost" % (x,), url=r.url[:400]):
                return None, None
            rest.remove(x)
        return "query", rest

    for _ in range(rng.randrange(3, 8)):
        cid = rng.choice(sorted(clients))
        user = rng.choice(sorted(users))
        rts = rng.choice(base + ["none", "code"])
        rt = rts.split(" ")
        rng.shuffle(rt)
        rm = rng.choice([None, None, None, "form_post", "form_post", "query", "fragment", "form-post", "web_message"])
        st, nst = nasty(rng)
        if nst:
            rep.count("nasty-state")
        if rng.random() < 0.06:
            st = None
        kw = {"response_type": " ".join(rt), "state": st}
        if rm:
            kw["response_mode"] = rm
        nonce = None
        if kind == "oidc":
            kw["scope"] = rng.choice(["openid", "openid email profile", "openid email profile address phone"])
            nonce = nasty(rng)[0]
            kw["nonce"] = nonce
        fail = rng.choice([None, None, None, None, "login_required"]) if not pages else None
        req = w.areq(cid, **kw)
        req.setdefault("state", None)
        if st is None:
            del req["state"]
        if fail:
            req["prompt"] = "none"
            w.authn_method().fail = NoSuchAuthentication
        if not pages:
            w.set_user(user)
        if rng.random() < 0.8 or "\x00" in str(req):
            r = w.do("authorization", urlencode(req), {}, label="authz")
        else:
            r = w.do("authorization", dict(req), {}, label="authz")
        if fail:
            w.authn_method().fail = None
        if pages and r.kind == "login":
            fp = FormParser()
            fp.feed(r.raw)
            rep.check([t for t, _ in fp.tags] == ["html", "body", "form", "input", "input", "input", "img", "a", "a"], "login-page-markup",
                      "the login page has markup that does not belong there", page=r.raw)
            at = [a for _, a in fp.tags]
            if len(at) == 9:
                got = (at[6].get("src"), at[7].get("href"), at[8].get("href"))
                # line ends in attribute values are normalised by HTML parsers
                want = tuple(links[cid].get(k, "") for k in ("logo_uri", "tos_uri", "policy_uri"))
                rep.check([g.replace("\r\n", "\n").replace("\r", "\n") for g in got] == [x.replace("\r\n", "\n").replace("\r", "\n") for x in want], "login-page-links",
                          "the login page of %s links to %r, the client's are %r" % (cid, got, want))
            r = Browser(w, "B").submit(r, user)
            rep.count("login-pages")
        tokens = "token" in rt or "id_token" in rt
        default = "fragment" if tokens else "query"
        bad = rm in ("form-post", "web_message") or (rm == "query" and tokens) or (rm == "fragment" and not tokens)
        rep.sig(" ".join(sorted(rt)), rm, nst, fail, r.outcome())
        if set(rt) not in [set(x.split(" ")) for x in may[cid]]:
            rep.check(not r.ok and r.kind != "login" and not any(k in r.data for k in TOKENS + ("code",)), "response-type-registered",
                      "response_type %s served, the client registered %s: %s" % (rt, may[cid], r.brief()))
            continue
        if not rep.check(r.kind == "redirect", "redirected", "a valid request was not answered by a redirect: %s" % r.brief(), request=req):
            continue
        mode, params = took_apart(r, cid)
        if mode is None:
            continue
        got = dict(params)
        rep.check(not dup(params), "artefacts", "parameters repeated: %s" % dup(params))
        rep.check(got.get("state") == st, "state", "state %r was returned as %r" % (st, got.get("state")), mode=mode)
        if fail or bad:
            rep.check("error" in got and not any(k in got for k in TOKENS + ("code",)), "error-place",
                      "a request that can not be served (%s, mode %s) gave %s" % (fail, rm, sorted(got)))
            # a mode that can not be used: the error goes where it would without one, or, as there are no
            # tokens in it, where it was asked to
            want = {rm} if rm == "form_post" or (rm and not bad) else {default, rm} & {"query", "fragment"}
            rep.check(mode in want, "error-place", "the error came by %s, expected %s (response_mode %s)" % (mode, sorted(want), rm))
            allowed = {"error", "error_description", "error_uri", "state", "iss", "client_id", "session_state"} | set(extra.get("authorization", {}))
            rep.check(set(got) <= allowed, "artefacts", "error response has %s" % sorted(set(got) - allowed))
            continue
        rep.check(mode == (rm or default), "place", "response_type %s and response_mode %s answered by %s" % (rts, rm, mode))
        want = {x for x in (("code" if "code" in rt else None), ("access_token" if "token" in rt else None), ("id_token" if "id_token" in rt else None)) if x}
        have = {k for k in got if k in TOKENS + ("code",)}
        allowed = want | {"state", "scope", "iss", "client_id", "session_state"} | ({"token_type", "expires_in"} if "token" in rt else set()) | \
            set(extra.get("authorization", {}))
        rep.check(have == want and set(got) <= allowed, "artefacts", "response_type %s answered with %s" % (rts, sorted(got)))
        if "scope" in got and kw.get("scope"):
            rep.check(sorted(got["scope"].split()) == sorted(kw["scope"].split()), "scope", "asked for %r, the response says %r" % (kw["scope"], got["scope"]), mode=mode)
        if want:
            rep.check(got.get("iss") == ISSUER and got.get("client_id") == cid, "who", "a response for %s says it is by %r for %r" % (cid, got.get("iss"), got.get("client_id")))
        if "id_token" in got:
            p = peek(got["id_token"])
            rep.check(p.get("nonce") == nonce, "nonce", "nonce %r came back as %r" % (nonce, p.get("nonce")))
        if extra and mode != "form_post":  # the add-on is not applied to form pages
            rep.check(got.get("op") == ISSUER, "artefacts", "extra argument op is %r" % got.get("op"))
        at = got.get("access_token")
        if "code" in got:
            kk = {"issue_refresh": True} if kind == "oauth2" else {}
            t = w.redeem(cid, got["code"], **kk)
            if rep.check(t.ok and "access_token" in t.data, "code-intact", "the code as delivered is not accepted: %s" % t.brief()):
                headers_ok(t, "token")
                at = t.data["access_token"]
                rts_ = t.data.get("refresh_token")
                if rts_:
                    t2 = w.refresh(cid, rts_)
                    if t2.ok:
                        headers_ok(t2, "token (refresh)")
        if at:
            iv = w.introspect(at, "c0")
            if rep.check(iv.data.get("active") is True, "token-intact", "the token as delivered is not active: %s" % iv.brief()):
                headers_ok(iv, "introspection")
            if kind == "oidc":
                ui = w.userinfo(at)
                if rep.check(ui.ok, "token-intact", "the token as delivered is refused at userinfo: %s" % ui.brief()):
                    headers_ok(ui, "userinfo")
                    rep.check(all(users[user].get(k) == v for k, v in ui.data.items() if k not in ("sub", "acr")), "userdata-intact",
                              "userinfo differs from what the user data holds", got=ui.data)
    if kind == "oidc" and rng.random() < 0.5:
        r = w.do("registration", json.dumps({"redirect_uris": ["https://new.example.com/cb"], "client_name": nasty(rng)[0]}))
        if rep.check(r.ok, "registered", "registration refused: %s" % r.brief()):
            headers_ok(r, "registration")
            r2 = w.do("registration_read", "client_id=" + r.data["client_id"],
                      {"headers": {"authorization": "Bearer " + r.data["registration_access_token"]}})
            if r2.ok:
                headers_ok(r2, "registration read")
