"""C22: users are authenticated, and sign-on is reused only when allowed."""
import base64
import copy
import hashlib
import json
from urllib.parse import quote, urlencode

from cryptography.hazmat.primitives.ciphers.aead import AESGCM
from cryptojwt.jwt import JWT
from cryptojwt.key_jar import KeyJar

from vlib.browser import ACR1, ACR2, Browser, authentication
from vlib.clock import CLOCK
from vlib.world import World, flip, peek

CASES = {"quick": 700, "thorough": 22000}
RULE = ("One case: two or three browsers, users and clients on one server with one or two password methods (the shipped UserPassJinja2, wired as in "
        "the example applications); 12-24 steps of authorization requests with prompt, max_age, id_token_hint, login_hint, acr_values, cookies that are "
        "own, another browser's, combined, stale, altered or junk, logins right and wrong, forged login-page tokens, revocations, removals and clock "
        "advances; in every tenth case a Basic password or shared-key method with right, wrong and malformed credentials. Every answer is compared with a model of who authenticated when, where and how. Distinct: by the sequence of (request, outcome).")
MUST_OBSERVE = {"oracle:not-authenticated": 500, "oracle:reused": 500, "oracle:none-no-login": 300, "oracle:login-forced": 80, "oracle:max-age": 30,
                "oracle:hint-other-user": 40, "oracle:dead-cookie": 100, "oracle:auth-time": 800, "oracle:acr": 800, "oracle:subject-user": 800,
                "oracle:wrong-password": 100, "oracle:forged-login-token": 80, "oracle:foreign-client-cookie": 100, "hint-own-reused": 30,
                "oracle:no-new-session": 500, "oracle:unsupported-acr": 80,
                "oracle:code-bound": 200, "oracle:code-of-request": 700, "oracle:claims-of-request": 1000, "oracle:login-method": 1500,
                "oracle:essential-acr": 15, "oracle:credential-served": 150, "oracle:credential-refused": 150, "varied-claims": 80, "varied-redirect_uri": 70, "varied-code_challenge": 70}
CLIENT_KEYS = 2
SERVER_KEYS = 2
EMAIL = {"diana": "d@example.org", "ziggy": "z@example.org"}
PHONE = {"diana": "+46907865000", "ziggy": "+46907865001"}
HINTS = ["mail:d@example.org", "mail:z@example.org", "mail:nobody@example.org", "mail:D@example.org", "tel:+46907865000", "tel:+46907865001",
         "tel:0907865000", "tel:0907865001", "tel:+46907865002", "tel:0", "mail:d@example.or", "mail:", "mail:z", "mail:@example.org", "mail:xz@example.org", "tel:+4690786500"]
VERIFIERS = {}
for _v in ("v" * 43, "w" * 50, "x-._~" * 10):
    VERIFIERS[base64.urlsafe_b64encode(hashlib.sha256(_v.encode()).digest()).decode().rstrip("=")] = _v
UIDS = ["diana", "ziggy", "a;;b"]


class S:
    """one session in the model"""
    def __init__(self, sid, uid, cid, authn_time, acr, valid_until, grant_exp, req):
        self.__dict__.update(locals())
        self.dead = None


def methods_case(rng, rep):
    """methods that find the credentials in the request itself: a password in a Basic header, a name encrypted with a shared key"""
    kind = rng.choice(["oidc", "oidc", "oauth2"])
    names = ["diana", "Diana", "zig gy", "a:b", "100%", "\u00e5sa", "a;;b", "1234"]
    pws = {u: rng.choice(["krall", "kr:all", ":", "a:b:c", "p%20w", "p w", "l\u00f6sen", "krall ", "Krall", "kral"]) for u in names}
    sym = rng.random() < 0.4
    key = bytes(rng.getrandbits(8) for _ in range(rng.choice([16, 32])))
    kw = {"symkey": key, "ttl": 600} if sym else {"pwd": dict(pws)}
    w = World(kind, rep, keys=rng.randrange(2), users={u: {"name": u} for u in names}, authentication={
        "m": {"acr": ACR1, "class": "oidcop.user_authn.user." + ("SymKeyAuthn" if sym else "BasicAuthn"), "kwargs": kw}})
    w.add_client("one")

    def token(user, k=key):
        iv = bytes(rng.getrandbits(8) for _ in range(rng.choice([8, 12, 12, 16])))
        return AESGCM(k).encrypt(iv, user.encode(), None) + b":" + iv

    def ask(authn):
        return w.do("authorization", urlencode(w.areq("one")), {}, label="authz", authn=authn)

    for step in range(8):
        u = rng.choice(names)
        bad = rng.random() < 0.5
        if sym:
            raw, how = token(u), "right"
            if bad:
                how = rng.choice(["key", "flip", "cut", "junk", "iv", "plain", "empty"])
                if how == "key":
                    raw = token(u, bytes(rng.getrandbits(8) for _ in range(len(key))))
                elif how == "flip":
                    raw = bytearray(raw)
                    n = rng.choice([x for x in range(len(raw)) if raw[x] != 0x3a])
                    raw[n] ^= rng.choice([b for b in (1, 2, 4, 8, 16, 32, 64, 128) if raw[n] ^ b != 0x3a])
                    raw = bytes(raw)
                elif how == "cut":
                    raw = raw[rng.randrange(1, 10):]
                elif how == "iv":
                    raw = raw + b"x"
                else:
                    raw = {"junk": b"junk:" + b"x" * 12, "plain": u.encode() + b":" + b"x" * 12, "empty": b""}[how]
            authn = base64.b64encode(raw).decode()
        else:
            user, pw, how = u, pws[u], "right"
            if bad:
                how = rng.choice(["other", "case", "prefix", "longer", "empty", "unknown", "half", "no-colon"])
                pw = {"other": rng.choice(sorted(pws.values())), "case": pw.swapcase(), "prefix": pw[:-1], "longer": pw + rng.choice([":", " ", "l", "\x00"]), "empty": ""}.get(how, pw)
                if how == "half":
                    pw = pw.split(":")[0] if ":" in pw else pw + ":" + pw
                if how == "unknown":
                    user = rng.choice(["nobody", "DIANA", "", "diana ", "dian"])
                if pw == pws[u] and how not in ("unknown", "no-colon"):
                    how = "right"
            text = quote(user, safe="") + ("" if how == "no-colon" else ":" + pw)
            authn = rng.choice(["Basic ", "Basic ", ""]) + base64.b64encode(text.encode()).decode()
        before = len(w.sm.db.keys())
        r = ask(authn)
        rep.sig(sym, how, r.outcome())
        if how == "right":
            rep.count("method-sym" if sym else "method-basic")
            if rep.check(r.ok and r.sid is not None, "credential-served", "the right %s of %r (%r) gave %s" % ("token" if sym else "password", u, None if sym else pws[u], r.brief())):
                rep.check(w.sm.decrypt_session_id(r.sid)[0] == u, "credential-user", "authenticated %r, the session is of %r" % (u, w.sm.decrypt_session_id(r.sid)[0]))
        else:
            rep.check(not r.ok and r.sid is None and len(w.sm.db.keys()) == before, "credential-refused", "%s credentials (%s) for %r gave %s" % (
                "encrypted" if sym else "Basic", how, u, r.brief()))


def run_case(rng, rep, i):
    if i % 10 == 9:
        return methods_case(rng, rep)
    kind = "oidc" if rng.random() < 0.8 else "oauth2"
    nm = rng.choice([1, 2])
    valid_for = rng.choice([None, 200, 1500, 10000])
    grant_life = rng.choice([300, 3000, 43200])
    conf_hint = rng.random() < 0.4 and kind == "oidc"
    opts = {"authentication": authentication(UIDS, nm, valid_for), "grant_expires_in": grant_life, "users": {
        "diana": {"name": "D", "email": EMAIL["diana"], "phone_number": PHONE["diana"]}, "ziggy": {"name": "Z", "email": EMAIL["ziggy"], "phone_number": PHONE["ziggy"]}, "a;;b": {"name": "A"}},
        "add_on": {"pkce": {"function": "oidcop.oidc.add_on.pkce.add_pkce_support", "kwargs": {"essential": False, "code_challenge_method": "S256"}}}}
    if conf_hint:
        opts["login_hint_lookup"] = {"class": "oidcop.login_hint.LoginHintLookup", "kwargs": {}}
    w = World(kind, rep, **opts)
    whose = {}
    for u in EMAIL:
        for h in ("mail:" + EMAIL[u], "tel:" + PHONE[u], "tel:0" + PHONE[u][3:]):
            whose[h] = u
    real_hint = conf_hint and rng.random() < 0.6  # the class the package comes with
    if conf_hint and not real_hint:
        w.ctx.login_hint_lookup = whose.get
    w2 = World(kind, None, pw="9", keys=1, **opts)
    rep.world = w
    cids = rng.choice([["c1", "c2"], ["c1", "c12"], ["c12", "c1"], ["c1", "C1"]])
    for c in cids:
        sub = rng.choice(["public", "pairwise", "ephemeral"])
        for x in (w, w2):
            x.add_client(c, keys=0, subject_type=sub, redirect_uris=[("https://%s.example.com/cb" % c, {}), ("https://%s.example.com/cb2" % c, {})])
    browsers = [Browser(w, "b%d" % n) for n in range(3)]
    b2 = Browser(w2, "other")
    model = {}  # sid -> S
    idts = []  # (id_token, uid, cid)
    issued_cookies = []  # (cookie, sid)
    old_req = []

    def alive(s):
        now = CLOCK.t
        if s.dead:
            return False
        if now == s.grant_exp or now == s.valid_until:
            return None
        return now < s.grant_exp and now < s.valid_until

    def sessions():
        return len(w.sm.db.keys())

    def record(b, r, req, uid, authn_time, acr, valid_until):
        """a successful response"""
        sid = r.sid
        u, c, _g = w.sm.decrypt_session_id(sid)
        rep.check((u, c) == (uid, req["client_id"]), "subject-user", "served %r for %r, should be %r at %s" % (u, c, uid, req["client_id"]))
        if sid not in model:
            model[sid] = S(sid, uid, req["client_id"], authn_time, acr, valid_until, CLOCK.t + grant_life, req)
        s = model[sid]
        s.grant_exp = CLOCK.t + grant_life  # an identical request is answered on the same grant, authorized anew
        for ck in r.cookies:
            if ck["name"] == "oidc_op":
                issued_cookies.append((copy.deepcopy(ck), sid))
        toks = [r.data["id_token"]] if "id_token" in r.data else []
        if "code" in r.data and rng.random() < 0.7:
            # what the code is bound to is the request it answers, whichever grant it came from
            bind = {"redirect_uri": req["redirect_uri"]}
            if "code_challenge" in req:
                bind["code_verifier"] = VERIFIERS[req["code_challenge"]]
            wrong = None
            if rng.random() < 0.25:
                wrong = dict(bind)
                if "code_verifier" in bind and rng.random() < 0.5:
                    wrong["code_verifier"] = rng.choice([v for v in VERIFIERS.values() if v != bind["code_verifier"]])
                else:
                    wrong["redirect_uri"] = [u for u in uris(req["client_id"]) if u != req["redirect_uri"]][0]
                t = w.redeem(req["client_id"], r.data["code"], **wrong)
                rep.check(not t.ok, "code-bound", "code for %s redeemed with %s" % (bind, wrong))
            else:
                t = w.redeem(req["client_id"], r.data["code"], **bind)
                rep.check(t.ok, "code-of-request", "code for %s not redeemed: %s" % (bind, t.brief()))
                if "id_token" in t.data:
                    toks.append(t.data["id_token"])
        for tok in toks:
            p = peek(tok)
            rep.check(p.get("nonce") == req.get("nonce"), "nonce-of-request", "ID Token with nonce %r for a request with %r" % (p.get("nonce"), req.get("nonce")))
            asked = "email" in json.loads(req.get("claims", "{}")).get("id_token", {})
            rep.check(p.get("email") == (EMAIL.get(uid) if asked else None), "claims-of-request", "email %r in the ID Token of %s, asked for: %s" % (
                p.get("email"), uid, asked))
        tok = toks[-1] if toks else None
        if tok:
            p = peek(tok)
            rep.check(p.get("auth_time") == authn_time, "auth-time", "auth_time is %+d seconds from the authentication" % (p.get("auth_time", 0) - authn_time))
            rep.check(p.get("acr") == acr, "acr", "acr %r claimed, user authenticated with %r" % (p.get("acr"), acr))
            rep.check(p["sub"] == w.sm[sid].sub, "subject-user", "ID Token is about another subject")
            idts.append((tok, uid, req["client_id"]))

    def log_in(b, page, req, forced_user=None):
        n = b.page(page)[0]
        k = rng.random()
        uid = forced_user or rng.choice(UIDS)
        if k < 0.12:
            before = sessions()
            pw = rng.choice(["", "x", "%s:%d" % (uid, 1 - n), "%s:%d" % (UIDS[(UIDS.index(uid) + 1) % 3], n)])
            who = uid
            if rng.random() < 0.4:
                # the right password, the name of nobody
                who = rng.choice([" " + uid, uid + " ", uid + "\n", uid.upper(), uid[:-1], uid + "%00", ""])
                pw = "%s:%d" % (uid, n)
            r = b.submit(page, who, password=pw)
            rep.check(not r.ok and sessions() == before, "wrong-password", "login of %r with a wrong password or name gave %s" % (who, r.brief()))
            return
        if k < 0.22:
            forged_token(b, page, req, uid)
            return
        if k < 0.3:
            CLOCK.advance(rng.choice([1, 30, 300]))
        r = b.submit(page, uid)
        if not rep.check(r.ok and r.sid is not None, "login-served", "correct login of %r answered %s" % (uid, r.brief())):
            return
        rep.sig("login", n)
        record(b, r, req, uid, CLOCK.t, [ACR1, ACR2][n], CLOCK.t + (valid_for or 3600))

    def forged_token(b, page, req, uid):
        """the login form is posted with a token the server did not make for a login"""
        n, tok = b.page(page)
        q = peek(tok)
        k = rng.choice(["altered", "client-key", "client-secret", "none", "other-server", "client-key-iss"])
        claims = {"query": q["query"], "authn_class_ref": ACR2, "return_uri": q["return_uri"]}
        cid = req["client_id"]
        if k == "altered":
            h, p, s = tok.split(".")
            d = dict(q, authn_class_ref="urn:forged")
            bad = ".".join([h, base64.urlsafe_b64encode(json.dumps(d).encode()).decode().rstrip("="), s])
        elif k == "client-key":
            bad = JWT(w.client_keys[cid], iss=cid, sign_alg="ES256").pack(claims, issuer_id="")
        elif k == "client-key-iss":
            bad = JWT(w.client_keys[cid], iss=w.issuer, sign_alg="ES256").pack(claims, issuer_id="")
        elif k == "client-secret":
            kj = KeyJar()
            kj.add_symmetric("", w.secrets[cid], ["sig"])
            bad = JWT(kj, iss=cid, sign_alg="HS256").pack(claims, issuer_id="")
        elif k == "none":
            e = lambda x: base64.urlsafe_b64encode(json.dumps(x).encode()).decode().rstrip("=")
            bad = e({"alg": "none"}) + "." + e(dict(claims, iss=w.issuer, iat=CLOCK.t)) + "."
        else:
            bad = JWT(w2.ctx.keyjar, iss=w.issuer, sign_alg="RS256").pack(claims)
        before = sessions()
        r = b.submit(page, uid, token=bad)
        rep.check(not r.ok and sessions() == before, "forged-login-token", "login with a %s login token gave %s" % (k, r.brief()))

    def uris(cid):
        return ["https://%s.example.com/cb" % cid, "https://%s.example.com/cb2" % cid]

    def claims_request():
        k = rng.random()
        if k < 0.3:
            return {"email": None}
        if k < 0.35:
            return {"acr": None}
        acr = rng.choice([{"value": ACR1}, {"value": ACR2}, {"values": [ACR2, ACR1]}, {"values": ["urn:unknown", ACR2]}, {"values": ["urn:unknown", ACR1]}])
        if rng.random() < 0.6:
            acr = dict(acr, essential=True)
            if rng.random() < 0.15:
                acr = {"essential": True, "values": ["urn:unknown"]}
        if nm == 1 and rng.random() < 0.6:
            acr = dict(acr)
            acr.pop("value", None)
            acr["values"] = [ACR1]
        return {"acr": acr} if rng.random() < 0.7 else {"acr": acr, "email": None}

    def request(b):
        cid = rng.choice(cids)
        sidof = {c["value"]: x for c, x in issued_cookies}
        mine = [model[sidof[c["value"]]].cid for c in b.cookies() if sidof.get(c["value"]) in model]
        if mine and rng.random() < 0.7:
            cid = mine[0]
        kw = {"response_type": rng.choice(["code", "code", "code id_token", "id_token"]) if kind == "oidc" else "code"}
        p = rng.choice([None, None, None, None, "none", "none", "login", "consent", "select_account"])
        if p and (kind == "oidc" or p in ("none", "login")):
            kw["prompt"] = p
        if kind == "oidc":
            if rng.random() < 0.35:
                kw["max_age"] = rng.choice([0, 1, 10, 100, 1000, 10000])
            if rng.random() < 0.25 and idts:
                kw["id_token_hint"] = rng.choice(idts)[0]
            elif rng.random() < (0.35 if conf_hint else 0.15):
                kw["login_hint"] = rng.choice(HINTS)
            if rng.random() < 0.2:
                kw["acr_values"] = rng.choice([ACR1, ACR2, "urn:unknown", "urn:unknown " + ACR1])
            if rng.random() < 0.15:
                kw["claims"] = {"id_token": claims_request()}
            if mine and nm == 2 and rng.random() < 0.15:
                other = [a for a in (ACR1, ACR2) if a != model[sidof[b.cookies()[0]["value"]]].acr] if b.cookies()[0]["value"] in sidof else [ACR2]
                kw = {"response_type": kw["response_type"], "claims": {"id_token": {"acr": dict(rng.choice([{"value": other[0]}, {"values": other}]), essential=True)}}}
        if rng.random() < 0.3:
            kw["redirect_uri"] = uris(cid)[1]
        if rng.random() < 0.3:
            kw.update(code_challenge=rng.choice(sorted(VERIFIERS)), code_challenge_method="S256")
        if old_req and rng.random() < 0.25:
            old = dict(rng.choice(old_req))
            k = rng.random()
            if k < 0.5:
                return old
            # the same request but for one parameter
            vary = rng.choice(["redirect_uri", "code_challenge", "state"] + (["claims", "claims", "max_age", "nonce"] if kind == "oidc" else []))
            if vary == "redirect_uri":
                old["redirect_uri"] = [u for u in uris(old["client_id"]) if u != old["redirect_uri"]][0]
            elif vary == "code_challenge":
                old.update(code_challenge=rng.choice([c for c in sorted(VERIFIERS) if c != old.get("code_challenge")]), code_challenge_method="S256")
            elif vary == "claims":
                if old.pop("claims", None) is None:
                    old["claims"] = json.dumps({"id_token": claims_request()})
            elif vary == "max_age":
                old["max_age"] = rng.choice([100, 1000, 10000])
            else:
                old[vary] = "varied-%d" % rng.randrange(10 ** 6)
            rep.count("varied-" + vary)
            old_req.append(dict(old))
            return old
        req = w.areq(cid, **kw)
        old_req.append(dict(req))
        return req

    def cookies(b):
        """cookies presented: list of (cookie, sid|None)"""
        sidof = {c["value"]: s for c, s in issued_cookies}
        own = [(c, sidof.get(c["value"])) for c in b.cookies() if c["name"] == "oidc_op"]
        k = rng.choice(["own", "own", "own", "own", "issued", "issued", "both", "none", "altered", "junk", "other-server", "made-up", "name"])
        if k == "own":
            return k, own
        if k == "issued" and issued_cookies:
            return k, [rng.choice(issued_cookies)]
        if k == "both" and issued_cookies:
            return k, rng.sample(issued_cookies, min(2, len(issued_cookies)))
        if k == "altered" and issued_cookies:
            c, _ = rng.choice(issued_cookies)
            parts = c["value"].split("|")
            n = rng.randrange(1, len(parts))
            raw = bytearray(base64.b64decode(parts[n]))
            raw[rng.randrange(len(raw))] ^= 1 << rng.randrange(8)
            parts[n] = base64.b64encode(bytes(raw)).decode()
            return k, [(dict(c, value="|".join(parts)), None)]
        if k == "junk":
            return k, [({"name": "oidc_op", "value": rng.choice(["x", "a|b", "1|2|3|4|5"])}, None)]
        if k == "other-server":
            r = b2.visit(w2.areq("c1"), cookies=[])
            r = b2.submit(r, "diana")
            return k, [(c, None) for c in r.cookies if c["name"] == "oidc_op"]
        if k == "made-up" and model:
            # a cookie with this server's keys that names no session of its own
            s = rng.choice(list(model.values()))
            plain = w.sm.session_key(*w.sm.decrypt_session_id(s.sid))
            v = rng.choice([{"sid": plain, "state": "x"}, {"state": "x"}, {"sid": w.sm.encrypted_session_id(s.uid, s.cid, "f" * 32)}, {"sid": ""}])
            return k, [(w.ctx.new_cookie(name="oidc_op", **v), None)]
        if k == "name" and issued_cookies:
            c, _ = rng.choice(issued_cookies)
            return k, [(dict(c, name=rng.choice(["oidc_op_rp", "sman", "OIDC_OP"])), None)]
        return "none", []

    def step_request():
        b = rng.choice(browsers)
        req = request(b)
        ck_kind, cks = cookies(b)
        cid = req["client_id"]
        mine = [model[s] for c, s in cks if s and s in model]
        here = [s for s in mine if s.cid == cid]
        live = [s for s in here if alive(s) is not False]
        prompt = req.get("prompt")
        ma = req.get("max_age")
        hint_user = None
        for t, u, c in idts:
            if t == req.get("id_token_hint"):
                hint_user = u
        if hint_user is None and conf_hint and "login_hint" in req:
            hint_user = whose.get(req["login_hint"], "nobody")

        hint_acr = peek(req["id_token_hint"]).get("acr") if "id_token_hint" in req else None
        _acr = json.loads(req.get("claims", "{}")).get("id_token", {}).get("acr") or {}
        wish = [_acr["value"]] if "value" in _acr else _acr.get("values", [])
        must = wish if _acr.get("essential") else []
        have = [ACR1, ACR2][:nm]

        def method():
            """the number of the method the user is to log in with, None: there is none"""
            acrs = req.get("acr_values", "").split()
            if must:
                pass
            elif nm == 1:
                return 0
            for x in must or acrs or wish or [ACR1]:
                if x in have:
                    return have.index(x)
            return None

        def fits(s):
            """may this session be used for the request without a login"""
            if must and s.acr not in must:
                return False
            if prompt == "login":
                return False
            if ma is not None and CLOCK.t > s.authn_time + int(ma):
                return False
            if hint_user is not None and s.uid != hint_user:
                return False
            return True

        usable = [s for s in live if fits(s)]
        before = sessions()
        r = b.visit(req, cookies=[c for c, _ in cks])
        rep.sig(ck_kind, prompt, None if ma is None else int(ma), hint_user is not None, len(usable), len(live), r.outcome())
        served = r.ok and r.kind == "redirect"
        if real_hint and hint_user == "nobody" and r.kind == "exception":
            # a hint that matches nobody: the lookup raises
            rep.check(sessions() == before, "no-new-session", "a request not served left something in the session store")
            rep.count("hint-nobody")
            return
        if method() is None:
            rep.check(not served and r.kind == "redirect" and r.data.get("error") == "access_denied", "unsupported-acr",
                      "unsupported acr values %s answered %s" % (must or req.get("acr_values"), r.brief()))
            return
        if served:
            rep.check(bool(usable), "not-authenticated", "%s answered with %s without a login; cookies %s prompt=%s max_age=%s hint=%s sessions %s" % (
                cid, r.mode, ck_kind, prompt, ma, hint_user, [(s.uid, s.cid, s.dead, CLOCK.t - s.authn_time) for s in mine]))
            u = w.sm.decrypt_session_id(r.sid)[0]
            good = [s for s in usable if s.uid == u]
            if rep.check(bool(good), "subject-user", "served for %r, cookies are of %s" % (u, [s.uid for s in usable])):
                t = w.sm.get_authentication_event(r.sid)["authn_time"]
                good.sort(key=lambda s: s.authn_time != t)
                record(b, r, req, u, good[0].authn_time, good[0].acr, good[0].valid_until)
            if hint_user is not None:
                rep.count("hint-own-reused")
        else:
            rep.check(sessions() == before, "no-new-session", "a request not served left something in the session store")
            if not usable:
                rep.count("oracle:not-authenticated")
        if len(cks) <= 1 and len(usable) == 1 and alive(usable[0]) is True:
            rep.check(served, "reused", "valid session of %r at %s not used: %s (prompt=%s max_age=%s hint=%s %s)" % (
                usable[0].uid, cid, r.brief(), prompt, ma, hint_user, ck_kind))
        if not served and not usable:
            if prompt == "none":
                rep.check(r.kind == "redirect" and r.data.get("error") == "login_required" and r.data.get("state") == req.get("state"), "none-no-login",
                          "prompt=none without usable session answered %s" % r.brief())
            else:
                if rep.check(r.kind == "login" and b.page(r) is not None, "login-page", "no login page but %s (cookies %s)" % (r.brief(), ck_kind)):
                    hinted = hint_acr is not None and not (must or wish or "acr_values" in req)  # whether the hint's acr counts is left open
                    rep.check(b.page(r)[0] == method() or hinted, "login-method", "login with method %d, asked for acr_values %s claims %s" % (
                        b.page(r)[0], req.get("acr_values"), _acr))
        if must and live and all(s.acr not in must for s in live):
            rep.check(not served, "essential-acr", "essential acr %s answered with a session of %s" % (must, [s.acr for s in live]))
        rep.check(not (prompt == "none" and r.kind == "login"), "none-no-login", "a login was shown with prompt=none")
        # what was special about this request
        if live and prompt == "login":
            rep.check(r.kind == "login", "login-forced", "prompt=login answered %s" % r.brief())
        if live and ma is not None and all(CLOCK.t > s.authn_time + int(ma) for s in live):
            rep.check(not served, "max-age", "authentication %s seconds old used with max_age=%s" % ([CLOCK.t - s.authn_time for s in live], ma))
        if live and hint_user is not None and all(s.uid != hint_user for s in live):
            rep.check(not served, "hint-other-user", "hint for %r satisfied with the session of %r" % (hint_user, [s.uid for s in live]))
        if here and not live:
            rep.check(not served, "dead-cookie", "the cookie of a session that is over was accepted")
        if mine and not here:
            rep.check(not served, "foreign-client-cookie", "a session at %s was used at %s" % (mine[0].cid, cid))
        if r.kind == "login" and b.page(r) and rng.random() < 0.75:
            log_in(b, r, req, forced_user=hint_user if hint_user in UIDS and rng.random() < 0.5 else None)

    for _ in range(rng.randrange(12, 25)):
        k = rng.random()
        if k < 0.72 or not model:
            step_request()
        elif k < 0.86:
            CLOCK.advance(rng.choice([1, 9, 11, 60, 101, 400, 1001, 2500, 4000]))
        else:
            s = rng.choice(list(model.values()))
            if s.dead == "removed":
                continue
            how = rng.choice(["grant", "client", "remove"])
            rep.sig("end", how)
            w.note("end", how, s.uid, s.cid)
            if how == "grant":
                w.sm.revoke_grant(s.sid)
                s.dead = "revoked"
            elif how == "client":
                w.sm.revoke_client_session(s.sid)
                for x in model.values():
                    if (x.uid, x.cid) == (s.uid, s.cid) and not x.dead:
                        x.dead = "revoked"
            else:
                w.sm.remove_session(s.sid)
                s.dead = "removed"
    w.close()
    w2.close()
