"""C18: dynamic registration stores what it says and nothing half-done."""
import copy
import json
from urllib.parse import parse_qsl, urlsplit

from cryptojwt.jwe.jwe import factory as jwe_factory
from cryptojwt.key_jar import KeyJar
from vlib.clock import CLOCK
from vlib.world import ISSUER, METHODS_ALL, World, flip, key_bundle, key_objs, peek, public_jwks

CASES = {"quick": 1200, "thorough": 30000}
CLIENT_KEYS = 3
RULE = ("One case: a server with the registration and read endpoints (with and without secret expiry, client id generators, read endpoint) on which 6-14 "
        "registrations are made, valid ones with members drawn over all known metadata (and with attempts to set what the provider decides) and ones made "
        "invalid in one way; every answer is compared with the request, the stored client and a later read, every refusal with a snapshot of the server, "
        "every successful client used at once; then reads with all pairings of clients and tokens.  Distinct: by members, defects, application types and outcomes.")
MUST_OBSERVE = {"oracle:registered": 250, "oracle:refused": 250, "oracle:nothing-left": 250, "oracle:echo": 3000, "oracle:stored": 1500,
                "oracle:read-back": 250, "oracle:read-refused": 600, "oracle:usable": 200, "oracle:unique": 600, "oracle:provider-decides": 100,
                "oracle:others-kept": 250, "jwks": 50, "jwks_uri": 30, "encrypted": 20, "auth-jwt": 40}


class Http:
    """answers for sector identifier documents and key sets"""

    def __init__(self):
        self.docs = {}

    def get(self, url, **kw):
        return self("GET", url, **kw)

    def __call__(self, method, url, **kw):
        class R:
            status_code = 200
            headers = {"content-type": "application/json"}
            text = self.docs[url]

            def json(self):
                return json.loads(self.text)
        return R()


UNSUP = {
    "request_object_signing_alg": "none", "id_token_signed_response_alg": "HS999", "userinfo_signed_response_alg": "RSA256",
    "subject_type": "secret", "token_endpoint_auth_method": "tls_client_auth", "token_endpoint_auth_signing_alg": "HS1",
    "response_types": ["code", "device"], "grant_types": ["authorization_code", "password"],
    "id_token_encrypted_response_alg": "RSA2", "userinfo_encrypted_response_alg": "RSA2", "request_object_encryption_alg": "dirr",
    "id_token_encrypted_response_enc": "A1", "userinfo_encrypted_response_enc": "A1", "request_object_encryption_enc": "A1",
}
NAMES = ["App", "Ünï ©", "<script>x</script>", "a\"b'c", "名前", "x" * 300, "{}", "a,b c"]
QUERIES = ["", "", "", "?a=b", "?a=b&c=d", "?a=1&a=2", "?x=%20y%26", "?empty=", "?q=%C3%A5"]
DECIDED = {"client_secret": "sesame", "client_secret_expires_at": 99999999999, "client_id_issued_at": 1, "client_salt": "salt",
           "registration_access_token": "mytoken", "registration_client_uri": "https://evil.example/", "sector_id": "https://evil.example/s",
           "si_redirects": ["https://evil.example/cb"], "auth_method": {"AccessTokenRequest": "none"},
           "token_usage_rules": {"authorization_code": {"max_usage": 1000, "supports_minting": ["access_token"]}},
           "allowed_scopes": ["openid", "profile", "email", "secret"], "scopes_to_claims": {"openid": ["sub", "email"]}, "add_claims": {"always": {"id_token": {"email": None}}},
           "pkce_essential": False, "revoke_refresh_on_issue": False, "grant_types_supported": ["authorization_code", "refresh_token", "password"],
           "dpop_jkt": "x"}


def uri_key(u):
    p = urlsplit(u)
    return (p.scheme, p.netloc, p.path, tuple(sorted(parse_qsl(p.query, keep_blank_values=True))))


def pick(rng, seq, lo=1):
    seq = sorted(seq)
    return rng.sample(seq, rng.randrange(lo, len(seq) + 1))


def valid(rng, n, w, httpc):
    """metadata a server has to accept"""
    pi = w.ctx.provider_info
    req = {}
    app = rng.choice(["web", "web", "native", None])
    if app:
        req["application_type"] = app
    host = "https://rp%d.example.com" % n
    rts = None
    if rng.random() < 0.75:
        rts = pick(rng, pi["response_types_supported"])
        rts = [" ".join(rng.sample(r.split(" "), len(r.split(" ")))) for r in rts]
        req["response_types"] = rts
    if app == "native":
        bases = ["http://localhost:%d/cb" % rng.randrange(1024, 9999), "http://127.0.0.1/x", "com.example.app%d:/oauth" % n, "myapp%d://callback" % n, "x%d:///p" % n]
    elif rts in (None, ["code"]):
        bases = [host + "/cb", host + "/cb2/", "http://rp%d.example.com/cb" % n, host]
    else:
        bases = [host + "/cb", host + "/cb2/", host + ":8443/cb"]
    req["redirect_uris"] = [b + rng.choice(QUERIES) for b in pick(rng, bases)]
    if rng.random() < 0.5:
        req["grant_types"] = pick(rng, pi["grant_types_supported"])
    if rng.random() < 0.3:
        req["contacts"] = rng.choice([["a@example.com"], ["a@example.com", "ü@example.com"]])
    if rng.random() < 0.5:
        req["client_name"] = rng.choice(NAMES)
    first = [u for u in req["redirect_uris"] if u.startswith("http")]
    if first:
        p = urlsplit(rng.choice(first))
        own = "%s://%s" % (p.scheme, p.netloc)
        for k in ("logo_uri", "policy_uri", "tos_uri"):
            if rng.random() < 0.25:
                req[k] = own + "/" + k
    if rng.random() < 0.2:
        req["client_uri"] = "https://anything.example/"
    ki = None
    x = rng.random()
    if x < 0.35:
        ki = rng.randrange(CLIENT_KEYS)
        req["jwks"] = public_jwks("client", ki)
    elif x < 0.55:
        ki = rng.randrange(CLIENT_KEYS)
        u = "https://rp%d.example.com/jwks.json" % n
        httpc.docs[u] = json.dumps(public_jwks("client", ki))
        req["jwks_uri"] = u
    if rng.random() < 0.4:
        req["id_token_signed_response_alg"] = rng.choice(["RS256", "ES256", "HS256", "RS384", "PS256"])
    if rng.random() < 0.3:
        req["userinfo_signed_response_alg"] = rng.choice(["RS256", "ES256", "HS256"])
    if rng.random() < 0.3:
        req["request_object_signing_alg"] = rng.choice(["RS256", "ES256", "HS256"])
    if ki is not None:
        for k in ("id_token", "userinfo"):
            if rng.random() < 0.3:
                req[k + "_encrypted_response_alg"] = rng.choice(["RSA-OAEP", "RSA-OAEP-256"])
                if rng.random() < 0.6:
                    req[k + "_encrypted_response_enc"] = rng.choice(["A128CBC-HS256", "A256GCM", "A256CBC-HS512"])
    if rng.random() < 0.15:
        req["request_object_encryption_alg"] = "RSA-OAEP"
        req["request_object_encryption_enc"] = "A128CBC-HS256"
    meths = METHODS_ALL if ki is not None else METHODS_ALL[:3]
    if rng.random() < 0.7:
        req["token_endpoint_auth_method"] = rng.choice(meths)
        if "jwt" in req["token_endpoint_auth_method"] and rng.random() < 0.5:
            req["token_endpoint_auth_signing_alg"] = "HS256" if "secret" in req["token_endpoint_auth_method"] else rng.choice(["ES256", "RS256"])
    if rng.random() < 0.2:
        req["default_max_age"] = rng.choice([1000, 86400])
    if rng.random() < 0.2:
        req["require_auth_time"] = rng.random() < 0.5
    if rng.random() < 0.2:
        req["initiate_login_uri"] = host + "/login"
    if rng.random() < 0.3:
        req["request_uris"] = rng.choice([[host + "/ro#hash"], [host + "/ro"], [host + "/ro#a", host + "/ro2"]])
    if rng.random() < 0.3:
        req["post_logout_redirect_uri"] = host + "/bye" + rng.choice(QUERIES)
    if rng.random() < 0.25:
        req["frontchannel_logout_uri"] = host + "/fc"
        if rng.random() < 0.5:
            req["frontchannel_logout_session_required"] = rng.random() < 0.5
    if rng.random() < 0.25:
        req["backchannel_logout_uri"] = host + "/bc"
        if rng.random() < 0.5:
            req["backchannel_logout_session_supported"] = True
    if rng.random() < 0.4:
        req["subject_type"] = rng.choice(["public", "pairwise"])
    if rng.random() < 0.25:
        u = "https://sector%d.example.com/%s" % (n, rng.choice(["a", "b.json"]))
        uris = req["redirect_uris"] + ["https://else.example/cb"]
        old = [x for x in sorted(httpc.docs) if x.startswith("https://sector")]
        if old and rng.random() < 0.5:
            # a client joins the others of a sector
            u = rng.choice(old)
            uris = json.loads(httpc.docs[u]) + uris
        httpc.docs[u] = json.dumps(uris)
        req["sector_identifier_uri"] = u
    if rng.random() < 0.3:
        req["organization_name"] = rng.choice(NAMES)
    if rng.random() < 0.2:
        req["unknown_member"] = rng.choice(["x", 5, ["a"], {"k": "v"}])
    if rng.random() < 0.2:
        req["client_name#ja-Jpan-JP"] = "名前"
    return req, ki


def spoil(rng, req, n, httpc):
    """one defect; returns its name"""
    host = "https://rp%d.example.com" % n
    k = rng.choice(["fragment", "fragment", "fragment", "http", "custom", "native-https", "native-http", "relative", "no-uris", "empty-uris", "sector-missing",
                    "sector-garbage", "sector-lacks", "sector-string", "sector-dict", "unsupported", "unsupported", "unsupported", "enc-only", "signing-none",
                    "login-http", "request-query", "logout-fragment", "page-host", "subject", "app", "jwks", "type"])
    pos = lambda u: req["redirect_uris"].insert(rng.randrange(len(req["redirect_uris"]) + 1), u)  # noqa
    req.pop("sector_identifier_uri", None)
    if k == "fragment":
        j = rng.randrange(len(req["redirect_uris"]))
        req["redirect_uris"][j] += rng.choice(["#frag", "#a=b", "#/"])
    elif k == "http":
        req["application_type"] = "web"
        req["response_types"] = rng.choice([["id_token"], ["code", "id_token"], ["code id_token token"], ["token"]])
        req["redirect_uris"] = [host + "/cb"]
        for m in ("logo_uri", "policy_uri", "tos_uri"):
            req.pop(m, None)
        pos("http://rp%d.example.com/cb" % n)
    elif k == "custom":
        req["application_type"] = "web"
        req["redirect_uris"] = [host + "/cb"]
        if rng.random() < 0.5:
            req["response_types"] = ["code"]
        for m in ("logo_uri", "policy_uri", "tos_uri"):
            req.pop(m, None)
        pos(rng.choice(["myapp://cb", "com.example.app:/cb", "com.example.app://rp.example.com/cb", "httpss://rp.example.com/cb", "urn:ietf:wg:oauth:2.0:oob", "javascript:alert(1)", "ftp://rp.example.com/"]))
    elif k in ("native-https", "native-http"):
        req["application_type"] = "native"
        req["redirect_uris"] = ["http://localhost/cb"]
        for m in ("logo_uri", "policy_uri", "tos_uri"):
            req.pop(m, None)
        pos({"native-https": rng.choice([host + "/cb", "https://localhost/cb", "https://127.0.0.1:8000/cb", "https://localhost.evil.example/"]), "native-http": rng.choice(["http://rp.example.com/cb", "http://localhost.evil.example/cb", "http://127.0.0.1.evil.example/"])}[k])
    elif k == "relative":
        pos(rng.choice(["/cb", "cb", "//rp.example.com/cb", "?x=y"]))
    elif k == "no-uris":
        del req["redirect_uris"]
    elif k == "empty-uris":
        req["redirect_uris"] = rng.choice([[], "", None])
    elif k.startswith("sector"):
        u = host + "/sector"
        uris = req["redirect_uris"]
        if k == "sector-garbage":
            httpc.docs[u] = rng.choice(["", "not json", "[", json.dumps(uris)[:-1]])
        elif k == "sector-lacks":
            # one of them is not there, at most something alike
            j = rng.randrange(len(uris))
            near = rng.choice([[], [uris[j] + "/"], [uris[j] + "&x=y" if "?" in uris[j] else uris[j] + "?x=y"], [uris[j].split("?")[0] + "?other=1"], [uris[j].upper()],
                               [uris[j][:-1]], [uris[j] + "x"]])
            httpc.docs[u] = json.dumps([x for x in uris[:j] + near + uris[j + 1:] + ["https://else.example/"] if x != uris[j]])
            old = [x for x in sorted(httpc.docs) if x.startswith("https://sector") and not set(json.loads(httpc.docs[x])) & set(uris)]
            if old and rng.random() < 0.5:
                # the sector is another client's
                u = rng.choice(old)
        elif k == "sector-string":
            httpc.docs[u] = json.dumps(" ".join(uris) + "/more")
        elif k == "sector-dict":
            httpc.docs[u] = json.dumps({x: "y" for x in uris})
        else:
            httpc.docs.pop(u, None)
        req["sector_identifier_uri"] = u
    elif k == "unsupported":
        m = rng.choice(sorted(UNSUP))
        req[m] = UNSUP[m]
        if m in ("response_types", "grant_types"):
            more = rng.sample(["code", "id_token", "code id_token", "id_token token", "code id_token token"] if m == "response_types" else
                              ["authorization_code", "implicit", "refresh_token"], rng.randrange(0, 4))
            req[m] = rng.sample(more + [UNSUP[m][1]], len(more) + 1)
        if m.endswith("_enc"):
            req[m[:-3] + "alg"] = "RSA-OAEP"
        return "unsupported:" + m
    elif k == "enc-only":
        m = rng.choice(["id_token_encrypted_response_", "userinfo_encrypted_response_", "request_object_encryption_"])
        req.pop(m + "alg", None)
        req[m + "enc"] = "A128CBC-HS256"
    elif k == "signing-none":
        req["token_endpoint_auth_signing_alg"] = "none"
    elif k == "login-http":
        req["initiate_login_uri"] = "http://rp%d.example.com/login" % n
    elif k == "request-query":
        req["request_uris"] = [host + "/ro", host + "/ro?x=y"][rng.randrange(2):]
    elif k == "logout-fragment":
        req["post_logout_redirect_uri"] = host + rng.choice(["/bye#x", "/bye?a=b#x", "#x"])
    elif k == "page-host":
        req[rng.choice(["logo_uri", "policy_uri", "tos_uri"])] = rng.choice(["https://evil.example/logo", "https://rp%d.example.com.evil.example/" % n, "https://evilrp%d.example.com/" % n, "https://sub.rp%d.example.com/" % n,
                                                                      "https://example.com/", "https://rp%d.example.com@evil.example/" % n, "//rp%d.example.com/l" % n, "ftp://rp%d.example.com/l" % n])
    elif k == "subject":
        req["subject_type"] = rng.choice(["ephemeral!", "PUBLIC", "none"])
    elif k == "app":
        req["application_type"] = rng.choice(["desktop", "Web", "WEB native"])
    elif k == "jwks":
        req.pop("jwks_uri", None)
        req["jwks"] = rng.choice([{"nokeys": []}, {"keys": "x"}, {"keys": [5]}, {"keys": [{"kty": "RSA", "n": "AQAB"}]}, {"keys": 7}])
        return "jwks"
    elif k == "type":
        m = rng.choice(["redirect_uris", "response_types", "client_name", "default_max_age", "jwks", "subject_type"])
        req[m] = {"redirect_uris": rng.choice([5, {"a": "b"}, [5], [["https://rp.example.com/cb"]]]), "response_types": rng.choice([7, {"a": 1}, [1]]),
                  "client_name": rng.choice([["a", "b"], {"x": "y"}]), "default_max_age": rng.choice(["soon", [1, 2], {}]),
                  "jwks": rng.choice(["keys", 5, ["a", "b"]]), "subject_type": rng.choice([["public", "pairwise"], {"public": 1}])}[m]
        return "type:" + m
    return k


def run_case(rng, rep, i):
    httpc = Http()
    rk = {}
    expires = rng.choice(["default", "default", 3600, 100000, "never"])
    if expires == "never":
        rk["client_secret_expires"] = False
    elif expires != "default":
        rk["client_secret_expires_in"] = expires
    gen = rng.random() < 0.25
    if gen:
        rk["client_id_generator"] = {"class": "vlib.idgen.small_numbers", "kwargs": {"prefix": rng.choice(["c", "client_"])}}
    read = rng.random() < 0.85
    caps = None
    w = World("oidc", rep, httpc=httpc, registration_kwargs=rk, without=[] if read else ["registration_api"], token_handler=rng.choice(["jwt", "default"]), keys=rng.randrange(2))
    w.ctx.httpc = httpc
    w.ctx.keyjar.httpc = httpc
    w.add_client("static", keys=0)
    w.ctx.registration_access_token["static-rat"] = "static"
    life = 2592000 if expires == "default" else expires
    resp_params = w.ep("registration").response_cls.c_param
    rep.sig("cfg", expires, gen, read)
    good = []  # (cid, rat, echo, ki)
    used_ids, used_secrets, used_rats = {"static"}, set(), set()

    def snap():
        return json.dumps({c: w.ctx.cdb[c] for c in sorted(w.ctx.cdb)}, sort_keys=True, default=str), dict(w.ctx.registration_access_token), sorted(w.ctx.keyjar.owners()), \
            {o: len(w.ctx.keyjar.get_issuer_keys(o)) for o in w.ctx.keyjar.owners()}

    for n in range(rng.randrange(6, 15)):
        CLOCK.advance(rng.choice([0, 1, 10]))
        req, ki = valid(rng, n, w, httpc)
        defect = None
        if rng.random() < 0.5:
            defect = spoil(rng, req, n, httpc)
        attack = {}
        if rng.random() < 0.35:
            attack = {k: copy.deepcopy(DECIDED[k]) for k in rng.sample(sorted(DECIDED), rng.randrange(1, 5))}
            if good and rng.random() < 0.5:
                attack["client_id"] = rng.choice(good)[0]
            elif rng.random() < 0.5:
                attack["client_id"] = rng.choice(["static", "chosen%d" % n, "../../x"])
            if "registration_access_token" in attack and good and rng.random() < 0.5:
                attack["registration_access_token"] = rng.choice(good)[1] or "mytoken"
            if attack.get("dpop_jkt") and defect is None:
                rep.count("attack")
        before = snap()
        full = dict(req, **attack)
        r = w.do("registration", json.dumps(full))
        after = snap()
        rep.sig(defect, sorted(req) if defect is None else req.get("application_type"), sorted(attack), r.outcome())
        if defect:
            rep.check(r.kind in ("error", "exception") and "client_id" not in r.data, "refused", "registration with defect %s accepted: %s" % (defect, r.brief()), defect=defect,
                      req=full)
            if "client_id" not in r.data:
                rep.check(before == after, "nothing-left", "refused registration (%s) changed the server" % defect, defect=defect, before=before[1:], after=after[1:],
                          clients=[c for c in json.loads(after[0]) if c not in json.loads(before[0])])
            continue
        if not rep.check(r.kind == "ok" and "client_id" in r.data, "registered", "valid registration refused: %s" % r.brief(), req=full):
            rep.check(before == after, "nothing-left", "refused registration changed the server")
            continue
        d = r.data
        cid = d["client_id"]
        # ---- unique
        rep.check(cid not in used_ids and cid != attack.get("client_id"), "unique", "client id %r was used before or chosen by the client" % cid)
        sec = d.get("client_secret")
        rep.check(isinstance(sec, str) and len(sec) >= 20 and sec not in used_secrets and sec != attack.get("client_secret"), "unique", "client secret %r" % sec)
        rat = d.get("registration_access_token")
        if read:
            rep.check(isinstance(rat, str) and len(rat) >= 20 and rat not in used_rats and rat != attack.get("registration_access_token"), "unique", "access token %r" % rat)
            u = d.get("registration_client_uri", "")
            rep.check(u.split("?")[0] == w.ep("registration_read").full_path and dict(parse_qsl(urlsplit(u).query)) == {"client_id": cid}, "echo", "registration_client_uri %r" % u)
        used_ids.add(cid)
        used_secrets.add(sec)
        used_rats.add(rat)
        if expires == "never":
            rep.check(not d.get("client_secret_expires_at"), "secret-expiry", "secret expires at %r though it does not" % d.get("client_secret_expires_at"))
        else:
            rep.check(d.get("client_secret_expires_at") == CLOCK.t + life, "secret-expiry", "secret expires at %r, not %r" % (d.get("client_secret_expires_at"), CLOCK.t + life))
        rep.check(d.get("client_id_issued_at") == CLOCK.t, "echo", "issued at %r, not %r" % (d.get("client_id_issued_at"), CLOCK.t))
        rep.check(r.extra.get("code") in (None, 201), "echo", "response code %r" % r.extra.get("code"))
        # ---- echo == request
        want = {k: v for k, v in req.items() if k in resp_params}
        want.setdefault("application_type", "web")
        want.setdefault("response_types", ["code"])
        stored = w.ctx.cdb[cid]
        for k, v in want.items():
            e = d.get(k)
            if k in ("redirect_uris", "post_logout_redirect_uri"):
                lst = v if isinstance(v, list) else [v]
                el = e if isinstance(e, list) else [e]
                rep.check([uri_key(x) for x in lst] == [uri_key(x or "") for x in el], "echo", "%s registered %r, echoed %r" % (k, v, e), member=k)
                st = stored.get(k)
                if rep.check(st is not None, "stored", "%s not stored" % k, member=k):
                    sl = st if k == "redirect_uris" else [st]
                    ok = len(sl) == len(lst)
                    for s, x in zip(sl, lst):
                        base, qd = (s, {}) if isinstance(s, str) else s
                        bk = uri_key(base)
                        ok = ok and (bk[:3] == uri_key(x)[:3]) and sorted((a, b) for a, bs in (qd or {}).items() for b in bs) == list(uri_key(x)[3])
                    rep.check(ok, "stored", "%s registered %r, stored %r" % (k, v, st), member=k)
            else:
                if v is False:  # a missing member means false
                    e, v = bool(e), bool(v)
                rep.check(e == v, "echo", "%s registered %r, echoed %r" % (k, v, e), member=k)
                st = stored.get(k)
                if k == "request_uris":
                    st = ["#".join(x) if x[1] else x[0] for x in st or []]
                rep.check((bool(st) if v is False else st) == v, "stored", "%s registered %r, stored %r" % (k, v, st), member=k)
        for k in d:
            if k not in want and not k.startswith("registration_") and k not in ("client_id", "client_secret", "client_secret_expires_at", "client_id_issued_at"):
                rep.check(k.endswith("_enc") and k[:-3] + "alg" in want or k not in resp_params and req.get(k) == d[k], "echo", "%s=%r was not registered" % (k, d[k]), member=k)
        # ---- what the provider decides
        for k, v in attack.items():
            rep.check(stored.get(k) != v and d.get(k) != v, "provider-decides", "the client set its own %s" % k, member=k)
        if read:
            rep.check(w.ctx.registration_access_token.get(rat) == cid and {t: c for t, c in w.ctx.registration_access_token.items() if t != rat} == before[1], "others-kept",
                      "registration changed other clients' tokens")
        b, a = json.loads(before[0]), json.loads(after[0])
        rep.check({c: v for c, v in a.items() if c != cid} == b, "others-kept", "registration changed another client")
        rep.check({o: x for o, x in after[3].items() if o != cid} == before[3], "others-kept", "registration changed the keys of another owner")
        good.append((cid, rat, dict(d), ki))
        # ---- the client's keys
        if ki is not None:
            rep.count("jwks_uri" if "jwks_uri" in req else "jwks")
            kids = {k.kid for k in w.ctx.keyjar.get_issuer_keys(cid)}
            rep.check({k.kid for k in key_objs("client", ki)} <= kids, "stored", "registered keys not there", member="jwks")
        # ---- usable at once
        use(rng, rep, w, cid, sec, req, ki)
        if read and rng.random() < 0.5:
            read_own(rep, w, cid, rat, good[-1][2])

    # ---- reading
    if not read:
        rep.check(not w.ctx.registration_access_token.keys() - {"static-rat"}, "others-kept", "tokens for an endpoint that isn't there")
        return
    CLOCK.advance(rng.choice([0, 100]))
    at = None
    if good:
        tokens = [g[1] for g in good]
        for cid, rat, echo, ki in good:
            read_own(rep, w, cid, rat, echo)
            bad = [("other", t) for t in rng.sample(tokens, min(3, len(tokens))) if t != rat]
            bad += [("garbage", "garbage"), ("none", None), ("empty", ""), ("flip", flip(rng, rat)), ("secret", echo["client_secret"]), ("cid", cid), ("static", "static-rat"),
                    ("longer", rat + "x"), ("shorter", rat[:-1])]
            for kind, t in rng.sample(bad, min(len(bad), 5)):
                r = read_it(w, cid, t)
                rep.check("client_secret" not in r.data and "redirect_uris" not in r.data and r.kind in ("error", "exception"), "read-refused",
                          "registration of %s read with %s" % (cid, kind), how=kind)
            # own token, other client named
            for other in rng.sample([g[0] for g in good if g[0] != cid] + ["static", "", None, "nobody"], 2):
                r = read_it(w, other, rat)
                if other is None and r.data.get("client_id") == cid:
                    continue
                rep.check("client_secret" not in r.data and "redirect_uris" not in r.data, "read-refused", "own token reads client %r" % other, how="other-client")
        # the way of presenting
        cid, rat, echo, ki = rng.choice(good)
        r = w.do("registration_read", {"client_id": cid, "access_token": rat})
        rep.check("client_secret" not in r.data, "read-refused", "token in the query accepted", how="query")
        r = w.do("registration_read", {"client_id": cid}, {"headers": {"authorization": w.basic(cid, echo["client_secret"])}})
        rep.check("client_secret" not in r.data, "read-refused", "basic authentication reads the registration", how="basic")
        rep.sig("read", len(good))


def read_it(w, cid, token):
    hi = {"headers": {"authorization": "Bearer %s" % token}} if token is not None else {}
    return w.do("registration_read", {"client_id": cid} if cid is not None else {}, hi, label="read")


def read_own(rep, w, cid, rat, echo):
    r = read_it(w, cid, rat)
    if not rep.check(r.kind == "ok", "read-back", "own registration not readable: %s" % r.brief()):
        return
    rd = {k: v for k, v in r.data.items()}
    e = {k: v for k, v in echo.items()}
    for k in set(rd) | set(e):
        if k not in w.ep("registration").response_cls.c_param and k not in rd:
            continue
        rep.check(rd.get(k) == e.get(k), "read-back", "%s was %r, reads %r" % (k, e.get(k), rd.get(k)), member=k)


def use(rng, rep, w, cid, sec, req, ki):
    rts = [" ".join(sorted(x.split(" "))) for x in req.get("response_types", ["code"])]
    rt = rng.choice(req.get("response_types", ["code"]))
    w.secrets[cid] = sec
    if ki is not None:
        kj = KeyJar()
        kj.add_kb("", key_bundle("client", ki))
        w.client_keys[cid] = kj
    uri = rng.choice(req["redirect_uris"])
    a = {"client_id": cid, "redirect_uri": uri, "response_type": rt, "scope": "openid", "state": "st%d" % rng.randrange(10 ** 6), "nonce": "n1"}
    if rt == "none":
        r = w.authorize(a, "diana")
        rep.check(r.kind == "redirect" and "error" not in r.data, "usable", "registered response type refused: %s" % r.brief(), at="authz", rt=rt)
        return
    r = w.authorize(a, "diana")
    if not rep.check(r.kind == "redirect" and "error" not in r.data, "usable", "registered response type or redirect URI refused: %s" % r.brief(), at="authz", rt=rt, uri=uri):
        return
    rep.check(r.url.split("?")[0].split("#")[0].rstrip("/") == uri.split("?")[0].rstrip("/"), "usable", "response to %r not %r" % (r.url, uri), at="place")
    d = dict(r.data)
    toks = [("authz", d)]
    if "code" in rt.split(" "):
        meth = req.get("token_endpoint_auth_method", "client_secret_basic")
        gts = req.get("grant_types")
        kw = {}
        tr = w.code_req(cid, d["code"], redirect_uri=uri)
        if meth in ("client_secret_jwt", "private_key_jwt"):
            alg = req.get("token_endpoint_auth_signing_alg")
            tr["client_assertion"] = w.assertion(cid, meth, alg=alg)
            tr["client_assertion_type"] = "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"
            hi = {}
            rep.count("auth-jwt")
        else:
            tr, hi = w.with_auth(tr, cid, {"client_secret_basic": "basic", "client_secret_post": "post"}[meth])
        q = w.do("token", tr, hi, label="redeem")
        if rep.check(q.ok and "access_token" in q.data, "usable", "code of the new client refused: %s" % q.brief(), at="token", meth=meth):
            toks.append(("token", q.data))
        else:
            return
    for where, d in toks:
        if "id_token" in d:
            t = d["id_token"]
            if "id_token_encrypted_response_alg" in req:
                rep.count("encrypted")
                hdr = peek_header(t)
                ok = hdr.get("alg") == req["id_token_encrypted_response_alg"] and hdr.get("enc") == req.get("id_token_encrypted_response_enc", "A128CBC-HS256")
                rep.check(ok, "usable", "ID token encrypted with %r" % hdr, at="id_token-enc")
                t = jwe_factory(t).decrypt(t, key_objs("client", ki))
                t = t.decode() if isinstance(t, bytes) else t
            alg = peek_header(t).get("alg")
            rep.check(alg == req.get("id_token_signed_response_alg", "RS256"), "usable", "ID token signed with %r" % alg, at="id_token-alg")
            p = peek(t)
            rep.check(p.get("aud") == [cid] and p.get("iss") == ISSUER, "usable", "ID token for %r" % p.get("aud"), at="id_token")
    at = toks[-1][1].get("access_token")
    if at:
        u = w.userinfo(at)
        rep.check(u.ok, "usable", "userinfo refused: %s" % u.brief(), at="userinfo")
        if "userinfo_encrypted_response_alg" in req or "userinfo_signed_response_alg" in req:
            rep.count("userinfo-jwt")


def peek_header(t):
    import base64
    h = t.split(".")[0]
    return json.loads(base64.urlsafe_b64decode(h + "=" * (-len(h) % 4)))
