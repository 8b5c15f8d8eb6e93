"""C30: userinfo answers in the form the client registered."""
import json

from cryptojwt.jwe.jwe import factory as jwe_factory
from cryptojwt.jwk.hmac import SYMKey
from cryptojwt.jws.jws import factory as jws_factory
from cryptojwt.key_jar import KeyJar

from vlib.clock import CLOCK
from vlib.story import AC, AT, IT, RT, Story
from vlib.world import ISSUER, USERS, World, flip, key_objs

CASES = {"quick": 420, "thorough": 40000}
RULE = ("One case: a server and four clients, each registered with another form of userinfo response (plain, signed, encrypted, both; all signing "
        "algorithms, key management and content encryption algorithms that are announced and that the keys of the clients can do), users with hostile, "
        "nested and non-ASCII data; each client gets tokens for several users by code, refresh and implicit flow; userinfo is asked in a random order with "
        "the token in header or body and again after jumps of the clock past the validity of authentication and token. Each answer is opened with only "
        "the published keys and what that client has, and compared with the plain answer to the same request. Distinct: by registrations and requests.")
MUST_OBSERVE = {"oracle:form": 2500, "oracle:signed-as-registered": 700, "oracle:encrypted-as-registered": 500, "oracle:same-claims": 2500,
                "oracle:sub": 2500, "oracle:iss-aud": 700, "oracle:content-type": 2500, "oracle:refused": 500, "oracle:authn-expired": 300,
                "oracle:only-for-client": 400, "oracle:value": 2500, "form:plain": 500, "form:sign": 300, "form:encrypt": 200, "form:sign+encrypt": 200}
CLIENT_KEYS = 4
SIGN = ["RS256", "RS384", "RS512", "PS256", "PS384", "PS512", "ES256", "ES384", "HS256", "HS384", "HS512"]
ENC = ["RSA-OAEP", "RSA-OAEP-256", "RSA1_5", "ECDH-ES", "ECDH-ES+A128KW", "ECDH-ES+A192KW", "ECDH-ES+A256KW"]
CEK = ["A128CBC-HS256", "A192CBC-HS384", "A256CBC-HS512", "A128GCM", "A192GCM", "A256GCM"]
HOSTILE = {"sub": "somebody-else", "iss": "https://evil.example", "aud": ["evil"], "exp": 1, "iat": 5, "acr": "evil", "client_id": "evil", "sid": "evil"}
STD = {"profile": ["name", "given_name", "family_name", "nickname", "birthdate", "gender"], "email": ["email", "email_verified"],
       "address": ["address"], "phone": ["phone_number"]}
FRAME = {"iss", "aud", "iat"}


def open_jwe(token, keys):
    d = jwe_factory(token)
    if d is None:
        return None, None
    out = d.decrypt(token, list(keys))
    return d.jwt.headers, out.decode() if isinstance(out, bytes) else out


def run_case(rng, rep, i):
    users = json.loads(json.dumps(USERS))
    for u in users.values():
        if rng.random() < 0.4:
            for k, v in HOSTILE.items():
                if rng.random() < 0.7:
                    u[k] = v
        if rng.random() < 0.3:
            u["name"] = rng.choice(["\u00c5sa \u00d6stg\u00f6ta", "\u65e5\u672c\u8a9e", "a\"b\\c\n<>&", "\U0001f600", ""])
        if rng.random() < 0.2:
            u["email_verified"] = rng.random() < 0.5
    rules = {AC: {"supports_minting": [AT, RT, IT], "max_usage": 1, "expires_in": 300}, AT: {"expires_in": rng.choice([600, 5000, 20000])},
             RT: {"supports_minting": [AT, RT, IT], "expires_in": 40000}}
    w = World("oidc", rep, keys=rng.choice([0, 1]), users=users, usage_rules=rules, token_handler=rng.choice(["jwt", "default"]))
    forms = ["plain", "sign", "encrypt", "sign+encrypt"]
    cl = {}
    for n in range(4):
        c = "client%d" % n
        form = rng.choice(forms) if n else "plain"
        e = {}
        if "sign" in form:
            e["userinfo_signed_response_alg"] = rng.choice(SIGN)
        if "encrypt" in form:
            e["userinfo_encrypted_response_alg"] = rng.choice(ENC)
            if rng.random() < 0.75:
                e["userinfo_encrypted_response_enc"] = rng.choice(CEK)
        x = dict(e)
        if rng.random() < 0.5:
            # other registrations must not matter
            x["id_token_signed_response_alg"] = rng.choice(SIGN)
        if rng.random() < 0.2:
            x["id_token_encrypted_response_alg"], x["id_token_encrypted_response_enc"] = "RSA-OAEP", "A256GCM"
        if form == "plain" and rng.random() < 0.3:
            # without an algorithm the content encryption says nothing
            x["userinfo_encrypted_response_enc"] = rng.choice(CEK)
        w.add_client(c, keys=n, **x)
        cl[c] = (form, e, n)
    s = Story(w, rep, rng)
    jwks = w.server_jwks()
    rep.sig(json.dumps([cl[c][:2] for c in sorted(cl)], sort_keys=True))
    claims = rng.choice([None, None, {"userinfo": {"nickname": None, "tier": None}}, {"userinfo": {"email": {"essential": True}, "eduperson_scoped_affiliation": None}}])
    baseline = {}

    def plain(user, sc):
        """the answer to the same request by a client that registered no form"""
        k = (user, sc)
        if k not in baseline:
            g, r = s.authorize(user, "client0", sc, rt="code token", **({"claims": claims} if claims else {}))
            u = w.userinfo(r.data["access_token"])
            baseline[k] = u.data
            rep.check(u.ok and isinstance(u.raw, str), "form", "plain answer refused: %s" % u.brief())
        return baseline[k]

    def content_type(r):
        return [v for k, v in r.headers if k.lower() == "content-type"]

    def opened(r, c):
        """the claims in an answer as that client finds them; None if something is wrong"""
        form, e, kn = cl[c]
        tok = r.raw
        if form == "plain":
            if not rep.check(isinstance(tok, str) and tok[:1] == "{", "form", "%s registered nothing, got %s" % (c, str(tok)[:60]), answer=r.brief()):
                return None
            rep.check([x.split(";")[0] for x in content_type(r)] == ["application/json"], "content-type", "plain answer has %s" % content_type(r))
            return json.loads(tok)
        rep.check([x.split(";")[0] for x in content_type(r)] == ["application/jwt"], "content-type", "%s answer has %s" % (form, content_type(r)))
        if not rep.check(isinstance(tok, str) and tok.count(".") == (4 if "encrypt" in form else 2), "form",
                         "%s registered %s, got %s" % (c, e, str(tok)[:60]), answer=r.brief()):
            return None
        if "encrypt" in form:
            try:
                hdr, inner = open_jwe(tok, key_objs("client", kn))
            except Exception as x:
                rep.violation("encrypted-as-registered", "the client can not decrypt: %r" % x, registered=e)
                return None
            rep.check(hdr.get("alg") == e["userinfo_encrypted_response_alg"]
                      and hdr.get("enc") == e.get("userinfo_encrypted_response_enc", "A128CBC-HS256"), "encrypted-as-registered",
                      "encrypted with %s, registered %s" % (hdr, e))
            try:
                open_jwe(tok, key_objs("client", (kn + 1) % 4))
                rep.violation("only-for-client", "another client's keys open it")
            except Exception:
                rep.count("oracle:only-for-client")
            tok = inner
        if "sign" not in form:
            try:
                return json.loads(tok)
            except ValueError:
                rep.violation("form", "encrypted answer does not contain JSON", inside=tok[:60])
                return None
        f = jws_factory(tok)
        if not rep.check(f is not None, "signed-as-registered", "no JWS in the answer: %s" % tok[:60]):
            return None
        alg = f.jwt.headers.get("alg")
        rep.check(alg == e["userinfo_signed_response_alg"], "signed-as-registered", "signed with %s, registered %s" % (alg, e))
        if alg[:2] == "HS":
            keys = [SYMKey(key=w.secrets[c], kid=f.jwt.headers.get("kid", ""))]
        else:
            kj = KeyJar()
            kj.import_jwks(jwks, ISSUER)
            keys = [k for k in kj.get_issuer_keys(ISSUER) if k.use != "enc" and k.kty == {"R": "RSA", "P": "RSA", "E": "EC"}[alg[0]]]
        try:
            p = f.verify_compact(tok, keys)
        except Exception as x:
            rep.violation("signed-as-registered", "does not verify with the published keys or the client's secret: %r" % x, alg=alg)
            return None
        rep.check(p.get("iss") == ISSUER and (p.get("aud") == c or p.get("aud") == [c]), "iss-aud", "iss %r aud %r for %s" % (p.get("iss"), p.get("aud"), c))
        return p

    def ask(t, sc):
        c, user = t.grant.client, t.grant.user
        act, valid = t.active(), CLOCK.t - t.grant.at
        if act is None or valid == 3600:
            return
        r = w.userinfo(t.value, rng.choice(["header", "body"]))
        form = cl[c][0]
        rep.sig("ask", form, bool(act), valid < 3600, r.outcome())
        if act is False:
            rep.check(not r.ok and not isinstance(r.raw, str) or r.kind == "error", "refused", "inactive token served", answer=r.brief())
            return
        if valid > 3600:
            # an error, in whichever form
            leak = json.dumps(r.data)
            if isinstance(r.raw, str):
                if r.raw[:1] == "{":
                    leak = r.raw
                else:
                    p = opened(r, c)
                    leak = json.dumps(p)
                    rep.check(p is None or "error" in p, "authn-expired", "no error although the authentication is no longer valid", answer=leak)
            else:
                rep.check(not r.ok, "authn-expired", "served", answer=r.brief())
            rep.check("error" in leak or r.kind in ("error", "exception"), "authn-expired", "answered although the authentication is no longer valid", answer=leak)
            for k, v in users[user].items():
                if k not in HOSTILE and isinstance(v, str) and len(v) > 3:
                    rep.check(json.dumps(v)[1:-1] not in leak, "authn-expired", "claim %s released although the authentication is no longer valid" % k, answer=leak)
            rep.check("\"sub\"" not in leak, "authn-expired", "sub released although the authentication is no longer valid", answer=leak)
            return
        if not rep.check(r.kind == "ok", "form", "active token refused: %s" % r.brief()):
            return
        p = opened(r, c)
        if p is None:
            return
        rep.count("form:" + form)
        rep.check(p.get("sub") == w.sm[t.grant.sid].sub, "sub", "sub is %r, the session's is %r" % (p.get("sub"), w.sm[t.grant.sid].sub))
        want = plain(user, sc)
        drop = FRAME if form != "plain" else set()
        got = {k: v for k, v in p.items() if k not in drop}
        exp = {k: v for k, v in want.items() if k not in drop}
        rep.check(got == exp, "same-claims", "%s answer has %s, the plain one %s" % (form, got, exp))
        for scope, names in STD.items():
            if scope in sc.split():
                for k in names:
                    if k in users[user]:
                        rep.check(got.get(k) == users[user][k], "value", "%s is %r, the user's is %r" % (k, got.get(k), users[user][k]))

    asked = {}
    for n in range(rng.randrange(3, 6)):
        c, user = "client%d" % rng.randrange(4), rng.choice(sorted(users))
        sc = "openid " + " ".join(sorted(rng.sample(sorted(STD), rng.randrange(0, 4))))
        sc = sc.strip()
        rt = rng.choice(["code", "code token", "id_token token"])
        g, r = s.authorize(user, c, sc, rt=rt, **({"claims": claims} if claims else {}))
        if not rep.check(g is not None, "authorization-served", "authorization refused: %s" % r.brief()):
            return
        asked[id(g)] = sc
        if g.code is not None:
            r, new = s.redeem(g.code, issue_refresh=True)
            if RT in new and rng.random() < 0.4:
                s.refresh(new[RT], issue_refresh=False)
    # in any order
    for n in range(rng.randrange(4, 10)):
        t = rng.choice([t for t in s.tokens if t.cls == AT and id(t.grant) in asked])
        ask(t, asked[id(t.grant)])
        if rng.random() < 0.2:
            x = rng.choice(s.tokens)
            value = x.value
            if x.cls == AT:
                value = rng.choice([flip(rng, value), "", "Bearer", value[:-1], value + "."])
            r = w.userinfo(value, rng.choice(["header", "body"]))
            rep.check(r.kind in ("error", "exception"), "refused", "userinfo served %s" % ("a mutated token" if x.cls == AT else x.cls), answer=r.brief())
        if rng.random() < 0.12:
            rep.check(w.do("userinfo", rng.choice([{}, {"scope": "openid"}]), rng.choice([{}, {"headers": {"authorization": w.basic("client1")}}])).kind
                      in ("error", "exception"), "refused", "userinfo served without a token")
    for jump in rng.sample([500, 700, 3400, 3700, 6000, 21000], 2):
        CLOCK.advance(jump)
        for t in rng.sample([t for t in s.tokens if t.cls == AT and id(t.grant) in asked], 2) if len([t for t in s.tokens if t.cls == AT and id(t.grant) in asked]) > 1 else []:
            ask(t, asked[id(t.grant)])
