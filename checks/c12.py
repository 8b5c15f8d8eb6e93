"""C12: every ID Token is genuine, fresh and about this session."""
import base64
import hashlib
import json

from cryptojwt.jwe.jwe import factory as jwe_factory
from cryptojwt.jwk.hmac import SYMKey
from cryptojwt.jws.jws import factory as jws_factory
from cryptojwt.key_jar import KeyJar

from vlib.clock import CLOCK
from vlib.story import AT, IT, RT, Story
from vlib.world import ISSUER, USERS, World, key_objs

CASES = {"quick": 500, "thorough": 16000}
RULE = ("One case: a server with random ID Token lifetime, default algorithms and claims, clients with random registered signing and encryption, users "
        "whose data contains protocol claim names, and several sessions (fresh and by single sign-on, at changing times) that obtain ID Tokens from "
        "the authorization endpoint, by code and by refresh; every ID Token is decrypted and verified with nothing but the published keys or the "
        "client's secret and compared with the session. Distinct: by configuration, request and claims present.")
MUST_OBSERVE = {"oracle:signature": 1500, "oracle:at_hash": 300, "oracle:c_hash": 300, "oracle:nonce": 1000, "oracle:encrypted": 200, "alg:HS": 100,
                "alg:ES": 100, "alg:PS": 50, "alg:default": 200, "sso-id-token": 60, "oracle:auth_time": 1000, "hostile-user-data": 200,
                "oracle:hash-agreement": 1500}
CLIENT_KEYS = 3
RSA_ALGS = ["RS256", "RS384", "RS512", "PS256", "PS384", "PS512"]
ALGS = ["RS256", "RS256", "ES256", "ES256", "ES384", "RS384", "RS512", "PS256", "PS384", "PS512", "HS256", "HS384", "HS512"]
HOSTILE = {"iss": "https://evil.example", "sub": "somebody-else", "aud": ["evil"], "exp": 1, "iat": 5, "auth_time": 7, "nonce": "evil", "sid": "evil",
           "c_hash": "evil", "at_hash": "evil", "acr": "evil", "azp": "evil"}


def left_hash(val, bits):
    d = hashlib.new("sha%s" % bits, val.encode()).digest()
    return base64.urlsafe_b64encode(d[: len(d) // 2]).decode().rstrip("=")


def open_jwe(token, keys):
    d = jwe_factory(token)
    if d is None:
        return None, None
    kj = KeyJar()
    out = d.decrypt(token, [k for k in keys])
    return d.jwt.headers, out.decode() if isinstance(out, bytes) else out


def run_case(rng, rep, i):
    users = json.loads(json.dumps(USERS))
    idk = {}
    if rng.random() < 0.6:
        idk["lifetime"] = rng.choice([1, 60, 300, 301, 86400, 10 ** 7])
    if rng.random() < 0.4:
        idk["id_token_signing_alg_values_supported"] = rng.choice([["RS256", "ES256"], ["ES256", "RS256"], ["ES256", "PS256"], ["ES384"], ["PS512", "RS512", "ES256"]])
    for p, k in ((0.5, "base_claims"),):
        if rng.random() < p:
            idk[k] = {x: None for x in rng.sample(sorted(HOSTILE) + ["name", "email"], 5)}
    if rng.random() < 0.3:
        idk["add_claims_by_scope"] = True
    hostile = rng.random() < 0.5
    if hostile:
        for u in users.values():
            for k, v in HOSTILE.items():
                if rng.random() < 0.7:
                    u[k] = v
    keys_no = rng.choice([0, 1])
    w = World("oidc", rep, keys=keys_no, id_token_kwargs=idk, users=users, token_handler=rng.choice(["jwt", "default"]),
              grant_expires_in=rng.choice([43200, 0]))
    cl = {}
    for n, c in enumerate(("alpha", "alpha2", "Alpha")):
        extra = {}
        if rng.random() < 0.75:
            extra["id_token_signed_response_alg"] = rng.choice(ALGS)
        if rng.random() < 0.4:
            extra["id_token_encrypted_response_alg"] = rng.choice(["RSA-OAEP", "RSA-OAEP-256", "RSA1_5"])
            extra["id_token_encrypted_response_enc"] = rng.choice(["A128CBC-HS256", "A256GCM", "A128GCM", "A256CBC-HS512"])
        if rng.random() < 0.3:
            extra["backchannel_logout_uri"] = "https://%s.example.com/bc" % c
        w.add_client(c, keys=n, **extra)
        cl[c] = (extra, n)
    s = Story(w, rep, rng)
    rep.sig(json.dumps(idk, sort_keys=True), json.dumps([cl[c][0] for c in cl], sort_keys=True), hostile)
    supported = idk.get("id_token_signing_alg_values_supported")
    jwks = w.server_jwks()
    life = idk.get("lifetime", 300)

    def verify(g, data, tok, where, nonce, login_t):
        extra, kn = cl[g.client]
        enc = extra.get("id_token_encrypted_response_alg")
        jws = tok
        if enc:
            if not rep.check(tok.count(".") == 4, "encrypted", "%s: client registered %s but the ID Token is not encrypted" % (where, enc)):
                return
            try:
                hdr, jws = open_jwe(tok, [k for k in key_objs("client", kn)])
            except Exception as e:
                rep.violation("decrypt", "%s: client can not decrypt its ID Token: %r" % (where, e))
                return
            rep.check(hdr.get("alg") == enc and hdr.get("enc") == extra["id_token_encrypted_response_enc"], "encrypted-as-registered",
                      "%s: encrypted with %s" % (where, hdr))
            other = (kn + 1) % 3
            try:
                open_jwe(tok, [k for k in key_objs("client", other)])
                rep.violation("encrypted-only-for-client", "another client's key opens it")
            except Exception:
                rep.count("oracle:encrypted-only-for-client")
        elif not rep.check(tok.count(".") == 2, "plain-jws", "%s: not a signed JWT %s" % (where, tok[:40])):
            return
        f = jws_factory(jws)
        if not rep.check(f is not None, "is-jws", "%s: not a JWS" % where):
            return
        alg = f.jwt.headers.get("alg")
        reg = extra.get("id_token_signed_response_alg")
        if reg:
            rep.check(alg == reg, "alg", "%s: signed with %s, registered %s" % (where, alg, reg))
            rep.count("alg:" + alg[:2])
        else:
            rep.check((supported is None and alg == "RS256") or (supported and alg in supported and ("RS256" not in supported or alg == "RS256")),
                      "default-alg", "%s: default signing algorithm %s, supported %s" % (where, alg, supported))
            rep.count("alg:default")
        if alg[:2] == "HS":
            keys = [SYMKey(key=w.secrets[g.client], kid=f.jwt.headers.get("kid", ""))]
        else:
            kj = KeyJar()
            kj.import_jwks(jwks, ISSUER)
            keys = [k for k in kj.get_issuer_keys(ISSUER) if k.use != "enc" and k.kty == {"R": "RSA", "P": "RSA", "E": "EC"}[alg[0]]]
            kid = f.jwt.headers.get("kid")
            if kid:
                keys = [k for k in keys if k.kid == kid]
        try:
            p = f.verify_compact(jws, keys)
        except Exception as e:
            rep.violation("signature", "%s: does not verify: %r" % (where, e), alg=alg)
            return
        rep.count("oracle:signature")
        rep.sig(where, alg, bool(enc), sorted(p))
        aud = p.get("aud")
        aud = aud if isinstance(aud, list) else [aud]
        rep.check(p.get("iss") == ISSUER, "iss", "iss is %s" % p.get("iss"))
        rep.check(g.client in aud and not (set(aud) & {"alpha", "alpha2", "Alpha", "evil"}) - {g.client}, "aud", "aud is %s" % aud)
        rep.check(p.get("sub") == w.sm[g.sid].sub, "sub", "sub is %s, the session's is %s" % (p.get("sub"), w.sm[g.sid].sub))
        rep.check(p.get("nonce") == nonce, "nonce", "%s: nonce is %r, the request's %r" % (where, p.get("nonce"), nonce))
        rep.check(p.get("iat") == CLOCK.t, "iat", "iat is %s, now %s" % (p.get("iat"), CLOCK.t))
        rep.check(p.get("exp") == CLOCK.t + life, "exp", "exp is iat+%s, configured lifetime %s" % (p.get("exp", 0) - CLOCK.t, life))
        rep.check(p.get("auth_time") == login_t and login_t <= p.get("iat", 0), "auth_time",
                  "%s: auth_time is login%+d" % (where, (p.get("auth_time") or 0) - login_t))
        rep.check(p.get("acr") != "evil", "acr", "acr is the user's data")
        if "sid" in p:
            rep.check(s.same_grant(p["sid"], g.sid) if p["sid"] != "evil" else False, "sid", "sid is of another session: %s" % p["sid"])
        bits = alg[2:]
        for claim, art in (("c_hash", "code"), ("at_hash", "access_token")):
            val = data.get(art)
            if where == "authz" and val:
                rep.check(p.get(claim) == left_hash(val, bits), claim, "%s is %s for the %s delivered with it (%s)" % (claim, p.get(claim), art, alg))
            rep.check(claim not in p or (val and p[claim] == left_hash(val, bits)), "hash-agreement",
                      "%s: %s %s fits nothing in this response" % (where, claim, p.get(claim)))

    tokens = []
    jar = {}
    for n in range(rng.randrange(2, 6)):
        CLOCK.advance(rng.choice([0, 1, 7, 100]))
        user, cid = rng.choice(list(users)), rng.choice(list(cl))
        rt = rng.choice(["code", "id_token", "code id_token", "id_token token", "code id_token token", "code id_token token"])
        scope = "openid" + rng.choice(["", " email", " offline_access", " profile offline_access"])
        kw = {"nonce": rng.choice(["n-%d" % n, "\u00e5 &=%\"n" + str(n), "x" * 300, "0", "null", " n%d" % n, "n%d\t " % n, "N%d+%%20" % n])}
        if rt == "code" and rng.random() < 0.4:
            kw["nonce"] = None
        if rng.random() < 0.4:
            kw["claims"] = {"id_token": {k: None for k in rng.sample(sorted(HOSTILE) + ["email"], 3) if k != "acr"}}
        cookies = None
        login_t = CLOCK.t
        if jar and rng.random() < 0.4:
            user, cid = rng.choice(sorted(jar))
            cookies, login_t = jar[(user, cid)]
            rep.count("sso-id-token")
        if login_t + 3600 <= CLOCK.t:
            cookies, login_t = None, CLOCK.t
        g, r = s.authorize(user, cid, scope, rt=rt, cookies=cookies, **kw)
        if not rep.check(g is not None, "authorized", "authorization failed: %s" % r.brief()):
            continue
        if hostile:
            rep.count("hostile-user-data")
        if r.cookies:
            jar[(user, cid)] = ([c for c in r.cookies if c["name"] == "oidc_op"], login_t)
        if "id_token" in rt.split():
            if rep.check("id_token" in r.data, "id-token-issued", "no ID Token for %s: %s" % (rt, r.brief())):
                verify(g, r.data, r.data["id_token"], "authz", kw["nonce"], login_t)
                tokens.append(r.data["id_token"])
        if g.code is not None and rng.random() < 0.9:
            CLOCK.advance(rng.choice([0, 1, 30]))
            r, new = s.redeem(g.code, issue_refresh=True)
            if rep.check(AT in new and IT in new, "id-token-by-code", "no ID Token for the code: %s" % r.brief()):
                verify(g, r.data, r.data["id_token"], "token", kw["nonce"], login_t)
                tokens.append(r.data["id_token"])
            for _ in range(rng.randrange(0, 3)):
                if RT not in new:
                    break
                CLOCK.advance(rng.choice([1, 100]))
                r, new2 = s.refresh(new[RT])
                if rep.check(IT in new2, "id-token-by-refresh", "no ID Token on refresh: %s" % r.brief()):
                    verify(g, r.data, r.data["id_token"], "refresh", kw["nonce"], login_t)
                    tokens.append(r.data["id_token"])
                if RT in new2:
                    new = new2
    rep.check(len(set(tokens)) == len(tokens), "distinct", "the same ID Token was issued twice")
    # what the published document says about the keys
    for k in jwks["keys"]:
        rep.check(not (set(k) & {"d", "p", "q", "k"}), "jwks-public", "private key material published")
