"""C25: packed values round-trip, identifiers never collide, foreign or altered session ids resolve to nothing."""
import base64
import secrets

from oidcop.util import Crypt, lv_pack, lv_unpack
from vlib.clock import CLOCK
from vlib.world import World, flip, peek

CASES = {"quick": 420, "thorough": 12000}
RULE = ("Three kinds of case. values: 60 lists of adversarial strings (separators, length prefixes, blanks, unicode, empty, long, and other groupings of the "
        "same text) packed, encrypted and made session ids, all results compared with the originals and with each other; history: two servers driven through "
        "authorizations, redemptions, refreshes, pushes and registrations within few clock seconds, every identifier seen collected and compared with all others, "
        "client ids also with a random source that repeats itself; foreign: session ids of one server, and altered ones, presented to another. Distinct: by operation sequence.")
MUST_OBSERVE = {"oracle:lv": 5000, "oracle:crypt": 700, "oracle:crypt-foreign": 400, "oracle:crypt-altered": 700, "oracle:sid": 5000, "oracle:key-distinct": 3000,
                "oracle:distinct": 9000, "oracle:foreign": 300, "oracle:altered": 1500, "ids:code": 200, "ids:access_token": 800, "ids:refresh_token": 300,
                "ids:id_token": 500, "ids:client_id": 300, "ids:client_secret": 200, "ids:request_uri": 200, "ids:sid": 800, "ids:jti": 300, "ids:rat": 200,
                "repeating-source": 40}

ATOMS = ["", " ", "  ", ":", ";", ";;", ";;;", "%", "%3B", "%3B%3B", "%25", "1:a", "0:", "3:a;;", "a", "b", "ab", "a;", ";a", "a;;b", "\u00e5", "\U0001f600", "e\u0301",
         "\u00e9", "\n", "\t", "a\x00b", "\x00", "10:", "-1:x", "__class__", "diana", "client_1", "https://rp.example.com/;;x", "x" * 300, "a:b:c", "|", "\\", "\"", "'"]


def word(rng):
    k = rng.randrange(6)
    if k < 3:
        return rng.choice(ATOMS)
    if k == 3:
        return rng.choice(ATOMS) + rng.choice(ATOMS)
    if k == 4:
        return "".join(chr(rng.choice([rng.randrange(32, 127), rng.randrange(0xA0, 0x250), 0x3B, 0x3A, 0x25])) for _ in range(rng.randrange(1, 12)))
    return str(rng.randrange(1000)) + rng.choice([":", ";", ";;"]) + rng.choice(ATOMS)


def regroup(rng, parts):
    """another list whose plain concatenation looks alike"""
    j = rng.choice(["", ";", ";;", ":"]).join(parts)
    n = len(parts)
    cuts = sorted(rng.randrange(len(j) + 1) for _ in range(n - 1))
    return [j[a:b] for a, b in zip([0] + cuts, cuts + [len(j)])]


def values(rng, rep):
    rep.sig("values", rng.random())
    w = World("oidc", rep, session_params={"password": word(rng) or "x", "salt": "s"})
    sm = w.sm
    other = World("oidc", None, session_params={"password": "another", "salt": "s"})
    packed, keys = {}, {}
    lists = []
    for _ in range(40):
        n = rng.choice([1, 2, 2, 3, 3, 4, 6])
        p = [word(rng) for _ in range(n)]
        lists.append(p)
        lists.append(regroup(rng, p))
    for p in lists:
        s = lv_pack(*p)
        rep.check(lv_unpack(s) == p, "lv", "%r packed and unpacked gives %r" % (p, lv_unpack(s)))
        if s in packed:
            rep.check(packed[s] == p, "lv-collision", "%r and %r pack to the same %r" % (packed[s], p, s))
        packed[s] = p
        if len(p) <= 3:
            k = sm.session_key(*p)
            rep.count("oracle:key-distinct")
            if k in keys and keys[k] != p:
                rep.violation("key-collision", "%r and %r have the same session key %r" % (keys[k], p, k))
            keys[k] = p
            rep.check(sm.unpack_session_key(k) == p, "key-roundtrip", "session key of %r unpacks to %r" % (p, sm.unpack_session_key(k)))
            sid = sm.encrypted_session_id(*p)
            back = sm.decrypt_session_id(sid)
            rep.check(back == p, "sid", "session id of %r reads back as %r" % (p, back))
            if rng.random() < 0.3:
                r = other.call("decrypt", other.sm.decrypt_session_id, sid)
                rep.check(not r.ok, "foreign", "a session id made with another password was read as %r" % (r.raw,))
    c = Crypt(word(rng) + "1")
    c2 = Crypt(word(rng) + "2")
    for _ in range(12):
        t = "".join(word(rng) for _ in range(rng.randrange(3)))
        e = c.encrypt(t)
        rep.check(c.decrypt(e) == t, "crypt", "%r encrypted and decrypted gives %r" % (t, c.decrypt(e)))
        rep.check(c.encrypt(t) != e, "crypt-repeat", "encrypting %r twice gives the same ciphertext" % t)
        r = w.call("decrypt2", c2.decrypt, e)
        rep.check(not r.ok, "crypt-foreign", "a ciphertext was read with another password")
        a = flip(rng, e.decode()).encode()
        r = w.call("decrypt-altered", c.decrypt, a)
        same = False
        try:
            same = base64.urlsafe_b64decode(a) == base64.urlsafe_b64decode(e)
        except ValueError:
            pass
        rep.check(not r.ok or (same and r.raw == t), "crypt-altered", "altered ciphertext read as %r" % (r.raw,))


class Ids:
    def __init__(self, rep):
        self.rep = rep
        self.seen = {}

    def add(self, kind, v, where):
        if not v:
            return
        self.rep.count("ids:" + kind)
        self.rep.count("oracle:distinct")
        if v in self.seen:
            self.rep.violation("distinct", "%s %r issued at %s was issued before as %s at %s" % (kind, v, where, *self.seen[v]))
        self.seen[v] = (kind, where)


class Repeating:
    """a random source that keeps coming back to the same few values"""

    def __init__(self, rng, real, n):
        self.rng, self.real, self.n, self.pool = rng, real, n, {}

    def __call__(self, nbytes=None):
        pool = self.pool.setdefault(nbytes, [])
        if len(pool) < self.n:
            pool.append(self.real(nbytes))
        return self.rng.choice(pool)


def setup(rep, name, jwt, **kw):
    iss = "https://%s.example.org" % name
    w = World("oidc", rep, issuer=iss, par=True, token_handler="jwt" if jwt else "default", code_handler="jwt" if jwt else "default", pw=name,
              refresh_handler="jwt" if jwt else "default", **kw)
    for c in ("alpha", "alpha2"):
        w.add_client(c)
    return w


def history(rng, rep):
    ids = Ids(rep)
    jwt = rng.random() < 0.5
    ws = [setup(rep, "one", jwt), setup(rep, "two", jwt)]
    live = {0: [], 1: []}  # (cid, refresh token)
    tr = []
    for step in range(rng.randrange(25, 45)):
        n = rng.randrange(2)
        w = ws[n]
        rep.world = w
        k = rng.choice(["authz", "authz", "authz", "refresh", "refresh", "register", "push", "tick", "authz-same"])
        tr.append((n, k))
        at = "step %d on server %d (%s)" % (step, n, k)
        if k == "tick" and rng.random() < 0.4:
            CLOCK.advance(rng.choice([1, 5]))
        elif k.startswith("authz"):
            cid = rng.choice(["alpha", "alpha2"])
            req = w.areq(cid, response_type=rng.choice(["code", "code id_token token", "code token", "id_token token"]), scope="openid offline_access", prompt="consent")
            if k == "authz-same":
                req["nonce"], req["state"] = "fixed", "fixed"
            r = w.authorize(req, rng.choice(["diana", "ziggy"]))
            if not rep.check(r.ok, "served", "authorization refused: " + r.brief()):
                return
            ids.add("sid", r.sid, at)
            for x in ("code", "access_token", "id_token"):
                ids.add(x, r.get(x), at)
                jti = (peek(r.get(x)) or {}).get("jti") if r.get(x) and x == "access_token" and jwt else None
                ids.add("jti", jti, at)
            if r.get("code"):
                t = w.redeem(cid, r.get("code"))
                if not rep.check(t.ok, "served", "redemption refused: " + t.brief()):
                    return
                for x in ("access_token", "refresh_token", "id_token"):
                    ids.add(x, t.get(x), at)
                if jwt:
                    ids.add("jti", peek(t.get("access_token")).get("jti"), at)
                if t.get("refresh_token"):
                    live[n].append((cid, t.get("refresh_token")))
        elif k == "refresh" and live[n]:
            cid, rt = live[n].pop(rng.randrange(len(live[n])))
            t = w.refresh(cid, rt)
            if not rep.check(t.ok, "served", "refresh refused: " + t.brief()):
                return
            for x in ("access_token", "refresh_token"):
                if t.get(x) != rt:
                    ids.add(x, t.get(x), at)
            if jwt:
                ids.add("jti", peek(t.get("access_token")).get("jti"), at)
            live[n].append((cid, t.get("refresh_token") or rt))
        elif k == "push":
            cid = rng.choice(["alpha", "alpha2"])
            req, hi = w.with_auth(w.areq(cid), cid, "post")
            r = w.do("pushed_authorization", req, hi)
            if not rep.check(r.ok, "served", "push refused: " + r.brief()):
                return
            ids.add("request_uri", r.get("request_uri"), at)
        elif k == "register":
            rep_src = rng.random() < 0.5
            real = secrets.token_urlsafe
            if rep_src:
                src = getattr(w, "_src", None) or Repeating(rng, real, 12)
                w._src = src
                secrets.token_urlsafe = src
                rep.count("repeating-source")
            try:
                r = w.do("registration", {"redirect_uris": ["https://dyn%d.example.com/cb" % step], "application_type": "web"})
            finally:
                secrets.token_urlsafe = real
            if not rep.check(r.ok, "served", "registration refused: " + r.brief()):
                return
            ids.add("client_id", r.get("client_id"), at)
            if not rep_src:
                ids.add("client_secret", r.get("client_secret"), at)
                ids.add("rat", r.get("registration_access_token"), at)
    rep.sig("history", jwt, tuple(tr))


def foreign(rng, rep):
    same_iss = rng.random() < 0.5
    default_params = rng.random() < 0.4
    kw = {}
    if default_params:
        def patch(conf):
            conf.pop("session_params")
        kw["conf_patch"] = patch
    a = setup(rep, "one", False, **kw)
    if same_iss:
        b = World("oidc", None, issuer="https://one.example.org", pw="two", **kw)
        b.add_client("alpha"), b.add_client("alpha2")
    else:
        b = setup(None, "two", False, **kw)
    rep.sig("foreign", same_iss, default_params, rng.random())
    sids = []
    for w in (a, b):
        for _ in range(2):
            cid, uid = rng.choice(["alpha", "alpha2"]), rng.choice(["diana", "ziggy"])
            r = w.authorize(w.areq(cid), uid)
            if not rep.check(r.ok and r.sid, "served", "authorization refused: " + r.brief()):
                return
            sids.append((w, r.sid, uid, cid))
    rep.world = a

    def resolves(w, sid):
        out = []
        for name in ("get_grant", "get_client_session_info", "get_user_session_info", "get_session_info", "__getitem__", "grants", "decrypt_session_id"):
            r = w.call(name, getattr(w.sm, name), sid)
            if r.ok:
                out.append((name, r.raw))
        return out

    for w, sid, uid, cid in sids:
        o = b if w is a else a
        got = resolves(w, sid)
        rep.check(len(got) == 7 and dict(got)["decrypt_session_id"][:2] == [uid, cid], "own", "own session id resolves only for %s" % [x for x, _ in got])
        got = resolves(o, sid)
        rep.check(not got, "foreign", "a session id of another server resolves: %s" % got)
        plain = base64.b64decode(sid)
        for _ in range(6):
            k = rng.randrange(5)
            if k == 0:
                x = flip(rng, sid)
            elif k == 1:
                x = sid[:rng.randrange(len(sid))]
            elif k == 2:
                x = sid + rng.choice(["A", "=", "AAAA", sid])
            elif k == 3:
                s2 = rng.choice(sids)[1]
                i = rng.randrange(1, len(sid))
                x = sid[:i] + s2[i:]
            else:
                x = base64.b64encode(flip(rng, plain.decode()).encode()).decode()
            if x in [s[1] for s in sids]:
                continue
            rep.count("oracle:altered")
            got = resolves(w, x)
            if got:
                # only another spelling of the same bytes may be read, and then as the same session
                try:
                    same = base64.urlsafe_b64decode(base64.b64decode(x)) == base64.urlsafe_b64decode(plain)
                except ValueError:
                    same = False
                if not same or dict(got)["decrypt_session_id"] != w.sm.decrypt_session_id(sid):
                    rep.violation("altered", "altered session id %r resolves: %s" % (x, got))
    for x in ("", " ", "diana;;alpha;;x", base64.b64encode(b"diana;;alpha").decode(), "\u00e5"):
        rep.check(not resolves(a, x), "altered", "%r resolves to a session" % x)


def run_case(rng, rep, i):
    k = i % 7
    if k in (0, 1):
        values(rng, rep)
    elif k in (2, 3):
        foreign(rng, rep)
    else:
        history(rng, rep)
