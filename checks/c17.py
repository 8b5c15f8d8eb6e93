"""C17: cookies cannot be forged, altered or used for another purpose."""
import base64
import copy
import json
import os

from cryptojwt.jwk.hmac import SYMKey
from oidcop.cookie_handler import CookieHandler

from vlib.browser import Browser, authentication
from vlib.clock import CLOCK
from vlib.world import World, tmpdir

CASES = {"quick": 700, "thorough": 24000}
RULE = ("One case: a cookie handler in one of six key configurations and a foreign one with other keys; cookies with generated values (separators, "
        "unicode, length prefixes, JSON, empty, long), types and times; unchanged, in lists, under other names, altered at sampled positions "
        "(replaced, deleted, inserted, case), with parts swapped and boundaries moved; every third case also drives the authorization and end-session endpoints with "
        "genuine, altered and mislabelled cookies. Distinct: by configuration and sequence of alterations.")
MUST_OBSERVE = {"oracle:round-trip": 1500, "oracle:altered": 30000, "oracle:restart": 1000, "oracle:foreign": 2000, "oracle:other-name": 1500, "oracle:swapped": 3000,
                "oracle:moved": 3000, "oracle:ep-genuine": 150, "oracle:ep-altered": 500, "oracle:ep-purpose": 150, "oracle:list": 600}
KINDS = ["sign", "sign+enc", "enc", "file", "file-sig", "file-enc"]
ALPHA = list("abcXYZ019 |:;,=%&\"'{}[]\\/+-_.<>\u00e5\u20ac\u4e2d\U0001f36a\t\n")


def b64key(rng, n=32):
    return base64.urlsafe_b64encode(bytes(rng.getrandbits(8) for _ in range(n))).decode().rstrip("=")


def kwargs(rng, kind, path):
    if kind == "sign":
        return {"sign_key": b64key(rng, 36)}
    if kind == "sign+enc":
        return {"sign_key": b64key(rng, 36), "enc_key": b64key(rng, rng.choice([16, 32]))}
    if kind == "enc":
        return {"enc_key": b64key(rng)}
    defs = [d for d in ({"type": "OCT", "use": ["enc"], "kid": "enc"}, {"type": "OCT", "use": ["sig"], "kid": "sig"})
            if kind == "file" or d["kid"] == kind[-3:]]
    return {"keys": {"private_path": path, "key_defs": defs, "read_only": False}}


def value(rng):
    k = rng.random()
    if k < 0.2:
        return json.dumps({"sid": "".join(rng.choice(ALPHA) for _ in range(rng.randrange(20))), "state": "".join(rng.choice(ALPHA) for _ in range(9))})
    if k < 0.35:
        return rng.choice(["", "::", ":", "|", "a::b", "a|b", "1:a", "3:abc", "1795000000", "x::1", "a::", "::b", " lead", "trail ", "\n", "a|b|c|d", "0"])
    if k < 0.4:
        return "".join(rng.choice(ALPHA) for _ in range(3000))
    return "".join(rng.choice(ALPHA) for _ in range(rng.randrange(1, 30)))


def parse(rep, h, name, cookies, what):
    try:
        r = h.parse_cookie(name, cookies)
    except Exception as e:
        rep.violation("raises", "%s: parse_cookie raised %r" % (what, e))
        return []
    return r or []


def alter(rng, v, other):
    """(kind, altered cookie value)"""
    k = rng.choice(["replace", "replace", "replace", "delete", "insert", "case", "truncate", "extend", "swap", "swap", "move", "move", "drop-part",
                    "dup-part", "empty-part", "time"])
    i = rng.randrange(len(v))
    c = rng.choice("ABCabc0189+/=|:. -_")
    parts = v.split("|")
    if k == "replace":
        return k, v[:i] + c + v[i + 1:]
    if k == "delete":
        return k, v[:i] + v[i + 1:]
    if k == "insert":
        return k, v[:i] + c + v[i:]
    if k == "case":
        return k, v[:i] + v[i].swapcase() + v[i + 1:]
    if k == "truncate":
        return k, v[:i]
    if k == "extend":
        return k, v + rng.choice(["=", "|", "|x", "A", v])
    if k == "swap":
        o = other.split("|")
        n = rng.randrange(len(parts))
        parts[n] = o[min(n, len(o) - 1)]
        return k, "|".join(parts)
    if k == "move":
        n = rng.randrange(len(parts) - 1)
        m = rng.choice([1, 2, 3])
        a, b = parts[n], parts[n + 1]
        how = rng.choice(["left", "right", "over"])
        if how == "left":
            parts[n], parts[n + 1] = a + b[:m], b[m:]
        elif how == "right":
            parts[n], parts[n + 1] = a[:-m], a[-m:] + b
        else:  # the time stamp ends where the payload begins: payload gets its first digits
            parts[0], parts[1] = a[m:] if n == 0 else parts[0], parts[1] + parts[0][:m]
        return k, "|".join(parts)
    n = rng.randrange(len(parts))
    if k == "drop-part":
        del parts[n]
    elif k == "dup-part":
        parts.insert(n, parts[n])
    elif k == "empty-part":
        parts[n] = ""
    else:
        parts[0] = str(CLOCK.t + rng.randrange(-10 ** 6, 10 ** 6))
    return k, "|".join(parts)


def handler_part(rng, rep, kind):
    kw = kwargs(rng, kind, os.path.join(tmpdir(), "ck_a_%d.json" % rng.getrandbits(60)))
    h = CookieHandler(**copy.deepcopy(kw))
    f = CookieHandler(**kwargs(rng, kind, os.path.join(tmpdir(), "ck_b_%d.json" % rng.getrandbits(60))))
    made = []
    for _ in range(4):
        v, typ = value(rng), rng.choice(["", "sso", "session", "x1", "1", "A_b-9"])
        ts = rng.choice([None, CLOCK.t, CLOCK.t - 777, str(CLOCK.t + 5)])
        name = rng.choice(["oidc_op", "n2"])
        if not v and not typ:
            typ = "sso"
        try:
            ck = h.make_cookie_content(name, v, typ, **({} if ts is None else {"timestamp": ts}))
        except Exception as e:
            rep.violation("make", "%s: a cookie for %r could not be made: %r" % (kind, v[:40], e))
            continue
        want = {"value": v, "type": typ, "timestamp": str(CLOCK.t if ts is None else ts)}
        made.append((name, ck, want))
        got = parse(rep, h, name, [{"name": name, "value": ck["value"]}], "own cookie")
        rep.check(got == [want], "round-trip", "%s: put in %r, got back %r" % (kind, want, got))
        if "keys" not in kw or rng.random() < 0.5:
            h2 = CookieHandler(**copy.deepcopy(kw))
            got = parse(rep, h2, name, [ck], "own cookie after a restart")
            rep.check(got == [want], "restart", "%s: after a restart %r came back as %r" % (kind, want, got))
        got = parse(rep, f, name, [ck], "foreign cookie")
        rep.check(got == [], "foreign", "%s: the cookie of another server parsed to %r" % (kind, got))
        for other in ("n3", name.upper(), name + " ", ""):
            got = parse(rep, h, other, [ck], "other name")
            rep.check(got == [], "other-name", "a %s cookie was returned as %s" % (name, other))
    if not made:
        return
    # AES-GCM under one key must never see a nonce twice: whoever has two such cookies reads both and forges others
    ivs = [c["value"].split("|")[1] for _, c, w in made if kind not in ("sign", "file-sig")]
    if ivs:
        again = [h.make_cookie_content(n, w["value"], w["type"], timestamp=w["timestamp"])["value"].split("|")[1] for n, _, w in made]
        rep.check(len(set(ivs + again)) == len(ivs + again), "nonce", "%s: %d encrypted cookies share nonces" % (kind, len(ivs + again)))
    got = parse(rep, h, "oidc_op", [c for _, c, _ in made], "list")
    rep.check(got == [w for n, _, w in made if n == "oidc_op"], "list", "cookies in a list: %r" % (got,))
    for name, ck, want in made:
        o = rng.choice(made)[1]["value"]
        for _ in range(14):
            k, bad = alter(rng, ck["value"], o)
            if bad == ck["value"]:
                continue
            rep.sig(k)
            # what it may still be: exactly a cookie that was made
            owned = [w for _, c, w in made if c["value"] == bad]
            got = parse(rep, h, name, [{"name": name, "value": bad}], "altered (%s)" % k)
            mech = {"swap": "swapped", "move": "moved"}.get(k, "altered")
            rep.check(got == [] or got == [want] or got in [[w] for w in owned], mech,
                      "%s: a cookie altered by %s parsed to %r, it was %r" % (kind, k, got, want))
            if got == [want] and not owned:
                rep.count("altered-representation-same-content")
            got = parse(rep, h, name, [{"name": name, "value": bad}, ck], "altered and good")
            rep.check(want in got, "altered", "%s: an altered cookie next to a good one hid the good one" % kind)
    for junk in ("", "|", "||", "|||", "||||", "a", "1|2|3", "1|2|3|4", "\u00e5|\u00e5|\u00e5|\u00e5", "A" * 5000):
        got = parse(rep, h, "oidc_op", [{"name": "oidc_op", "value": junk}], "junk")
        rep.check(got == [], "altered", "%s: junk parsed to %r" % (kind, got))
    for bad in ([{}], [{"name": "oidc_op"}] if False else [{"value": "x"}], [], None):
        rep.check(parse(rep, h, "oidc_op", bad, "malformed list") == [], "altered", "malformed cookie list parsed")


def endpoint_part(rng, rep, kind):
    names = {"session": "oidc_op", "register": "oidc_op_rp", "session_management": "sman"}
    path = os.path.join(tmpdir(), "ck_c_%d.json" % rng.getrandbits(60))
    w = World("oidc", rep, authentication=authentication(["diana"], 1), cookie_kwargs=dict(kwargs(rng, kind, path), name=names))
    w.add_client("c1", post_logout_redirect_uri=[("https://c1.example.com/out", {})])
    b = Browser(w)
    state = rng.choice(["plain", "a::b", "a|b", "::", "|", "\u00e5::\u20ac|x", "st ate", "{\"a\": 1}", "1:x", "a::b::c||d", value(rng)])
    if not state:
        state = "s"
    r = b.submit(b.visit(w.areq("c1", state=state), cookies=[]), "diana")
    cks = [c for c in r.cookies if c["name"] == "oidc_op"]
    if not rep.check(len(cks) == 1, "login-cookie", "login with state %r gave no session cookie: %s" % (state, r.brief())):
        return
    ck = cks[0]
    req = lambda: w.areq("c1", prompt="none")

    def accepted(cookies):
        """(authorization endpoint, end session endpoint)"""
        r1 = w.authorize(req(), cookies=cookies)
        r2 = w.do("session", {"state": "x"}, {"cookie": cookies})
        clean = r1.kind == "redirect" and r1.data.get("error") == "login_required"
        return r1.ok and r1.sid is not None, r2.ok, clean, r1

    a, e, _, r1 = accepted([ck])
    rep.check(a and e, "ep-genuine", "the cookie of a login with state %r: authorization %s, end session %s" % (state, r1.brief(), e))
    # a second login for parts to swap
    r2 = b.submit(b.visit(w.areq("c1", prompt="login"), cookies=[]), "diana")
    ck2 = [c for c in r2.cookies if c["name"] == "oidc_op"][0]
    for _ in range(5):
        k, bad = alter(rng, ck["value"], ck2["value"])
        if w.ctx.cookie_handler.parse_cookie("oidc_op", [dict(ck, value=bad)]):
            continue  # another spelling of the same content, see altered
        a, e, clean, r1 = accepted([dict(ck, value=bad)])
        rep.check(not a and not e and clean, "ep-altered", "an altered (%s) cookie: authorization %s, end session %s" % (k, r1.brief(), e))
    # genuine cookies made for something else
    alien = [w.ctx.new_cookie(name="sman", state="abc"), w.ctx.new_cookie(name="oidc_op_rp", client_id="c1"),
             w.ctx.cookie_handler.make_cookie_content("sman", "text", "x"), w.ctx.cookie_handler.make_cookie_content("sman", "[]", ""),
             w.ctx.cookie_handler.make_cookie_content("sman", "null", "")]
    c = copy.deepcopy(rng.choice(alien))
    c["name"] = "oidc_op"
    a, e, clean, r1 = accepted([c])
    rep.check(not a and not e and clean, "ep-purpose", "a cookie made for another purpose: authorization %s, end session %s" % (r1.brief(), e))
    a, e, clean, r1 = accepted([dict(ck, name=rng.choice(["sman", "oidc_op_rp", "x"]))])
    rep.check(not a and not e and clean, "ep-purpose", "the session cookie under another name: authorization %s, end session %s" % (r1.brief(), e))
    w.close()


def run_case(rng, rep, i):
    kind = KINDS[i % len(KINDS)]
    rep.sig(kind)
    handler_part(rng, rep, kind)
    if i % 3 == 0 or rng.random() < 0.1:
        endpoint_part(rng, rep, rng.choice(KINDS))
