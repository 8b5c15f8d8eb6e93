"""C03: PKCE."""
import base64
import hashlib
import string

from vlib.story import AC, AT, RT, Story
from vlib.world import World, flip

CASES = {"quick": 2500, "thorough": 80000}
RULE = ("One case: a server with the PKCE add-on (random set of allowed methods, essential or not) and clients with and without their "
        "own pkce_essential; random authorization requests (no challenge, challenge under every method, unsupported or absent method) "
        "and for each code a random sequence of wrong verifiers (challenge itself, other transformations, one character changed, "
        "other sessions' verifiers, empty, missing) and the right one. Non-trivial: a code with a challenge was presented at least "
        "once. Distinct: by the sequence of abstract operations and outcomes.")
MUST_OBSERVE = {"oracle:wrong-verifier-refused": 500, "oracle:right-verifier-served": 300, "oracle:missing-challenge-refused": 50,
                "oracle:method-refused": 50, "oracle:no-challenge-served": 50, "oracle:challenge-accepted": 300}
METHODS = ["plain", "S256", "S384", "S512"]
UNRESERVED = string.ascii_letters + string.digits + "-._~"
TOK = ("access_token", "refresh_token", "id_token")


def b64(b):
    return base64.urlsafe_b64encode(b).decode().rstrip("=")


def transform(m, v):
    if m == "plain":
        return v
    h = {"S256": hashlib.sha256, "S384": hashlib.sha384, "S512": hashlib.sha512}[m]
    return b64(h(v.encode()).digest())


def run_case(rng, rep, i):
    kind = rng.choice(["oidc", "oidc", "oauth2"])
    allowed = rng.sample(METHODS, rng.randrange(1, 5)) if rng.random() < 0.7 else None
    kw = {"essential": rng.choice([True, False])}
    if rng.random() < 0.2:
        kw.pop("essential")
    if allowed is not None:
        # the name the code knows, or the one that is documented
        kw.update(rng.choice([{"code_challenge_methods": list(allowed)}, {"code_challenge_method": " ".join(allowed)}, {"code_challenge_method": list(allowed)}]))
    w = World(kind, rep, add_on={"pkce": {"function": "oidcop.oidc.add_on.pkce.add_pkce_support", "kwargs": kw}},
              code_handler=rng.choice(["default", "jwt"]),
              token_authn=["client_secret_post", "client_secret_basic", "private_key_jwt", "none"])
    allowed = METHODS if allowed is None else allowed
    cl = {"alpha": None, "strict": True, "lax": False}
    for c, e in cl.items():
        w.add_client(c, keys=0, redirect_uris=[("https://shared.example.com/cb", {})], **({} if e is None else {"pkce_essential": e}))
    w.add_client("public", public=True, redirect_uris=[("https://shared.example.com/cb", {})])
    cl["public"] = None
    s = Story(w, rep, rng)
    rep.sig(kind, tuple(sorted(allowed)), kw.get("essential"))
    verifiers = []
    nontrivial = False
    flows = []
    for n in range(rng.randrange(2, 5)):
        cid = rng.choice(list(cl))
        essential = cl[cid] if cl[cid] is not None else kw.get("essential", False)
        v = "".join(rng.choice(UNRESERVED) for _ in range(rng.choice([43, 43, 64, 128])))
        how = rng.choice(["challenge"] * 6 + ["none", "none", "blank", "method-only"])
        m = rng.choice(METHODS + [None, "S256", "S256", "S1", "s256", "PLAIN"])
        a = {}
        if how == "challenge":
            a["code_challenge"] = transform(m if m in METHODS else "plain", v)
            if m is not None:
                a["code_challenge_method"] = m
        elif how == "blank":
            a["code_challenge"] = ""
        elif how == "method-only":
            a["code_challenge_method"] = "S256"
        rts = ["code", "code", "code token"] + (["code id_token"] if kind == "oidc" else [])
        scope = "read" if kind == "oauth2" else rng.choice(["openid", "openid offline_access"])
        nsess = _ngrants(w)
        g, r = s.authorize(rng.choice(["diana", "ziggy"]), cid, scope, rt=rng.choice(rts), **a)
        rep.sig("authz", how, m, essential, r.outcome())
        if how == "challenge":
            eff = m if m is not None else "plain"
            if eff in allowed:
                if rep.check(g is not None, "challenge-accepted", "request with an allowed challenge (%s) refused: %s" % (m, r.brief())):
                    flows.append([g, v, eff, False])
                    verifiers.append(v)
            else:
                rep.check(g is None and not r.ok and _ngrants(w) == nsess, "method-refused",
                          "code_challenge_method %s is not among %s but the request was served" % (m, allowed), answer=r.brief())
        elif essential:
            rep.check(g is None and not r.ok and _ngrants(w) == nsess, "missing-challenge-refused",
                      "PKCE is essential for %s, request without challenge (%s) was served" % (cid, how), answer=r.brief())
        else:
            if rep.check(g is not None, "no-challenge-served", "PKCE not essential, request without challenge refused: %s" % r.brief()):
                flows.append([g, None, None, False])

    def present(g, **kw2):
        k = {"method": "none" if g.client == "public" else rng.choice(["post", "basic", "private_key_jwt"])}
        if kind == "oauth2":
            k["issue_refresh"] = True
        k.update(kw2)
        return s.redeem(g.code, **k)

    for step in range(rng.randrange(3, 12)):
        live = [f for f in flows if not f[3] and f[0].code is not None]
        if not live:
            break
        f = rng.choice(live)
        g, v, m, _ = f
        if v is None:
            r, new = present(g, **({"code_verifier": verifiers[0] if verifiers else "x" * 43} if rng.random() < 0.2 else {}))
            f[3] = True
            rep.sig("redeem-plain", r.outcome())
            rep.check(r.ok and "access_token" in r.data, "no-challenge-redeemed", "code without challenge refused: %s" % r.brief())
            continue
        nontrivial = True
        ch = transform(m, v)
        if rng.random() < 0.3:
            r, new = present(g, code_verifier=v)
            f[3] = True
            rep.sig("right", m, r.outcome())
            if rep.check(r.ok and "access_token" in r.data, "right-verifier-served",
                         "right code_verifier (%s) refused: %s" % (m, r.brief())):
                if RT in new:
                    rr, _n = s.refresh(new[RT], method="none" if g.client == "public" else "post",
                                       **({"issue_refresh": True} if kind == "oauth2" else {}))
                    rep.check(rr.ok, "refresh-needs-no-verifier", "refresh in a PKCE session refused: %s" % rr.brief())
            continue
        k = rng.choice(["missing", "challenge", "other-method", "flip", "other", "empty", "pad", "case", "trunc", "ext",
                        "nonascii", "swapcase-challenge", "blank"])
        bad = {"missing": None, "challenge": ch, "flip": flip(rng, v), "empty": "", "pad": v + "=", "case": v.swapcase(),
               "trunc": v[:-1], "ext": v + rng.choice(UNRESERVED), "nonascii": v[:-1] + "\u00e5",
               "swapcase-challenge": ch.swapcase(), "blank": v + " ",
               "other-method": transform(rng.choice(METHODS[1:]), ch),
               "other": rng.choice(verifiers)}[k]
        if bad == v or (bad and _same(m, bad, ch)):
            continue
        x = {} if bad is None else {"code_verifier": bad}
        if rng.random() < 0.4:  # parameters of the authorization request do not belong here and must change nothing
            if k == "challenge" or rng.random() < 0.5:
                x["code_challenge_method"] = rng.choice(["plain", "S256", "S1", ""])
            if rng.random() < 0.5:
                x["code_challenge"] = bad if bad and rng.random() < 0.5 else ch
        r, new = present(g, **x)
        rep.sig("wrong", k, tuple(sorted(x)), m, r.outcome())
        rep.check(not r.ok and not any(t in r.data for t in TOK), "wrong-verifier-refused",
                  "code with a %s challenge served for wrong verifier (%s) %r" % (m, k, bad), answer=r.brief())
        if r.ok:
            f[3] = True
    if not nontrivial:
        rep.case_sig = []


def _same(m, bad, ch):
    try:
        return transform(m, bad) == ch
    except UnicodeError:
        return False


def _ngrants(w):
    return len(w.sm.db)
