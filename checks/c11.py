"""C11: claims are released only where and when the rules allow."""
import copy
import json

from vlib.clock import CLOCK
from vlib.story import AC, AT, IT, RT, Story
from vlib.world import USERS, World, peek

CASES = {"quick": 700, "thorough": 25000}
RULE = ("One case: random claim settings for every release point (base claims, always-claims, claims by scope, per-client overrides with lists and "
        "restricted values, the server's and per-client scope maps) and several sessions of several users and clients with random scopes, response types and claims "
        "requests, each followed by userinfo, ID Token, introspection, JWT access token and refreshed tokens; what is released is compared with a "
        "model of the rules, for every session in turn. Distinct: by settings, request and what was released.")
MUST_OBSERVE = {"oracle:userinfo-claims": 800, "oracle:id_token-claims": 800, "oracle:introspection-claims": 1200,
                "oracle:access_token-claims": 1000, "restricted-claims": 300, "released-claims": 5000, "by-scope-off-for-client": 50, "narrowed-tokens": 60,
                "always-dict": 50, "user-changed": 100, "as-if-userinfo": 50, "oracle:value-is-the-users": 4000}
ASSUMPTIONS = ["a claim configured with a value restriction is not also requested without one (which of the two wins is not specified)"]

ACR = "urn:oasis:names:tc:SAML:2.0:ac:classes:InternetProtocolPassword"
PLAIN = ["name", "given_name", "family_name", "nickname", "email", "email_verified", "phone_number", "birthdate", "gender", "address",
         "picture", "profile", "zoneinfo"]
SPECIAL = {"tier": ["gold", "silver", "bronze"], "eduperson_scoped_affiliation": None}
SCOPES = {
    "openid": ["sub"],
    "profile": ["name", "given_name", "family_name", "middle_name", "nickname", "profile", "picture", "website", "gender", "birthdate",
                "zoneinfo", "locale", "updated_at", "preferred_username"],
    "email": ["email", "email_verified"], "address": ["address"], "phone": ["phone_number", "phone_number_verified"], "offline_access": [],
}
POINTS = ["userinfo", "id_token", "introspection", "access_token"]
PROTO = {"iss", "sub", "aud", "exp", "iat", "nonce", "auth_time", "acr", "amr", "azp", "at_hash", "c_hash", "sid", "jti", "scope", "client_id",
         "token_class", "ttype", "active", "token_type", "username", "cnf"}


def gen_spec(rng, d, names=PLAIN):
    """claims as list or dict, possibly with a restriction on the special ones"""
    out = {k: None for k in rng.sample(names, rng.randrange(0, 4))}
    if rng.random() < 0.4:
        out["tier"] = rng.choice([None, {"value": "gold"}, {"value": "silver"}, {"values": ["gold", "bronze"]}, {"essential": True},
                                  {"essential": True, "value": "gold"}])
    if rng.random() < 0.3:
        out["eduperson_scoped_affiliation"] = None
    if d == "list":
        return list(out)
    return out


def gen_point(rng, p):
    kw = {}
    if rng.random() < 0.5:
        kw["base_claims"] = gen_spec(rng, "dict")
    if rng.random() < 0.5:
        kw["add_claims_by_scope"] = rng.choice([True, False])
    if rng.random() < 0.5:
        kw["enable_claims_per_client"] = rng.choice([True, True, False])
    if rng.random() < 0.4:
        kw["always_add_claims"] = gen_spec(rng, rng.choice(["list", "dict"]))
    return kw


def gen_client(rng):
    a = {}
    if rng.random() < 0.8:
        x = {}
        if rng.random() < 0.7:
            x["always"] = {p: gen_spec(rng, rng.choice(["list", "dict"])) for p in POINTS if rng.random() < 0.6}
        if rng.random() < 0.7:
            x["by_scope"] = {p: rng.choice([True, False]) for p in POINTS if rng.random() < 0.6}
        a["add_claims"] = x
    if rng.random() < 0.3:
        m = {k: list(v) for k, v in SCOPES.items()}
        m["email"] = rng.choice([["email"], ["email", "nickname"], []])
        m["extra"] = rng.sample(PLAIN, 2)
        if rng.random() < 0.5:
            m.pop("phone")
        a["scopes_to_claims"] = m
    if rng.random() < 0.2:
        a["allowed_scopes"] = ["openid", "offline_access"] + rng.sample(["profile", "email", "address", "phone"], 2)
    elif rng.random() < 0.1:
        a["allowed_scopes"] = []
    return a


def near(rng, u):
    """Something that is not u, but nearly."""
    if isinstance(u, str):
        return rng.choice([u.swapcase(), u + " ", u[:-1], [u], u + u])
    return rng.choice([str(u), json.dumps(u), [u]])


def spread(rng, u):
    """Several values, one of them u."""
    vals = [near(rng, u), "zzz", "", "x y"][:rng.randrange(1, 5)]
    vals.insert(rng.randrange(len(vals) + 1), u)
    return vals


def gen_request(rng):
    req = {}
    for p in ("userinfo", "id_token"):
        if rng.random() < 0.5:
            d = {}
            for k in rng.sample(PLAIN, rng.randrange(1, 4)):
                u = USERS[rng.choice(list(USERS))].get(k)
                d[k] = rng.choice([None, None, {"essential": True}, {"essential": False}])
                if u is not None and rng.random() < 0.35:
                    d[k] = rng.choice([{"value": u}, {"values": [u, "zzz"]}, {"value": "nope"}, {"values": []}, {"essential": True, "value": u},
                                       {"essential": True, "values": ["nope"]}, {"value": near(rng, u)}, {"values": [near(rng, u), "zzz"]},
                                       {"values": spread(rng, u)}])
            if p == "userinfo" and rng.random() < 0.4:
                d["acr"] = rng.choice([None, {"essential": True}, {"value": ACR}, {"values": ["urn:x", ACR]}, {"value": "urn:x"}, {"values": ["urn:x"]}])
            req[p] = d
    return req or None


def restricted(spec):
    return spec is not None and ("value" in spec or "values" in spec)


def matches(val, spec):
    if spec is None or not restricted(spec):
        return True
    if "value" in spec and val == spec["value"]:
        return True
    return "values" in spec and val in spec["values"]


def as_dict(x):
    return {k: None for k in x} if isinstance(x, (list, tuple)) else dict(x or {})


def gen_server(rng, kind):
    """(options of the server, its map of scopes to claims, the scopes it allows)"""
    k = rng.random()
    o, m = {}, SCOPES
    if k < 0.2:
        m = {"openid": ["sub"], "profile": rng.sample(PLAIN, 3), "email": rng.choice([["email"], ["email", "gender"]]), "extra": rng.sample(PLAIN, 2),
             "offline_access": []}
        o["scopes_to_claims"] = copy.deepcopy(m)
    elif k < 0.4 and kind == "oidc":
        more = {"extra": rng.sample(PLAIN, 2)}
        if rng.random() < 0.5:
            more["profile"] = rng.sample(PLAIN, 2)
        m = dict(SCOPES, **more)
        o["add_on"] = {"scopes": {"function": "oidcop.oidc.add_on.custom_scopes.add_custom_scopes", "kwargs": copy.deepcopy(more)}}
        return o, m, list(m)
    if rng.random() < 0.25:
        o["allowed_scopes"] = ["openid", "offline_access"] + rng.sample(["profile", "email", "address", "phone", "extra"], 3)
    return o, m, o.get("allowed_scopes", list(m))


class Model:
    def __init__(self, kind, points, clients, mapping, allowed):
        self.kind, self.points, self.clients, self.mapping, self.allowed = kind, points, clients, mapping, allowed

    def spec(self, point, cid, scopes, claims_req, as_if=None):
        kw = self.points.get(point)
        if kw is None:
            return {}
        c = self.clients[cid]
        out = copy.deepcopy(kw.get("base_claims", {}))
        if kw.get("enable_claims_per_client"):
            bs = c.get("add_claims", {}).get("by_scope", {})
            al = c.get("add_claims", {}).get("always", {})
            by = bs[point] if point in bs else kw.get("add_claims_by_scope", False)
            always = as_dict(al.get(point))
            if as_if:
                by = by or bs.get(as_if, False)
                always.update(as_dict(al.get(as_if)))
        else:
            by = kw.get("add_claims_by_scope", False)
            always = as_dict(kw.get("always_add_claims"))
        out.update(always)
        if by:
            m = c.get("scopes_to_claims", self.mapping)
            allowed = c.get("allowed_scopes", list(m) if "scopes_to_claims" in c else self.allowed)
            for s in scopes:
                if s in allowed:
                    out.update({k: None for k in m.get(s, [])})
        out.update((claims_req or {}).get(point, {}))
        return out

    def released(self, user, *a, **k):
        u = self.users[user]
        return {n: u[n] for n, sp in self.spec(*a, **k).items() if u.get(n) is not None and matches(u[n], sp)}


def run_case(rng, rep, i):
    kind = rng.choice(["oidc", "oidc", "oidc", "oidc", "oauth2"])
    points = {p: gen_point(rng, p) for p in POINTS}
    if kind == "oauth2":
        for p in ("userinfo", "id_token"):
            points.pop(p)
    server, mapping, allowed = gen_server(rng, kind)
    # access tokens only carry claims when they are JWTs
    w = World(kind, rep, userinfo_kwargs=points.get("userinfo", {}), id_token_kwargs=points.get("id_token", {}),
              introspection_kwargs=points["introspection"], access_token_kwargs=points["access_token"], token_handler="jwt",
              usage_rules=None if rng.random() < 0.1 else DEF, **server)
    if kind == "oidc":
        points["userinfo"] = dict({"add_claims_by_scope": True}, **points["userinfo"])
    clients = {c: gen_client(rng) for c in ("alpha", "alpha2", "Alpha")}
    for c, a in clients.items():
        w.add_client(c, **copy.deepcopy(a))
        if any(isinstance(x, dict) for x in a.get("add_claims", {}).get("always", {}).values()):
            rep.count("always-dict")
    m = Model(kind, points, clients, mapping, allowed)
    m.users = w.users
    s = Story(w, rep, rng)
    rep.sig(kind, json.dumps(server, sort_keys=True), json.dumps(points, sort_keys=True), json.dumps(clients, sort_keys=True))

    def cmp(point, user, cid, scopes, creq, got, where, as_if=None):
        sp = m.spec(point, cid, scopes, creq, as_if)
        exp = m.released(user, point, cid, scopes, creq, as_if)
        exp = {k: v for k, v in exp.items() if k not in PROTO}
        got = {k: v for k, v in got.items() if k not in PROTO}
        rep.count("released-claims", len(got))
        rep.count("restricted-claims", len([k for k in sp if restricted(sp[k])]))
        if as_if:
            rep.count("as-if-userinfo")
        kw = points.get(point, {})
        if kw.get("enable_claims_per_client") and clients[cid].get("add_claims", {}).get("by_scope", {}).get(point) is False \
                and kw.get("add_claims_by_scope"):
            rep.count("by-scope-off-for-client")
        rep.sig(where, sorted(got))
        rep.check(set(got) == set(exp), point + "-claims", "%s: released %s, the rules call for %s (client %s, scopes %s)"
                  % (where, sorted(got), sorted(exp), cid, scopes), point=kw, client=clients[cid], request=creq)
        for k in got:
            if k in exp:
                rep.check(got[k] == w.users[user].get(k), "value-is-the-users", "%s of %s is %r" % (k, user, got[k]))

    seen = []

    def acr(g, creq, got, where):
        """how the user authenticated is told truly, and not to who asks for another way"""
        a = w.sm[g.sid].authentication_event["authn_info"]
        if "acr" in got:
            rep.check(got["acr"] == a, "acr", "%s says acr %r, the user was authenticated with %r" % (where, got["acr"], a))
        asked = (creq or {}).get("userinfo", {})
        if "acr" in asked and where.endswith("userinfo"):
            rep.check(("acr" in got) == matches(a, asked["acr"]), "acr-asked", "%s with acr asked as %s: %r" % (where, asked["acr"], got.get("acr")))

    def observe(g, creq, data, scopes, as_if=None, where="", tscopes=None):
        """look at everything a response gave"""
        tsc = tscopes if tscopes is not None else scopes
        if "id_token" in data:
            _h, p = w.verify_jwt(data["id_token"])
            acr(g, creq, p, where + " id_token")
            cmp("id_token", g.user, g.client, tsc, creq, p, where + " id_token", as_if)
        if "access_token" in data:
            at = data["access_token"]
            acr(g, creq, peek(at), where + " access_token")
            cmp("access_token", g.user, g.client, tsc, creq, peek(at), where + " access_token")
            if set(tsc) < set(scopes):
                rep.count("narrowed-tokens")
            seen.append((g, creq, at, tsc))
            look(g, creq, at, tsc, where)

    def look(g, creq, at, scopes, where):
        if kind == "oidc":
            r = w.userinfo(at)
            if rep.check(r.ok, "userinfo-served", "userinfo refused a fresh token: %s" % r.brief()):
                acr(g, creq, r.data, where + " userinfo")
                cmp("userinfo", g.user, g.client, scopes, creq, r.data, where + " userinfo")
                rep.check(r.data.get("sub") == w.sm[g.sid].sub, "userinfo-sub", "sub is %s" % r.data.get("sub"))
        r = w.introspect(at, rng.choice(list(clients)))
        if rep.check(r.data.get("active") is True, "introspected", "fresh token not active: %s" % r.brief()):
            cmp("introspection", g.user, g.client, scopes, creq, r.data, where + " introspection")

    reuse = []
    for n in range(rng.randrange(2, 6)):
        user = rng.choice(list(USERS))
        if seen and rng.random() < 0.3:
            # what is known of a user changes
            u = w.users[rng.choice(list(USERS))]
            k = rng.choice(["name", "nickname", "email", "phone_number", "email_verified", "birthdate"])
            if k in u and rng.random() < 0.4:
                del u[k]
            else:
                u[k] = rng.random() < 0.5 if k == "email_verified" else "new-%s-%d" % (k, n)
            rep.count("user-changed")
        if reuse and rng.random() < 0.3:
            cid, scope, rt, creq = rng.choice(reuse)
        else:
            cid = rng.choice(list(clients))
            if kind == "oidc":
                scope = ["openid"] + rng.sample(["profile", "email", "address", "phone", "offline_access", "extra"], rng.randrange(0, 5))
            else:
                scope = rng.sample(["profile", "email", "address", "phone", "read"], rng.randrange(1, 4))
            creq = gen_request(rng) if kind == "oidc" and rng.random() < 0.6 else None
            rt = rng.choice(["code", "code", "id_token", "id_token token", "code id_token", "code id_token token"] if kind == "oidc"
                            else ["code", "code token"])
        reuse.append((cid, scope, rt, creq))
        g, r = s.authorize(user, cid, " ".join(scope), rt=rt, **({"claims": creq} if creq else {}))
        rep.sig(cid, scope, rt, json.dumps(creq, sort_keys=True), r.outcome())
        if not rep.check(g is not None, "authorized", "authorization refused: %s" % r.brief(), request=creq):
            continue
        observe(g, creq, r.data, scope, as_if="userinfo" if rt == "id_token" else None, where="authz")
        if g.code is not None:
            r, new = s.redeem(g.code, issue_refresh=True)
            if rep.check(AT in new, "redeemed", "code refused %s" % r.brief()):
                observe(g, creq, r.data, scope, where="token")
                if RT in new:
                    sub = None
                    if rng.random() < 0.5:
                        sub = [x for x in scope if x == "openid" or rng.random() < 0.5] or scope
                    r2, new2 = s.refresh(new[RT], scope=" ".join(sub) if sub else None, issue_refresh=False)
                    if rep.check(AT in new2, "refreshed", "refresh refused %s" % r2.brief()):
                        observe(g, creq, r2.data, scope, where="refresh", tscopes=sub)
    # earlier sessions are answered as before
    for g, creq, at, scopes in seen:
        look(g, creq, at, scopes, "again")


from vlib.world import DEF_USAGE as DEF  # noqa: E402
