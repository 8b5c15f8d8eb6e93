"""Reference model of sessions and tokens, advanced next to the real server.

The model is written from the specification (the property statements and the documentation of
usage rules), not from the code: a Story issues every operation through the client boundary or
the session manager API and predicts, for every token ever issued, where it is usable now.
"""
import copy

from .clock import CLOCK
from .world import peek

NEVER = None


class G:
    """a grant (one authorization)"""

    def __init__(self, **k):
        self.user = k["user"]
        self.client = k["client"]
        self.sid = k["sid"]
        self.scope = list(k["scope"])
        self.redirect_uri = k["redirect_uri"]
        self.req = k["req"]
        self.exp = k["exp"]
        self.authn_until = k["authn_until"]
        self.at = CLOCK.t
        self.revoked = False
        self.removed = False
        self.tokens = []
        self.rules = k["rules"]
        self.code = None

    def active(self):
        """True / False / None (boundary second)"""
        if self.revoked or self.removed:
            return False
        return _before(self.exp)

    def label(self):
        return "%s/%s" % (self.user, self.client)


def _before(exp):
    if exp is NEVER:
        return True
    if CLOCK.t == exp:
        return None
    return CLOCK.t < exp


def both(*vals):
    if any(v is False for v in vals):
        return False
    if any(v is None for v in vals):
        return None
    return True


class T:
    """a token"""

    def __init__(self, value, cls, grant, parent, exp, scope=None, max_usage=None, mints=(), via=""):
        self.value = value
        self.cls = cls
        self.grant = grant
        self.parent = parent
        self.exp = exp
        self.nbf = None
        self.iat = CLOCK.t
        self.scope = scope
        self.max_usage = max_usage
        self.mints = list(mints)
        self.revoked = False
        self.used = 0
        self.via = via
        self.children = []
        if parent is not None:
            parent.children.append(self)
        grant.tokens.append(self)

    def active(self):
        if self.revoked:
            return False
        if self.max_usage is not None and self.used >= self.max_usage:
            return False
        if self.nbf and CLOCK.t < self.nbf:
            return False
        return both(None if CLOCK.t == self.nbf else True, _before(self.exp), self.grant.active())

    def descendants(self):
        out = []
        for c in self.children:
            out.append(c)
            out.extend(c.descendants())
        return out

    def depth(self):
        return 0 if self.parent is None else 1 + self.parent.depth()

    def __repr__(self):
        return "<%s of %s depth %d>" % (self.cls, self.grant.label(), self.depth())


AC, AT, RT, IT = "authorization_code", "access_token", "refresh_token", "id_token"

TYPE_DEFAULTS = {
    AC: {"supports_minting": [AT, RT, IT]},
    RT: {"supports_minting": [AT, RT]},
}


def effective_rules(server, client):
    """server rules overridden member by member by the client's"""
    server = copy.deepcopy(server or {})
    if client is None:
        return server
    for cls, rule in client.items():
        if rule == {}:
            server[cls] = {}
        else:
            server.setdefault(cls, {}).update(copy.deepcopy(rule))
    return server


class Story:
    def __init__(self, w, rep, rng):
        self.w = w
        self.rep = rep
        self.rng = rng
        self.grants = []
        self.tokens = []
        self.life = {AC: 600, AT: 3600, RT: 86400, IT: 300}

    # ---------------------------------------------------------------- rules
    def rules_for(self, cid):
        return effective_rules(self.w.opts_usage(), self.w.ctx.cdb[cid].get("token_usage_rules"))

    def _exp(self, grant, cls):
        rule = grant.rules.get(cls) or {}
        n = rule.get("expires_in")
        if not n:
            n = self.life[cls]
        n = int(n)
        return NEVER if n < 0 else CLOCK.t + n

    def add_token(self, value, cls, grant, parent, scope=None, via=""):
        rule = grant.rules.get(cls) or {}
        mints = rule.get("supports_minting")
        if mints is None:
            mints = TYPE_DEFAULTS.get(cls, {}).get("supports_minting", [])
        mx = rule.get("max_usage")
        if cls == AC:
            mx = 1
        t = T(value, cls, grant, parent, self._exp(grant, cls), scope=scope, max_usage=mx,
              mints=mints, via=via)
        self.tokens.append(t)
        return t

    # ---------------------------------------------------------------- operations
    def authorize(self, user, cid, scope, rt="code", cookies=None, again=None, **kw):
        """authorization expected to succeed; returns (G|None, Res). `again`: repeat this request (single sign-on
        with `cookies` then continues the same grant)"""
        w = self.w
        if "offline_access" in scope.split(" "):
            kw.setdefault("prompt", "consent")
        parts = rt.split(" ")
        if len(parts) > 1 and self.rng.random() < 0.4:
            self.rng.shuffle(parts)  # a response type is a set of values
        req = dict(again) if again else w.areq(cid, scope=scope, response_type=" ".join(parts), **kw)
        scope = req["scope"]
        r = w.authorize(req, user=user, cookies=cookies)
        if r.kind != "redirect" or not r.ok:
            return None, r
        gexp = w.opts.get("grant_expires_in", 43200)
        g = None
        for x in self.grants:
            if x.sid == r.sid or self.same_grant(x.sid, r.sid):
                g = x
        if g is None:
            g = G(user=user, client=cid, sid=r.sid, scope=scope.split(" "),
                  redirect_uri=req.get("redirect_uri"), req=req,
                  exp=CLOCK.t + gexp if gexp else NEVER,
                  authn_until=CLOCK.t + 3600, rules=self.rules_for(cid))
            self.grants.append(g)
        elif gexp:
            g.exp = CLOCK.t + gexp
        if "code" in r.data:
            g.code = self.add_token(r.data["code"], AC, g, None, scope=g.scope, via="authz")
        if "access_token" in r.data:
            self.add_token(r.data["access_token"], AT, g, None, scope=g.scope, via="authz")
        if "id_token" in r.data:
            self.add_token(r.data["id_token"], IT, g, None, scope=g.scope, via="authz")
        return g, r

    def same_grant(self, a, b):
        sm = self.w.sm
        return bool(a and b) and sm.decrypt_session_id(a) == sm.decrypt_session_id(b)

    def took(self, r, parent, via):
        """register the tokens of a successful token response"""
        out = {}
        for cls in (AT, RT, IT):
            if cls in r.data:
                sc = r.data.get("scope")
                sc = sc.split(" ") if isinstance(sc, str) else sc
                out[cls] = self.add_token(r.data[cls], cls, parent.grant, parent, scope=sc, via=via)
        parent.used += 1
        return out

    def redeem(self, code, by=None, **kw):
        g = code.grant
        if "redirect_uri" not in kw:
            kw["redirect_uri"] = g.redirect_uri
        r = self.w.redeem(by or g.client, code.value, **kw)
        new = {}
        if r.ok:
            new = self.took(r, code, "code")
        return r, new

    def refresh(self, rt, by=None, scope=None, **kw):
        r = self.w.refresh(by or rt.grant.client, rt.value, scope=scope, **kw)
        new = {}
        if r.ok:
            new = self.took(r, rt, "refresh")
        return r, new

    # ---------------------------------------------------------------- revocation
    def revoke_token(self, t, recursive):
        r = self.w.call("revoke_token(%s,recursive=%s)" % (t, recursive), self.w.sm.revoke_token,
                        t.grant.sid, t.value, recursive)
        t.revoked = True
        if recursive:
            for d in t.descendants():
                d.revoked = True
        return r

    def grant_revoke_token(self, t, recursive):
        """the Grant level operation"""
        gr = self.w.sm[t.grant.sid]
        r = self.w.call("grant.revoke_token(%s,recursive=%s)" % (t, recursive),
                        gr.revoke_token, value=t.value, recursive=recursive)
        t.revoked = True
        if recursive:
            for d in t.descendants():
                d.revoked = True
        return r

    def revoke_grant(self, g):
        r = self.w.call("revoke_grant(%s)" % g.label(), self.w.sm.revoke_grant, g.sid)
        g.revoked = True
        return r

    def revoke_client_session(self, g):
        r = self.w.call("revoke_client_session(%s)" % g.label(), self.w.sm.revoke_client_session, g.sid)
        for x in self.grants:
            if x.user == g.user and x.client == g.client:
                x.revoked = True
        return r

    def remove_session(self, g):
        r = self.w.call("remove_session(%s)" % g.label(), self.w.sm.remove_session, g.sid)
        g.removed = True
        return r

    # ---------------------------------------------------------------- probes
    def userinfo_ok(self, value, how="header"):
        """does userinfo serve this token string; returns (bool, Res)"""
        r = self.w.userinfo(value, how)
        return bool(r.ok and r.data.get("sub")), r

    def introspect_active(self, value, cid):
        r = self.w.introspect(value, cid)
        return r.data.get("active") is True, r

    def expected_userinfo(self, t):
        if t.cls != AT:
            return False
        g = t.grant
        # authentication still valid: documented limit is "valid_until >= now"
        return both(t.active(), _before(g.authn_until))

    def expected_introspection(self, t):
        if t.cls not in (AT, RT):
            return False
        return t.active()

    def probe(self, t, prefix="", uses=False):
        """compare what every endpoint says about this token with the model"""
        rep = self.rep
        w = self.w
        if w.kind == "oidc" and "userinfo" not in w.opts.get("without", []):
            exp = self.expected_userinfo(t)
            how = self.rng.choice(["header", "body"])
            got, r = self.userinfo_ok(t.value, how)
            if exp is not None:
                rep.check(got == exp, prefix + "userinfo-%s-%s" % (t.cls, "active" if exp else "inactive"),
                          "userinfo %s %r where the model says %s" % ("served" if got else "refused", t, exp),
                          token_class=t.cls, revoked=t.revoked, age=CLOCK.t - t.iat,
                          grant_active=t.grant.active(), answer=r.brief())
        exp = self.expected_introspection(t)
        c = self.rng.choice([c for c in w.ctx.cdb if c in w.secrets])
        got, r = self.introspect_active(t.value, c)
        if exp is not None:
            rep.check(got == exp, prefix + "introspection-%s-%s" % (t.cls, "active" if exp else "inactive"),
                      "introspection says active=%s for %r, the model says %s" % (got, t, exp),
                      token_class=t.cls, revoked=t.revoked, age=CLOCK.t - t.iat,
                      grant_active=t.grant.active(), answer=r.brief())
        if exp is False:
            leaked = sorted(set(r.data) - {"active", "error", "error_description"})
            rep.check(not leaked, prefix + "introspection-leak",
                      "introspection of inactive %r also says %s" % (t, leaked), answer=r.brief())
            rep.check(r.kind == "ok" and r.data.get("active") is False, prefix + "introspection-answers-inactive",
                      "introspection of inactive %r does not answer active:false but %s" % (t, r.brief()))
        return got

    def refresh_expected(self, t):
        if t.cls != RT:
            return False
        return t.active()

    def interesting_times(self):
        """moments just before and after something expires"""
        out = []
        for t in self.tokens:
            if t.exp is not NEVER:
                out += [t.exp - 1, t.exp + 1]
        for g in self.grants:
            if g.exp is not NEVER:
                out += [g.exp - 1, g.exp + 1]
            out += [g.authn_until - 1, g.authn_until + 1]
        return sorted({x for x in out if x > CLOCK.t})

    def tick(self):
        """advance to just before or after some expiry, or a little"""
        rng = self.rng
        ts = self.interesting_times()
        if ts and rng.random() < 0.75:
            # prefer the near ones
            CLOCK.set(ts[min(int(rng.expovariate(0.5)), len(ts) - 1)])
        else:
            CLOCK.advance(rng.choice([1, 5, 30, 100, 299]))
        self.w.note("clock ->")
