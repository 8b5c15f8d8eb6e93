"""Scripts of client operations that can be run again on another server.

A script is a list of abstract operations with indices instead of values; running one gives a
transcript of normalised answers: everything random (tokens, identifiers, secrets) is replaced by
what it is, times are made relative to a base.  Two runs of one script on servers that are the same
give the same transcript.
"""
import copy
import json
import os
import pickle
import struct
import traceback
from urllib.parse import parse_qs, parse_qsl, urlsplit

from oidcmsg import oauth2, oidc
from oidcop.authn_event import create_authn_event
from oidcop.session.grant import get_usage_rules

from .clock import CLOCK
from .world import peek

# values that are random by design
RANDOM = {"jti", "sid", "client_secret", "registration_access_token", "registration_client_uri", "request_uri", "at_hash", "c_hash", "s_hash",
          "session_state", "code", "refresh_token", "kid", "error_description", "client_secret_expires_at", "client_id_issued_at", "__verifier"}


def isolated(fn):
    """run fn in a forked child; its (picklable) result, or the child's traceback raised here"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            from . import world
            world.reset_tmp()
            try:
                out = pickle.dumps((True, fn()))
            except Exception:
                out = pickle.dumps((False, traceback.format_exc()))
            if world._TMP:
                import shutil
                shutil.rmtree(world._TMP, ignore_errors=True)
            with os.fdopen(w, "wb") as f:
                f.write(struct.pack("!Q", len(out)) + out)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        buf = f.read()
    os.waitpid(pid, 0)
    if len(buf) < 8 or len(buf) != 8 + struct.unpack("!Q", buf[:8])[0]:
        raise OSError("a child process died without an answer")
    ok, val = pickle.loads(buf[8:])
    if not ok:
        raise RuntimeError("in child: " + val)
    return val


class Norm:
    def __init__(self, base):
        self.base = base
        self.names = {}  # random value -> name

    def __call__(self, v, key=None):
        if isinstance(v, dict):
            return {str(k): self(x, k) for k, x in v.items()}
        if isinstance(v, (list, tuple)):
            l = [self(x, key) for x in v]
            return sorted(l, key=lambda x: json.dumps(x, sort_keys=True, default=str))
        if isinstance(v, bool) or v is None:
            return v
        if isinstance(v, (int, float)) and 10 ** 9 < v < 3 * 10 ** 9:
            return "t%+d" % (v - self.base)
        if isinstance(v, str):
            if key in RANDOM:
                return "<%s>" % key
            if v in self.names:
                return self.names[v]
            if key in ("access_token", "id_token", "id_token_hint", "jwt") or v.count(".") == 2 and len(v) > 80:
                p = None
                try:
                    p = peek(v)
                except Exception:
                    pass
                if p is not None:
                    return {"jwt": self(p)}
                return "<opaque>"
            if v.count(".") == 4 and len(v) > 200:
                return "<jwe>"
            for n, name in self.names.items():
                v = v.replace(n, name)
            return v
        return v


def where(u):
    sp = urlsplit(u)
    return "%s://%s%s" % (sp.scheme, sp.netloc, sp.path)


class Driver:
    """runs abstract operations on one World"""

    def __init__(self, w, base=None):
        self.w = w
        self.norm = Norm(CLOCK.t if base is None else base)
        self.codes, self.ats, self.rts, self.idts, self.cookies, self.sids = [], [], [], [], [], []
        self.regs, self.pars, self.dyn = [], [], []
        self.out = []
        self.n = 0

    def pick(self, lst, k):
        return lst[k % len(lst)] if lst else None

    def answer(self, r):
        d = {"outcome": r.outcome(), "mode": r.mode, "data": self.norm(r.data)}
        if r.kind == "redirect" and r.url:
            d["url"] = self.norm(where(r.url))
        if r.cookies:
            d["cookies"] = sorted((c["name"], bool(c.get("value"))) for c in r.cookies)
        if r.kind == "ok" and not r.data and isinstance(r.raw, str):
            d["raw"] = self.norm(r.raw, "jwt")
        return d

    # ---------------------------------------------------------------- operations
    def run(self, script):
        for op in script:
            self.step(op)
        return self.out

    def step(self, op):
        self.n += 1
        if "at" in op:
            CLOCK.set(op["at"])
        r = getattr(self, "op_" + op["op"])(op)
        a = r if isinstance(r, dict) else ({"nothing": True} if r is None else self.answer(r))
        self.out.append((op["op"], a))
        return r

    def keep(self, cid, r):
        d = r.data
        if "code" in d:
            self.codes.append((d["code"], cid))
        if "access_token" in d:
            self.ats.append((d["access_token"], cid))
        if "refresh_token" in d:
            self.rts.append((d["refresh_token"], cid))
        if "id_token" in d:
            self.idts.append((d["id_token"], cid))

    def client(self, op):
        return op["client"]

    def areq(self, cid, **kw):
        req = self.w.areq(cid, **kw)
        req["state"] = "state-%d" % self.n
        if "nonce" in req:
            req["nonce"] = "nonce-%d" % self.n
        return req

    def method(self, op, cid):
        """dynamically registered clients have no keys here"""
        m = op.get("method", "post")
        if m == "private_key_jwt" and cid not in self.w.client_keys:
            return "post"
        return m

    def op_authz(self, op):
        w = self.w
        req = self.areq(op["client"], **op.get("kw", {}))
        ck = None
        if op.get("cookie") is not None and self.cookies:
            ck = self.pick(self.cookies, op["cookie"])
        r = w.authorize(req, user=op.get("user", "diana"), cookies=ck)
        if r.kind == "redirect" and r.ok:
            self.keep(op["client"], r)
            if r.sid:
                self.sids.append(r.sid)
            c = [c for c in r.cookies if c["name"] == "oidc_op"]
            if c:
                self.cookies.append(c)
            self.last = req
        return r

    def op_redeem(self, op):
        c = self.pick(self.codes, op["k"])
        if c is None:
            return None
        by = op.get("by") or c[1]
        r = self.w.redeem(by, c[0], method=self.method(op, by), **op.get("kw", {}))
        if r.ok:
            self.keep(by, r)
        return r

    def op_refresh(self, op):
        c = self.pick(self.rts, op["k"])
        if c is None:
            return None
        by = op.get("by") or c[1]
        r = self.w.refresh(by, c[0], scope=op.get("scope"), method=self.method(op, by), **op.get("kw", {}))
        if r.ok:
            self.keep(by, r)
        return r

    def op_userinfo(self, op):
        c = self.pick(self.ats, op["k"])
        return None if c is None or self.w.ep("userinfo") is None else self.w.userinfo(c[0], op.get("how", "header"))

    def op_introspect(self, op):
        c = self.pick(getattr(self, op.get("what", "ats")), op["k"])
        return None if c is None else self.w.introspect(c[0], op["client"])

    def op_logout(self, op):
        w = self.w
        if w.ep("session") is None:
            return None
        req = {"state": "bye"}
        c = self.pick(self.idts, op["k"])
        if c is not None and op.get("hint", True):
            req["id_token_hint"] = c[0]
        hi = {}
        ck = self.pick(self.cookies, op.get("cookie", 0))
        if ck and op.get("with_cookie", True):
            hi["cookie"] = ck
        if op.get("uri"):
            req["post_logout_redirect_uri"] = op["uri"]
        r = w.do("session", req, hi, label="end_session")
        if r.kind == "redirect" and "sjwt" in r.data and op.get("confirm"):
            try:
                info = w.ep("session").unpack_signed_jwt(r.data["sjwt"])
                frames = list(w.ep("session").do_verified_logout(alla=op["confirm"] == "all", **info))
                return {"outcome": "logged-out", "frames": len(frames)}
            except Exception as e:
                return {"outcome": "logout-exc:" + type(e).__name__}
        if r.kind == "redirect":
            r.data = {k: v for k, v in r.data.items() if k != "sjwt"}
        return r

    def op_register(self, op):
        w = self.w
        if w.ep("registration") is None:
            return None
        r = w.do("registration", json.dumps(op["meta"]))
        if r.ok and "client_id" in r.data:
            cid = r.data["client_id"]
            self.norm.names[cid] = "<dyn%d>" % len(self.dyn)
            self.dyn.append(cid)
            w.secrets[cid] = r.data.get("client_secret", "")
            self.regs.append((cid, r.data.get("registration_access_token")))
        return r

    def op_read_registration(self, op):
        c = self.pick(self.regs, op["k"])
        if c is None:
            return None
        return self.w.do("registration_read", "client_id=" + c[0], {"headers": {"authorization": "Bearer %s" % c[1]}}, label="registration_read")

    def op_dyn_login(self, op):
        c = self.pick(self.dyn, op["k"])
        if c is None:
            return None
        return self.op_authz(dict(op, client=c))

    def op_push(self, op):
        w = self.w
        if w.ep("pushed_authorization") is None:
            return None
        req, hi = w.with_auth(self.areq(op["client"], **op.get("kw", {})), op["client"])
        r = w.do("pushed_authorization", req, hi)
        if r.ok and "request_uri" in r.data:
            self.pars.append((r.data["request_uri"], op["client"]))
        return r

    def op_pushed(self, op):
        c = self.pick(self.pars, op["k"])
        if c is None:
            return None
        w = self.w
        r = w.authorize(self.areq(c[1], request_uri=c[0]), user=op.get("user", "diana"))
        if r.kind == "redirect" and r.ok:
            self.keep(c[1], r)
        r.data.pop("state", None)
        return r

    def op_discovery(self, op):
        return self.w.do("provider_config", {})

    def op_webfinger(self, op):
        if self.w.ep("discovery") is None:
            return None
        return self.w.do("discovery", {"resource": op["resource"], "rel": "http://openid.net/specs/connect/1.0/issuer"})

    def op_raw(self, op):
        """any request at all"""
        return self.w.do(op["ep"], op["request"], op.get("http_info"))

    def op_api(self, op):
        """documented operations of the session manager"""
        w, f = self.w, op["fn"]
        sid = self.pick(self.sids, op["k"])
        if sid is None:
            return None
        if f == "revoke_token":
            t = self.pick(self.ats + self.rts, op["k2"])
            if t is None:
                return None
            r = w.call(f, w.sm.revoke_token, sid, t[0], op.get("recursive", False))
        else:
            r = w.call(f, getattr(w.sm, f), sid)
        return {"outcome": r.outcome()}

    def op_create(self, op):
        """a session made by the session manager, with its own rules"""
        w = self.w
        mod = oidc if w.kind == "oidc" else oauth2
        areq = mod.AuthorizationRequest(**{k: v for k, v in self.areq(op["client"]).items()})
        r = w.call("create_session", w.sm.create_session, authn_event=create_authn_event(op["user"]), auth_req=areq, user_id=op["user"], client_id=op["client"],
                   token_usage_rules=copy.deepcopy(op["rules"]))
        if not r.ok:
            return {"outcome": r.outcome()}
        self.sids.append(r.raw)
        gr = w.sm[r.raw]
        rules = {t: self.norm(get_usage_rules(t, w.ctx, gr, op["client"])) for t in ("authorization_code", "access_token", "refresh_token")}
        return {"outcome": "created", "rules": rules}

    def op_clients(self, op):
        return {"clients": sorted(self.norm(c) for c in self.w.ctx.cdb)}
