"""Builds real oidcop servers and drives them at the client boundary.

Everything a check learns about the system comes from what a relying party, a browser or a
resource server would see (redirect URLs, form posts, JSON bodies, cookies, signed tokens),
or from the documented session manager API an integrator uses.
"""
import atexit
import base64
import copy
import html.parser
import json
import os
import random
import shutil
import sys
import tempfile
import warnings
from urllib.parse import parse_qs, parse_qsl, urlencode, urlsplit

warnings.simplefilter("ignore")
sys.dont_write_bytecode = True

import logging

logging.disable(logging.CRITICAL)

import oidcop  # noqa
from cryptojwt.key_jar import KeyJar, build_keyjar  # noqa
from cryptojwt.jwt import JWT  # noqa
from cryptojwt.key_bundle import KeyBundle  # noqa
from cryptojwt.jws.jws import factory as jws_factory  # noqa
from oidcmsg.message import Message  # noqa
from oidcmsg.oauth2 import ResponseMessage  # noqa
from oidcop.configure import ASConfiguration, OPConfiguration  # noqa
from oidcop.server import Server  # noqa
from oidcop.user_info import UserInfo  # noqa
from oidcop.authn_event import create_authn_event  # noqa
import oidcop.oidc.session  # noqa
import oidcop.oidc.registration  # noqa
import oidcop.oidc.read_registration  # noqa
import oidcop.oidc.discovery  # noqa
import oidcop.oidc.provider_config  # noqa
import oidcop.oidc.userinfo  # noqa
import oidcop.oidc.add_on.pkce  # noqa
import oidcop.oidc.add_on.custom_scopes  # noqa
import oidcop.oauth2.add_on.dpop  # noqa
import oidcop.oauth2.add_on.extra_args  # noqa
import oidcop.oauth2.introspection  # noqa
import oidcop.oauth2.pushed_authorization  # noqa
import oidcop.token.id_token  # noqa
import oidcop.token.jwt_token  # noqa

from . import clock
from .clock import CLOCK
from .report import short

clock.install()

ISSUER = "https://op.example.org"
PWD_ACR = "urn:oasis:names:tc:SAML:2.0:ac:classes:InternetProtocolPassword"

_TMP = None


def tmpdir():
    global _TMP
    if _TMP is None:
        _TMP = tempfile.mkdtemp(prefix="oidcv.")
        pid = os.getpid()

        def _rm(path=_TMP, pid=pid):
            if os.getpid() == pid:
                shutil.rmtree(path, ignore_errors=True)

        atexit.register(_rm)
    return _TMP


def reset_tmp():
    """after fork: use another directory"""
    global _TMP
    _TMP = None


KEYDEFS = [
    {"type": "RSA", "key": "", "use": ["sig"]},
    {"type": "RSA", "key": "", "use": ["enc"]},
    {"type": "EC", "crv": "P-256", "use": ["sig"]},
    {"type": "EC", "crv": "P-384", "use": ["sig"]},
]
CLIENT_KEYDEFS = [
    {"type": "RSA", "use": ["sig"]},
    {"type": "RSA", "use": ["enc"]},
    {"type": "EC", "crv": "P-256", "use": ["sig"]},
    {"type": "EC", "crv": "P-256", "use": ["enc"]},
]
_POOL = {}


def key_objs(kind, i):
    """list of private key objects number i of kind 'server' or 'client' (built once per process)"""
    k = (kind, i)
    if k not in _POOL:
        kj = build_keyjar(KEYDEFS if kind == "server" else CLIENT_KEYDEFS)
        _POOL[k] = list(kj.get_issuer_keys(""))
    return list(_POOL[k])


def key_bundle(kind, i):
    kb = KeyBundle()
    kb.extend(key_objs(kind, i))
    return kb


def public_jwks(kind, i):
    return {"keys": [k.serialize() for k in key_objs(kind, i)]}


def private_jwks(kind, i):
    return {"keys": [k.serialize(True) for k in key_objs(kind, i)]}


def _pub(kind, i):
    return public_jwks(kind, i)


USERS = {
    "diana": {
        "name": "Diana Krall", "given_name": "Diana", "family_name": "Krall",
        "nickname": "Dina", "email": "diana@example.org", "email_verified": False,
        "phone_number": "+46 90 7865000", "birthdate": "1964-11-16",
        "address": {"street_address": "Umea Universitet", "locality": "Umea",
                    "postal_code": "SE-90187", "country": "Sweden"},
        "eduperson_scoped_affiliation": ["staff@example.org"], "tier": "gold",
    },
    "ziggy": {
        "name": "Ziggy Stardust", "given_name": "Ziggy", "family_name": "Stardust",
        "email": "ziggy@mars.example", "email_verified": True, "nickname": "Z",
        "phone_number": "+1 555 123", "gender": "x", "tier": "silver",
    },
    "lemmy": {
        "name": "Ian Kilmister", "email": "lemmy@motor.example", "email_verified": True,
        "nickname": "Lemmy", "profile": "https://lemmy.example/", "zoneinfo": "Europe/London",
        "tier": "gold",
    },
}

METHODS_ALL = ["client_secret_basic", "client_secret_post", "client_secret_jwt", "private_key_jwt"]

DEF_USAGE = {
    "authorization_code": {
        "expires_in": 300,
        "supports_minting": ["access_token", "refresh_token", "id_token"],
        "max_usage": 1,
    },
    "access_token": {"expires_in": 600},
    "refresh_token": {
        "expires_in": 86400,
        "supports_minting": ["access_token", "refresh_token", "id_token"],
    },
}

ALL_RT = ["code", "token", "id_token", "code token", "code id_token", "id_token token",
          "code id_token token", "none"]
ALL_RT_OAUTH2 = ["code", "token", "code token", "none"]


def mkconf(kind="oidc", path=None, **o):
    """configuration dictionary"""
    oidc = kind == "oidc"
    issuer = o.get("issuer", ISSUER)
    th = {"jwks_file": os.path.join(path, "token_jwks.json")}

    def handler(spec, default_life):
        if spec in ("default", None):
            return {"kwargs": {"lifetime": default_life}}
        if spec == "jwt":
            return {"class": "oidcop.token.jwt_token.JWTToken", "kwargs": {"lifetime": default_life}}
        return copy.deepcopy(spec)

    th["code"] = handler(o.get("code_handler", "default"), 600)
    th["token"] = handler(o.get("token_handler", "jwt"), 3600)
    if o.get("refresh_handler", "default") is not None:
        th["refresh"] = handler(o.get("refresh_handler", "default"), 86400)
    if o.get("shared_password"):
        # all opaque tokens are encrypted with the same key
        th["jwks_def"] = {"private_path": os.path.join(path, "token_jwks.json"), "read_only": False,
                          "key_defs": [{"type": "oct", "bytes": 24, "use": ["enc"], "kid": "unrelated"}]}
        for k in ("code", "token", "refresh"):
            if k in th and "class" not in th[k]:
                th[k]["kwargs"]["password"] = o["shared_password"]
    if oidc:
        th["id_token"] = {
            "class": "oidcop.token.id_token.IDToken",
            "kwargs": copy.deepcopy(o.get("id_token_kwargs", {})),
        }
    if o.get("access_token_kwargs"):
        th["token"].setdefault("kwargs", {}).update(copy.deepcopy(o["access_token_kwargs"]))

    cap = {
        "subject_types_supported": ["public", "pairwise", "ephemeral"],
        "grant_types_supported": ["authorization_code", "implicit", "refresh_token"],
    }
    cap.update(copy.deepcopy(o.get("capabilities", {})))
    mod = "oidcop.oidc" if oidc else "oidcop.oauth2"
    token_kwargs = {"client_authn_method": list(o.get("token_authn", METHODS_ALL))}
    token_kwargs.update(copy.deepcopy(o.get("token_kwargs", {})))
    endpoint = {
        "provider_config": {
            "path": ".well-known/openid-configuration",
            "class": "oidcop.oidc.provider_config.ProviderConfiguration", "kwargs": {},
        },
        "authorization": {
            "path": "authorization", "class": mod + ".authorization.Authorization",
            "kwargs": copy.deepcopy(o.get("authz_kwargs", {})),
        },
        "token": {"path": "token", "class": mod + ".token.Token", "kwargs": token_kwargs},
        "introspection": {
            "path": "introspection", "class": "oidcop.oauth2.introspection.Introspection",
            "kwargs": dict({"client_authn_method": ["client_secret_post", "client_secret_basic"]},
                           **copy.deepcopy(o.get("introspection_kwargs", {}))),
        },
    }
    if oidc:
        endpoint["userinfo"] = {
            "path": "userinfo", "class": "oidcop.oidc.userinfo.UserInfo",
            "kwargs": dict({"client_authn_method": ["bearer_header", "bearer_body"]},
                           **copy.deepcopy(o.get("userinfo_kwargs", {}))),
        }
        endpoint["registration"] = {
            "path": "registration", "class": "oidcop.oidc.registration.Registration",
            "kwargs": dict({"client_authn_method": None}, **copy.deepcopy(o.get("registration_kwargs", {}))),
        }
        endpoint["registration_api"] = {
            "path": "registration_api",
            "class": "oidcop.oidc.read_registration.RegistrationRead",
            "kwargs": {"client_authn_method": ["bearer_header"]},
        }
        endpoint["session"] = {
            "path": "end_session", "class": "oidcop.oidc.session.Session",
            "kwargs": dict({
                "post_logout_uri_path": "post_logout", "signing_alg": "ES256",
                "logout_verify_url": issuer + "/verify_logout", "client_authn_method": None,
            }, **copy.deepcopy(o.get("session_kwargs", {}))),
        }
        endpoint["discovery"] = {
            "path": ".well-known/webfinger", "class": "oidcop.oidc.discovery.Discovery", "kwargs": {},
        }
    if o.get("par"):
        endpoint["pushed_authorization"] = {
            "path": "pushed_authorization",
            "class": "oidcop.oauth2.pushed_authorization.PushedAuthorization",
            "kwargs": dict({"client_authn_method": ["client_secret_post", "client_secret_basic",
                                                     "client_secret_jwt", "private_key_jwt"]},
                           **copy.deepcopy(o.get("par_kwargs", {}))),
        }
    for name in o.get("without", []):
        endpoint.pop(name, None)
    for name, spec in (o.get("endpoint") or {}).items():
        endpoint[name] = copy.deepcopy(spec)

    conf = {
        "issuer": issuer,
        "httpc_params": {"verify": False, "timeout": 1},
        "capabilities": cap,
        "keys": {"uri_path": "jwks.json", "key_defs": KEYDEFS},
        "token_handler_args": th,
        "endpoint": endpoint,
        "authentication": o.get("authentication") or {
            "anon": {
                "acr": PWD_ACR, "class": "oidcop.user_authn.user.NoAuthn", "kwargs": {"user": "diana"},
            }
        },
        "userinfo": {"class": "oidcop.user_info.UserInfo", "kwargs": {"db": {}}},
        "template_dir": os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vlib", "templates"),
        "cookie_handler": {
            "class": "oidcop.cookie_handler.CookieHandler",
            "kwargs": copy.deepcopy(o.get("cookie_kwargs")) or {
                "keys": {
                    "private_path": os.path.join(path, "cookie_jwks.json"),
                    "key_defs": [{"type": "OCT", "use": ["enc"], "kid": "enc"},
                                 {"type": "OCT", "use": ["sig"], "kid": "sig"}],
                    "read_only": False,
                },
                "name": {"session": "oidc_op", "register": "oidc_op_rp",
                         "session_management": "sman"},
            },
        },
    }
    gc = {}
    if o.get("usage_rules", DEF_USAGE) is not None:
        gc["usage_rules"] = copy.deepcopy(o.get("usage_rules", DEF_USAGE))
    if o.get("grant_expires_in", 43200):
        gc["expires_in"] = o.get("grant_expires_in", 43200)
    conf["authz"] = {"class": "oidcop.authz.AuthzHandling", "kwargs": {"grant_config": gc}}
    if not oidc:
        conf["claims_interface"] = {"class": "oidcop.session.claims.OAuth2ClaimsInterface", "kwargs": {}}
    else:
        conf["claims_interface"] = {"class": "oidcop.session.claims.ClaimsInterface", "kwargs": {}}
    if o.get("add_on"):
        conf["add_on"] = copy.deepcopy(o["add_on"])
    conf["session_params"] = copy.deepcopy(o.get("session_params")) or {
        "password": "ses_pwd_%s" % o.get("pw", "0"),
        "salt": "salty_%s" % o.get("pw", "0"),
        "sub_func": {
            "public": {"class": "oidcop.session.manager.PublicID", "kwargs": {"salt": "pubsalt"}},
            "pairwise": {"class": "oidcop.session.manager.PairWiseID", "kwargs": {"salt": "pwsalt"}},
        },
    }
    for k in ("scopes_to_claims", "allowed_scopes", "login_hint_lookup", "login_hint2acrs", "id_token"):
        if o.get(k):
            conf[k] = copy.deepcopy(o[k])
    if o.get("conf_patch"):
        o["conf_patch"](conf)
    return conf


class FormParser(html.parser.HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.action = None
        self.inputs = []
        self.tags = []

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        self.tags.append((tag, a))
        if tag == "form":
            self.action = a.get("action")
        elif tag == "input":
            self.inputs.append((a.get("name"), a.get("value")))


class Res:
    """what the peer sees"""

    def __init__(self, kind, **kw):
        self.kind = kind  # ok / error / redirect / login / exception
        self.data = kw.pop("data", {})
        self.url = kw.pop("url", None)
        self.mode = kw.pop("mode", None)
        self.cookies = kw.pop("cookies", None) or []
        self.headers = kw.pop("headers", [])
        self.exc = kw.pop("exc", None)
        self.raw = kw.pop("raw", None)
        self.sid = kw.pop("sid", None)
        self.extra = kw

    @property
    def ok(self):
        if self.kind == "redirect":
            return "error" not in self.data
        return self.kind == "ok"

    @property
    def error(self):
        if self.exc is not None:
            return "exc:" + type(self.exc).__name__
        return self.data.get("error")

    def get(self, k, d=None):
        return self.data.get(k, d)

    def brief(self):
        if self.exc is not None:
            return "EXC %s(%s)" % (type(self.exc).__name__, short(str(self.exc), 60))
        if self.kind == "redirect":
            return "redirect %s %s" % (self.mode, short(str({k: short(str(v), 24) for k, v in self.data.items()}), 200))
        return "%s %s" % (self.kind, short(str({k: short(str(v), 24) for k, v in self.data.items()}), 200))

    def outcome(self):
        """abstract outcome without random values"""
        if self.exc is not None:
            return "exc:" + type(self.exc).__name__
        if self.data.get("error"):
            return "err:" + str(self.data["error"])
        return self.kind

    def __repr__(self):
        return "<Res %s>" % self.brief()


_WORLD_NO = [0]


class World:
    def __init__(self, kind="oidc", rep=None, keys=0, **o):
        _WORLD_NO[0] += 1
        self.kind = kind
        self.opts = o
        self.rep = rep
        if rep is not None:
            rep.world = self
        self._hist = []
        self.path = o.pop("path", None) or os.path.join(tmpdir(), "w%d" % _WORLD_NO[0])
        os.makedirs(self.path, exist_ok=True)
        ready, plain = o.pop("conf", None), o.pop("plain", False)
        self.conf = ready if ready is not None else mkconf(kind, path=self.path, **o)
        self.issuer = self.conf["issuer"]
        self.keys_no = keys
        kj = KeyJar()
        kj.add_kb("", key_bundle("server", keys))
        kj.add_kb(self.issuer, key_bundle("server", keys))
        kj.httpc_params = {"verify": False, "timeout": 1}
        self.httpc = o.get("httpc")
        confcls = OPConfiguration if kind == "oidc" else ASConfiguration
        self.server = Server(
            self.conf if plain else confcls(conf=self.conf, base_path=self.path), cwd=self.path, keyjar=kj, httpc=self.httpc
        )
        self.ctx = self.server.endpoint_context
        self.sm = self.ctx.session_manager
        self.users = copy.deepcopy(o.get("users", USERS))
        if self.ctx.userinfo is not None:
            self.ctx.userinfo.db = self.users
        self.secrets = {}
        self.client_keys = {}
        self.nstate = 0

    def opts_usage(self):
        u = self.opts.get("usage_rules", DEF_USAGE)
        return copy.deepcopy(u) if u else {}

    def close(self):
        shutil.rmtree(self.path, ignore_errors=True)

    # ------------------------------------------------------------------ history
    def note(self, *a):
        self._hist.append("t+%d %s" % (CLOCK.t - START, " ".join(short(str(x), 300) for x in a)))

    def history(self):
        return self._hist

    def _count(self, name):
        if self.rep is not None:
            self.rep.count(name)

    # ------------------------------------------------------------------ setup
    def ep(self, name):
        return self.server.server_get("endpoint", name)

    def add_client(self, cid, keys=None, public=False, **extra):
        sec = extra.pop("client_secret", "secret_of_%s_0123456789abcdefghijklmnop" % cid)
        ent = {
            "client_id": cid,
            "redirect_uris": [("https://%s.example.com/cb" % cid, {})],
            "client_salt": "salted",
            "token_endpoint_auth_method": "client_secret_post",
            "response_types": list(ALL_RT if self.kind == "oidc" else ALL_RT_OAUTH2),
        }
        if not public:
            ent["client_secret"] = sec
            self.secrets[cid] = sec
        ent.update(copy.deepcopy(extra))
        self.ctx.cdb[cid] = ent
        if not public:
            self.ctx.keyjar.add_symmetric(cid, sec, ["sig", "enc"])
        if keys is not None:
            kj = KeyJar()
            kj.add_kb("", key_bundle("client", keys))
            self.client_keys[cid] = kj
            self.ctx.keyjar.import_jwks(_pub("client", keys), cid)
        return ent

    def redirect_uri(self, cid):
        b, q = self.ctx.cdb[cid]["redirect_uris"][0]
        return b if not q else b + "?" + urlencode(q, doseq=True)

    def authn_method(self):
        return list(self.ctx.authn_broker.db.values())[0]["method"]

    def set_user(self, uid):
        self.authn_method().user = uid

    # ------------------------------------------------------------------ generic call
    def call(self, name, fn, *a, **kw):
        """call an API function, record it, never raise"""
        try:
            r = fn(*a, **kw)
        except Exception as e:
            self.note(name, "-> EXC", type(e).__name__, e)
            self._count("ev:%s:exc" % name)
            return Res("exception", exc=e)
        self.note(name, "->", type(r).__name__)
        self._count("ev:%s:ok" % name)
        return Res("ok", raw=r)

    # ------------------------------------------------------------------ endpoints
    def parse(self, epname, request, http_info=None):
        """first half of a request; returns (parsed|None, Res|None)"""
        ep = self.ep(epname)
        try:
            p = ep.parse_request(copy.deepcopy(request) if isinstance(request, dict) else request,
                                 http_info=http_info)
        except Exception as e:
            return None, Res("exception", exc=e, phase="parse")
        if isinstance(p, (ResponseMessage, dict)) and "error" in p:
            return None, Res("error", data=p.to_dict() if isinstance(p, Message) else dict(p), phase="parse")
        return p, None

    def process(self, epname, parsed, http_info=None, **kw):
        ep = self.ep(epname)
        try:
            args = ep.process_request(parsed, http_info=http_info, **kw)
        except Exception as e:
            return Res("exception", exc=e, phase="process")
        return self._respond(epname, parsed, args)

    def _respond(self, epname, parsed, args):
        ep = self.ep(epname)
        if isinstance(args, ResponseMessage) and "error" in args:
            return Res("error", data=args.to_dict(), phase="process")
        if args is None:
            return Res("exception", exc=ValueError("None returned"))
        if "http_response" in args and epname == "pushed_authorization":
            data = dict(args["http_response"])
            return Res("error" if "error" in data else "ok", data=data, args=args)
        if "http_response" in args:
            return Res("login", raw=args["http_response"], extra_args=args)
        if "redirect_location" in args:
            u = args["redirect_location"]
            return Res("redirect", url=u, data=dict(parse_qsl(urlsplit(u).query)),
                       cookies=args.get("cookie"), mode="location", args=args)
        ra = args.get("response_args")
        sid = args.get("session_id")
        try:
            info = ep.do_response(request=parsed, **args)
        except Exception as e:
            return Res("exception", exc=e, phase="respond", args=args)
        resp = info.get("response")
        hdr = info.get("http_headers", [])
        cookies = info.get("cookie") or args.get("cookie")
        if cookies is not None and not isinstance(cookies, list):
            cookies = [cookies]
        placement = info.get("response_placement") or ep.response_placement
        code = info.get("response_code")
        if placement == "url":
            sp = urlsplit(resp)
            frag = dict(parse_qsl(sp.fragment, keep_blank_values=True))
            q = dict(parse_qsl(sp.query, keep_blank_values=True))
            if sp.fragment:
                return Res("redirect", url=resp, data=frag, mode="fragment", cookies=cookies,
                           headers=hdr, sid=sid, query=q, args=args)
            return Res("redirect", url=resp, data=q, mode="query", cookies=cookies, headers=hdr,
                       sid=sid, args=args)
        if epname == "authorization" and isinstance(resp, str) and "<form" in resp:
            fp = FormParser()
            fp.feed(resp)
            return Res("redirect", url=fp.action, data=dict(fp.inputs), mode="form_post",
                       cookies=cookies, headers=hdr, sid=sid, raw=resp, parser=fp, args=args)
        data = None
        if isinstance(resp, str):
            try:
                data = json.loads(resp)
            except ValueError:
                data = None
        if isinstance(data, dict):
            kind = "error" if "error" in data else "ok"
            return Res(kind, data=data, cookies=cookies, headers=hdr, raw=resp, sid=sid, code=code)
        return Res("ok", data={}, cookies=cookies, headers=hdr, raw=resp, sid=sid, code=code)

    def do(self, epname, request, http_info=None, label=None, **kw):
        p, r = self.parse(epname, request, http_info)
        if r is None:
            r = self.process(epname, p, http_info, **kw)
        self.log(label or epname, request, r)
        return r

    def log(self, name, request, r):
        rq = request
        if isinstance(request, dict):
            rq = {k: short(str(v), 30) for k, v in request.items()}
        self.note(name, short(str(rq), 260), "=>", r.brief())
        self._count("ev:%s:%s" % (name, r.outcome()))

    # ------------------------------------------------------------------ authorization
    def areq(self, cid, **kw):
        self.nstate += 1
        req = {
            "client_id": cid,
            "redirect_uri": self.redirect_uri(cid),
            "scope": "openid" if self.kind == "oidc" else "read",
            "state": "st%d" % self.nstate,
            "response_type": "code",
        }
        if self.kind == "oidc":
            req["nonce"] = "nonce-%d-%s" % (self.nstate, cid)
        for k, v in kw.items():
            if v is None:
                req.pop(k, None)
            elif isinstance(v, (dict, list)) and k in ("claims",):
                req[k] = json.dumps(v)
            elif isinstance(v, list):
                req[k] = " ".join(v)
            else:
                req[k] = v
        return req

    def authorize(self, req, user=None, cookies=None, http_info=None, as_dict=False):
        if user is not None:
            self.set_user(user)
        hi = dict(http_info or {})
        if cookies:
            hi["cookie"] = cookies
        r = self.do("authorization", req if as_dict else urlencode(req), hi, label="authz")
        if self._hist:
            self._hist[-1] = self._hist[-1].replace("authz ", "authz[%s] " % user, 1)
        return r

    def login(self, cid, user="diana", **kw):
        """authorization request expected to succeed"""
        return self.authorize(self.areq(cid, **kw), user=user)

    # ------------------------------------------------------------------ client auth helpers
    def basic(self, cid, secret=None):
        from urllib.parse import quote_plus

        s = self.secrets.get(cid, "") if secret is None else secret
        return "Basic " + base64.b64encode(
            ("%s:%s" % (quote_plus(cid), quote_plus(s))).encode()).decode()

    def with_auth(self, req, cid, method="post"):
        req = dict(req)
        hi = {}
        if method == "post":
            req["client_id"] = cid
            req["client_secret"] = self.secrets.get(cid, "")
        elif method == "basic":
            hi = {"headers": {"authorization": self.basic(cid)}}
        elif method == "none":
            req["client_id"] = cid
        elif method in ("client_secret_jwt", "private_key_jwt"):
            req["client_assertion"] = self.assertion(cid, method)
            req["client_assertion_type"] = "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"
        return req, hi

    def assertion(self, cid, method="private_key_jwt", aud=None, alg=None, lifetime=300, iss=None,
                  sub=None, kj=None, **claims):
        iss = cid if iss is None else iss
        if kj is None:
            if method == "client_secret_jwt":
                kj = KeyJar()
                kj.add_symmetric("", self.secrets[cid], ["sig"])
            else:
                kj = self.client_keys[cid]
        if alg is None:
            alg = "HS256" if method == "client_secret_jwt" else "ES256"
        _jwt = JWT(kj, iss=iss, lifetime=lifetime, sign_alg=alg)
        _jwt.with_jti = True
        payload = {"sub": sub or cid, "aud": aud or [self.ep("token").full_path]}
        payload.update(claims)
        return _jwt.pack(payload, issuer_id="")

    # ------------------------------------------------------------------ token endpoint
    def code_req(self, cid, code, redirect_uri=None, **kw):
        req = {"grant_type": "authorization_code", "code": code, "client_id": cid}
        req["redirect_uri"] = self.redirect_uri(cid) if redirect_uri is None else redirect_uri
        req.update(kw)
        return {k: v for k, v in req.items() if v is not None}

    def redeem(self, cid, code, method="post", http_info=None, **kw):
        issue_refresh = kw.pop("issue_refresh", "unset")
        req, hi = self.with_auth(self.code_req(cid, code, **kw), cid, method)
        if http_info:
            hi.update(http_info)
        pk = {} if issue_refresh == "unset" else {"issue_refresh": issue_refresh}
        return self.do("token", req, hi, label="redeem", **pk)

    def refresh(self, cid, rt, scope=None, method="post", http_info=None, issue_refresh="unset", **kw):
        req = {"grant_type": "refresh_token", "refresh_token": rt, "client_id": cid}
        if scope is not None:
            req["scope"] = scope if isinstance(scope, str) else " ".join(scope)
        req.update(kw)
        req, hi = self.with_auth(req, cid, method)
        if http_info:
            hi.update(http_info)
        pk = {} if issue_refresh == "unset" else {"issue_refresh": issue_refresh}
        return self.do("token", req, hi, label="refresh", **pk)

    # ------------------------------------------------------------------ resource server side
    def userinfo(self, token, how="header"):
        if how == "header":
            return self.do("userinfo", {}, {"headers": {"authorization": "Bearer " + str(token)}}, label="userinfo")
        return self.do("userinfo", {"access_token": str(token)}, {}, label="userinfo")

    def introspect(self, token, cid, **kw):
        req, hi = self.with_auth(dict({"token": token}, **kw), cid, "post")
        return self.do("introspection", req, hi, label="introspect")

    # ------------------------------------------------------------------ tokens
    def server_jwks(self):
        return self.ctx.keyjar.export_jwks(issuer_id="")

    def verify_jwt(self, token):
        """verify a JWS with nothing but the published keys; returns (header, payload)"""
        kj = KeyJar()
        kj.import_jwks(self.server_jwks(), self.issuer)
        f = jws_factory(token)
        if f is None:
            raise ValueError("not a JWS")
        hdr = f.jwt.headers
        keys = kj.get_issuer_keys(self.issuer)
        payload = f.verify_compact(token, keys)
        return hdr, payload


def peek(token):
    """payload of a JWS without verification, or None"""
    f = jws_factory(token)
    if f is None:
        return None
    return f.jwt.payload()


START = CLOCK.t


def reset_clock():
    CLOCK.t = START


def b64_parts(tok):
    """the octets a (compact JWS, JWE or opaque) token stands for: base64 has several spellings of the same octets"""
    res = []
    for part in tok.split("."):
        try:
            res.append(base64.urlsafe_b64decode(part + "=" * (-len(part) % 4)))
        except ValueError:
            res.append(part)
    return res


def flip(rng, tok):
    """change one character of a token, so that it is another token"""
    alpha = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
    while True:
        i = rng.randrange(len(tok))
        c = rng.choice([a for a in alpha if a != tok[i]])
        new = tok[:i] + c + tok[i + 1:]
        if b64_parts(new) != b64_parts(tok):
            return new
