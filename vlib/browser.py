"""A browser in front of a World whose users log in with UserPassJinja2, the way the example
applications wire it: login page -> verify -> create_session -> authz_part2."""
import copy

from oidcmsg import oauth2, oidc

from vlib.world import FormParser, Res

ACR1 = "https://refeds.org/profile/sfa"
ACR2 = "https://refeds.org/profile/mfa"


def authentication(users, methods=1, expires_in=None):
    """configuration of one or two password methods; the password of method n for user u is u:n"""
    out = {}
    for n in range(methods):
        kw = {"verify_endpoint": "verify/%d" % n, "template": "user_pass.jinja2",
              "db": {"class": "builtins.dict", "kwargs": {u: "%s:%d" % (u, n) for u in users}}}
        if expires_in:
            kw["expires_in"] = expires_in
        out["m%d" % n] = {"acr": [ACR1, ACR2][n], "class": "oidcop.user_authn.user.UserPassJinja2", "kwargs": kw}
    return out


class Browser:
    def __init__(self, w, name=""):
        self.w = w
        self.name = name
        self.jar = {}  # name -> cookie

    def cookies(self):
        return [copy.deepcopy(c) for c in self.jar.values()]

    def keep(self, r):
        for c in r.cookies:
            if c.get("value"):
                self.jar[c["name"]] = c
            else:
                self.jar.pop(c["name"], None)

    def visit(self, req, cookies=None):
        r = self.w.authorize(req, cookies=self.cookies() if cookies is None else cookies)
        self.keep(r)
        return r

    def page(self, r):
        """(method number, hidden token) of a login page"""
        if r.kind != "login" or not isinstance(r.raw, str):
            return None
        fp = FormParser()
        fp.feed(r.raw)
        if fp.action is None or not fp.action.startswith("verify/"):
            return None
        return int(fp.action.split("/")[1]), dict(fp.inputs).get("token")

    def submit(self, r, user, password=None, token=None, method=None):
        """what the application does when the login form is posted"""
        pg = self.page(r) if r is not None else None
        if pg is None and method is None:
            return Res("exception", exc=ValueError("no login page"))
        n = pg[0] if method is None else method
        tok = pg[1] if token is None else token
        m = self.w.ctx.authn_broker.get_method_by_id("m%d" % n)
        ep = self.w.ep("authorization")
        try:
            uid = m.verify(username=user, password="%s:%d" % (user, n) if password is None else password, token=tok)
            args = m.unpack_token(tok)
            mod = oidc if self.w.kind == "oidc" else oauth2
            areq = mod.AuthorizationRequest().from_urlencoded(args["query"])
            sid = ep.create_session(areq, uid, args["authn_class_ref"], args["iat"], m)
            out = ep.authz_part2(request=areq, session_id=sid)
            res = self.w._respond("authorization", areq, out)
        except Exception as e:
            res = Res("exception", exc=e)
        self.w.note("login", self.name, user, "method", n, "=>", res.brief())
        self.w._count("ev:login:%s" % res.outcome())
        self.keep(res)
        return res
