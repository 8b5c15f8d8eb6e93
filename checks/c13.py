"""C13: subject identifiers are stable, private and consistent."""
import copy
import hashlib
import json
import os
import shutil
import tempfile
from urllib.parse import urlsplit

from vlib.clock import CLOCK
from vlib.story import AT, IT, RT, Story
from vlib.world import USERS, World, peek

CASES = {"quick": 500, "thorough": 16000}
RULE = ("One case: a server with random subject salts and several clients (static and dynamically registered) with public, pairwise and ephemeral "
        "subjects and shared, separate or registered sectors, users whose identifiers and data are chosen to collide, and a random interleaving of "
        "sessions (fresh, single sign-on, repeated later); every sub seen in every place is collected and compared with the model of who must share "
        "one. Distinct: by client settings and history.")
MUST_OBSERVE = {"oracle:same-salts": 150, "oracle:salted": 150, "oracle:own-function": 25, "oracle:same-in-session": 5000, "oracle:stable": 600, "oracle:pairwise-shared-sector": 12, "oracle:pairwise-other-sector": 150,
                "oracle:users-differ": 1500, "oracle:ephemeral-fresh": 150, "oracle:public-everywhere": 60, "sso": 100, "registered-client": 100}

UIDS = ["diana", "ziggy", "lemmy", "a", "aa", "dian", "Diana", "1", "\u00fcser", "a;;b", "a;;", "diana ", "beta.example.com", "%3B", "a%3Bb", "a@b"]


class Http:
    """answers for sector identifier documents"""

    def __init__(self):
        self.docs = {}

    def get(self, url, **kw):
        return self("GET", url, **kw)

    def __call__(self, method, url, **kw):
        class R:
            status_code = 200
            headers = {}
            text = json.dumps(self.docs[url])
        return R()


def run_case(rng, rep, i):
    uids = rng.sample(UIDS, rng.randrange(3, 7))
    users = {}
    for u in uids:
        users[u] = dict(USERS[rng.choice(list(USERS))])
        if rng.random() < 0.5:
            users[u].update({"sub": rng.choice(["diana", "admin", "x"]), "client_id": "evil", "uid": "evil"})
    httpc = Http()
    sp = {"password": "p" + str(i), "salt": "s" + str(i)}
    style = rng.choice(["classes", "default", "one", "function", "file"])
    salts = {}
    if style == "function":
        sp["sub_func"] = {"public": {"function": rng.choice([own_public, "checks.c13.own_public"])}}
    elif style == "file":
        salts["dir"] = tempfile.mkdtemp(prefix="c13.")
        for k, c in (("public", "PublicID"), ("pairwise", "PairWiseID")):
            sp.setdefault("sub_func", {})[k] = {"class": "oidcop.session.manager." + c, "kwargs": {"filename": os.path.join(salts["dir"], k)}}
        if rng.random() < 0.5:
            with open(os.path.join(salts["dir"], "public"), "w") as f:
                f.write("from before")
    elif style != "default":
        sp["sub_func"] = {"public": {"class": "oidcop.session.manager.PublicID", "kwargs": {"salt": rng.choice(["pubsalt", "x"])}}}
        if style == "classes":
            sp["sub_func"]["pairwise"] = {"class": "oidcop.session.manager.PairWiseID", "kwargs": {"salt": "pwsalt"}}
    o = {}
    for k in ("access_token_kwargs", "introspection_kwargs", "userinfo_kwargs", "id_token_kwargs"):
        # the user's data may be configured to be told, whatever its members are called
        names = [x for x in ("sub", "client_id", "uid", "email") if rng.random() < 0.25]
        if names:
            o[k] = {"base_claims": {x: None for x in names}}
    w = World("oidc", rep, users=users, session_params=sp, httpc=httpc, token_handler=rng.choice(["jwt", "default"]), **o)
    w.ctx.httpc = httpc
    try:
        story(rng, rep, i, w, uids, users, httpc, sp, style)
    finally:
        for d in salts.values():
            shutil.rmtree(d)


def own_public(user_id, salt="", **kwargs):
    return "own-" + hashlib.sha256(("%s/%s" % (salt, user_id)).encode()).hexdigest()


def story(rng, rep, i, w, uids, users, httpc, sp, style):
    cl = {}  # client -> (subject_type, sector)
    static = {}
    hosts = ["one.example.com", "two.example.com", "example.com", "one.example.com:8443"]
    for n in range(rng.randrange(2, 5)):
        c = "client%d" % n
        st = rng.choice(["public", "pairwise", "pairwise", "pairwise", "ephemeral", None])
        h = rng.choice(hosts + ["client%d.example.org" % n])
        uris = ["https://%s/cb%d" % (h, n)]
        if rng.random() < 0.3:
            uris.append("https://%s/other?x=y" % h)
        elif rng.random() < 0.2:
            uris.append("https://elsewhere%d.example.net/" % n)
        extra = {}
        sector = None
        hs = {urlsplit(u).hostname for u in uris}
        sector = ("host", hs.pop()) if len(hs) == 1 else ("client", c)
        if rng.random() < 0.35:
            su = rng.choice(["https://sector.example.com/a", "https://sector.example.com/b", "https://one.example.com/s", "https://s2.example.org/"])
            sector = ("host", urlsplit(su).hostname)
            extra["sector_identifier_uri"] = su
            httpc.docs.setdefault(su, []).extend(uris)
        if rng.random() < 0.4 and st != "ephemeral":
            # dynamic registration
            req = {"redirect_uris": uris, "response_types": ["code", "id_token", "code id_token token", "code id_token"],
                   "token_endpoint_auth_method": "client_secret_post", "grant_types": ["authorization_code", "implicit", "refresh_token"]}
            if st:
                req["subject_type"] = st
            req.update(extra)
            r = w.do("registration", json.dumps(req))
            if not rep.check("client_id" in r.data, "registered", "registration refused: %s" % r.brief()):
                continue
            cid = r.data["client_id"]
            w.secrets[cid] = r.data["client_secret"]
            rep.count("registered-client")
            if sector[0] == "client":
                sector = ("client", cid)
            c = cid
        else:
            if st:
                extra["subject_type"] = st
            from oidcop.util import split_uri
            static[c] = dict(extra, redirect_uris=[split_uri(u) if "?" in u else (u, {}) for u in uris])
            w.add_client(c, **copy.deepcopy(static[c]))
        cl[c] = (st or "public", sector)
    rep.sig(style, sorted(map(str, (v for v in cl.values()))), sorted(uids))
    s = Story(w, rep, rng)
    seen = {}  # (uid, cid) -> list of (grant sid, sub)
    jar = {}
    names = {c: n for n, c in enumerate(cl)}

    def subs_of(g, r, where):
        """every place that tells a sub for this session"""
        out = []
        d = r.data
        if "id_token" in d:
            out.append((where + ":id_token", w.verify_jwt(d["id_token"])[1].get("sub")))
        if "access_token" in d:
            at = d["access_token"]
            p = peek(at)
            if p is not None:
                out.append((where + ":access_token", p.get("sub")))
            u = w.userinfo(at)
            if rep.check(u.ok, "userinfo-served", "userinfo refused: %s" % u.brief()):
                out.append((where + ":userinfo", u.data.get("sub")))
            q = w.introspect(at, rng.choice(list(cl)))
            if rep.check(q.data.get("active") is True, "introspected", "not active: %s" % q.brief()):
                out.append((where + ":introspection", q.data.get("sub")))
        if "refresh_token" in d:
            q = w.introspect(d["refresh_token"], rng.choice(list(cl)))
            if rep.check(q.data.get("active") is True, "introspected", "not active: %s" % q.brief()):
                out.append((where + ":introspection-rt", q.data.get("sub")))
        return out

    for n in range(rng.randrange(4, 10)):
        CLOCK.advance(rng.choice([0, 1, 50]))
        uid, cid = rng.choice(uids), rng.choice(list(cl))
        cookies = None
        if jar and rng.random() < 0.3:
            uid, cid = rng.choice(sorted(jar))
            cookies = jar[(uid, cid)]
            rep.count("sso")
        extra = {}
        if rng.random() < 0.2:
            # the request can not choose the sector
            extra["sector_identifier_uri"] = "https://evil.example/"
        if rng.random() < 0.3:
            extra["claims"] = {"id_token": {"sub": None}, "userinfo": {"sub": None, "uid": None}}
        rt = rng.choice(["code", "code id_token token", "id_token", "code id_token"])
        g, r = s.authorize(uid, cid, rng.choice(["openid", "openid profile offline_access"]), rt=rt, cookies=cookies, **extra)
        if not rep.check(g is not None, "authorized", "authorization of %r at %s refused: %s" % (uid, cl[cid], r.brief())):
            continue
        if r.cookies:
            jar[(uid, cid)] = [c for c in r.cookies if c["name"] == "oidc_op"]
        got = subs_of(g, r, "authz")
        if g.code is not None:
            r, new = s.redeem(g.code, issue_refresh=True)
            if rep.check(AT in new, "redeemed", "code refused %s" % r.brief()):
                got += subs_of(g, r, "token")
                if RT in new and rng.random() < 0.8:
                    CLOCK.advance(rng.choice([1, 60]))
                    r, new2 = s.refresh(new[RT])
                    if rep.check(AT in new2, "refreshed", "refresh refused %s" % r.brief()):
                        got += subs_of(g, r, "refresh")
        sub = w.sm[g.sid].sub
        for where, v in got:
            rep.check(isinstance(v, str) and v == sub, "same-in-session", "%s says sub %r, the session's is %r" % (where, v, sub), where=where)
        for where, v in got:
            sub = v
        st, sector = cl[cid]
        new_grant = g.sid not in [x[0] for x in seen.get((uid, cid), [])]
        rep.sig(uids.index(uid), names[cid], rt, bool(cookies), new_grant)
        # the model
        for (u2, c2), lst in seen.items():
            st2, sec2 = cl[c2]
            for sid2, sub2 in lst:
                if u2 != uid and c2 == cid:
                    rep.check(sub != sub2, "users-differ", "%r and %r have the same sub at one client (%s)" % (uid, u2, st))
                if u2 != uid and st == st2 == "public":
                    rep.check(sub != sub2, "users-differ", "%r and %r have the same public sub" % (uid, u2))
                if u2 == uid:
                    if st == "ephemeral":
                        if not s.same_grant(sid2, g.sid):
                            rep.check(sub != sub2, "ephemeral-fresh", "ephemeral sub used in two sessions")
                    elif st == "public" and st2 == "public":
                        rep.check(sub == sub2, "public-everywhere" if c2 != cid else "stable", "public sub of %r changed" % uid)
                    elif st == "pairwise" and st2 == "pairwise":
                        if c2 == cid:
                            rep.check(sub == sub2, "stable", "pairwise sub of %r changed" % uid)
                        elif sector == sec2:
                            rep.check(sub == sub2, "pairwise-shared-sector", "clients of sector %s see different subs" % (sector,))
                        else:
                            rep.check(sub != sub2, "pairwise-other-sector", "clients of sectors %s and %s see the same sub" % (sector, sec2))
                    elif c2 != cid and "pairwise" in (st, st2):
                        rep.check(sub != sub2, "pairwise-private", "a pairwise sub equals that of a %s client" % (st2 if st == "pairwise" else st))
        rep.check(uid not in sub or len(uid) < 4, "private", "the sub shows the user id")
        seen.setdefault((uid, cid), []).append((g.sid, sub))
    # what a user is called depends on the server's salts
    again = [(k, v) for k, v in seen.items() if k[1].startswith("client") and k[1] in static and cl[k[1]][0] != "ephemeral"]
    if again and rng.random() < 0.5:
        def changed(manager, functions):
            p = copy.deepcopy(sp)
            if manager:
                p["salt"] = "other" + str(i)
            if functions:
                for f in p.get("sub_func", {}).values():
                    for k, v in f.get("kwargs", {}).items():
                        f["kwargs"][k] = v + "-other"
            return p

        for what, params in (("same", sp), ("other", changed(True, True)), ("manager's", changed(True, False)), ("functions'", changed(False, True))):
            w2 = World("oidc", None, users=users, session_params=copy.deepcopy(params), httpc=httpc)
            for c, extra in static.items():
                w2.add_client(c, **copy.deepcopy(extra))
            for (uid, cid), lst in rng.sample(again, min(3, len(again))):
                r = w2.login(cid, user=uid, scope="openid")
                sub2 = w2.sm[r.sid].sub
                has_own = cl[cid][0] in sp.get("sub_func", {}) and style != "function"
                if style == "function" and cl[cid][0] == "public":
                    rep.check(sub2 == own_public(uid, salt=params["salt"]), "own-function", "the configured function did not make the sub of %r" % uid)
                if what == "same" or what == "manager's" and has_own or what == "functions'" and not has_own:
                    rep.check(sub2 == lst[-1][1], "same-salts", "%s sub of %r changed although the salts are the same (%s, %s)" % (cl[cid][0], uid, style, what))
                else:
                    rep.check(sub2 != lst[-1][1], "salted", "%s sub of %r is the same with other salts (%s, %s)" % (cl[cid][0], uid, style, what))
            w2.close()
