"""C14: the session store is a consistent tree and sessions are isolated."""
import json

from oidcmsg.oidc import AuthorizationRequest

from oidcop.authn_event import create_authn_event
from oidcop.session.grant import Grant
from oidcop.session.info import ClientSessionInfo, UserSessionInfo
from vlib.clock import CLOCK
from vlib.world import World

CASES = {"quick": 450, "thorough": 14000}
RULE = ("One case: a random sequence of 20-45 operations (sessions by the endpoints and by the session manager API, grants created and added, tokens "
        "minted, updates, revocation of tokens, grants and client sessions, removal of sessions, deletion of users, client sessions and grants that "
        "exist, existed or never did) over users and clients with colliding identifiers; after every operation the whole store is compared with a "
        "model tree and every object not concerned with its state before. Distinct: by operation sequence.")
MUST_OBSERVE = {"oracle:same-users": 8000, "oracle:same-clients": 8000, "oracle:same-grants": 8000, "oracle:entries": 8000, "oracle:untouched": 20000,
                "oracle:gone": 8000, "oracle:token-resolves": 20000, "oracle:sid-resolves": 20000, "op:delete-user": 200, "op:delete-client": 200,
                "oracle:every-getter": 5000, "oracle:own-data": 5000, "op:delete-grant": 200, "op:remove_session": 200, "op:delete-unknown": 200, "op:add_grant": 200, "op:authorize": 1000}

UIDS = ["diana", "ziggy", "alpha", "a", "a;;alpha", "diana;;alpha", "a;;", ";;a", "a%3B%3Balpha", "%", "a ", "\u00fc", "__class__", "a;", ";a"]
CIDS = ["alpha", "alpha2", "a", "a;;b", "diana"]
MISSING = (KeyError, ValueError)


class MGrant:
    def __init__(self, sid, obj):
        self.sid = sid
        self.obj = obj
        self.revoked = False
        self.tokens = {}  # value -> revoked


def run_case(rng, rep, i):
    uids = rng.sample(UIDS, rng.randrange(3, 6))
    cids = rng.sample(CIDS, rng.randrange(2, 4))
    w = World("oidc", rep, users={u: {"name": u} for u in uids}, token_handler=rng.choice(["jwt", "default"]))
    for c in cids:
        w.add_client(c, redirect_uris=[("https://rp.example.com/cb", {})])
    sm = w.sm
    tree = {}  # uid -> {"extra":, "clients": {cid: {"revoked":, "extra":, "grants": {gid: MGrant}}}}
    gone_paths, gone_sids, gone_tokens = set(), set(), set()

    def node(uid, cid):
        return tree.setdefault(uid, {"extra": None, "clients": {}})["clients"].setdefault(cid, {"revoked": False, "extra": None, "grants": {}})

    def put(sid, uid, cid):
        gid = sm.decrypt_session_id(sid)[2]
        m = MGrant(sid, sm[sid])
        node(uid, cid)["grants"][gid] = m
        gone_paths.discard((uid,)), gone_paths.discard((uid, cid))
        return gid, m

    def all_grants():
        return [(u, c, g, m) for u, un in tree.items() for c, cn in un["clients"].items() for g, m in cn["grants"].items()]

    def snap():
        return {(u, c, g): json.dumps(m.obj.dump(), sort_keys=True, default=str) for u, c, g, m in all_grants()}

    def drop(uid, cid=None, gid=None):
        for c in [cid] if cid is not None else list(tree[uid]["clients"]):
            cn = tree[uid]["clients"][c]
            for g in [gid] if gid is not None else list(cn["grants"]):
                m = cn["grants"].pop(g)
                gone_paths.add((uid, c, g))
                gone_sids.add(m.sid)
                gone_tokens.update(m.tokens)
            if not cn["grants"]:
                tree[uid]["clients"].pop(c)
                gone_paths.add((uid, c))
        if not tree[uid]["clients"]:
            tree.pop(uid)
            gone_paths.add((uid,))

    def missing(fn, what):
        try:
            r = fn()
        except MISSING:
            rep.count("oracle:gone")
            return
        except Exception as e:
            rep.violation("gone", "%s answered by %r" % (what, e))
            return
        rep.violation("gone", "%s still gives %r" % (what, r))

    focus = []

    def op():
        """one operation; returns (name, set of grant paths it may change)"""
        gs = all_grants()
        k = rng.choice(["authorize", "authorize", "create_session", "create_grant", "add_grant", "mint", "mint", "update-user", "update-client",
                        "revoke_token", "revoke_grant", "revoke_client_session", "remove_session", "delete-user", "delete-client", "delete-grant",
                        "delete-unknown", "get-unknown", "authn-events"])
        uid, cid = rng.choice(uids), rng.choice(cids)
        if focus:
            k, (uid, cid) = "create_session", focus.pop()
        if gs and k not in ("authorize", "create_session", "delete-unknown", "get-unknown"):
            uid, cid, gid, m = rng.choice(gs)
        elif k not in ("authorize", "create_session", "delete-unknown", "get-unknown"):
            k = "authorize"
        ev = create_authn_event(uid, authn_info="x")
        areq = AuthorizationRequest(client_id=cid, redirect_uri="https://rp.example.com/cb", scope=["openid"], state="s", response_type=["code"])
        if k == "authorize":
            rt = rng.choice(["code", "code id_token token"])
            r = w.authorize(w.areq(cid, response_type=rt, scope="openid offline_access", prompt="consent"), uid)
            if not rep.check(r.ok and r.sid, "authorized", "authorization of %r refused: %s" % (uid, r.brief())):
                return k, set()
            gid, m = put(r.sid, uid, cid)
            for x in ("code", "access_token"):
                if x in r.data:
                    m.tokens[r.data[x]] = False
            return k, {(uid, cid, gid)}
        if k == "create_session":
            sid = sm.create_session(ev, areq, uid, client_id=cid, sub_type=rng.choice(["public", "pairwise", "ephemeral"]))
            return k, {(uid, cid, put(sid, uid, cid)[0])}
        if k == "create_grant":
            sid = sm.create_grant(ev, areq, uid, cid)
            return k, {(uid, cid, put(sid, uid, cid)[0])}
        if k == "add_grant":
            obj = sm.add_grant(uid, cid, scope=["openid"], authorization_request=areq, authentication_event=ev)
            sid = sm.encrypted_session_id(uid, cid, obj.id)
            gid, m = put(sid, uid, cid)
            rep.check(m.obj is obj or m.obj.dump() == obj.dump(), "added-grant", "add_grant returned another grant than is stored")
            return k, {(uid, cid, gid)}
        if k == "mint":
            codes = [v for v, rv in m.tokens.items() if not rv and m.obj.get_token(v) is not None and m.obj.get_token(v).token_class == "authorization_code"]
            if codes:
                r = w.redeem(cid, codes[0], redirect_uri="https://rp.example.com/cb", issue_refresh=True)
                for x in ("access_token", "refresh_token"):
                    if x in r.data:
                        m.tokens[r.data[x]] = False
                        rep.count("minted")
            return k, {(uid, cid, gid)}
        if k == "update-user":
            v = {"n": rng.randrange(10 ** 6)}
            sm.update([uid], {"extra_args": v})
            tree[uid]["extra"] = v
            return k, set()
        if k == "update-client":
            v = {"n": rng.randrange(10 ** 6)}
            sm.update([uid, cid], {"extra_args": v})
            tree[uid]["clients"][cid]["extra"] = v
            return k, set()
        if k == "revoke_token":
            if m.tokens:
                t = rng.choice(sorted(m.tokens))
                sm.revoke_token(m.sid, t)
                m.tokens[t] = True
            return k, {(uid, cid, gid)}
        if k == "revoke_grant":
            sm.revoke_grant(m.sid)
            m.revoked = True
            return k, {(uid, cid, gid)}
        if k == "revoke_client_session":
            sm.revoke_client_session(m.sid)
            tree[uid]["clients"][cid]["revoked"] = True
            for x in tree[uid]["clients"][cid]["grants"].values():
                x.revoked = True
            return k, {(uid, cid, g) for g in tree[uid]["clients"][cid]["grants"]}
        if k == "remove_session":
            sm.remove_session(m.sid)
            drop(uid, cid, gid)
            return k, set()
        if k == "delete-user":
            sm.delete([uid])
            drop(uid)
            return k, set()
        if k == "delete-client":
            sm.delete([uid, cid])
            drop(uid, cid)
            return k, set()
        if k == "delete-grant":
            sm.delete([uid, cid, gid])
            drop(uid, cid, gid)
            return k, set()
        if k == "delete-unknown":
            choices = [[u] for u in UIDS if u not in tree] + [[u, "nobody"] for u in tree]
            choices += [[u, c] for u in tree for c in CIDS + UIDS if c not in tree[u]["clients"]]
            choices += [[u, c, "f" * 32] for u in tree for c in tree[u]["clients"]]
            choices += [list(p) for p in gone_paths if not _exists(p)]
            p = rng.choice(choices)
            try:
                sm.delete(p)
            except MISSING:
                pass
            return k, set()
        if k == "get-unknown":
            choices = [[u] for u in UIDS if u not in tree] + [[u, c] for u in tree for c in CIDS + UIDS if c not in tree[u]["clients"]]
            choices += [[u, c, g] for u in tree for c in tree[u]["clients"] for (_u, _c, g, _m) in gs if g not in tree[u]["clients"][c]["grants"]]
            for p in rng.sample(choices, min(4, len(choices))):
                missing(lambda: sm.get(p), "get(%s) of something that is not there" % p)
            return k, set()
        if k == "authn-events":
            evs = sm.get_authentication_events(user_id=uid, client_id=cid)
            rep.check(len(evs) == len(tree[uid]["clients"][cid]["grants"]) and all(e.get("uid") == uid for e in evs), "authn-events",
                      "authentication events %s" % [e.get("uid") for e in evs])
            return k, set()

    def _exists(p):
        n = tree.get(p[0])
        if n is None or len(p) == 1:
            return n is not None
        n = n["clients"].get(p[1])
        if n is None or len(p) == 2:
            return n is not None
        return p[2] in n["grants"]

    def verify(name):
        n = 0
        for u, un in tree.items():
            n += 1
            try:
                ui = sm.get([u])
            except Exception as e:
                rep.violation("same-users", "after %s: user %r is lost: %r" % (name, u, e))
                continue
            rep.check(isinstance(ui, UserSessionInfo) and sorted(ui.subordinate) == sorted(un["clients"]), "same-users",
                      "after %s: user %r has client sessions %s, should have %s" % (name, u, getattr(ui, "subordinate", ui), sorted(un["clients"])))
            if un["extra"] is not None:
                rep.check(ui.extra_args == un["extra"], "updates-kept", "after %s: user %r data is %s, was set to %s" % (name, u, ui.extra_args, un["extra"]))
            for c, cn in un["clients"].items():
                n += 1
                try:
                    ci = sm.get([u, c])
                except Exception as e:
                    rep.violation("same-clients", "after %s: client session %r/%r is lost: %r" % (name, u, c, e))
                    continue
                rep.check(isinstance(ci, ClientSessionInfo) and sorted(ci.subordinate) == sorted(cn["grants"]), "same-clients",
                          "after %s: %r/%r lists %d grants, should list %d" % (name, u, c, len(getattr(ci, "subordinate", [])), len(cn["grants"])))
                rep.check(bool(ci.revoked) == cn["revoked"], "client-revoked", "after %s: client session %r/%r revoked is %s" % (name, u, c, ci.revoked))
                if cn["extra"] is not None:
                    rep.check(ci.extra_args == cn["extra"], "updates-kept", "after %s: client session data is %s" % (name, ci.extra_args))
                ids = {id(x) for x in sm.grants(user_id=u, client_id=c)}
                for g, m in cn["grants"].items():
                    n += 1
                    try:
                        go = sm.get([u, c, g])
                    except Exception as e:
                        rep.violation("same-grants", "after %s: grant %r/%r/%s is lost: %r" % (name, u, c, g[:6], e))
                        continue
                    rep.check(isinstance(go, Grant) and go.id == g and id(go) in ids, "same-grants",
                              "after %s: grant %s of %r/%r is %r" % (name, g[:6], u, c, getattr(go, "id", go)))
                    rep.check(bool(go.revoked) == m.revoked, "grant-revoked", "after %s: grant of %r/%r revoked is %s" % (name, u, c, go.revoked))
                    info = sm.get_session_info(m.sid, grant=True, user_session_info=True, client_session_info=True)
                    rep.check((info["user_id"], info["client_id"], info["grant_id"]) == (u, c, g) and info["grant"] is go and info["user_session_info"] is ui
                              and info["client_session_info"] is ci, "sid-resolves", "after %s: session id of %r/%r resolves to %r/%r" % (
                                  name, u, c, info["user_id"], info["client_id"]))
                    parts = {"user_session_info": ui, "client_session_info": ci, "grant": go, "authentication_event": go.authentication_event,
                             "authorization_request": go.authorization_request}
                    flags = [x for x in parts if rng.random() < 0.5]

                    def same(call, what):
                        try:
                            got = call()
                        except Exception as e:
                            return rep.violation("every-getter", "after %s: %s gives %r" % (name, what, e))
                        rep.check({x for x in got if x in parts} == set(flags) and all(got[x] is parts[x] for x in flags if x in got)
                                  and (got["user_id"], got["client_id"], got["grant_id"]) == (u, c, g), "every-getter",
                                  "after %s: %s of %r/%r gives %s" % (name, what, u, c, {x: str(y)[:60] for x, y in got.items()}))
                    same(lambda: sm.get_session_info(m.sid, **{x: True for x in flags}), "get_session_info(%s)" % flags)
                    if m.tokens:
                        t = rng.choice(sorted(m.tokens))
                        same(lambda: sm.get_session_info_by_token(t, **{x: True for x in flags}), "get_session_info_by_token(%s)" % flags)
                        rep.check(sm.decrypt_session_id(sm.get_session_id_by_token(t)) == [u, c, g], "every-getter", "after %s: get_session_id_by_token gives another session" % name)
                    rep.check(sm[m.sid] is go and sm.get_grant(m.sid) is go and sm.get_client_session_info(m.sid) is ci and sm.get_user_session_info(m.sid) is ui
                              and sm.get_authentication_event(m.sid) is go.authentication_event and sm.get_authorization_request(m.sid) is go.authorization_request
                              and sm.client_session_is_revoked(m.sid) == cn["revoked"] and {id(x) for x in sm.grants(session_id=m.sid)} == ids, "every-getter",
                              "after %s: the getters for %r/%r disagree" % (name, u, c))
                    rep.check(go.authentication_event["uid"] == u and go.authorization_request["client_id"] == c, "own-data",
                              "after %s: the grant of %r/%r has an authentication of %r and a request of %r" % (
                                  name, u, c, go.authentication_event["uid"], go.authorization_request["client_id"]))
                    for t, rv in m.tokens.items():
                        try:
                            ti = sm.get_session_info_by_token(t, grant=True)
                        except Exception as e:
                            rep.violation("token-resolves", "after %s: token of %r/%r does not resolve: %r" % (name, u, c, e))
                            continue
                        rep.check((ti["user_id"], ti["client_id"], ti["grant_id"]) == (u, c, g), "token-resolves",
                                  "after %s: token of %r/%r resolves to %r/%r" % (name, u, c, ti["user_id"], ti["client_id"]))
                        tok = sm.find_token(m.sid, t)
                        rep.check(tok is not None and (bool(tok.revoked) or not rv), "token-kept", "after %s: token lost or no longer revoked" % name)
        rep.check(len(sm.db) == n, "entries", "after %s: the store has %d entries for %d users, client sessions and grants: %s"
                  % (name, len(sm.db), n, [str(x)[:40] for x in sm.db.keys()]))
        for p in rng.sample(sorted(gone_paths), min(3, len(gone_paths))):
            if not _exists(p):
                missing(lambda: sm.get(list(p)), "after %s: get(%s)" % (name, p))
        for s_ in rng.sample(sorted(gone_sids), min(2, len(gone_sids))):
            missing(lambda: sm[s_], "after %s: a removed session id" % name)
        for t in rng.sample(sorted(gone_tokens), min(2, len(gone_tokens))):
            missing(lambda: sm.get_session_info_by_token(t, grant=True)["grant"], "after %s: token of a removed session" % name)

    if rng.random() < 0.06:
        # someone who is at the same place all the time
        focus += [(uids[0], cids[0])] * rng.randrange(10, 20)
        rep.count("many-grants")
    for n in range(rng.randrange(20, 46)):
        before = snap()
        CLOCK.advance(rng.choice([0, 1]))
        name, touched = op()
        w.note(name)
        rep.count("op:" + name)
        rep.sig(name)
        after = snap()
        for k_, v in before.items():
            if k_ in after and k_ not in touched:
                rep.check(after[k_] == v, "untouched", "%s changed the grant of %r/%r" % (name, k_[0], k_[1]))
        verify(name)
        if len(rep.violations) > 20:
            return
    if rng.random() < 0.3:
        sm.flush()
        rep.check(len(sm.db) == 0, "flush", "entries left after flush")
        gs = all_grants()
        for u, c, g, m in gs[:3]:
            missing(lambda: sm[m.sid], "a session after flush")
