PROP = 'C14'
NEEDS = 'a user who logs in again at a client after the session with that client was revoked'
BREAKS = 'earlier grants are no longer reachable from the client session'
EDITS = [
    ('session/manager.py', '''        try:
            self.get([user_id, client_id])
        except (NoSuchClientSession, ValueError):
            client_info = ClientSessionInfo(client_id=client_id)
            self.set([user_id, client_id], client_info)
''', '''        try:
            _csi = self.get([user_id, client_id])
        except (NoSuchClientSession, ValueError):
            _csi = None
        if _csi is None or _csi.revoked:
            client_info = ClientSessionInfo(client_id=client_id)
            self.set([user_id, client_id], client_info)
'''),
]
DEMO = '''
w = World("oidc")
w.add_client("one")
r = w.login("one")
w.sm.revoke_client_session(r.sid)
r2 = w.login("one")
need(len(w.sm.grants(user_id="diana", client_id="one")) == 2, "the grant of the first login is no longer among the client's grants")
'''
