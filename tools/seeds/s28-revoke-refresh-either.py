PROP = 'C26'
NEEDS = 'a client for which revoke_refresh_on_issue is set to False at an endpoint that has it on'
BREAKS = "the client's own setting does not win"
EDITS = [
    ('oauth2/token.py', '''            revoke_refresh = _context.cdb[req["client_id"]].get("revoke_refresh_on_issue")
''', '''            revoke_refresh = (
                _context.cdb[req["client_id"]].get("revoke_refresh_on_issue")
                or self.endpoint.revoke_refresh_on_issue
            )
'''),
]
DEMO = '''
w = World("oauth2", token_kwargs={"revoke_refresh_on_issue": True})
w.add_client("one", revoke_refresh_on_issue=False)
r = w.login("one", scope="read")
t = w.redeem("one", r.data["code"], issue_refresh=True)
x = w.refresh("one", t.data["refresh_token"], issue_refresh=True)
need(x.ok, "refresh")
need(w.refresh("one", t.data["refresh_token"]).ok, "the old refresh token is revoked though the client is set to keep it")
'''
