PROP = 'C06'
NEEDS = 'a client whose allowed_scopes is empty'
BREAKS = 'the client is allowed the scopes of the server'
EDITS = [
    ('scopes.py', '''                if "allowed_scopes" in client:
                    allowed_scopes = client.get("allowed_scopes")''', '''                if client.get("allowed_scopes"):
                    allowed_scopes = client.get("allowed_scopes")'''),
]
DEMO = '''
w = World("oidc", userinfo_kwargs={"add_claims_by_scope": True})
w.add_client("one", allowed_scopes=[])
w.add_client("two")
def email(c):
    r = w.login(c, scope="openid email")
    t = w.redeem(c, r.data["code"])
    return w.userinfo(t.data["access_token"]).data.get("email")
need(email("two"), "the other client gets it")
need(not email("one"), "a client without allowed scopes gets email")
'''
