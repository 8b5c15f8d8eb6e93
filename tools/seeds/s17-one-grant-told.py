PROP = 'C15'
NEEDS = 'a user with several grants at a client, the oldest one without ID Token'
BREAKS = 'the client with a front-channel logout URI is not told of the logout'
EDITS = [
    ('oidc/session.py', '''                        if _spec:
                            fc_iframes[_client_id] = _spec
                        break
''', '''                        if _spec:
                            fc_iframes[_client_id] = _spec
                    break
'''),
]
DEMO = '''
w = World("oidc")
w.add_client("one", frontchannel_logout_uri="https://one.example.com/fc")
a = w.login("one", scope="openid")
b = w.login("one", scope="openid email")
t = w.redeem("one", b.data["code"])
need("id_token" in t.data, "ID Token issued")
x = w.ep("session").logout_all_clients(b.sid)
need("one" in (x.get("flu") or {}), "client one has an ID Token but is not told of the logout")
'''
