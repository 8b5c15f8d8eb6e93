PROP = 'C01'
NEEDS = 'a code that is presented a second time after its tokens were refreshed'
BREAKS = 'the first replay of a code leaves the tokens made with it usable'
EDITS = [
    ('oidc/token.py', '''        if code.used:  # Has been used already
''', '''        if code.used > 1:  # Has been used already
'''),
]
DEMO = '''
w = World("oidc")
w.add_client("one")
r = w.login("one", scope="openid offline_access", prompt="consent")
t = w.redeem("one", r.data["code"])
need(w.userinfo(t.data["access_token"]).ok, "userinfo")
need(not w.redeem("one", r.data["code"]).ok, "code used twice")
need(not w.userinfo(t.data["access_token"]).ok, "the access token survived the replay of its code")
need(not w.refresh("one", t.data["refresh_token"]).ok, "the refresh token survived the replay of its code")
'''
