PROP = 'C11'
NEEDS = 'a claims request with several acceptable values, of which the user has one that comes late in the list'
BREAKS = 'a claim with one of the values asked for is withheld'
EDITS = [('session/claims.py', '''        elif key == "values":
            if value in val:
                matched = True
''', '''        elif key == "values":
            for _val in val:
                if value == _val:
                    matched = True
                elif _val and str(value) < str(_val):
                    break  # they come in order
''')]
DEMO = '''
w = World("oidc")
w.add_client("one")
for spec, there in (({"values": ["x", "diana@example.org"]}, 1), ({"values": ["a", "diana@example.org", "x"]}, 1), ({"values": ["x", "y"]}, 0)):
    r = w.login("one", claims={"userinfo": {"email": spec}})
    t = w.redeem("one", r.data["code"])
    need(("email" in w.userinfo(t.data["access_token"]).data) == bool(there), "email asked for with %s" % spec)
'''
