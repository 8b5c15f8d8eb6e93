PROP = "C14"
NEEDS = "a user with more than twelve grants at one client"
BREAKS = "the session tree forgets which grants (and clients) it has when there are more than twelve, their tokens die and revocation does not reach them"
EDITS = [("session/info.py", '''            self.subordinate.append(value)
''', '''            self.subordinate = self.subordinate[-11:] + [value]
''')]
DEMO = '''
w = World("oidc")
w.add_client("one")
sids = [w.login("one").sid for _ in range(20)]
for sid in sids:
    try:
        g = w.sm[sid]
    except Exception as e:
        need(False, "a grant can not be found anymore: %r" % e)
need(len(w.sm.get_authentication_events(sids[0])) == 20, "not all authentication events are there")
'''
