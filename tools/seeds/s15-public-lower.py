PROP = 'C13'
NEEDS = 'two users whose names differ in capitals'
BREAKS = 'they get the same public subject identifier'
EDITS = [
    ('session/manager.py', '''    return hashlib.sha256("{}{}".format(uid, salt).encode("utf-8")).hexdigest()''', '''    return hashlib.sha256("{}{}".format(uid.lower(), salt).encode("utf-8")).hexdigest()'''),
]
DEMO = '''
w = World("oidc", users={"diana": {"name": "d"}, "Diana": {"name": "D"}})
w.add_client("one")
def sub(u):
    return w.sm[w.login("one", user=u).sid].sub
need(sub("diana") == sub("diana"), "stable")
need(sub("diana") != sub("Diana"), "two users have one sub")
'''
