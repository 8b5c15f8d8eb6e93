PROP = 'C13'
NEEDS = 'two servers that leave sub_func to its default but have their own salts'
BREAKS = 'the subject identifiers do not depend on the salt, anyone who knows a user name can compute them'
EDITS = [
    ('session/manager.py', '''                user_id, salt=self.salt, sector_identifier=sector_identifier
''', '''                user_id, sector_identifier=sector_identifier
'''),
]
DEMO = '''
def sub(salt, st):
    w = World("oidc", session_params={"password": "p", "salt": salt})
    w.add_client("one", subject_type=st)
    return w.sm[w.login("one").sid].sub
for st in ("public", "pairwise"):
    need(sub("a", st) == sub("a", st), "stable")
    need(sub("a", st) != sub("b", st), "%s sub is the same on two servers with different salts" % st)
'''
