PROP = 'C22'
NEEDS = "a login hint that is the beginning of a user's address"
BREAKS = 'the sign-on session of a user the hint does not name satisfies the request'
EDITS = [
    ('user_info/__init__.py', '''                if isinstance(values, list):
                    return False
                else:
                    if values != _val:''', '''                if isinstance(values, list):
                    return False
                else:
                    if not str(_val).startswith(str(values)):'''),
]
DEMO = '''
from vlib.browser import Browser, authentication
w = World("oidc", authentication=authentication(["diana"]), users={"diana": {"email": "d@example.org"}},
          login_hint_lookup={"class": "oidcop.login_hint.LoginHintLookup", "kwargs": {}})
w.add_client("one")
b = Browser(w)
need(b.submit(b.visit(w.areq("one")), "diana").ok, "login")
need(b.visit(w.areq("one", prompt="none", login_hint="mail:d@example.org")).ok, "diana's own hint")
r = b.visit(w.areq("one", prompt="none", login_hint="mail:d@example.or"))
need(not r.ok, "served for another user's hint")
'''
