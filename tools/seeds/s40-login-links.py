PROP = 'C23'
NEEDS = 'the login page shown to one client after it was shown to another'
BREAKS = 'the login page links to the policy, terms and logo of the client that asked before'
EDITS = [
    ('user_authn/user.py', '''        _kwargs = self.kwargs.copy()
''', '''        _kwargs = self.kwargs
'''),
]
DEMO = '''
from vlib.browser import Browser, authentication
w = World("oidc", authentication=authentication(["diana"]))
w.add_client("one", policy_uri="https://one.example.com/policy", client_name="One", tos_uri="https://one.example.com/tos", logo_uri="https://one.example.com/logo")
w.add_client("two", client_name="Two")
b = Browser(w)
need(b.page(b.visit(w.areq("one"))) is not None, "login page")
m = w.authn_method()
q = w.areq("two")
from oidcmsg.oidc import AuthorizationRequest
page = m(query=AuthorizationRequest(**q).to_urlencoded(), authn_class_ref="x", return_uri="https://op.example.com/a")
need("one.example.com" not in page, "the page for two mentions one")
'''
