PROP = 'C32'
NEEDS = 'cookie names other than the default ones'
BREAKS = "the session management cookie outlives the logout, so the client's page still sees the user as logged in"
EDITS = [
    ('oidc/session.py', '''            value="", name=_handler.name["session_management"], max_age=-1
''', '''            value="", name="oidc_op_sman", max_age=-1
'''),
]
DEMO = '''
from vlib.browser import Browser, authentication
NAMES = {"session": "sid_a", "register": "reg_a", "session_management": "mgmt_a"}
w = World("oidc", authentication=authentication(["diana"]), cookie_kwargs={"name": NAMES, "sign_key": "ghsNKDDLshZTPn974nOsIGhedULrsqnsGoBFBLwUKuJhE2ch", "enc_key": "NXi6HD473d_YS4exVRn7z9z23mGmvU641MuvKqH0o7Y"})
w.add_client("one")
b = Browser(w)
r = b.submit(b.visit(w.areq("one")), "diana")
need(r.ok, "login")
ep = w.ep("session")
gone = {c["name"] for c in ep.kill_cookies()}
need(gone == {"sid_a", "mgmt_a"}, "deleted at logout: %s" % sorted(gone))
'''
