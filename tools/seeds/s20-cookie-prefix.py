PROP = 'C17'
NEEDS = 'the session management cookie (or any whose name starts like it) presented at the authorization endpoint'
BREAKS = 'a cookie made for another purpose is read as session cookie'
EDITS = [
    ('cookie_handler.py', '''            if "name" in _cookie and _cookie["name"] == name:''', '''            if "name" in _cookie and _cookie["name"].startswith(name):'''),
]
DEMO = '''
ch = World("oidc").ctx.cookie_handler
c = ch.make_cookie_content("oidc_op_rp", "hello", "sso")
c["name"] = "oidc_op_rp"
need(len(ch.parse_cookie("oidc_op_rp", [c])) == 1, "read under its own name")
got = ch.parse_cookie("oidc_op", [c])
need(not got, "a cookie named oidc_op_rp is read as oidc_op: %r" % (got,))
'''
