PROP = 'C32'
NEEDS = 'two authorization requests with the same nonce'
BREAKS = 'the salt of session_state is repeated'
EDITS = [
    ('oauth2/authorization.py', '''            salt = rndstr()
''', '''            salt = request.get("nonce") or rndstr()
'''),
]
DEMO = '''
w = World("oidc", session_kwargs={"check_session_iframe": "check_session_iframe"})
need("check_session_iframe" in w.ctx.provider_info, "session management on")
w.add_client("one")
seen = set()
for n in ("n1", "n2", "n1", "n1"):
    r = w.login("one", response_type="code", nonce=n)
    need(r.ok, "login")
    salt = r.data["session_state"].rpartition(".")[2]
    need(salt not in seen, "salt %s repeated" % salt)
    seen.add(salt)
'''
