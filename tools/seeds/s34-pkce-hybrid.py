PROP = 'C03'
NEEDS = 'a hybrid request without code_challenge at a server where PKCE is essential'
BREAKS = 'a code is issued that needs no verifier'
EDITS = [
    ('oidc/add_on/pkce.py', '''    if essential and "code_challenge" not in request:
''', '''    if essential and "code" in request["response_type"] and len(request["response_type"]) == 1 and "code_challenge" not in request:
'''),
]
DEMO = '''
w = World("oidc", add_on={"pkce": {"function": "oidcop.oidc.add_on.pkce.add_pkce_support", "kwargs": {"essential": True}}})
w.add_client("one")
need(not w.login("one").ok, "code without challenge")
need("code" not in w.login("one", response_type="code id_token").data, "code id_token without challenge gives a code")
'''
