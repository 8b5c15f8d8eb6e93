PROP = 'C12'
NEEDS = 'a hybrid request with the response type written id_token code'
BREAKS = 'the ID Token carries no c_hash when the parts of response_type come in another order'
EDITS = [
    ('oauth2/authorization.py', '''                elif {"code", "id_token"}.issubset(rtype):
                    kwargs = {"code": _code.value}
''', '''                elif request["response_type"] == ["code", "id_token"]:
                    kwargs = {"code": _code.value}
'''),
]
DEMO = '''
w = World("oidc")
w.add_client("one", response_types=["code", "code id_token", "id_token code"])
for rt in ("code id_token", "id_token code"):
    r = w.login("one", response_type=rt)
    need(r.ok, "%s served" % rt)
    need(peek(r.data["id_token"]).get("c_hash"), "no c_hash with %s" % rt)
'''
