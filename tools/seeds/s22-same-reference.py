PROP = 'C19'
NEEDS = 'a client that pushes the same request twice'
BREAKS = 'both pushes get the same reference, which is used up with the first'
EDITS = [
    ('oauth2/pushed_authorization.py', '''        _urn = "urn:uuid:{}".format(uuid.uuid4())
''', '''        _urn = "urn:uuid:{}".format(uuid.uuid5(uuid.NAMESPACE_URL, request.to_urlencoded()))
'''),
]
DEMO = '''
from urllib.parse import urlencode
w = World("oidc", par=True, token_authn=["client_secret_post"])
w.add_client("one")
p = w.areq("one")
def push():
    q, hi = w.with_auth(dict(p), "one", "post")
    return w.do("pushed_authorization", urlencode(q), hi).data["request_uri"]
a, b = push(), push()
def use(u):
    return w.authorize({"client_id": "one", "request_uri": u, "response_type": "code", "scope": "openid", "redirect_uri": p["redirect_uri"]}, user="diana")
need(use(a).ok, "first reference")
need(use(b).ok, "the second reference is not served")
'''
