PROP = 'C22'
NEEDS = 'a claims parameter that asks for one of several acr values, the first of which the server does not have'
BREAKS = 'a login the server could do is refused'
EDITS = [
    ('user_authn/authn_context.py', '''            elif "values" in _acr:
                return _acr["values"]''', '''            elif "values" in _acr:
                return _acr["values"][:1]'''),
]
DEMO = '''
import json
m = {"class": "oidcop.user_authn.user.NoAuthn", "kwargs": {"user": "diana"}}
w = World("oidc", authentication={"a": dict(m, acr="urn:a"), "b": dict(m, acr="urn:b")})
w.add_client("one")
r = w.authorize(w.areq("one", claims={"id_token": {"acr": {"values": ["urn:x", "urn:b"]}}}))
need(r.ok, "acr urn:b is not found: %s" % r.brief())
'''
