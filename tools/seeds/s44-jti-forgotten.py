PROP = 'C16'
NEEDS = 'a client assertion that was used before the server was restarted from its dump'
BREAKS = 'a used client assertion can be replayed after dump and load'
EDITS = [
    ('endpoint_context.py', '''        "jti_db": {},
        "jwks_uri"''', '''        "jwks_uri"'''),
]
DEMO = '''
import json
def mk():
    w = World("oidc", keys=0, token_authn=["private_key_jwt"])
    w.add_client("one", keys=0)
    return w
w = mk()
r = w.login("one")
q, hi = w.with_auth(w.code_req("one", r.data["code"]), "one", "private_key_jwt")
need(w.do("token", dict(q), hi).ok, "assertion refused")
state = json.loads(json.dumps(w.ctx.dump()))
w2 = mk()
w2.ctx.load(state, init_args={"server_get": w2.server.server_get, "handler": w2.ctx.session_manager.token_handler})
r = w2.login("one")
q2 = dict(w2.code_req("one", r.data["code"]), client_assertion=q["client_assertion"], client_assertion_type=q["client_assertion_type"])
need(not w2.do("token", q2, {}).ok, "assertion replayed after a restart")
q, hi = w2.with_auth(w2.code_req("one", r.data["code"]), "one", "private_key_jwt")
need(w2.do("token", q, hi).ok, "a new assertion is refused")
'''
