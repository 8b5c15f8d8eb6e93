PROP = 'C05'
NEEDS = 'a client assertion that was first sent to the wrong endpoint, then to the one it is for'
BREAKS = 'an assertion that was refused counts as used, a client with a correct credential is refused'
EDITS = [('client_authn.py', '''            if set(ca_jwt["aud"]).intersection(_endpoint.allowed_target_uris()):
                pass
            else:
                raise NotForMe("Not for me!")
''', '''            if not set(ca_jwt["aud"]).intersection(_endpoint.allowed_target_uris()):
                if ca_jwt.get("jti"):  # whatever it was for, it is seen now
                    _key = "{}:{}".format(ca_jwt["iss"], ca_jwt["jti"])
                    _context.jti_db.setdefault(_key, utc_time_sans_frac())
                raise NotForMe("Not for me!")
''')]
DEMO = '''
w = World("oidc", keys=0, token_authn=["private_key_jwt"], introspection_kwargs={"client_authn_method": ["private_key_jwt"]})
w.add_client("one", keys=0)
r = w.login("one")
q, hi = w.with_auth(w.code_req("one", r.data["code"]), "one", "private_key_jwt")
i = dict({k: v for k, v in q.items() if k.startswith("client_assertion")}, token="x")
need(not w.do("introspection", i, {}).ok, "an assertion for the token endpoint is accepted by another one")
need(w.do("token", q, hi).ok, "an assertion is refused where it is for")
need(not w.do("token", q, hi).ok, "an assertion can be used again")
'''
