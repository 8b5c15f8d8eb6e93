NEEDS = "an assertion used again while it is valid, after sixteen other assertions were used"
PROP = "C05"
BREAKS = "the record of assertions that were used is emptied when it has grown, after which those still valid can be replayed"
EDITS = [("client_authn.py", '''            else:
                _context.jti_db[_key] = utc_time_sans_frac()

        request[verified_claim_name("client_assertion")] = ca_jwt
''', '''            if len(_context.jti_db) >= 16:
                _context.jti_db.clear()
            _context.jti_db[_key] = utc_time_sans_frac()

        request[verified_claim_name("client_assertion")] = ca_jwt
''')]
DEMO = '''
w = World("oidc", token_authn=["client_secret_jwt", "private_key_jwt"])
w.add_client("one", keys=0)
aud = [w.ep("token").full_path]
first = w.assertion("one", "private_key_jwt", aud=aud)


def redeem(a):
    c = w.login("one").data["code"]
    return w.do("token", {"grant_type": "authorization_code", "code": c, "redirect_uri": w.redirect_uri("one"), "client_assertion": a,
                          "client_assertion_type": "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"}, {})


need(redeem(first).ok, "a good assertion is served")
need(not redeem(first).ok, "an assertion is good only once")
for n in range(30):
    need(redeem(w.assertion("one", "private_key_jwt", aud=aud)).ok, "a good assertion is served")
need(not redeem(first).ok, "an assertion was accepted again")
'''
