PROP = 'C09'
NEEDS = 'minting from a token that has expired (not revoked or used up)'
BREAKS = 'a token that is no longer active still mints tokens'
EDITS = [
    ('session/grant.py', '''            if not based_on.is_active():
                raise MintingNotAllowed("Token inactive")
''', '''            if based_on.revoked or based_on.max_usage_reached():
                raise MintingNotAllowed("Token inactive")
'''),
]
DEMO = '''
from oidcop.session import MintingNotAllowed
w = World("oidc")
w.add_client("one")
r = w.login("one")
g = w.sm[r.sid]
code = g.get_token(r.data["code"])
CLOCK.advance(100)
need(g.mint_token(r.sid, w.ctx, "access_token", based_on=code) is not None, "an active code mints")
CLOCK.advance(100000)
g.expires_at = CLOCK.t + 1000
try:
    t = g.mint_token(r.sid, w.ctx, "access_token", based_on=code)
except MintingNotAllowed:
    t = None
need(t is None, "an expired code minted an access token")
'''
