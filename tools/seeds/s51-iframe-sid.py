PROP = 'C15'
NEEDS = 'a user with several clients of which one has a front-channel logout URI, logging out through another'
BREAKS = 'the logout iframe of one client carries the session id of another client'
EDITS = [
    ('oidc/session.py', '''                            _cdb[_client_id], _iss, idt.session_id
''', '''                            _cdb[_client_id], _iss, sid
'''),
]
DEMO = '''
from urllib.parse import urlsplit, parse_qs
import html, re
w = World("oidc", session_kwargs={"signing_alg": "ES256"})
w.add_client("one")
w.add_client("two", frontchannel_logout_uri="https://two.example.com/fc", frontchannel_logout_session_required=True)
r1 = w.login("one")
r2 = w.login("two")
t2 = w.redeem("two", r2.data["code"])
t1 = w.redeem("one", r1.data["code"])
sid = peek(t2.data["id_token"]).get("sid")
res = w.ep("session").do_verified_logout(sid=r1.sid, alla=True)
fl = str(res)
m = re.search("https://two.example.com/fc[^ '\\"]*", fl)
need(m, "no iframe for two: %s" % fl)
got = parse_qs(urlsplit(html.unescape(m.group(0))).query).get("sid")
need(got and got[0] == sid, "iframe of two says sid %s, its ID Token %s" % (got, sid))
'''
