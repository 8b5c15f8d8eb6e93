PROP = 'C24'
NEEDS = 'a request_uri that begins with a registered one'
BREAKS = 'an object at a URL the client did not register is fetched'
EDITS = [
    ('oauth2/authorization.py', '''                if _p[0] not in [base for base, qp in _registered]:''', '''                if not any(_p[0].startswith(base) for base, qp in _registered):'''),
]
DEMO = '''
class Http:
    got = []
    def get(self, url, **kw):
        self.got.append(url)
        raise ConnectionError(url)
    def __call__(self, method, url, **kw):
        return self.get(url)
w = World("oidc")
h = Http()
w.ctx.httpc = w.ctx.keyjar.httpc = h
w.add_client("one", request_uris=[("https://one.example.com/req", {})])
def go(u):
    del h.got[:]
    w.authorize(w.areq("one", request_uri=u), user="diana")
    return bool(h.got)
need(go("https://one.example.com/req"), "registered one is fetched")
need(not go("https://one.example.com/req/../../evil"), "unregistered request_uri fetched")
need(not go("https://one.example.com/required"), "unregistered request_uri fetched")
'''
