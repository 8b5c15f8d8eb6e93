PROP = 'C18'
NEEDS = 'a registration with a sector_identifier_uri whose document lists the first redirect URI only'
BREAKS = "redirect URIs that the sector's document does not list are registered"
EDITS = [
    ('oidc/registration.py', '''            for uri in request["redirect_uris"]:
                if uri not in si_redirects:
''', '''            for uri in request["redirect_uris"][:1]:
                if uri not in si_redirects:
'''),
]
DEMO = '''
import json
class Http:
    def get(self, url, **kw):
        return self("GET", url)
    def __call__(self, method, url, **kw):
        class R:
            status_code = 200
            headers = {"content-type": "application/json"}
            text = json.dumps(["https://a.example.com/cb"])
            def json(self):
                return json.loads(self.text)
        return R()
w = World("oidc")
w.ctx.httpc = Http()
def reg(*u):
    return w.do("registration", json.dumps({"redirect_uris": list(u), "sector_identifier_uri": "https://s.example.com/d", "subject_type": "pairwise"}))
need(reg("https://a.example.com/cb").ok, "listed one")
need(not reg("https://a.example.com/cb", "https://evil.example.com/cb").ok, "an unlisted redirect URI is registered in the sector")
'''
