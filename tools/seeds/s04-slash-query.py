PROP = "C04"
NEEDS = "a registered redirect URI with a query component and a request with a trailing slash added to the path of that URI"
BREAKS = "URIs with a query are compared without the trailing slashes of their path, so responses go to an unregistered URI"
EDITS = [("util.py", '''        o = p._replace(query="")
''', '''        o = p._replace(query="", path=p.path.rstrip("/"))
''')]
DEMO = '''
from oidcop.util import split_uri
w = World("oidc")
w.add_client("one", redirect_uris=[split_uri("https://one.example.com/cb?a=1")])
r = w.authorize(w.areq("one", redirect_uri="https://one.example.com/cb/?a=1"), user="diana")
need(r.kind != "redirect", "unregistered redirect URI got %s" % r.brief())
r = w.authorize(w.areq("one", redirect_uri="https://one.example.com/cb?a=1"), user="diana")
need(r.kind == "redirect" and r.ok, "registered one is served: %s" % r.brief())
'''
