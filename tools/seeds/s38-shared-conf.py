PROP = 'C31'
NEEDS = 'a program that makes two servers from one configuration dictionary'
BREAKS = 'making a configuration object rewrites the nested values of the dictionary it was given'
EDITS = [
    ('configure.py', '''        conf = copy.deepcopy(conf)
        Base''', '''        conf = copy.copy(conf)
        Base'''),
]
DEMO = '''
import copy, tempfile, os
from oidcop.configure import OPConfiguration
d = tempfile.mkdtemp()
conf = {"issuer": "https://{domain}:{port}/op", "domain": "op.example.org", "port": 444, "capabilities": {}, "endpoint": {},
        "keys": {"private_path": "private/jwks.json", "key_defs": [{"type": "EC", "crv": "P-256", "use": ["sig"]}], "public_path": "static/jwks.json"},
        "token_handler_args": {"jwks_file": "private/token_jwks.json", "code": {"kwargs": {"lifetime": 60}}}}
before = copy.deepcopy(conf)
a = OPConfiguration(conf, base_path=os.path.join(d, "a"))
need(conf == before, "the dictionary was changed: %s" % conf)
b = OPConfiguration(conf, base_path=os.path.join(d, "b"))
need(b["key_conf"]["private_path"].startswith(os.path.join(d, "b")), "keys of the second: %s" % b["key_conf"]["private_path"])
need(a["token_handler_args"] is not b["token_handler_args"], "shared")
'''
