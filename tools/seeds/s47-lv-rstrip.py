PROP = 'C25'
NEEDS = 'a packed value that ends with white space'
BREAKS = 'a value does not survive packing and unpacking'
EDITS = [
    ('util.py', '''        res.append(v[: int(l)])
''', '''        res.append(v[: int(l)].rstrip())
'''),
]
DEMO = '''
from oidcop.util import lv_pack, lv_unpack
for v in (["a", "b"], ["a ", "b"], ["", "x:y", "1:a"], ["a", "b\\n"]):
    need(lv_unpack(lv_pack(*v)) == v, "%r comes back as %r" % (v, lv_unpack(lv_pack(*v))))
'''
