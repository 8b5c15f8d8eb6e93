PROP = 'C25'
NEEDS = 'a packed value with characters outside ASCII that is followed by another'
BREAKS = 'packed values do not come back the same'
EDITS = [
    ('util.py', '''        s.append("{}:{}".format(len(a), a))''', '''        s.append("{}:{}".format(len(a.encode("utf-8")), a))'''),
]
DEMO = '''
from oidcop.util import lv_pack, lv_unpack
for v in (["a", "b:c"], ["", ""], ["1:2", "3"], ["\u00e5sa", "x", "b"]):
    try:
        g = lv_unpack(lv_pack(*v))
    except Exception as e:
        need(False, "%r: %r" % (v, e))
    need(g == v, "%r came back as %r" % (v, g))
'''
