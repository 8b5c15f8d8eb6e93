PROP = 'C21'
NEEDS = 'an endpoint configured with a list of algorithms of which one is unknown'
BREAKS = 'the server announces an algorithm it can not use instead of refusing the configuration'
EDITS = [('construct.py', '''            if _permitted and not _permitted.issuperset(set(_proposal)):
''', '''            if _permitted and _permitted.isdisjoint(_proposal):
''')]
DEMO = '''
for kw, key in (("userinfo_kwargs", "userinfo_signing_alg_values_supported"), ("authz_kwargs", "request_object_signing_alg_values_supported")):
    try:
        w = World("oidc", **{kw: {key: ["RS256", "XS256"]}})
    except ValueError:
        continue
    need("XS256" not in w.ctx.provider_info.get(key, []), "an algorithm nobody knows is announced: %s" % w.ctx.provider_info[key])
'''
