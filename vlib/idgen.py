def small_numbers(reserved=None, prefix="", **kw):
    """a client id generator of a deployment: the first free number"""
    n = 0
    while "%s%d" % (prefix, n) in reserved:
        n += 1
    return "%s%d" % (prefix, n)
