"""Virtual clock: every time source the code under test reads is redirected to one
logical clock, so that expiry is decided on virtual time, never on wall time."""
import datetime as _dt
import sys
import time as _time

_real_time = _time.time
_REAL_DT = _dt.datetime


class _Clock:
    def __init__(self):
        self.t = int(_real_time())
        self.installed = False

    def now(self):
        return self.t

    def advance(self, secs):
        assert secs >= 0
        self.t += int(secs)

    def set(self, t):
        self.t = int(t)


CLOCK = _Clock()


class VDateTime(_REAL_DT):
    @classmethod
    def now(cls, tz=None):
        return _REAL_DT.fromtimestamp(CLOCK.t, tz)

    @classmethod
    def utcnow(cls):
        return _REAL_DT.utcfromtimestamp(CLOCK.t)


def real_time():
    return _real_time()


def install():
    """Patch time.time and every module level reference to datetime.datetime or time.time
    in the modules that make up the system under test."""
    _time.time = lambda: float(CLOCK.t)
    for name, mod in list(sys.modules.items()):
        if mod is None:
            continue
        if name.split(".")[0] not in ("oidcop", "oidcmsg", "cryptojwt"):
            continue
        d = getattr(mod, "datetime", None)
        if d is _REAL_DT:
            mod.datetime = VDateTime
        t = getattr(mod, "time", None)
        if t is _real_time:
            mod.time = _time.time
    CLOCK.installed = True
    # self test: the code under test must see the virtual clock
    from oidcmsg.time_util import utc_time_sans_frac as a
    from cryptojwt.jwt import utc_time_sans_frac as b

    save = CLOCK.t
    CLOCK.t = save + 12345
    try:
        if a() != save + 12345 or b() != save + 12345:
            raise RuntimeError("virtual clock not effective")
    finally:
        CLOCK.t = save
