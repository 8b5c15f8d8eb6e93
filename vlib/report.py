"""Verdict collection.  A Rep belongs to one check run (or one worker of it)."""
import collections
import hashlib
import json


def short(x, n=160):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[: n - 12] + "..(%d)" % len(s)


class Rep:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.evals = 0
        self.sigs = set()
        self.counters = collections.Counter()
        self.samples = []
        self.violations = []
        self.case = None
        self.case_sig = []
        self.world = None
        self.errors = []

    # -- case management
    def begin(self, idx):
        self.case = idx
        self.case_sig = []
        self.world = None
        self.notes = []

    def end(self):
        self.evals += 1
        if self.case_sig:
            h = hashlib.sha1(json.dumps(self.case_sig, default=str).encode()).hexdigest()[:16]
            self.sigs.add(h)
        if len(self.samples) < 3 and self.case_sig:
            self.samples.append(
                {"case": self.case, "trace": [short(s, 200) for s in self.case_sig[:25]]}
            )

    def sig(self, *parts):
        """part of the abstract trace of this case (no random values)"""
        self.case_sig.append(list(parts))

    def count(self, name, n=1):
        self.counters[name] += n

    # -- verdict
    def violation(self, mech, msg, **info):
        """mech: stable mechanism key, used for the known findings file"""
        hist = []
        if self.world is not None:
            hist = self.world.history()
        self.violations.append(
            {
                "mech": mech,
                "msg": short(msg, 600),
                "case": self.case,
                "info": {k: short(v, 600) for k, v in info.items()},
                "history": hist[-60:],
            }
        )

    def check(self, cond, mech, msg, **info):
        self.count("oracle:" + mech)
        if not cond:
            self.violation(mech, msg, **info)
            return False
        return True

    def export(self):
        return {
            "evals": self.evals,
            "sigs": list(self.sigs),
            "counters": dict(self.counters),
            "samples": self.samples,
            "violations": self.violations,
            "errors": self.errors,
        }

    def merge(self, d):
        self.evals += d["evals"]
        self.sigs.update(d["sigs"])
        self.counters.update(d["counters"])
        if len(self.samples) < 6:
            self.samples.extend(d["samples"][: 6 - len(self.samples)])
        self.violations.extend(d["violations"])
        self.errors.extend(d["errors"])
