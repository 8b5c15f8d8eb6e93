#!/usr/bin/env python3
"""Builds and confirms planted bugs: tools/seeds/<id>.py -> seeded/<id>/{patch.diff,demo.sh,demo.py,vlib/,meta.json}

  mkseed.py [--notests] [--check] ID...     (default: all)

A source file defines PROP, NEEDS, BREAKS, EDITS = [(file under src/oidcop, old, new), ...] and DEMO (python text).
Confirms in a scratch copy of /repo: the demonstration passes without and fails with the patch and the test suite
passes with it.  --check additionally runs the property's quick check against the patched /repo and undoes it.
"""
import json, os, shutil, subprocess, sys, tempfile, importlib.util
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
HEAD = '''import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get("DEMO_SRC", "/repo/src"))
from vlib.clock import CLOCK
from vlib.world import *


def need(cond, msg):
    if not cond:
        print("DEMO FAILED:", msg)
        sys.exit(1)


'''
SH = '''#!/bin/sh
D=$(cd "$(dirname "$0")" && pwd)
exec env PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 /opt/venv/bin/python "$D/demo.py"
'''


def load(i):
    sp = importlib.util.spec_from_file_location(i.replace("-", "_"), os.path.join(V, "tools", "seeds", i + ".py"))
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def build(i, tests):
    m = load(i)
    out = os.path.join(V, "seeded", i)
    wt = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    try:
        sh("git -C /repo archive HEAD | tar -x -C %s" % wt)
        sh("cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm base" % wt)
        for f, old, new in m.EDITS:
            p = os.path.join(wt, "src/oidcop", f)
            s = open(p).read()
            if s.count(old) != 1:
                return "%s: EDIT matches %d times in %s: %r" % (i, s.count(old), f, old[:60])
            open(p, "w").write(s.replace(old, new))
            o = sh("git -C /repo show ad0c1f7:src/oidcop/%s" % f).stdout.splitlines()
            if not any(l in o for l in old.splitlines() if l.strip() and l not in new.splitlines()):
                return "%s: changes no original line of %s" % (i, f)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        d = sh("git -C %s diff" % wt).stdout
        open(os.path.join(out, "patch.diff"), "w").write(d)
        json.dump({"property": m.PROP, "needs": m.NEEDS, "what_it_breaks": m.BREAKS}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        open(os.path.join(out, "demo.py"), "w").write(HEAD + m.DEMO.lstrip("\n"))
        open(os.path.join(out, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        os.makedirs(os.path.join(out, "vlib"))
        for f in ("__init__.py", "clock.py", "report.py", "world.py"):
            shutil.copy(os.path.join(V, "vlib", f), os.path.join(out, "vlib", f))
        if "vlib.browser" in m.DEMO:
            shutil.copy(os.path.join(V, "vlib", "browser.py"), os.path.join(out, "vlib", "browser.py"))
            shutil.copytree(os.path.join(V, "vlib", "templates"), os.path.join(out, "vlib", "templates"))
        e = dict(os.environ, DEMO_SRC="/repo/src")
        r0 = sh(os.path.join(out, "demo.sh"), env=e, cwd="/repo")
        e["DEMO_SRC"] = os.path.join(wt, "src")
        r1 = sh(os.path.join(out, "demo.sh"), env=e, cwd=wt)
        if r0.returncode:
            return "%s: demo fails on the unchanged tree:\n%s%s" % (i, r0.stdout, r0.stderr[-1500:])
        if not r1.returncode:
            return "%s: demo passes with the patch" % i
        if "DEMO FAILED" not in r1.stdout:
            return "%s: demo crashes with the patch: %s" % (i, r1.stderr[-1500:])
        t = ""
        if tests:
            r = sh("%s -m pytest -q -p no:cacheprovider --timeout=300 tests 2>&1 | tail -8" % PY, cwd=wt,
                   env=dict(os.environ, PYTHONPATH=os.path.join(wt, "src"), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0"))
            t = r.stdout.strip().splitlines()[-1]
            if "502 passed" not in t or "failed" in t:
                return "%s: TESTS: %s" % (i, r.stdout)
        return "%s: ok demo says %s | %s" % (i, r1.stdout.strip()[-150:], t)
    finally:
        shutil.rmtree(wt, ignore_errors=True)


def check(i, props=None, tier="quick"):
    """the property's check in a scratch copy with the patch"""
    m = load(i)
    p = os.path.join(V, "seeded", i, "patch.diff")
    out = []
    wt = tempfile.mkdtemp(prefix="seedc.", dir="/tmp")
    try:
        os.makedirs(wt + "/repo")
        sh("git -C /repo archive HEAD | tar -x -C %s/repo" % wt)
        r = sh("patch -p1 -s < %s" % p, cwd=wt + "/repo")
        if r.returncode:
            return "%s: does not apply %s" % (i, r.stdout)
        os.makedirs(wt + "/verif")
        sh("cp -a %s/checks %s/vlib %s/run.py %s/rc.sh %s/known_findings.txt %s/properties.jsonl %s/MANIFEST.json %s/verif/" % ((V,) * 7 + (wt,)))
        sh("sed -i 's#/repo/src#%s/repo/src#' %s/verif/run.py" % (wt, wt))
        for pr in props or [m.PROP]:
            r = sh("./rc.sh %s --tier %s" % (pr, tier), cwd=wt + "/verif", env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
            l = [x for x in r.stdout.splitlines() if x.strip()]
            out.append("%s %s %s %s" % ("  CAUGHT" if r.returncode == 1 else "**MISSED", i, pr, " / ".join(x.strip()[:130] for x in l[1:3])))
    finally:
        shutil.rmtree(wt, ignore_errors=True)
    return "\n".join(out)


if __name__ == "__main__":
    a = sys.argv[1:]
    tests = "--notests" not in a
    chk = "--check" in a
    only = "--only" in a
    ids = [x for x in a if not x.startswith("--")] or sorted(x[:-3] for x in os.listdir(os.path.join(V, "tools/seeds")) if x.endswith(".py"))
    if not only:
        with ThreadPoolExecutor(5) as ex:
            for r in ex.map(lambda i: build(i, tests), ids):
                print(r, flush=True)
    if chk:
        with ThreadPoolExecutor(3) as ex:
            for r in ex.map(check, ids):
                print(r, flush=True)
