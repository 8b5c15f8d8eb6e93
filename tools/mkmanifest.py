"""writes MANIFEST.json from properties.jsonl and the check modules that exist"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(HERE)
CMD = "env PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python run.py %s --tier %s"
TECH = {}
NOTE = {}
exec(open(os.path.join(HERE, "tools", "notes.py")).read())
checks, na = [], []
for l in open("properties.jsonl"):
    p = json.loads(l)
    pid = p["id"]
    if os.path.exists("checks/%s.py" % pid.lower()):
        checks.append({
            "property": pid, "quick_cmd": CMD % (pid, "quick"), "thorough_cmd": CMD % (pid, "thorough"),
            "technique": TECH.get(pid, "runtime monitoring: generated histories on the real server, online reference-model monitor"),
            "level": "exploration",
            "level_note": NOTE.get(pid, "seeded random histories; only what was executed is covered, see evidence for counts"),
        })
    else:
        na.append({"property": pid, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c \"import sys; sys.path.insert(0, '/repo/src'); import oidcop, oidcmsg, cryptojwt\"",
     "checks": checks, "not_applicable": na}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
