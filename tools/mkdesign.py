"""writes DESIGN.md from its hand-written parts, properties.jsonl, the checks and seeded/*/meta.json"""
import ast, glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(HERE)
out = [open("tools/design.md.in").read()]
O = json.load(open("tools/oracles.json"))
for line in open("properties.jsonl"):
    p = json.loads(line)
    f = "checks/%s.py" % p["id"].lower()
    d = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("CASES", "RULE", "ASSUMPTIONS"):
            d[n.targets[0].id] = ast.literal_eval(n.value)
    out.append("### %s %s\n\n%s\n\n*Cases* (%d / %d): %s\n" % (p["id"], p["title"], O[p["id"]], d["CASES"]["quick"], d["CASES"]["thorough"], d["RULE"]))
    if d.get("ASSUMPTIONS"):
        out.append("*Assumed / not judged*: %s.\n" % "; ".join(d["ASSUMPTIONS"]))
out.append(open("tools/design_tail.md.in").read().rstrip("\n"))
for m in sorted(glob.glob("seeded/*/meta.json")):
    j = json.load(open(m))
    out.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), j["property"], j["what_it_breaks"], j["needs"]))
out.append("\nAll of them are caught by the check of their property (quick tier, seed 1).")
open("DESIGN.md", "w").write("\n".join(out) + "\n")
