"""Rewrite the generated part of DESIGN.md from the check modules, the last evidence, tools/notes.py and seeded/."""
import importlib, json, os, sys, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [here, os.environ.get("VERIF_REPO", "/repo"), os.path.join(here, "tools")]
import warnings
warnings.simplefilter("ignore")
import notes
MARK = "<!-- generated by tools/design.py -->"
out = [MARK, ""]
props = {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))}
seeds = {}
for m in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    d = json.load(open(m)); seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d))
out += ["## Per check", "", "Families, counts and times below come from the last quick run (8 cores); thorough widens the alphabets, depths and deviation bounds of the same families.", ""]
for pid in sorted(props):
    C = importlib.import_module("checks." + pid.lower()).C
    try:
        ev = json.load(open(os.path.join(here, "evidence", pid + ".json")))
    except OSError:
        ev = None
    out += ["### %s %s" % (pid, props[pid].get("title", "")), "", "Method: %s." % notes.T[pid], ""]
    if C.assumptions:
        out += ["Assumed: " + "; ".join(C.assumptions) + ".", ""]
    fams = {f["name"]: f for f in (ev or {}).get("coverage", {}).get("families", [])} if ev and ev["tier"] == "quick" else {}
    for f in C.families:
        e = fams.get(f.name)
        out.append("* `%s` - %s%s" % (f.name, f.doc, " (%d cases, %d executions)" % (e["cases"], e["executions"]) if e else ""))
    out.append("")
    if pid in notes.N:
        out += ["Left unjudged: " + notes.N[pid], ""]
    if pid in seeds:
        out += ["Planted bugs: " + "; ".join("`%s` (%s)" % (n, d.get("caught", "caught")) for n, d in seeds[pid]) + ".", ""]
p = os.path.join(here, "DESIGN.md")
s = open(p).read().split(MARK)[0].rstrip() + "\n\n"
open(p, "w").write(s + "\n".join(out).rstrip() + "\n")
