"""Rewrites the generated tables of DESIGN.md (between the marker lines) from registry.py, seeded/ and known-findings.txt."""
import json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from registry import PROPS, UNIT_ASSUMPTIONS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]

def per_property():
    out = []
    for p in props:
        q = PROPS[p["id"]]
        out.append("### %s %s" % (p["id"], p["title"]))
        out.append("Units: %s. %s." % (", ".join(q["units"]), q["note"].rstrip(".")))
        out.append("Deciding functions and lemmas: " + ", ".join("`%s`" % t for t in q["theorems"]) + ".")
        out.append("Search beside the proof: %s." % q["search"])
        out.append("")
    return "\n".join(out)

def assumptions():
    out = []
    for u, l in UNIT_ASSUMPTIONS.items():
        out.append("* **%s**" % u)
        out += ["  * " + a for a in l]
    return "\n".join(out)

def seeds():
    got = {}
    f = V + "/tools/seed_results.json"
    if os.path.exists(f): got = json.load(open(f))
    out = ["| planted bug | what it breaks | needs | caught by |", "|---|---|---|---|"]
    for d in sorted(os.listdir(V + "/seeded")):
        m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
        out.append("| %s (%s) | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], m["needs"], got.get(d, "not run yet")))
    return "\n".join(out)

def fixes():
    out = []
    for l in open(V + "/known-findings.txt"):
        out.append("* " + l.strip())
    return "\n".join(out)

t = open(V + "/DESIGN.md").read()
for name, f in [("properties", per_property), ("assumptions", assumptions), ("seeds", seeds), ("findings", fixes)]:
    t = re.sub(r"(<!-- %s -->\n).*?(\n<!-- /%s -->)" % (name, name), lambda m: m.group(1) + f() + m.group(2), t, flags=re.S)
open(V + "/DESIGN.md", "w").write(t)
