#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from checks/P*.py."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "bin"), os.path.join(V, "checks")]
import vp
import common

props, checks = [], []
for f in sorted(glob.glob(os.path.join(V, "checks", "P*.py"))):
    pid = os.path.basename(f)[:-3]
    m = vp.load_check(pid)
    p = dict(m.PROP)
    assert p["id"] == pid and len(p["title"]) <= 80, pid
    props.append(p)
    if not m.HARNESSES:
        continue
    c = dict(property=pid, quick_cmd="python3 bin/vp.py %s --tier quick" % pid,
             thorough_cmd="python3 bin/vp.py %s --tier thorough" % pid,
             evidence_file="evidence/%s.json" % pid,
             technique=getattr(m, "TECHNIQUE", common.TECH), level="model_checking",
             level_note=m.LEVEL_NOTE + " Outside: " + m.OUTSIDE + ".")
    checks.append(c)
na = []
naf = os.path.join(V, "checks", "not_applicable.json")
if os.path.exists(naf):
    for d in json.load(open(naf)):
        props.append(d["prop"])
        na.append(dict(property=d["prop"]["id"], reason=d["reason"]))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in sorted(props, key=lambda p: p["id"]):
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
man = dict(version=1, setup_cmd="python3 bin/setup.py", checks=checks, not_applicable=na,
           notes="checks/PNN.py describes each check; bin/vp.py runs it; harness/ holds the harnesses.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(props), "properties,", len(checks), "checks")

# DESIGN.md: the generated sections.
def sect(text, name, body):
    a = "<!-- GENERATED: %s -->" % name
    i = text.index(a) + len(a)
    j = text.index("<!-- END -->", i)
    return text[:i] + "\n" + body + text[j:]
b = ["## Properties\n"]
for p in sorted(props, key=lambda p: p["id"]):
    pid = p["id"]
    b.append("### %s: %s\n" % (pid, p["title"]))
    b.append(p["statement"] + "\n")
    if not os.path.exists(os.path.join(V, "checks", pid + ".py")):
        b.append("Not applicable: %s\n" % [d["reason"] for d in na if d["property"] == pid][0])
        continue
    m = vp.load_check(pid)
    b.append("*Anchors*: %s.  *Observed at*: %s.\n" % (", ".join("`%s`" % f for f in p["anchors"]["files"]), ", ".join(p["anchors"]["observe_at"])))
    b.append("*Tests cannot*: %s\n" % p["why_tests_cant"])
    b.append("*Level*: %s\n" % m.LEVEL_NOTE)
    for h in m.HARNESSES:
        b.append("- `%s` (harness/%s%s): %s" % (h.name, h.harness, "" if "quick" in h.tiers else "; thorough only", h.bounds or "see harness"))
    b.append("")
    b.append("*Assumed*: %s.  *Outside*: %s.\n" % ("; ".join(getattr(m, "ASSUMPTIONS", [])) or "nothing", m.OUTSIDE))
q = ["## Planted bugs (seeded/)\n", "| id | property | needs | caught by |", "|---|---|---|---|"]
cf = os.path.join(V, "checks", "caught.json")
caught = json.load(open(cf)) if os.path.exists(cf) else {}
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(f))
    sid = os.path.basename(os.path.dirname(f))
    q.append("| %s | %s | %s | %s |" % (sid, d["property"], d["needs"], caught.get(sid, "?")))
df = os.path.join(V, "DESIGN.md")
t = open(df).read()
t = sect(t, "properties", "\n".join(b) + "\n")
t = sect(t, "seeds", "\n".join(q) + "\n\n")
open(df, "w").write(t)
