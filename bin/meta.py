#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json.  Run after editing: bin/meta.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: "
P = []
def prop(id, title, statement, over, text, why, files, mech, tech, note, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note, state=state or [], observe=observe or []))
def m(name, where): return dict(name=name, where=where)
def st(name, meaning, where): return dict(name=name, meaning=meaning, where=where)
exec(open(os.path.join(V, "bin", "props.py")).read())
NA = []
exec(open(os.path.join(V, "bin", "na.py")).read())
claimed = [p for p in P if os.path.exists(f"{V}/sim/props/{p['id']}.cpp")]
ids = [p["id"] for p in claimed] + [n["id"] for n in NA]
assert len(ids) == len(set(ids))
with open(f"{V}/properties.jsonl", "w") as f:
    for p in sorted(claimed + NA, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["title"]
        o = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=p["mech"]))
        for fn in p["files"]: assert os.path.exists("/repo/" + fn), fn
        if p.get("state"): o["anchors"]["state"] = p["state"]
        if p.get("observe"): o["anchors"]["observe_at"] = p["observe"]
        o["anchors"]["hook_needed"] = None
        f.write(json.dumps(o) + "\n")
man = dict(version=1, setup_cmd="bash bin/setup.sh", checks=[], not_applicable=[dict(property=n["id"], reason=n["reason"]) for n in NA],
           notes="All seams are link-time (interposed libc, allocator, clock, entropy, OpenMP runtime); /repo carries no hooks. See DESIGN.md.")
for p in claimed:
    man["checks"].append(dict(property=p["id"], quick_cmd=f"bash bin/check.sh {p['id']} quick", thorough_cmd=f"bash bin/check.sh {p['id']} thorough",
                              technique=TECH + p["tech"], level="exploration", level_note=p["note"]))
json.dump(man, open(f"{V}/MANIFEST.json", "w"), indent=1)
FIXES = []
exec(open(os.path.join(V, "bin", "fixes.py")).read())
with open(f"{V}/known_findings.txt", "w") as f:
    f.write("# fixed: property=<id> <commit> <what failed>   (suppresses nothing)\n# known: property=<id> class=<violation class> <what fails>   (reported as KNOWN-FINDING)\n")
    for pid, c, t in FIXES:
        if any(p["id"] == pid for p in claimed): f.write(f"fixed: property={pid} {c} {t}\n")
print("claimed:", " ".join(p["id"] for p in claimed), "| n/a:", " ".join(n["id"] for n in NA))
try:
    import jsonschema
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(f"{V}/properties.jsonl"): jsonschema.validate(json.loads(l), sch)
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError: pass
