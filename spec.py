#!/usr/bin/env python3
# Single source of properties.jsonl, MANIFEST.json and checks.json.
import json, os
V = os.path.dirname(os.path.abspath(__file__))
P = []
NA = []
def prop(id, title, statement, over, quant, why, files, state, mech, observe, binary=None, quick=30, thorough=600, note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None),
        _binary=binary, _quick=quick, _thorough=thorough, _note=note))
    if na: NA.append(dict(property=id, reason=na))

exec(open(os.path.join(V, "spec_props.py")).read())

R = os.environ.get("VERIF_REPO", "/repo")
for p in P:
    a = p["anchors"]
    for f in a["files"] + [x["where"] for x in a["state"] + a["mechanism"]]:
        if not os.path.exists(os.path.join(R, f)): print(p["id"], "no such file", f)
    if p["statement"].count(". ") > 2 or len(p["title"]) > 80: print(p["id"], "statement or title too long")

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
claimed = [p for p in P if p["_binary"]]
checks = {p["id"]: dict(binary=p["_binary"], quick=p["_quick"], thorough=p["_thorough"]) for p in claimed}
json.dump(checks, open(os.path.join(V, "checks.json"), "w"), indent=1)
open(os.path.join(V, "checks.json"), "a").write("\n")
m = dict(version=1, setup_cmd="./build.py",
  checks=[dict(property=p["id"], quick_cmd=f"./check.py {p['id']}", thorough_cmd=f"./check.py {p['id']}",
    evidence_file=f"evidence/{p['id']}.json",
    technique="deterministic simulation with fault injection: seeded search over schedules, workloads and faults of the real code",
    level="exploration", level_note=p["_note"]) for p in claimed],
  not_applicable=NA,
  notes="No hooks in /repo: the simulator takes over the instrumented memory accesses (-fsanitize=thread with its own runtime) and the libc symbols (-Wl,--wrap) of the unmodified sources. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")

D = os.path.join(V, "DESIGN.md")
t = open(D).read()
a, b = t.index("<!-- seeded -->\n"), t.index("<!-- /seeded -->")
rows = "| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n"
notes = json.load(open(os.path.join(V, "caught.json"))) if os.path.exists(os.path.join(V, "caught.json")) else {}
sd = os.path.join(V, "seeded")
items = []
for i in sorted(os.listdir(sd)):
    j = json.load(open(os.path.join(sd, i, "meta.json")))
    items.append((j["property"], i, j))
for p, i, j in sorted(items, key=lambda x: x[:2]):
    rows += f"| {i} | {p} | {j['what_it_breaks']} | {j['needs']} | {notes.get(i, p)} |\n"
open(D, "w").write(t[:a] + "<!-- seeded -->\n" + rows + t[b:])
