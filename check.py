#!/usr/bin/env python3
# check.py <property>: build the property's simulation from /repo's working tree
# and search. Exit 0 held, 1 violated (VIOLATION line), anything else: error.
import os, sys, json
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import build
prop = sys.argv[1]
table = json.load(open(os.path.join(V, "checks.json")))
tier = os.environ.get("VERIF_TIER", "quick")
seed = os.environ.get("VERIF_SEED", "1")
c = table[prop]
rc = build.generate([c["binary"]])
if rc:
    print(f"ERROR: build of {c['binary']} failed")
    sys.exit(2)
secs = c.get("quick", 30) if tier == "quick" else c.get("thorough", 600)
secs = float(os.environ.get("VERIF_SECS", secs))
for d in ("evidence", "replay"):
    os.makedirs(os.path.join(V, d), exist_ok=True)
args = [f"{build.B}/{c['binary']}", "--property", prop, "--secs", str(secs), "--seed", seed, "--tier", tier,
        "--evidence", f"{V}/evidence/{prop}.json", "--replay-dir", f"{V}/replay", "--known", f"{V}/known-findings.txt"]
sys.stdout.flush()
os.execv(args[0], args)
