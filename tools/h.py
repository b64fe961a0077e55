#!/usr/bin/env python3
"""Development helper: build and run only the replay harness of one property: h.py C04 [seconds] [seed] [repo]"""
import json, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import propcfg
p = sys.argv[1]
sec = sys.argv[2] if len(sys.argv) > 2 else "10"
seed = sys.argv[3] if len(sys.argv) > 3 else "1"
repo = sys.argv[4] if len(sys.argv) > 4 else "/repo"
w = tempfile.mkdtemp()
ov = {}
for d in ["vt"] + propcfg.CFG.get(p, {}).get("shared", ["zs", "ev"]):
    for f in os.listdir(os.path.join(V, "harness", d)):
        ov[os.path.join(repo, "pkg/zzverif", d, f)] = os.path.join(V, "harness", d, f)
for f in os.listdir(os.path.join(V, "harness", p)):
    ov[os.path.join(repo, "pkg/zzverif", p.lower(), f)] = os.path.join(V, "harness", p, f)
json.dump({"Replace": ov}, open(w + "/o.json", "w"))
r = subprocess.run(". /opt/vp/env.sh; cd %s && go test -c -vet=off -overlay %s/o.json -o %s/t ./pkg/zzverif/%s && cd %s && VERIF_SEED=%s VERIF_BUDGET=%s ./t -test.v" % (repo, w, w, p.lower(), w, seed, sec), shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
for l in r.stdout.splitlines():
    if l.startswith("VERIF-STATS"):
        s = json.loads(l[12:])
        print("evaluations", s["evaluations"], "nontrivial", s["distinct_nontrivial"])
    elif l.startswith("VERIF-FAIL"):
        d = json.loads(l[11:])
        print("FAIL", d["class"], d["input"][:700], "\n    ", d["error"][:1500])
    elif not l.strip().startswith("c") or "_test.go" not in l:
        print(l[:600])
subprocess.run(["rm", "-rf", w])
