#!/usr/bin/env python3
"""Build a planted change under /verif/seeded from a spec (a python file defining SEEDS) and confirm it in a scratch copy.
spec entries: dict(id, prop, needs, breaks, edits=[(file, old, new)], pkg="pkg/dbsp", test="<go test source, func TestZZDemo>", suites=["./pkg/dbsp/..."])"""
import sys, os, json, subprocess, shutil, importlib.util
spec = importlib.util.spec_from_file_location("s", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
only = sys.argv[2:]
W = "/tmp/seedrepo"
DEMO = '''#!/bin/bash
# Fails when the property is broken: runs demo_test.go inside %(pkg)s through a build overlay (nothing is written to the repository).
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%(pkg)s/zz_demo_test.go\\":\\"$D/demo_test.go\\"}}" > "$T/o.json"
go test -overlay "$T/o.json" -vet=off -run '^TestZZDemo$' -count=1 -timeout 250s ./%(pkg)s
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
ok = True
for s in m.SEEDS:
    if only and s["id"] not in only: continue
    sh("mkdir -p %s; git -C /repo worktree prune; rm -rf /tmp/seedrepo; git clone -q /repo /tmp/seedrepo" % W)
    d = "/verif/seeded/" + s["id"]; os.makedirs(d, exist_ok=True)
    open(d + "/demo_test.go", "w").write(s["test"]); open(d + "/demo.sh", "w").write(DEMO % s); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    for f, o, n in s["edits"]:
        p = W + "/" + f; t = open(p).read()
        if t.count(o) != 1: print(s["id"], "OLD TEXT COUNT", t.count(o), f); ok = False; break
        open(p, "w").write(t.replace(o, n))
    else:
        open(d + "/patch.diff", "w").write(sh("git -C %s diff" % W).stdout)
        bad = sh("bash %s/demo.sh" % d, cwd=W)
        suites = s.get("suites") or ["./" + s["pkg"] + "/..."]
        suite = sh(". /opt/vp/env.sh; go build ./... && go test -vet=off -count=1 %s" % " ".join(suites), cwd=W)
        sh("git -C %s checkout -q -- ." % W)
        good = sh("bash %s/demo.sh" % d, cwd=W)
        st = "OK" if good.returncode == 0 and bad.returncode != 0 and suite.returncode == 0 and "build failed" not in bad.stdout else "BAD"
        print(s["id"], st, "demo clean rc", good.returncode, "patched rc", bad.returncode, "suite rc", suite.returncode)
        if st == "BAD": print((good.stdout + good.stderr)[-1500:] if good.returncode else (bad.stdout[-1200:] + suite.stdout[-1500:] + suite.stderr[-800:]))
sh("rm -rf /tmp/seedrepo")
