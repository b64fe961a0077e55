#!/usr/bin/env python3
"""check.py <property>: proves the contracts of the property on /repo's current source (gover) and replays
contract clauses on the real code (harness). See DESIGN.md."""
import json, os, re, subprocess, sys, time, hashlib, shutil, tempfile, threading

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
prop = sys.argv[1]
tier = os.environ.get("VERIF_TIER", "quick")
if tier not in ("quick", "thorough"):
    tier = "quick"
seed = int(os.environ.get("VERIF_SEED", "1") or 1)
t0 = time.time()

GOENV = dict(os.environ, HOME=os.environ.get("HOME", "/root"), GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOSUMDB="off")
GOENV["PATH"] = "/opt/veriftools/go1.24.13/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + os.environ.get("PATH", "")
GOENV.pop("GOROOT", None)

sys.path.insert(0, os.path.join(VERIF, "tools"))
from propcfg import CFG
cfg = CFG[prop]
work = tempfile.mkdtemp(prefix="verif-%s-" % prop)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def gover_bin():
    b = os.path.join(VERIF, "bin", "gover")
    src = os.path.join(VERIF, "gover")
    newest = max(os.path.getmtime(os.path.join(src, f)) for f in os.listdir(src))
    if os.path.exists(b) and os.path.getmtime(b) >= newest:
        return b
    os.makedirs(os.path.dirname(b), exist_ok=True)
    r = sh(["bash", os.path.join(VERIF, "setup.sh")])
    if not os.path.exists(b):
        print(r.stdout)
        print("ERROR: cannot build gover")
        sys.exit(2)
    return b


def literals(files):
    strs, ints = set(), set()
    for f in files:
        try:
            s = open(os.path.join(REPO, f), errors="replace").read()
        except OSError:
            continue
        s = re.sub(r"//[^\n]*", "", s)
        s = re.sub(r"import \((.|\n)*?\n\)", "", s)
        for m in re.finditer(r'"((?:[^"\\\n]|\\.){0,60})"|`([^`\n]{0,60})`', s):
            try:
                strs.add(json.loads('"' + m.group(1) + '"') if m.group(1) is not None else m.group(2))
            except ValueError:
                pass
        s2 = re.sub(r'"(?:[^"\\\n]|\\.)*"', '""', s)
        for m in re.finditer(r"(?<![\w.])(\d{1,12})(?![\w.])", s2):
            ints.add(int(m.group(1)))
    strs = {x for x in strs if x and "%" not in x and " " not in x.strip() and "\n" not in x}
    return sorted(strs), sorted(ints)


out = {}


def run_lean():
    """The lemmas over the contracts that are proved in Lean: one obligation per theorem."""
    out["lean"] = []
    for f in cfg.get("lean", []):
        p = os.path.join(VERIF, "lemmas", f)
        names = re.findall(r"^theorem (\w+)", open(p).read(), re.M)
        t = time.time()
        try:
            r = sh(["lean", p], cwd=work, timeout=400)
            ok, log = r.returncode == 0 and "sorry" not in r.stdout, r.stdout
        except (OSError, subprocess.TimeoutExpired) as e:
            ok, log = False, str(e)
        ms = int((time.time() - t) * 1000)
        for n in names:
            out["lean"].append({"function": "lemma " + f, "name": n, "kind": "lemma", "vcs": 1, "status": "discharged" if ok else "failed",
                                "solvers": ["lean"], "solver_ms": ms // max(1, len(names)), "pos": "lemmas/" + f, "detail": "" if ok else log[-500:]})


def run_gover():
    b = gover_bin()
    rep = os.path.join(work, "gover.json")
    fd = os.path.join(work, "failed")
    lim = 420 if tier == "quick" else 2400
    cmd = [b, "-repo", REPO, "-contracts", os.path.join(VERIF, "contracts"), "-prop", prop, "-out", rep, "-faildir", fd, "-budget", str(lim)]
    if tier == "thorough":
        cmd.append("-thorough")
    run_lean()
    try:
        r = sh(cmd, env=GOENV, cwd=VERIF, timeout=lim + 120)
        out["gover_log"] = r.stdout
        out["gover_rc"] = r.returncode
    except subprocess.TimeoutExpired as e:
        out["gover_log"] = "gover did not finish in %d s" % (lim + 120)
        out["gover_rc"] = 4
    try:
        out["gover"] = json.load(open(rep))
    except (OSError, ValueError):
        out["gover"] = None
    out["faildir"] = fd


def run_harness(budget, dictfile, tag="", known=None):
    hd = os.path.join(VERIF, "harness", prop)
    if not os.path.isdir(hd):
        return None
    ov = {"Replace": {}}
    for f in os.listdir(os.path.join(VERIF, "harness", "vt")):
        ov["Replace"][os.path.join(REPO, "pkg/zzverif/vt", f)] = os.path.join(VERIF, "harness", "vt", f)
    for d in cfg.get("shared", []):
        for f in os.listdir(os.path.join(VERIF, "harness", d)):
            ov["Replace"][os.path.join(REPO, "pkg/zzverif", d, f)] = os.path.join(VERIF, "harness", d, f)
    for f in os.listdir(hd):
        ov["Replace"][os.path.join(REPO, "pkg/zzverif", prop.lower(), f)] = os.path.join(hd, f)
    of = os.path.join(work, "overlay%s.json" % tag)
    json.dump(ov, open(of, "w"))
    binf = os.path.join(work, "h%s.test" % tag)
    cmd = ["go", "test", "-c", "-vet=off", "-overlay", of, "-o", binf]
    if cfg.get("race") and tier == "thorough":
        cmd.append("-race")
    r = sh(cmd + ["./pkg/zzverif/" + prop.lower()], env=GOENV, cwd=REPO, timeout=600)
    if r.returncode != 0:
        return {"compile_error": r.stdout[-4000:]}
    rd = os.path.join(work, "run" + tag)
    os.makedirs(rd, exist_ok=True)
    env = dict(GOENV, VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_DICT=dictfile, VERIF_KNOWN=known or "")
    if budget:
        env["VERIF_BUDGET"] = str(budget)
    lim = 420 if tier == "quick" else 3000
    try:
        r = sh([binf, "-test.v", "-test.timeout=%ds" % (lim - 20)], env=env, cwd=rd, timeout=lim)
        log, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as e:
        log, rc = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), 124
    res = {"rc": rc, "log": log, "fails": [], "known": [], "stats": {"evaluations": 0, "distinct_nontrivial": 0, "samples": []}}
    for l in log.splitlines():
        for k, key in (("VERIF-FAIL ", "fails"), ("VERIF-KNOWN ", "known")):
            i = l.find(k)
            if i >= 0:
                try:
                    res[key].append(json.loads(l[i + len(k):]))
                except ValueError:
                    res[key].append({"raw": l})
        i = l.find("VERIF-STATS ")
        if i >= 0:
            try:
                s = json.loads(l[i + 12:])
                res["stats"]["evaluations"] += s["evaluations"]
                res["stats"]["distinct_nontrivial"] += s["distinct_nontrivial"]
                res["stats"]["samples"] += s["samples"] or []
            except ValueError:
                pass
    if rc != 0 and not res["fails"]:
        # a crash outside a case (fatal error, deadlock, timeout) with the log as the record of the failing run
        tail = log[-3000:]
        if "panic: test timed out" in log or rc == 124 or "fatal error:" in log or "panic:" in log:
            res["fails"].append({"property": prop, "class": "crash", "input": "run with seed %d" % seed, "error": tail})
        else:
            res["fails"].append({"property": prop, "class": "harness-failed", "input": "run with seed %d" % seed, "error": tail})
    return res


def main():
    strs, ints = literals(cfg["files"])
    dictf = os.path.join(work, "dict.json")
    json.dump({"Strs": strs, "Ints": ints}, open(dictf, "w"))
    kf = json.load(open(os.path.join(VERIF, "known_findings.json")))
    known = {e["class"]: e["what"] for e in kf["known"] if e["property"] == prop and "class" in e}
    known_obl = {e["obligation"]: e["what"] for e in kf["known"] if e["property"] == prop and "obligation" in e}
    kfile = os.path.join(work, "known.json")
    json.dump(known, open(kfile, "w"))
    th = threading.Thread(target=run_gover)
    th.start()
    h = None
    herr = None
    try:
        h = run_harness(cfg.get("budget") if tier == "quick" else None, dictf, known=kfile)
    except subprocess.TimeoutExpired:
        herr = "harness build timed out"
    th.join()
    g = out.get("gover")
    if h and "compile_error" in h:
        b = sh(["go", "build", "./..."], env=GOENV, cwd=REPO)
        if b.returncode != 0:
            print(b.stdout[-3000:])
            print("ERROR: /repo does not build")
            sys.exit(2)
        herr = h["compile_error"]
        h = None
        print("NOTE: the replay harness does not compile against the current exported API; proof obligations only")
        print(herr[-1500:])
    obls = list((g or {}).get("obligations") or []) + out.get("lean", [])
    if g is None or g.get("error"):
        # the contracts cannot be put on the current source: nothing is proved
        print(out.get("gover_log", "")[-3000:])
        obls.append({"function": "(all)", "name": "verification", "kind": "error", "vcs": 1, "status": "error", "solvers": [],
                     "pos": "", "detail": ("verifier gave no answer: " + str((g or {}).get("error") or out.get("gover_log", "")))[-300:]})
    failed = [o for o in obls if o["status"] != "discharged"]
    knownhit = []
    for o in list(failed):
        k = o["function"].replace("github.com/l7mp/dcontroller/", "") + " " + o["name"]
        if k in known_obl:
            failed.remove(o)
            knownhit.append(known_obl[k])
    nontrivial = len(obls) > 0
    if g is not None and not nontrivial and not failed and cfg["level"] == "proof":
        print("ERROR: no proof obligations were generated")
        sys.exit(2)
    rdir = os.path.join(VERIF, "replays")
    nviol = 0
    lines = []
    if h and h["fails"]:
        os.makedirs(rdir, exist_ok=True)
        for i, f in enumerate(h["fails"]):
            p = os.path.join(rdir, "%s-%d.json" % (prop, i))
            rec = {"property": prop, "kind": "failing input on the real code", "seed": seed, "tier": tier, "case": f,
                   "failed_obligations": [{k: o.get(k) for k in ("function", "name", "pos", "detail", "path")} for o in failed],
                   "reproduce": "VERIF_SEED=%d VERIF_TIER=%s python3 %s/check.py %s" % (seed, tier, VERIF, prop)}
            json.dump(rec, open(p, "w"), indent=1)
            if i == 0:
                lines.append("VIOLATION property=%s replay=%s" % (prop, p))
            print("  failing input: class=%s input=%s error=%s" % (f.get("class"), str(f.get("input"))[:400], str(f.get("error"))[:600]))
        nviol = len(h["fails"])
        for o in failed[:5]:
            print("  failed obligation: %s %s at %s (%s)" % (o["function"], o["name"], o.get("pos", "?"), o.get("detail", "")))
    elif failed:
        os.makedirs(rdir, exist_ok=True)
        p = os.path.join(rdir, "%s-proof.json" % prop)
        scripts = {}
        fd = out.get("faildir", "")
        if os.path.isdir(fd):
            for f in sorted(os.listdir(fd))[:6]:
                scripts[f] = open(os.path.join(fd, f), errors="replace").read()[:200000]
        json.dump({"property": prop, "kind": "undischarged proof obligation", "failed_obligations": failed, "verifier_output": out["gover_log"][-20000:],
                   "smt": scripts, "harness": "no failing input found in %d evaluations" % (h["stats"]["evaluations"] if h else 0),
                   "reproduce": "%s/bin/gover -repo %s -contracts %s/contracts -prop %s -v" % (VERIF, REPO, VERIF, prop)}, open(p, "w"), indent=1)
        for o in failed[:12]:
            print("  failed obligation: %s %s at %s (%s)" % (o["function"], o["name"], o.get("pos", "?"), o.get("detail", "")))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, p))
        nviol = len(failed)
    # evidence
    by = {}
    for o in obls:
        for s in o.get("solvers") or []:
            by[s] = by.get(s, 0) + 1
    cov = {
        "obligations": len(obls),
        "discharged": len([o for o in obls if o["status"] == "discharged"]),
        "checker_cmd": "/verif/bin/gover -repo /repo -contracts /verif/contracts -prop %s" % prop,
        "trusted_base": ["gover: SSA front end (golang.org/x/tools/go/ssa), symbolic executor and VC generator in /verif/gover", "z3-new, z3 4.8.12, cvc5 1.1.2",
                         "integers are mathematical (no overflow); sequential execution; goroutine interleavings not modelled; nil dereference and index faults are not obligations unless a contract says so (the replay harness catches panics)"]
        + ["trusted contract: " + t for t in ((g or {}).get("trusted") or [])] + ["axiom: " + a for a in ((g or {}).get("axioms") or [])],
        "functions_under_contract": [f["function"].replace("github.com/l7mp/dcontroller/", "") for f in ((g or {}).get("functions") or []) if not f.get("skipped")],
        "skipped_functions": [f["function"] + ": " + f["skipped"] for f in ((g or {}).get("functions") or []) if f.get("skipped")],
        "inlined_functions": sorted({c for f in ((g or {}).get("functions") or []) for c in (f.get("inlined") or [])}),
        "discharged_by": by,
        "verification_conditions": sum(o.get("vcs", 0) for o in obls),
        "solver_ms": (g or {}).get("solver_ms", 0),
        "obligation_names": [o["function"].split("::")[-1] + " " + o["name"] for o in obls][:400],
        "bounded": cfg.get("bounded", []),
        "known_findings": knownhit + [k.get("what", "") for k in (h or {}).get("known", [])],
    }
    if h:
        cov["evaluations"] = h["stats"]["evaluations"]
        cov["distinct_nontrivial"] = h["stats"]["distinct_nontrivial"]
        cov["rule"] = cfg.get("rule", "seeded random cases for the executable form of the contract clauses (replay harness and bounded stand-ins); non-trivial: the written-out input is longer than 12 characters; distinct by input text")
        cov["samples"] = h["stats"]["samples"][:12]
        if herr:
            cov["harness_note"] = herr[:500]
    assumed = sorted({a for f in ((g or {}).get("functions") or []) for a in (f.get("assumed") or [])})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": cfg["level"], "coverage": cov,
          "assumptions": assumed + cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": nviol}
    if cfg["level"] == "exploration" and "evaluations" not in cov:
        cov.update(evaluations=0, distinct_nontrivial=0, rule="", samples=[])
    if cfg["level"] == "other":
        cov["explanation"] = cfg.get("explanation", "")
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for k in (h or {}).get("known", []):
        print("KNOWN-FINDING: property=%s %s" % (prop, k.get("what", "")))
    for k in knownhit:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    print("%s: %d/%d obligations discharged over %d functions; harness: %s; %.1fs" % (
        prop, cov["discharged"], cov["obligations"], len(cov["functions_under_contract"]),
        "%d evaluations (%d distinct)" % (cov["evaluations"], cov["distinct_nontrivial"]) if h else "none", time.time() - t0))
    for l in lines:
        print(l)
    return 1 if lines else 0


rc = 2
try:
    rc = main()
finally:
    shutil.rmtree(work, ignore_errors=True)
sys.exit(rc)
