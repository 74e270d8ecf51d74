#!/usr/bin/env python3
"""check.py <property>: decide one property on the current tree of /repo.

1. build the verifier (engine/) and let it prove every obligation of the contracts of the property,
   generated from the current source of /repo;
2. run the replay harness of the property (harness/<property>), which runs the real code on concrete inputs
   against an executable version of the contracts. It looks for a concrete input when an obligation fails,
   and is a bounded stand-in for the parts named in harness/<property>/bounded.txt.
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
prop = sys.argv[1]
tier = os.environ.get("VERIF_TIER", "quick")
if tier not in ("quick", "thorough"):
    tier = "quick"
seed = int(os.environ.get("VERIF_SEED", "1") or "1")
start = time.time()
GO23 = "/opt/veriftools/go1.23.12/bin/go"

tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)


def goenv(cache, **kw):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("GO") and k not in ("GOPATH", "GOMODCACHE"):
            del env[k]
    env.update(GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", GOCACHE=cache, GOWORK="off")
    env.update(kw)
    return env


def run(cmd, env, cwd, timeout):
    try:
        p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        out = e.stdout or b""
        return 124, out.decode(errors="replace") if isinstance(out, bytes) else out


result = {}


def verifier():
    try:
        cache = os.path.join(VERIF, ".cache", "engine")
        os.makedirs(cache, exist_ok=True)
        exe = os.path.join(tmp, "gocv")
        rc, out = run(["go", "build", "-o", exe, "."], goenv(cache), os.path.join(VERIF, "engine"), 400)
        if rc != 0:
            result["engine_error"] = out
            return
        rep = os.path.join(tmp, "gocv.json")
        dump = os.path.join(tmp, "dump")
        budget = "560s" if tier == "thorough" else "480s"
        cmd = [exe, "-repo", REPO, "-specs", os.path.join(VERIF, "contracts"), "-property", prop, "-out", rep, "-dump", dump, "-timeout", budget]
        rc, out = run(cmd, goenv(cache), VERIF, 650)
        result["cmd"] = "gocv -repo %s -specs contracts -property %s -timeout %s" % (REPO, prop, budget)
        result["rc"] = rc
        result["out"] = out
        if rc == 2:
            result["engine_error"] = out
            return
        try:
            result["rep"] = json.load(open(rep))
        except Exception as e:
            result["rep"] = None
            result["out"] += "\nno report: %s" % e
    except Exception as e:
        result["engine_error"] = repr(e)


harness = {}


def run_harness():
    d = os.path.join(VERIF, "harness", prop)
    if not os.path.isdir(d):
        return
    files = sorted(f for f in os.listdir(d) if f.endswith(".go"))
    if not files:
        return
    replace = {}
    pkgs = {}

    def add(path, test):
        with open(path) as fh:
            first = fh.readline().strip()
        m = re.match(r"// ?dir: *(\S+)", first)
        if not m:
            raise SystemExit("no dir in " + path)
        base = os.path.basename(path)[:-3]
        name = "zz_verif_%s%s.go" % (base, "_test" if test else "")
        replace[os.path.join(REPO, m.group(1), name)] = path
        return m.group(1)

    lib = os.path.join(VERIF, "harness", "lib")
    for f in sorted(os.listdir(lib)):
        if f.endswith(".go"):
            add(os.path.join(lib, f), False)
    for f in files:
        pkgs.setdefault("./" + add(os.path.join(d, f), True), []).append(f)
    ov = os.path.join(tmp, "overlay.json")
    json.dump({"Replace": replace}, open(ov, "w"))
    cache = os.path.join(VERIF, ".cache", "go123")
    if not os.path.isdir(cache):
        os.makedirs(os.path.dirname(cache), exist_ok=True)
        t = cache + ".%d" % os.getpid()
        if os.path.isdir("/opt/vp/gocache"):
            subprocess.run(["cp", "-a", "/opt/vp/gocache", t], check=False)
        else:
            os.makedirs(t)
        try:
            os.rename(t, cache)
        except OSError:
            shutil.rmtree(t, ignore_errors=True)
    scratch = os.path.join(tmp, "scratch")
    os.makedirs(scratch)
    harness["pkgs"] = sorted(pkgs)
    harness["failures"] = []
    harness["counts"] = {"evaluations": 0, "distinct": 0}
    harness["samples"] = []
    harness["unavailable"] = []
    race = os.path.exists(os.path.join(d, "race"))
    for p in sorted(pkgs):
        report = os.path.join(tmp, "report.jsonl")
        if os.path.exists(report):
            os.remove(report)
        env = goenv(cache, VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_REPORT=report, VERIF_PROPERTY=prop, TMPDIR=scratch, CGO_ENABLED="1" if race else "0")
        tmo = 500 if tier == "thorough" else 240
        cmd = [GO23, "test", "-count=1", "-vet=off", "-overlay", ov, "-run", "^TestVerif", "-timeout", "%ds" % (tmo - 20)] + (["-race"] if race else []) + [p]
        rc, out = run(cmd, env, REPO, tmo)
        lines = []
        if os.path.exists(report):
            for l in open(report, errors="replace"):
                try:
                    lines.append(json.loads(l))
                except Exception:
                    pass
        counted = False
        for l in lines:
            if l.get("kind") == "fail":
                harness["failures"].append(l)
            elif l.get("kind") == "count":
                counted = True
                harness["counts"]["evaluations"] += l["evaluations"]
                harness["counts"]["distinct"] += l["distinct"]
                harness["samples"] += (l.get("samples") or [])[:3]
        # tests that failed without a failing input: a crash, a race, or a failing set up
        explained = {l.get("test", "").split("/")[0] for l in lines if l.get("kind") in ("fail", "again")}
        silent = [x for x in re.findall(r"^--- FAIL: (\w+)", out, re.M) if x not in explained]
        raced = "WARNING: DATA RACE" in out
        if rc != 0 and (silent or raced or not counted or not explained):
            if "[build failed]" in out or "[setup failed]" in out or "build constraints" in out:
                harness["unavailable"].append({"pkg": p, "output": out[-4000:]})
            else:
                last = [l for l in lines if l.get("kind") == "case"]
                harness["failures"].append({"kind": "fail", "key": "crash", "what": "the code crashed, raced or did not terminate", "input": (last[-1].get("input") if last else None), "output": out[-6000:]})
        elif rc == 0 and not counted:
            harness["unavailable"].append({"pkg": p, "output": "no cases were run\n" + out[-2000:]})


t1 = threading.Thread(target=verifier)
t2 = threading.Thread(target=run_harness)
t1.start(); t2.start(); t1.join(); t2.join()

if "engine_error" in result:
    print("the verifier could not be run:\n" + result["engine_error"][-3000:])
    shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(2)

rep = result.get("rep")
known = []
kf = os.path.join(VERIF, "known-findings.txt")
if os.path.exists(kf):
    for l in open(kf):
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
        if m and m.group(1) == prop:
            known.append((m.group(2), m.group(3)))

# collect failed obligations
failed = []
obligations = discharged = 0
backends = {}
solver = 0.0
functions, lemmas, bodies = [], [], []
trusted, assumes, inlined = set(), set(), set()
if rep is None:
    failed.append({"function": "-", "obligation": "verifier", "reason": "the verifier gave no answer", "detail": result.get("out", "")[-3000:]})
else:
    if rep.get("LoadErr"):
        failed.append({"function": "-", "obligation": "load", "reason": "the source could not be loaded", "detail": rep["LoadErr"][:3000]})
    for r in rep.get("Reports") or []:
        (lemmas if r["Kind"] == "lemma" else functions).append(r["Func"])
        solver += (r["Solver"] + r["Fallback"]) / 1e9
        for b, n in (r.get("ByBack") or {}).items():
            backends[b] = backends.get(b, 0) + n
        trusted.update(r.get("Trusted") or [])
        assumes.update(r.get("Assumes") or [])
        inlined.update(r.get("Inlined") or [])
        for o in r.get("Obls") or []:
            obligations += 1
            if o["Failed"]:
                failed.append({"function": r["Func"], "obligation": o["Name"], "reason": o["Reason"], "detail": o["Detail"], "query": o.get("Query", "")})
            else:
                discharged += 1
        if r.get("Error"):
            obligations += 1
            failed.append({"function": r["Func"], "obligation": "translation", "reason": r["Error"], "detail": ""})
    if not rep.get("LoadErr") and obligations == 0:
        failed.append({"function": "-", "obligation": "none", "reason": "no obligations were generated", "detail": ""})

violations = []
reported_known = []
for f in harness.get("failures", []):
    k = [x for x in known if x[0] == f.get("key")]
    if k:
        reported_known.append(k[0])
    else:
        violations.append(f)

for k in sorted(set(reported_known)):
    print("KNOWN-FINDING: property=%s %s" % (prop, k[1]))

rc = 0
if failed or violations:
    rc = 1
    rd = os.path.join(VERIF, "replay")
    os.makedirs(rd, exist_ok=True)
    path = os.path.join(rd, "%s.txt" % prop)
    with open(path, "w") as fh:
        fh.write("property %s is violated by the tree in %s\n\n" % (prop, REPO))
        if violations:
            fh.write("== concrete inputs that fail on the real code ==\n")
            for v in violations:
                fh.write(json.dumps(v, indent=1, ensure_ascii=False) + "\n")
            fh.write("\nrerun: VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s\n\n" % (seed, tier, prop))
        if failed:
            fh.write("== obligations that the verifier did not discharge ==\n")
            for f in failed:
                fh.write("%s: %s: %s\n   %s\n" % (f["function"], f["obligation"], f["reason"], f["detail"]))
            fh.write("\n== verifier output ==\n" + result.get("out", "")[-20000:] + "\n")
            for f in failed[:3]:
                if f.get("query"):
                    fh.write("\n== query of %s: %s ==\n%s\n" % (f["function"], f["obligation"], f["query"][:60000]))
    for f in failed[:20]:
        print("failed obligation: %s: %s: %s" % (f["function"], f["obligation"], f["reason"][:300]))
    for v in violations[:5]:
        print("failing input: " + json.dumps({k: v[k] for k in v if k not in ("kind",)}, ensure_ascii=False)[:1500])
    print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if violations else " no-failing-input-found"))

bounded = []
bf = os.path.join(VERIF, "harness", prop, "bounded.txt")
if os.path.exists(bf):
    bounded = [l.strip() for l in open(bf) if l.strip()]
common = os.path.join(VERIF, "contracts", "assumptions.txt")
assumptions = [l.strip() for l in open(common) if l.strip()] if os.path.exists(common) else []
pa = os.path.join(VERIF, "harness", prop, "assumptions.txt")
if os.path.exists(pa):
    assumptions += [l.strip() for l in open(pa) if l.strip()]
assumptions += ["trusted: " + t for t in sorted(trusted)]
assumptions += sorted(assumes)
coverage = {
    "obligations": obligations,
    "discharged": discharged,
    "checker_cmd": result.get("cmd", ""),
    "trusted_base": ["engine/ (gocv: translation of go ssa to verification conditions)", "golang.org/x/tools/go/ssa", "go type checker", "z3 5.3.2, z3 4.8.12, cvc5 1.1.2 (any one answering unsat)"] + ["trusted contract: " + t for t in sorted(trusted)],
    "functions_under_contract": sorted(functions),
    "lemmas": sorted(lemmas),
    "inlined_functions": sorted(inlined),
    "queries_discharged_by_back_end": backends,
    "solver_s": round(solver, 2),
    "optional_contracts_without_function": (rep or {}).get("Missing") or [],
    "replay_harness": {
        "labelled": "bounded; never counted as proved",
        "packages": harness.get("pkgs", []),
        "evaluations": harness.get("counts", {}).get("evaluations", 0),
        "distinct": harness.get("counts", {}).get("distinct", 0),
        "samples": harness.get("samples", [])[:5],
        "unavailable": harness.get("unavailable", []),
        "stand_in_for": bounded,
    },
}
ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": coverage, "assumptions": assumptions, "wall_s": round(time.time() - start, 2), "violations": len(failed) + len(violations)}
os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
    json.dump(ev, fh, indent=1, ensure_ascii=False)
    fh.write("\n")
print("%s: %d functions and lemmas, %d of %d obligations discharged; replay harness: %d cases; %.1fs" % (prop, len(functions) + len(lemmas), discharged, obligations, harness.get("counts", {}).get("evaluations", 0), time.time() - start))
for u in harness.get("unavailable", []):
    print("replay harness of %s not available: %s" % (u["pkg"], u["output"][-1500:]))
shutil.rmtree(tmp, ignore_errors=True)
sys.exit(rc)
