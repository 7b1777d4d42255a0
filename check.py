#!/usr/bin/env python3
"""Driver of the solver-based checks.

check.py ID [--tier quick|thorough]     decide property ID on /repo's working tree
check.py --setup                        build the symbolic execution engine
check.py --replay FILE                  replay a reported violation natively
"""
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DCGP_REPO", "/repo")
ENGINE = os.path.join(V, "build", "symex")
CLANG = "clang++-18"
BCFLAGS = ("-std=c++17 -O1 -Xclang -disable-llvm-passes -emit-llvm -c -ffp-contract=off -D_GLIBCXX_ASSERTIONS "
           "-fno-vectorize -gline-tables-only -Wno-everything").split()
NATFLAGS = ("-std=c++17 -O1 -g -ffp-contract=off -D_GLIBCXX_ASSERTIONS -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern "
            "-fsanitize=address,undefined -fno-sanitize-recover=undefined -Wno-everything").split()
INC = ["-I" + os.path.join(V, "stubs"), "-I" + os.path.join(V, "harness"), "-I" + os.path.join(REPO, "include"), "-isystem", "/usr/include/eigen3"]
SHIM = ["-include", os.path.join(V, "rt", "shim.hpp")]
CPUS = os.cpu_count() or 4

sys.path.insert(0, V)


def build_engine():
    p = subprocess.run(["make", "-s", "-j%d" % CPUS, "-C", os.path.join(V, "engine")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode or not os.path.exists(ENGINE):
        sys.stdout.write(p.stdout)
        print("error: the symbolic execution engine does not build")
        sys.exit(2)


def run(cmd, timeout=None, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, errors="replace", text=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")


def compile_bc(work, src, defs):
    """Front end + preparation: bitcode regenerated from /repo's current source."""
    tag = hashlib.sha1((src + " ".join(defs)).encode()).hexdigest()[:8]
    base = os.path.join(work, os.path.basename(src) + "." + tag)
    rt = os.path.join(work, "rt.bc")
    rc, out = run([CLANG] + BCFLAGS + SHIM + INC + defs + [os.path.join(V, "harness", src), "-o", base + ".bc"], 300)
    if rc:
        return None, out
    rc, out = run([ENGINE, "prep", base + ".bc", rt, "-o", base + ".p.bc"], 300)
    if rc:
        return None, out
    return base + ".p.bc", ""


LOCKS, LOCKS_LOCK = {}, threading.Lock()


def compile_native(work, src, defs, flags=None, tag=""):
    h = hashlib.sha1((src + tag + " ".join(defs)).encode()).hexdigest()[:8]
    exe = os.path.join(work, os.path.basename(src) + "." + h + ".exe")
    with LOCKS_LOCK:
        lock = LOCKS.setdefault(exe, threading.Lock())
    with lock: # one build of each
        return compile_native2(src, defs, flags, exe)


def compile_native2(src, defs, flags, exe):
    if os.path.exists(exe):
        return exe, ""
    if os.path.exists(exe + ".failed"):
        return None, open(exe + ".failed").read()
    rc, out = run([CLANG] + (flags or NATFLAGS) + SHIM + INC + defs + ["-DSYM_NATIVE", os.path.join(V, "harness", src), os.path.join(V, "rt", "native.cpp"),
                                               "-o", exe + ".tmp", "-lpthread"], 600)
    if rc:
        with open(exe + ".failed", "w") as f:
            f.write(out)
        return None, out
    os.rename(exe + ".tmp", exe)
    return exe, ""


def native_run(exe, params, valfile, seed, randomise, timeout=30, fill=None):
    env = dict(os.environ)
    env["SYM_VALUES"] = valfile
    env["SYM_SEED"] = str(seed)
    env["SYM_RANDOMISE"] = str(randomise)
    fb = 0xbe if fill is None else fill
    env["ASAN_OPTIONS"] = "exitcode=43:detect_leaks=0:max_malloc_fill_size=65536:malloc_fill_byte=%d:abort_on_error=0:allocator_may_return_null=1" % fb
    env["UBSAN_OPTIONS"] = "exitcode=43:print_stacktrace=0"
    env["TSAN_OPTIONS"] = "exitcode=43"
    for k, v in params.items():
        env["SYM_PARAM_" + k] = str(v)
    return run(["bash", "-c", "ulimit -c 0; ulimit -t 60; exec \"$0\"", exe], timeout, env)


def write_values(path, cand):
    with open(path, "w") as f:
        for i in cand["inputs"]:
            if i["name"].startswith("uninit"):
                continue
            f.write("%d %d %d %s %s\n" % (i["w"], i["fp"], i["free"], i["value"], i["name"]))


def replay(work, job, cand, valfile):
    """Runs the real code natively on the solver's values. Returns (reproduced, description)."""
    kind = cand["kind"]
    write_values(valfile, cand)
    defs = job.get("defs", [])
    params = job["params"]
    if kind == "race":
        exe, out = compile_native(work, job["src"], defs + ["-DSYM_THREADS"], ("-std=c++17 -O1 -g -ffp-contract=off -fsanitize=thread "
                                  "-Wno-everything").split(), "tsan")
        if not exe:
            return False, "replay build failed: " + out[-400:]
        for seed in range(1, 9):
            rc, out = native_run(exe, params, valfile, seed, 0 if seed < 4 else 1, 60)
            if rc == 43 or "data race" in out:
                return True, "ThreadSanitizer: data race"
        return False, "no race observed"
    exe, out = compile_native(work, job["src"], defs)
    if not exe:
        return False, "replay build failed: " + out[-400:]
    limit = 20

    def bad(rc, out):
        if rc == 42:
            m = re.search(r"CHECK-FAILED: (.*)", out)
            return m.group(1) if m else "check failed"
        if rc == 43:
            m = re.search(r"(runtime error: .*|ERROR: AddressSanitizer: [a-z\-]+|SUMMARY: .*)", out)
            return m.group(1)[:200] if m else "sanitizer report"
        if rc == 124 and kind == "loop":
            return "does not terminate within %d s" % limit
        if rc in (134, 139, 132, 136, -6, -11, -4, -8):
            m = re.search(r"(Assertion.*failed|terminate called.*|what\(\):.*)", out)
            return (m.group(1) if m else "abnormal termination") + " (status %d)" % rc
        return None
    plan = [(0, 0, None), (0, 0, 0), (0, 0, 1)] + [(s, 1, None) for s in range(1, 13)] + [(s, 2, None) for s in range(1, 21)]
    for seed, r, fill in plan:
        rc, out = native_run(exe, params, valfile, seed, r, limit, fill)
        d = bad(rc, out)
        if d:
            cand["replay_mode"] = {"seed": seed, "randomise": r, "fill": fill}
            return True, d
        if kind == "loop" and r >= 1:
            break
    return False, "not reproduced by the real code"


def run_job(bc, job, work, deadline):
    tmo = min(job["time"], max(5, deadline - time.time()))
    out = os.path.join(work, "job-%s.json" % re.sub(r"[^A-Za-z0-9_.=-]", "_", job["name"]))
    cmd = ["bash", "-c", "ulimit -c 0; ulimit -v 12000000; exec \"$0\" \"$@\"", ENGINE, bc, "--entry", "harness", "--out", out, "--time", "%d" % tmo]
    for k, v in job["params"].items():
        cmd += ["--param", "%s=%s" % (k, v)]
    cmd += job.get("engine", [])
    rc, txt = run(cmd, tmo + 90)
    try:
        res = json.load(open(out))
    except Exception:
        res = {"error": "engine died (rc %d): %s" % (rc, txt[-300:]), "complete": False, "paths": 0, "killed": 0, "forks": 0, "steps": 0, "queries": 0, "sat": 0,
               "unsat": 0, "unknown": 0, "cache_hits": 0, "model_hits": 0, "fp_queries": 0, "real_queries": 0, "solver_s": 0, "wall_s": 0, "ends": {},
               "reach": {}, "checks": {}, "functions": [], "externals": [], "candidates": []}
    return res


def load_known():
    p = os.path.join(V, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def check(pid, tier):
    t0 = time.time()
    import specs
    spec = specs.PROPERTIES[pid]
    if callable(spec.get("runner")):
        return spec["runner"](pid, tier)
    build_engine()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    jobs = [dict(j) for j in spec["jobs"] if tier == "thorough" or not j.get("thorough")]
    budget = spec.get("budget", {}).get(tier, 600 if tier == "quick" else 3000)
    for j in jobs:
        j.setdefault("params", {})
        j.setdefault("name", j["src"].replace(".cpp", "") + ("-" if j["params"] else "") + ",".join("%s=%s" % kv for kv in j["params"].items()))
        j.setdefault("time", 120 if tier == "quick" else 900)
        if tier == "thorough":
            j["time"] = max(j["time"], 900)
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        return check2(pid, tier, seed, spec, jobs, budget, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check2(pid, tier, seed, spec, jobs, budget, work, t0):
    deadline = t0 + budget
    rc, out = run([CLANG] + BCFLAGS + [os.path.join(V, "rt", "rt.cpp"), "-o", os.path.join(work, "rt.bc")], 120)
    if rc:
        print(out)
        return 2
    builds = sorted({(j["src"], tuple(j.get("defs", []))) for j in jobs})
    bcs, failed = {}, []
    with cf.ThreadPoolExecutor(CPUS) as ex:
        fs = {b: ex.submit(compile_bc, work, b[0], list(b[1])) for b in builds}
        for b, f in fs.items():
            p, out = f.result()
            if p:
                bcs[b] = p
            else:
                failed.append((b, out))
    for b, out in failed:
        print("error: harness %s does not build against %s:\n%s" % (b[0], REPO, out[-3000:]))
    if failed:
        return 2
    results = []
    order = sorted(jobs, key=lambda j: -j.get("weight", j["time"]))
    with cf.ThreadPoolExecutor(CPUS) as ex:
        fs = [(j, ex.submit(run_job, bcs[(j["src"], tuple(j.get("defs", [])))], j, work, deadline)) for j in order]
        for j, f in fs:
            results.append((j, f.result()))
    # vacuity, errors
    problems, hard = [], False
    explored = 0
    for j, r in results:
        if r["error"]:
            problems.append("%s: %s" % (j["name"], r["error"]))
        elif r["paths"]:
            explored += 1
        if not r["error"] and r["complete"]:
            for lab in j.get("reach", spec.get("reach", [])):
                if not r["reach"].get(lab) and not r["candidates"]:
                    problems.append("%s: vacuous, '%s' is never reached" % (j["name"], lab))
                    hard = True
    # candidates -> replay against the real code
    known = load_known()
    viol, kf, inconclusive, traces = [], {}, [], 0
    rdir = os.path.join(V, "replays")
    cands = [(j, c) for j, r in results for c in r["candidates"]]
    seen = {}
    picked = []
    for j, c in cands:
        key = (j["name"], c["kind"], c["msg"])
        seen[key] = seen.get(key, 0) + 1
        if seen[key] <= 4 and len(picked) < 60:
            picked.append((j, c))
    if picked:
        os.makedirs(rdir, exist_ok=True)
        for b in sorted({(j["src"], tuple(j.get("defs", []))) for j, c in picked}):
            compile_native(work, b[0], list(b[1]))
    conf = set()

    def one(k):
        j, c = picked[k]
        if time.time() > t0 + 840:
            return False, "no time left to replay"
        try:
            return replay(work, j, c, os.path.join(work, "cand-%d.values" % k))
        except Exception as e:
            return False, "the replay failed: %r" % e
    with cf.ThreadPoolExecutor(CPUS) as ex:
        outs = list(ex.map(one, range(len(picked))))
    for k, ((j, c), (ok, desc)) in enumerate(zip(picked, outs)):
        if not ok:
            inconclusive.append({"job": j["name"], "kind": c["kind"], "msg": c["msg"], "why": desc})
            continue
        traces += 1
        match = None
        for f in known["findings"]:
            if f["property"] == pid and re.search(f["match"], "%s | %s | %s | %s" % (j["name"], c["kind"], c["msg"], desc)):
                match = f
        if match:
            kf[match["what"]] = kf.get(match["what"], 0) + 1
            continue
        key = (c["kind"], c["msg"])
        if key in conf:
            continue
        conf.add(key)
        path = os.path.join(rdir, "%s-%d.json" % (pid, len(viol)))
        with open(path, "w") as f:
            json.dump({"property": pid, "job": {x: j[x] for x in ("name", "src", "params") if x in j}, "defs": j.get("defs", []), "candidate": c,
                       "observed": desc}, f, indent=1)
        viol.append((path, j, c, desc))
    # evidence
    ends, checks, funcs, externs = {}, {}, set(), set()
    tot = {k: 0 for k in ("paths", "killed", "forks", "steps", "queries", "sat", "unsat", "unknown", "cache_hits", "model_hits", "fp_queries", "real_queries",
                          "solver_s")}
    for j, r in results:
        for k in tot:
            tot[k] += r[k]
        for k, n in r["ends"].items():
            ends[k] = ends.get(k, 0) + n
        for k, c in r["checks"].items():
            d = checks.setdefault(k, {})
            for x, n in c.items():
                d[x] = d.get(x, 0) + n
        funcs |= {re.sub(r"std::allocator<[^<>]*>|, $", "", f)[:200] for f in r["functions"]}
        externs |= set(r["externals"])
    reached = sum(c["reached"] for c in checks.values())
    proved = sum(c["proved"] for c in checks.values())
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"], "transitions": tot["forks"] + tot["steps"], "traces_validated_against_impl": traces,
            "samples": [{"job": j["name"], "paths": r["paths"], "complete": r["complete"], "wall_s": r["wall_s"], "reach": r["reach"],
                         "queries": r["queries"], "solver_s": r["solver_s"]} for j, r in results],
            "exhaustive": all(r["complete"] for j, r in results),
            "explanation": "states = complete symbolic paths through the real code; transitions = path splits plus LLVM instructions executed symbolically",
            "bounds": spec["bounds"], "outside": spec.get("outside", ""),
            "assertions": {"evaluated": reached, "proved": proved, "by_label": checks},
            "solver": {"queries": tot["queries"], "sat": tot["sat"], "unsat": tot["unsat"], "unknown": tot["unknown"], "cache_hits": tot["cache_hits"],
                       "model_reuse": tot["model_hits"], "ieee754_queries": tot["fp_queries"], "real_arithmetic_queries": tot["real_queries"],
                       "seconds": round(tot["solver_s"], 3)},
            "functions_encoded": sorted(f for f in funcs if "dcgp::" in f), "path_ends": ends,
            "counterexample_candidates": len(cands), "replayed": len(picked), "inconclusive": inconclusive[:40], "problems": problems,
            "known_findings_reproduced": kf,
        },
        "assumptions": spec.get("assumptions", []) + specs_common_assumptions(),
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for j, r in sorted(results, key=lambda x: x[0]["name"]):
        print("%-60s paths=%-6d %s queries=%d solver=%.1fs wall=%.1fs" % (j["name"][:60], r["paths"], "complete" if r["complete"] else "INCOMPLETE", r["queries"],
                                                                  r["solver_s"], r["wall_s"]))
    print("%s: %d assertions evaluated, %d proved, %d candidates (%d replayed)" % (pid, reached, proved, len(cands), len(picked)))
    for i in inconclusive[:10]:
        print("inconclusive: %s [%s] %s: %s" % (i["job"], i["kind"], i["msg"], i["why"]))
    for p in problems:
        print("problem: " + p)
    for w, n in kf.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, w))
    for path, j, c, d in viol:
        print("  %s: [%s] %s -- observed on the real code: %s\n    at %s" % (j["name"], c["kind"], c["msg"], d, c["where"][:400]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    if viol:
        return 1
    if hard or not explored:
        return 2
    return 0


def specs_common_assumptions():
    return [
        "LLVM 18 -O1 lowering of the C++ source and the executor's semantics of LLVM IR are trusted; every counterexample is replayed natively (ASan/UBSan) before it is reported",
        "audi, SymEngine, TBB and pagmo are environment stubs (audi and SymEngine are not installed); random draws are arbitrary values of their documented range",
        "floating point: uninterpreted at first, exact IEEE-754 bit-vectors or real arithmetic identities where equality of terms is not syntactic",
        "allocation failure is out of scope",
    ]


def do_replay(path):
    d = json.load(open(path))
    work = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        job = d["job"]
        job["defs"] = d.get("defs", [])
        ok, desc = replay(work, job, d["candidate"], os.path.join(work, "v"))
        print(("reproduced: " if ok else "not reproduced: ") + desc)
        return 0 if ok else 1
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.setup:
        build_engine()
        return 0
    if a.replay:
        return do_replay(a.replay)
    return check(a.id, a.tier)


if __name__ == "__main__":
    sys.exit(main())
