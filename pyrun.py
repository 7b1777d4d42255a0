"""Runs the symbolic executor for the Python helpers and writes the evidence."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import tempfile
import time

V = os.path.dirname(os.path.abspath(__file__))


def run(pid, tier, spec):
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        return run2(pid, tier, spec, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run2(pid, tier, spec, work, t0):
    limit = 250 if tier == "quick" else 1500
    jobs = [j for j in spec["pyjobs"] if tier == "thorough" or not j[2]]

    def one(ij):
        i, (name, args, _) = ij
        out = os.path.join(work, "%d.json" % i)
        try:
            p = subprocess.run(["python3-vt", os.path.join(V, "pysym", spec["script"]), out, str(limit)] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=limit + 120,
                               env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="1"))
            return json.load(open(out)) if os.path.exists(out) else {"error": p.stdout[-1500:]}
        except subprocess.TimeoutExpired:
            return {"error": "time out"}
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        res = list(ex.map(one, enumerate(jobs)))
    viol, problems, inconclusive = [], [], []
    for (name, args, _), r in zip(jobs, res):
        if "error" in r:
            problems.append("%s: %s" % (name, r["error"]))
            continue
        print("%-50s paths=%-6d %s queries=%d solver=%.1fs" % (name, r["paths"], "complete" if r["complete"] else "INCOMPLETE", r["queries"], r["solver_s"]))
        if r["violation"]:
            v = r["violation"]
            if v["observed"]:
                os.makedirs(os.path.join(V, "replays"), exist_ok=True)
                p = os.path.join(V, "replays", "%s-%d.json" % (pid, len(viol)))
                json.dump({"property": pid, "job": name, "args": args, "violation": v}, open(p, "w"), indent=1)
                viol.append((p, name, v))
            else:
                inconclusive.append({"job": name, "msg": v["msg"]})
    ok = [r for r in res if "error" not in r]
    tot = {k: sum(r[k] for r in ok) for k in ("paths", "queries", "sat", "unsat", "solver_s", "checks", "proved")}
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "coverage": {
            "states": tot["paths"], "transitions": tot["queries"], "traces_validated_against_impl": len(viol),
            "samples": [dict(job=j[0], **({"error": r["error"][:300]} if "error" in r else {k: r[k] for k in ("paths", "complete", "queries", "solver_s")})) for j, r in zip(jobs, res)],
            "exhaustive": len(ok) == len(res) and all(r["complete"] for r in ok),
            "explanation": "states = complete symbolic paths through the real Python function; transitions = solver queries",
            "bounds": spec["bounds"], "assertions": {"evaluated": tot["checks"], "proved": tot["proved"]},
            "solver": {"queries": tot["queries"], "sat": tot["sat"], "unsat": tot["unsat"], "seconds": round(tot["solver_s"], 3)},
            "functions_encoded": spec["functions"], "inconclusive": inconclusive, "problems": [p[:500] for p in problems],
        },
        "assumptions": spec["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d assertions evaluated, %d proved" % (pid, tot["checks"], tot["proved"]))
    for i in inconclusive:
        print("inconclusive: %(job)s: %(msg)s (not reproduced)" % i)
    for p in problems:
        print("problem: " + p)
    for p, name, v in viol:
        print("  %s: %s -- observed: %s, for %s" % (name, v["msg"], v["observed"], json.dumps(v["inputs"])[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, p))
    if viol:
        return 1
    return 0 if tot["paths"] else 2
