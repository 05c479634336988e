#!/opt/venv/bin/python
"""run.py <property id> [--tier quick|thorough] [--only harness] [--replay file] [-v]"""
import argparse
import fnmatch
import importlib
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("MPLBACKEND", "Agg")

KNOWN = os.path.join(HERE, "KNOWN_FINDINGS.txt")


def load_known(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known:"):
                parts = line.split(None, 3)
                p = parts[1].split("=", 1)[1]
                k = parts[2].split("=", 1)[1]
                if p == pid:
                    out.append((k, parts[3] if len(parts) > 3 else ""))
    return out


def job(mod, hname, params, seed, tier, limit, q):
    from engine import harness as H, loader
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        sys.setrecursionlimit(20000)
        loader.start_monitoring()
        m = importlib.import_module("checks." + mod)
        h = next(x for x in m.HARNESSES if x.name == hname)
        r = H.explore(h, params, seed, tier, time.time() + limit)
        r["functions"] = sorted(loader.EXECUTED)
    except BaseException as e:
        r = {"harness": hname, "params": H.pname(params), "crash": "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc())}
    q.put(r)


def run_jobs(mod, jobs, seed, tier, nproc, verbose, overall):
    ctx = mp.get_context("fork")
    running, results = [], []
    queue = list(jobs)
    from engine import harness as H
    t_end = time.time() + overall
    while queue or running:
        while queue and len(running) < nproc:
            h, params = queue.pop(0)
            q = ctx.SimpleQueue()
            limit = min(h.timeout, max(5, t_end - time.time()))
            p = ctx.Process(target=job, args=(mod, h.name, params, seed, tier, limit, q))
            p.start()
            running.append((p, q, h, params, time.time(), limit))
        time.sleep(0.02)
        still = []
        for p, q, h, params, t0, limit in running:
            if not q.empty():
                r = q.get()
                p.join(10)
                if p.is_alive():
                    p.kill()
                results.append(r)
                if verbose:
                    show(r)
            elif not p.is_alive():
                time.sleep(0.05)
                if not q.empty():
                    r = q.get()
                else:
                    r = {"harness": h.name, "params": H.pname(params), "crash": "worker died (exit %s)" % p.exitcode}
                results.append(r)
                if verbose:
                    show(r)
            elif time.time() - t0 > limit + 30:
                p.kill()
                results.append({"harness": h.name, "params": H.pname(params), "crash": "killed after %ds" % (limit + 30)})
                if verbose:
                    show(results[-1])
            else:
                still.append((p, q, h, params, t0, limit))
        running = still
    return results


def show(r):
    if "crash" in r:
        print("  %-28s %-30s CRASH %s" % (r["harness"], r["params"], r["crash"]))
        return
    print("  %-28s %-34s paths=%d checks=%d nf=%d smt=%d val=%d q=%d solver=%.1fs wall=%.1fs%s%s%s%s" % (
        r["harness"], r["params"], r["paths"], r["checks"], r["nf"], r["smt"], r["validated"], r["queries"],
        r["solver_s"], r["wall"],
        " VIOL=%s" % [(v["label"], v["fails"][:2]) for v in r["violations"]] if r["violations"] else "",
        " UNREPRO=%s" % [(v["label"], (v["exc"] or "")[-400:]) for v in r["unreproduced"]] if r["unreproduced"] else "",
        " WITFAIL=%s" % r["witness_fail"][:3] if r["witness_fail"] else "",
        " INCONCLUSIVE=%s" % r["inconclusive"] if r["inconclusive"] else ""))
    sys.stdout.flush()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    a = ap.parse_args()
    pid = a.pid.upper()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    mod = pid.lower()
    m = importlib.import_module("checks." + mod)
    from engine import harness as H

    if a.replay:
        d = json.load(open(a.replay))
        h = next(x for x in m.HARNESSES if x.name == d["harness"])
        st, fails = H.replay(h, d["params"], d["values"], d["seed"], d["key"])
        print(st, fails)
        return 1 if st == "fail" else 0

    jobs = []
    for h in m.HARNESSES:
        if a.only and not fnmatch.fnmatch(h.name, a.only):
            continue
        for p in h.params(a.tier):
            jobs.append((h, p))
    overall = 780 if a.tier == "quick" else 6 * 3600
    results = run_jobs(mod, jobs, seed, a.tier, a.j, a.v, overall)

    known = load_known(pid)
    rdir = os.path.join(HERE, "replays")
    viol, found_known, errors = [], {}, []
    for r in results:
        if "crash" in r:
            errors.append("%s(%s): %s" % (r["harness"], r["params"], r["crash"]))
            continue
        for v in r["violations"]:
            k = "%s/%s" % (r["harness"], v["label"])
            hit = next((x for x in known if fnmatch.fnmatch(k, x[0])), None)
            if hit:
                found_known[hit[0]] = hit[1]
                continue
            viol.append((r, v))
        for u in r["unreproduced"]:
            errors.append("%s(%s): counterexample for %s did not reproduce on the real code" % (r["harness"], r["params"], u["label"]))
        if r["inconclusive"]:
            errors.append("%s(%s): %s" % (r["harness"], r["params"], r["inconclusive"]))
        if r["witness_fail"] and not r["violations"]:
            errors.append("%s(%s): %d witness trace(s) disagree with the real code" % (r["harness"], r["params"], len(r["witness_fail"])))

    for k, what in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
        if k not in found_known:
            print("note: known finding %s was not reproduced on this tree" % k)

    good = [r for r in results if "crash" not in r]
    funcs = sorted({f for r in good for f in r.get("functions", []) if "<module>" not in f})
    labels = {}
    for r in good:
        for k, v in r["labels"].items():
            labels["%s/%s" % (r["harness"], k)] = labels.get("%s/%s" % (r["harness"], k), 0) + v
    samples = []
    for r in good:
        if r.get("sample") and len(samples) < 5:
            samples.append({"harness": r["harness"], "params": r["params"],
                            "path_witness_replayed_on_real_code": {k: v for k, v in r["sample"].items() if k != "__funcs__"}})
    cov = {
        "states": sum(r["paths"] for r in good),
        "transitions": sum(r["queries"] for r in good),
        "traces_validated_against_impl": sum(r["validated"] for r in good),
        "samples": samples or ["none"],
        "meaning": "states = feasible symbolic paths explored to the end, transitions = SMT queries discharged, "
                   "traces_validated_against_impl = path witnesses (solver models) re-run on the real code with real numpy",
        "obligations_checked": sum(r["checks"] for r in good),
        "obligations_by_smt_unsat": sum(r["smt"] for r in good),
        "obligations_up_to_rounding": sum(r.get("rounding", 0) for r in good),
        "obligations_by_exact_normal_form": sum(r["nf"] for r in good),
        "solver_seconds": round(sum(r["solver_s"] for r in good), 2),
        "infeasible_paths_cut": sum(r["vacuous_paths"] for r in good),
        "functions_encoded": funcs,
        "labels": labels,
        "harnesses": {h.name: {"what": h.desc, "bounds": [H.pname(p) for p in h.params(a.tier)]} for h in m.HARNESSES},
        "bounds": getattr(m, "BOUNDS", ""),
        "outside": getattr(m, "OUTSIDE", ""),
        "inconclusive": errors[:20],
        "instances": {"run": len(results), "with_open_questions": len({e.split(":")[0] for e in errors})},
        "known_findings": sorted(found_known),
    }
    assumptions = ["float64 arithmetic is modelled as exact real arithmetic; every counterexample and one witness per "
                   "sampled path is re-run in float64 on the real code"]
    assumptions += list(getattr(m, "ASSUMPTIONS", []))
    assumptions += sorted({x for r in good for x in r["assumed"]})
    ev = {"property": pid, "tier": a.tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not a.only:
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)

    if viol:
        os.makedirs(rdir, exist_ok=True)
        for r, v in viol[:20]:
            name = "%s-%s-%s.json" % (pid, r["harness"], "".join(c if c.isalnum() else "_" for c in v["label"])[:60])
            path = os.path.join(rdir, name)
            h = next(x for x in m.HARNESSES if x.name == r["harness"])
            params = next(p for p in h.params(a.tier) if H.pname(p) == r["params"])
            json.dump({"property": pid, "harness": r["harness"], "params": params, "label": v["label"],
                       "values": v["values"], "fails": v["fails"], "seed": seed, "exception": v["exc"],
                       "key": "%s(%s)" % (r["harness"], r["params"]),
                       "how_to_replay": "cd /verif && ./run.py %s --replay %s" % (pid, path)},
                      open(path, "w"), indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  %s(%s): %s failed on the real code: %s" % (r["harness"], r["params"], v["label"], v["fails"][:3]))
        return 1
    for e in errors[:20]:
        print("INCONCLUSIVE property=%s %s" % (pid, e))
    decided = sum(1 for r in results if "crash" not in r and not r["inconclusive"] and not r["unreproduced"]
                  and not r["witness_fail"])
    if errors and 2 * decided < len(results):
        print("NO VERDICT property=%s: only %d of %d harness instances were decided" % (pid, decided, len(results)))
        return 2
    if errors:
        print("PARTIAL property=%s: %d of %d harness instances decided; the rest are listed above and in the evidence" % (
            pid, decided, len(results)))
    print("OK property=%s paths=%d obligations=%d (smt %d, normal form %d) queries=%d solver=%.1fs wall=%.1fs" % (
        pid, cov["states"], cov["obligations_checked"], cov["obligations_by_smt_unsat"],
        cov["obligations_by_exact_normal_form"], cov["transitions"], cov["solver_seconds"], ev["wall_s"]))
    return 0


if __name__ == "__main__":
    sys.exit(main())
