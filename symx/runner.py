"""Runs one check: explore every configuration symbolically, replay what was found."""

import importlib
import json
import multiprocessing as mp
import os
import resource
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable


def load_check(pid):
    return importlib.import_module("checks." + pid.lower())


def _worker(arg):
    pid, cfg, tier, budget, seed, end = arg
    from symx import core, loader

    t0 = time.time()
    out = {"cfg": cfg, "error": None}
    try:
        check = load_check(pid)
        loader.start_tracking()
        sys.unraisablehook = _quiet
        qlog = [] if cfg.get("_qlog") else None
        ex = core.Explorer(
            budget_s=max(5, min(cfg.get("budget", budget), end - time.time())),
            fuel=cfg.get("fuel", 20000),
            query_timeout_ms=cfg.get("qt", 20000),
            witnesses=cfg.get("witnesses", 2),
            max_violations=cfg.get("max_violations", 3),
            query_log=qlog,
        )
        ex.run(lambda c: check.harness(c, cfg))
        out["stats"] = {f: getattr(ex.stats, f) for f in ex.stats.FIELDS}
        out["stats"]["solver_s"] = ex.stats.solver_s
        out["stats"]["infeasible"] = ex.stats.infeasible
        out["stats"]["max_depth"] = ex.stats.max_depth
        out["stats"]["max_cpu"] = ex.stats.max_cpu
        out["hangs"] = ex.hangs
        out["cuts"] = ex.stats.cuts
        out["reached"] = ex.stats.reached
        out["violations"] = [
            {"msg": v.msg, "params": v.params} for v in ex.violations
        ]
        out["witnesses"] = ex.witnesses
        out["funcs"] = sorted(loader.FUNCS)
        out["outcomes"] = ex.outcomes
        out["qlog"] = qlog or []
    except BaseException:
        out["error"] = traceback.format_exc()
    out["wall"] = time.time() - t0
    return out


def _quiet(u):
    """(Destructors of the code under test which run after their path ended.)"""
    from symx import core, threads

    if not isinstance(u.exc_value, (core.Steer, core.EngineError, threads.ThreadKill, threads.Hang)):
        sys.__unraisablehook__(u)


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def match_known(pid, cfg, v):
    for k in known_findings():
        if k.get("property") != pid or k.get("fixed"):
            continue
        if k.get("config") and k["config"] != cfg.get("name"):
            continue
        if k.get("message") and k["message"] not in v["msg"]:
            continue
        ok = True
        for name, want in (k.get("params") or {}).items():
            if v["params"].get(name) != want:
                ok = False
        if ok:
            return k
    return None


def run_concrete(pid, jobs, timeout):
    """jobs: [{cfg, params}] -> [result] (run in one un-instrumented process)."""
    if not jobs:
        return []
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "batch-%s-%d-%d.json" % (pid, os.getpid(), id(jobs) % 99991))
    with open(f, "w") as fo:
        json.dump({"property": pid, "jobs": jobs}, fo)
    env = dict(os.environ)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    try:
        p = subprocess.run(
            [PY, os.path.join(HERE, "replay.py"), "--batch", f],
            stdout=subprocess.PIPE,
            stderr=subprocess.PIPE,
            timeout=timeout,
            env=env,
            cwd=HERE,
        )
        res = []
        for line in p.stdout.decode("utf-8", "replace").splitlines():
            if line.startswith("@@"):
                res.append(json.loads(line[2:]))
        if len(res) < len(jobs):
            tail = p.stderr.decode("utf-8", "replace")[-600:]
            res += [{"error": "replay died: rc %s %s" % (p.returncode, tail)}] * (
                len(jobs) - len(res)
            )
        return res
    except subprocess.TimeoutExpired:
        return [{"error": "replay timed out"}] * len(jobs)
    finally:
        os.unlink(f)


def crosscheck(pid, qlog, limit=24):
    """Give a sample of the discharged queries to a second solver (cvc5)."""
    done = agree = 0
    bad = []
    t = time.time()
    for smt, want in qlog[:limit]:
        try:
            p = subprocess.run(
                ["cvc5", "--lang=smt2", "--tlimit=20000", "-q"],
                input=("(set-logic ALL)\n" + smt).encode(),
                stdout=subprocess.PIPE,
                stderr=subprocess.PIPE,
                timeout=40,
            )
        except (subprocess.TimeoutExpired, FileNotFoundError):
            continue
        got = p.stdout.decode().strip().splitlines()
        if got and got[0] in ("sat", "unsat"):
            done += 1
            if got[0] == want:
                agree += 1
            else:
                bad.append({"want": want, "got": got[0]})
    return {"queries": done, "agree": agree, "disagree": bad, "seconds": round(time.time() - t, 2)}


def main(argv):
    pid = argv[0].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if "--quick" in argv:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = [a[len("--only=") :] for a in argv if a.startswith("--only=")]
    verbose = "-v" in argv
    t0 = time.time()
    check = load_check(pid)
    cfgs = check.configs(tier)
    if only:
        cfgs = [c for c in cfgs if any(o in c["name"] for o in only)]
    budget = getattr(check, "BUDGET", {}).get(tier, 150 if tier == "quick" else 1500)
    if tier == "thorough":
        for c in cfgs[:8]:
            c["_qlog"] = True
    nproc = min(8, os.cpu_count() or 2, max(1, len(cfgs)))
    # longest first
    cfgs.sort(key=lambda c: -c.get("weight", 1))
    results = []
    ctxmp = mp.get_context("fork")
    end = t0 + (400 if tier == "quick" else 5 * 3600)
    with ctxmp.Pool(nproc, maxtasksperchild=1) as pool:
        it = pool.imap_unordered(
            _worker, [(pid, c, tier, budget, seed, end) for c in cfgs], chunksize=1
        )
        hard = t0 + (560 if tier == "quick" else 6 * 3600)
        for _ in cfgs:
            try:
                r = it.next(timeout=max(1, hard - time.time()))
            except mp.TimeoutError:
                results.append({"cfg": {"name": "?"}, "error": "hard time limit"})
                break
            results.append(r)
            if verbose:
                print(
                    "  %-40s %6.1fs paths=%s %s %s"
                    % (
                        r["cfg"]["name"],
                        r.get("wall", 0),
                        r.get("stats", {}).get("paths"),
                        r.get("outcomes"),
                        r.get("cuts") or "",
                    ),
                    flush=True,
                )
                if r["error"]:
                    print(r["error"])
                for v in r.get("violations", []):
                    print("    V:", v["msg"], v["params"])
        pool.terminate()

    errors = [r for r in results if r["error"]]
    results = [r for r in results if not r["error"]]
    agg = {}
    cuts, reached, funcs, outcomes = {}, {}, set(), {}
    for r in results:
        for k, v in r["stats"].items():
            agg[k] = max(agg.get(k, 0), v) if k.startswith("max_") else agg.get(k, 0) + v
        for k, v in r["cuts"].items():
            cuts[k] = cuts.get(k, 0) + v
        for k, v in r["reached"].items():
            reached[k] = reached.get(k, 0) + v
        for k, v in r["outcomes"].items():
            outcomes[k] = outcomes.get(k, 0) + v
        funcs.update(r["funcs"])

    # ---- counterexamples ----
    confirmed, unconfirmed, known = [], [], []
    cand = []
    for r in results:
        for v in r["violations"]:
            if v["params"] is None:
                unconfirmed.append({"cfg": r["cfg"]["name"], "msg": v["msg"], "why": "no model"})
                continue
            cand.append((r["cfg"], v))
    cand = cand[:24]
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    reps = []
    if cand:
        reps = pmap_concrete(pid, [{"cfg": c, "params": v["params"]} for c, v in cand], 240, nproc)
    for (c, v), res in zip(cand, reps):
        if res.get("violations"):
            k = match_known(pid, c, v)
            rec = {"cfg": c, "params": v["params"], "msg": v["msg"], "property": pid, "observed": res["violations"][:4]}
            if k is not None:
                known.append((k, rec))
            else:
                confirmed.append(rec)
        else:
            unconfirmed.append(
                {"cfg": c["name"], "msg": v["msg"], "params": v["params"], "replay": res}
            )

    # ---- paths without an end ----
    hangs = [(r["cfg"], h) for r in results for h in r.get("hangs", ())][:8]
    if hangs:
        res_h = pmap_concrete(
            pid, [{"cfg": c, "params": h["params"], "hang": True} for c, h in hangs], 200, nproc
        )
        for (c, h), res in zip(hangs, res_h):
            if res.get("violations"):
                v = {"msg": res["violations"][0], "params": h["params"]}
                k = match_known(pid, c, v)
                rec = {"cfg": c, "params": h["params"], "msg": v["msg"], "property": pid,
                       "observed": res["violations"][:4], "hang": True}
                if k is not None:
                    known.append((k, rec))
                else:
                    confirmed.append(rec)

    # ---- witnesses ----
    wit = []
    maxw = getattr(check, "MAX_WITNESSES", {}).get(tier, 24 if tier == "quick" else 80)
    per = [list(r["witnesses"]) for r in results]
    i = 0
    while len(wit) < maxw and any(per):
        for r, ws in zip(results, per):
            if ws and len(wit) < maxw:
                w = ws.pop(0)
                wit.append((r["cfg"], w))
        i += 1
    wres = pmap_concrete(pid, [{"cfg": c, "params": w["params"]} for c, w in wit], 300, nproc)
    validated = 0
    mismatch = []
    for (c, w), res in zip(wit, wres):
        if res.get("violations"):
            v = {"msg": res["violations"][0], "params": w["params"]}
            k = match_known(pid, c, v)
            rec = {"cfg": c, "params": w["params"], "msg": "(found when replaying a solver model) " + v["msg"], "property": pid, "observed": res["violations"][:4]}
            if k is not None:
                known.append((k, rec))
            else:
                confirmed.append(rec)
        elif res.get("error") or res.get("outcome") != w["outcome"]:
            mismatch.append({"cfg": c["name"], "predicted": w["outcome"], "real": res, "params": w["params"]})
        else:
            validated += 1

    complete = agg.get("paths", 0) - agg.get("infeasible", 0) - sum(
        v for k, v in cuts.items() if not k.endswith("budget")
    )
    viol_n = len(confirmed)
    xc = None
    if tier == "thorough":
        ql = []
        for r in results:
            ql += r.get("qlog", [])
        xc = crosscheck(pid, ql, 60)

    wall = time.time() - t0
    samples = [
        {"config": c["name"], "outcome": w["outcome"], "inputs": w["params"]}
        for c, w in wit[:5]
    ] or [{"config": r["cfg"]["name"]} for r in results[:2]]
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": getattr(check, "LEVEL", "model_checking"),
        "coverage": {
            "states": agg.get("branches", 0) + agg.get("paths", 0),
            "transitions": agg.get("forks", 0),
            "traces_validated_against_impl": validated,
            "samples": samples,
            "deciding_method": "symbolic execution of the real code, assertions decided by z3",
            "functions_encoded": sorted(funcs),
            "configurations": [c["name"] for c in cfgs],
            "bounds": check.BOUNDS[tier] if isinstance(check.BOUNDS, dict) else check.BOUNDS,
            "outside_the_bounds": getattr(check, "OUTSIDE", ""),
            "paths_explored": agg.get("paths", 0),
            "paths_completed": complete,
            "path_outcomes": outcomes,
            "symbolic_branches": agg.get("branches", 0),
            "assertions": agg.get("asserts", 0),
            "assertions_proved": agg.get("asserts_proved", 0),
            "solver_queries": agg.get("queries", 0),
            "solver_sat": agg.get("sat", 0),
            "solver_unsat": agg.get("unsat", 0),
            "solver_unknown": agg.get("unknown", 0),
            "solver_seconds": round(agg.get("solver_s", 0), 3),
            "max_path_depth": agg.get("max_depth", 0),
            "max_path_cpu_s": round(agg.get("max_cpu", 0), 2),
            "cuts": cuts,
            "reached": reached,
            "unconfirmed_counterexamples": unconfirmed[:5],
            "model_mismatches": mismatch[:5],
            "known_findings_seen": sorted({k["id"] for k, _ in known}),
        },
        "assumptions": getattr(check, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": viol_n,
    }
    if xc is not None:
        ev["coverage"]["second_solver_cvc5"] = xc
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")

    print(
        "%s [%s]: %d configurations, %d paths (%d complete), %d assertions (%d proved), "
        "%d queries, %.1f s solver, %.1f s wall, %d replays agree"
        % (
            pid, tier, len(cfgs), agg.get("paths", 0), complete, agg.get("asserts", 0),
            agg.get("asserts_proved", 0), agg.get("queries", 0), agg.get("solver_s", 0), wall, validated,
        )
    )
    for k in sorted(cuts):
        print("INCOMPLETE: %d path(s) abandoned: %s" % (cuts[k], k))
    for m in mismatch[:5]:
        print("MODEL-MISMATCH: %s" % json.dumps(m)[:600])
    for u in unconfirmed[:5]:
        print("INCONCLUSIVE: counterexample not reproduced: %s" % json.dumps(u, default=str)[:600])
    for kid in sorted({k["id"] for k, _ in known}):
        k = [k for k, _ in known if k["id"] == kid][0]
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    rc = 0
    if confirmed:
        seen = set()
        for n, rec in enumerate(confirmed):
            if rec["msg"] in seen:
                continue
            seen.add(rec["msg"])
            path = os.path.join(HERE, "replays", "%s-%d.json" % (pid, n))
            with open(path, "w") as f:
                json.dump(rec, f, indent=1)
            print("  %s  [%s] %s" % (rec["msg"], rec["cfg"]["name"], json.dumps(rec["params"])[:400]))
            print("  observed: %s" % json.dumps(rec["observed"])[:600])
            print("VIOLATION property=%s replay=%s" % (pid, path))
        rc = 1
    elif errors:
        for e in errors[:3]:
            print("ERROR in configuration %s:\n%s" % (e["cfg"].get("name"), e["error"]))
        # an internal error of some configurations leaves the others standing
        rc = 2 if len(errors) >= len(cfgs) or "--strict" in argv else 0
    if rc == 0 and complete <= 0:
        print("ERROR: no path was explored to its end")
        rc = 2
    if rc == 0 and "--strict" in argv and (cuts or mismatch or unconfirmed or errors):
        print("STRICT: incomplete")
        rc = 3
    return rc


def pmap_concrete(pid, jobs, timeout, nproc):
    """Split the concrete jobs over a few processes, keeping order."""
    if not jobs:
        return []
    n = min(nproc, len(jobs), 8)
    from concurrent.futures import ThreadPoolExecutor

    groups = [list(range(i, len(jobs), n)) for i in range(n)]
    out = [None] * len(jobs)

    def one(g):
        rs = run_concrete(pid, [jobs[i] for i in g], timeout)
        for i, r in zip(g, rs):
            out[i] = r

    with ThreadPoolExecutor(n) as tp:
        list(tp.map(one, groups))
    return out
