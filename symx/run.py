"""Decides one property: explores every path of its harnesses over the current sources, replays
counterexamples on the unmodified code, writes the evidence file.
usage: run.py PROPERTY [--tier quick|thorough] [--case NAME] [-v]"""
import argparse
import importlib
import json
import os
import random
import resource
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

SRC = os.environ.setdefault("VGM_SRC", "/repo/src")
NATIVE = os.environ.get("VGM_PYTHON", "/opt/venv/bin/python")
SITE = "/opt/venv/lib/python3.12/site-packages"
WORKERS = int(os.environ.get("VGM_WORKERS", "8"))
BUDGET = {"quick": 600, "thorough": 6000}      # seconds for the exploration
GRACE = 45                                      # then workers that do not answer are ended
MAX_UNREPRODUCED = 12
FAILING = ("violation", "exception", "hang", "crash")


def load_instrumented():
    from symx import instrument, runtime
    sys.path.append(SITE)
    fd = instrument.Finder(SRC, runtime.hooks(), skip=("xrns.xml",))
    sys.meta_path.insert(0, fd)
    return fd


def native(harness, tier, runs, limit=60, timeout=600):
    """Run cases natively; list of results (a run that killed the process gives 'crash')."""
    d = tempfile.mkdtemp(prefix="vgmn-")
    try:
        rq, rs = os.path.join(d, "rq.json"), os.path.join(d, "rs.json")
        with open(rq, "w") as f:
            json.dump({"harness": harness, "tier": tier, "runs": runs, "limit": limit}, f)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", VGM_SRC=SRC, PYTHONNOUSERSITE="1")
        env.pop("PYTHONPATH", None)
        err = ""
        try:
            p = subprocess.run([NATIVE, os.path.join(HERE, "symx", "native.py"), rq, rs], cwd=d, env=env,
                               capture_output=True, timeout=timeout, text=True)
            err = p.stderr[-600:]
            dead = "crash"
        except subprocess.TimeoutExpired:
            err = "no answer within %g s" % timeout
            dead = "hang" if len(runs) == 1 else "stopped"
        res = json.load(open(rs)) if os.path.exists(rs) else []
        if len(res) < len(runs):
            res.append({"result": dead, "msg": err})
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def dump_case(job):
    """Explore one case in this (forked) process."""
    harness, tier, name, deadline, seed, nsamples = job
    from symx import cenv, engine as E, runtime as R, senv
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    devnull = open(os.devnull, "w")
    sys.stdout = R.DEVNULL[0] = devnull
    rnd = random.Random("%s/%s" % (seed, name))
    h = importlib.import_module("harness." + harness)
    case = {c.name: c for c in h.cases(tier)}[name]
    eng = E.Engine()
    E.ENGINE = eng
    eng.deadline = deadline
    out = {"case": name, "bounds": case.bounds, "candidates": [], "limits": [], "reached": {}, "samples": [], "outcomes": {}}
    t0 = time.monotonic()
    scratch = tempfile.mkdtemp(prefix="vgms-")
    cwd = os.getcwd()
    kept = []
    nseen = ncand = replays = 0
    seen_viol = {}
    try:
        while True:
            cenv.purge(SRC)
            for f in os.listdir(scratch):
                p = os.path.join(scratch, f)
                shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
            eng.begin_path()
            eng.path_deadline = time.monotonic() + case.path_limit
            outcome = "ok"
            try:
                env = senv.SymEnv(eng, scratch)
                os.chdir(scratch)
                case.fn(env, **case.params)
            except E.Infeasible:
                outcome = "infeasible"
            except cenv.Skip:
                outcome = "skip"
            except E.Violation as v:
                outcome = "violation"
                if seen_viol.get(v.msg, 0) < MAX_UNREPRODUCED:
                    out["candidates"].append({"kind": "check", "msg": v.msg, "inputs": v.assignment})
                    if len(v.more) > 1:
                        rs = native(harness, tier, [{"case": name, "inputs": x} for x in v.more], limit=30, timeout=90)
                        for x, q in zip(v.more, rs):
                            if q["result"] in FAILING or x is v.more[0]:
                                out["candidates"][-1].update(inputs=x, native=q)
                            if q["result"] in FAILING:
                                break
                seen_viol[v.msg] = seen_viol.get(v.msg, 0) + 1
            except E.PathTimeout as e:
                outcome = "timeout"
                try:
                    eng.path_deadline = None
                    out["candidates"].append({"kind": "hang", "msg": "no end of execution: %s" % e, "inputs": eng.assignment()})
                except E.Control as e2:
                    out["limits"].append("path timeout without model: %r" % e2)
                if sum(1 for c in out["candidates"] if c["kind"] == "hang") >= 2:
                    out["limits"].append("several paths ran into the path time limit")
                    break
            except (E.EngineLimit, E.SolverUnknown, E.NeedFork, z3err()) as e:
                outcome = "limit"
                msg = "%s: %s" % (type(e).__name__, e)
                if len(out["limits"]) < 20:
                    out["limits"].append(msg + " @ " + where(e))
                if eng.deadline and time.monotonic() > eng.deadline:
                    break
                if sum(1 for c in out["candidates"] if c["kind"] == "limit") < 10:
                    try:
                        eng.spec, eng.local = 0, None
                        out["candidates"].append({"kind": "limit", "msg": msg, "inputs": eng.assignment()})
                    except E.Control:
                        pass
                if len(out["limits"]) >= 20:
                    break
            except (Exception, RecursionError) as e:
                outcome = "exception"
                msg = "%s: %s" % (type(e).__name__, str(e)[:200])
                k = type(e).__name__ + where(e)
                if seen_viol.get(k, 0) < 3:
                    out["candidates"].append({"kind": "exception", "msg": msg, "where": where(e), "inputs": safe_assignment(eng, out)})
                seen_viol[k] = seen_viol.get(k, 0) + 1
            finally:
                os.chdir(cwd)
            eng.spec, eng.local = 0, None
            eng.path_deadline = None
            c = out["candidates"][-1] if len(out["candidates"]) > ncand else None
            ncand = len(out["candidates"])
            if c and c["kind"] in ("check", "exception") and (replays < 12 or "native" in c):
                replays += 1
                c["native"] = c.get("native") or native(harness, tier, [{"case": name, "inputs": c["inputs"]}], limit=30, timeout=90)[0]
                if c["native"]["result"] in FAILING:
                    out["outcomes"][outcome] = out["outcomes"].get(outcome, 0) + 1
                    eng.stats.paths += 1
                    break               # shown on the real code: no need to look for more
            out["outcomes"][outcome] = out["outcomes"].get(outcome, 0) + 1
            if outcome == "infeasible":
                eng.stats.infeasible += 1
            else:
                eng.stats.paths += 1
            if outcome in ("ok", "skip"):
                for k in env.reached:
                    out["reached"][k] = out["reached"].get(k, 0) + 1
            if outcome == "ok":
                nseen += 1
                # reservoir sample of completed paths for native validation
                slot = len(kept) if len(kept) < nsamples else rnd.randrange(nseen)
                if slot < nsamples:
                    try:
                        s = sample(eng, env, senv)
                        if slot == len(kept):
                            kept.append(s)
                        else:
                            kept[slot] = s
                    except E.Control as e:
                        out["limits"].append("sample: %r" % e)
            if sum(seen_viol.values()) > 200:
                break
            try:
                if not eng.backtrack():
                    break
            except E.Control as e:
                out["limits"].append("%s: %s" % (type(e).__name__, e))
                break
            if time.monotonic() > deadline:
                out["limits"].append("time budget of the check exhausted")
                break
    except BaseException as e:              # noqa
        out["limits"].append("internal: " + "".join(traceback.format_exception(e))[-1500:])
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    out["samples"] = kept
    out["stats"] = eng.stats.as_dict()
    out["notes"] = sorted(eng.notes)
    out["functions"] = dict(R.ENTERED)
    out["wall"] = time.monotonic() - t0
    return out


def failed_case(job, reason):
    return {"case": job[2], "bounds": "", "candidates": [], "limits": [reason], "reached": {}, "samples": [], "outcomes": {},
            "stats": {"paths": 0, "queries": 0, "solver_s": 0.0}, "notes": [], "functions": {}, "wall": 0.0}


def z3err():
    import z3
    return z3.Z3Exception


def where(e):
    fr = traceback.extract_tb(e.__traceback__)
    inside = [f for f in fr if f.filename.startswith(SRC)]
    f = (inside or fr)[-1]
    return "%s:%s:%d" % (os.path.basename(f.filename), f.name, f.lineno) + ("" if inside else " (harness)")


def safe_assignment(eng, out):
    from symx import engine as E
    try:
        eng.path_deadline = None
        return eng.assignment()
    except E.Control as e:
        out["limits"].append("no model for exception path: %r" % e)
        return {}


def sample(eng, env, senv):
    eng.solver.push()
    try:
        softs = [c for d in eng.inputs.values() for c in d.prefer()][:4]
        for c in softs:
            eng.solver.push()
            eng.solver.add(c)
            if eng.solver.check().r != 1:
                eng.solver.pop()
        ok = eng.solver.check()
        if ok.r != 1:
            r, m = eng._slow_check()
        else:
            m = eng.solver.model()
        inputs = {n: d.evaluate(m) for n, d in eng.inputs.items()}
        observed = [[k, senv.eval_obs(v, m)] for k, v in env.observed]
        return {"inputs": inputs, "observed": observed, "reached": sorted(env.reached)}
    finally:
        while eng.solver.num_scopes() > sum(1 for e in eng.trail if e.pushed):
            eng.solver.pop()


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.json")
    if os.path.exists(p):
        for k in json.load(open(p))["findings"]:
            if k["property"] == prop:
                out.append(k)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in BUDGET else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = a.property
    t0 = time.monotonic()
    load_instrumented()
    harness = prop.lower()
    h = importlib.import_module("harness." + harness)
    if getattr(h, "NEEDS_XSDATA", False):
        import xrns.xml.song.renoise_song65          # noqa  (not instrumented; shared by all workers)
        from xsdata.formats.dataclass.serializers import XmlSerializer  # noqa
    from symx import procs, runtime
    runtime._setup()
    cases = h.cases(tier)
    if a.case:
        cases = [c for c in cases if a.case in c.name]
    assert len({c.name for c in cases}) == len(cases), "duplicate case names"
    deadline = t0 + BUDGET[tier]
    nsamples = getattr(h, "NATIVE_SAMPLES", 6 if tier == "quick" else 12)
    jobs = [(harness, tier, c.name, deadline, seed, nsamples) for c in sorted(cases, key=lambda c: -c.weight)]
    results = []
    confirmed, unreproduced, findings = [], [], {}
    running = procs.run_jobs(dump_case, jobs, min(WORKERS, max(1, len(jobs))), deadline + GRACE, failed_case)
    for r in running:
        results.append(r)
        if a.v:
            print("%-40s paths=%d q=%d solver=%.1fs wall=%.1fs %s reach=%s cand=%d limits=%s" % (
                r["case"], r["stats"]["paths"], r["stats"]["queries"], r["stats"]["solver_s"], r["wall"], r["outcomes"],
                r["reached"], len(r["candidates"]), r["limits"][:3]), flush=True)
        for c in sorted(r["candidates"], key=lambda c: c.get("native", {}).get("result") not in FAILING):
            if time.monotonic() > deadline + GRACE:
                unreproduced.append(c)
                continue
            res = c.get("native") or native(harness, tier, [{"case": r["case"], "inputs": c["inputs"]}], limit=30, timeout=90)[0]
            c["case"] = r["case"]
            c["native"] = res
            if a.v:
                print("   candidate", c["kind"], c["msg"], c.get("where"), json.dumps(c["inputs"])[:700], "->", {k: res.get(k) for k in ("result", "msg", "where")}, flush=True)
            if res["result"] in FAILING:
                confirmed.append(c)
                break
            elif c["kind"] != "limit":
                unreproduced.append(c)
        if confirmed:
            running.close()
            break
    # native validation of sampled paths
    validated, mismatches, samples = 0, [], []
    if not confirmed:
        runs = [(r["case"], s) for r in results for s in r["samples"]]
        res = native(harness, tier, [{"case": n, "inputs": s["inputs"]} for n, s in runs], timeout=150 if tier == "quick" else 1800) if runs else []
        for (n, s), q in zip(runs, res):
            if q["result"] in FAILING:
                # the path was proved but the real code fails on it: report it, it is a real failing input
                confirmed.append({"case": n, "kind": "native", "msg": "native run: " + q.get("msg", ""), "inputs": s["inputs"], "native": q})
                mismatches.append({"case": n, "why": q})
            elif q["result"] == "ok" and q["observed"] != json.loads(json.dumps(s["observed"])):
                mismatches.append({"case": n, "inputs": s["inputs"], "symbolic": s["observed"], "native": q["observed"]})
            elif q["result"] == "stopped":
                mismatches.append({"why": "native validation stopped early"})
            elif q["result"] == "ok" and q["reached"] != s["reached"]:
                mismatches.append({"case": n, "inputs": s["inputs"], "symbolic": s["reached"], "native": q["reached"]})
            else:
                validated += 1
                if len(samples) < 6:
                    samples.append({"case": n, "inputs": s["inputs"], "observed": s["observed"]})
        if len(res) < len(runs) and not (res and res[-1]["result"] == "stopped"):
            mismatches.append({"why": "native validation stopped early"})
    limits = [{"case": r["case"], "limits": r["limits"]} for r in results if r["limits"]]
    missing = []
    byname = {c.name: c for c in cases}
    for r in results:
        need = [x for x in byname[r["case"]].reach if x not in r["reached"]]
        if need:
            missing.append({"case": r["case"], "not reached": need})
        if not r["outcomes"].get("ok"):
            missing.append({"case": r["case"], "not reached": ["end of harness"]})
    # known findings: reach labels of the form "finding:<id>"
    for k in known_findings(prop):
        if any(("finding:" + k["id"]) in r["reached"] for r in results):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    wall = time.monotonic() - t0
    tot = {}
    for r in results:
        for k, v in r["stats"].items():
            tot[k] = tot.get(k, 0) + v
    funcs = {}
    for r in results:
        for k, v in r["functions"].items():
            funcs[k] = funcs.get(k, 0) + v
    partial = False
    if confirmed:
        status = 1
    elif len(results) < len(jobs) or (missing and not limits) or any(not r["outcomes"].get("ok") for r in results):
        status = 2              # nothing (or not the intended situations) explored: no answer
    elif limits or missing or mismatches or unreproduced:
        status = 2 if os.environ.get("VGM_STRICT") else 0
        partial = True
    else:
        status = 0
    cov = {
        "states": tot.get("paths", 0),
        "transitions": tot.get("branches", 0) + tot.get("values", 0),
        "traces_validated_against_impl": validated,
        "samples": samples or [{"case": c.get("case"), "inputs": c.get("inputs"), "violation": c.get("msg")} for c in confirmed[:2]] or [{"none": True}],
        "exhaustive": status == 0 and not partial,
        "meaning": "states = feasible execution paths of the harnesses over the real (AST-instrumented) code, each explored for all inputs on it; transitions = branch decisions and value splits made by the solver; every property assertion on every path was discharged by an unsat answer (or was concretely true)",
        "harness_cases": len(results),
        "assertions": tot.get("checks", 0),
        "assertions_discharged_by_solver_query": tot.get("check_queries", 0),
        "solver_queries": tot.get("queries", 0),
        "solver_seconds": round(tot.get("solver_s", 0.0), 2),
        "functions_encoded": [k for k, _ in sorted(funcs.items())][:120],
        "bounds": [{"case": c.name, "bounds": c.bounds} for c in cases][:60],
        "reach_witnesses": {r["case"]: r["reached"] for r in results[:60]},
        "solver": "z3 " + __import__("z3").get_version_string(),
    }
    if limits or missing or mismatches or unreproduced:
        cov["inconclusive"] = json.loads(json.dumps({"limits": limits[:8], "missing_reach": missing[:8], "mismatch": mismatches[:3],
                                                     "unreproduced": [{k: c[k] for k in ("case", "kind", "msg")} for c in unreproduced[:8]]}, default=str))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": list(getattr(h, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS + sorted({n for r in results for n in r["notes"]}),
          "wall_s": round(wall, 2), "violations": len(confirmed)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not a.case:
        txt = json.dumps(ev, indent=1)
        if len(txt) > 60000:
            cov["bounds"] = cov["bounds"][:12]
            cov["reach_witnesses"] = dict(list(cov["reach_witnesses"].items())[:12])
            cov["samples"] = cov["samples"][:2]
            txt = json.dumps(ev, indent=1)
        p = os.path.join(HERE, "evidence", prop + ".json")
        with open(p + ".tmp", "w") as f:
            f.write(txt)
        os.replace(p + ".tmp", p)
    print("%s tier=%s cases=%d paths=%d assertions=%d queries=%d solver=%.1fs native=%d wall=%.1fs" % (
        prop, tier, len(results), tot.get("paths", 0), tot.get("checks", 0), tot.get("queries", 0), tot.get("solver_s", 0), validated, wall))
    if confirmed:
        c = confirmed[0]
        rp = os.path.join(HERE, "evidence", prop + ".replay.json")
        with open(rp, "w") as f:
            json.dump({"property": prop, "harness": harness, "tier": tier, "case": c["case"], "inputs": c["inputs"], "message": c["msg"],
                       "native": c["native"], "how": "python3-vt symx/replay.py " + rp}, f, indent=1)
        print("  case %s: %s; native: %s %s" % (c["case"], c["msg"], c["native"]["result"], c["native"].get("msg", "")))
        print("  inputs %s" % json.dumps(c["inputs"])[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        sys.exit(1)
    if status == 2 or partial:
        print("%s property=%s" % ("INCONCLUSIVE" if status == 2 else "INCOMPLETE (held on everything explored, see evidence)", prop))
        for x in (limits[:4], missing[:4], mismatches[:2], [{k: c[k] for k in ("case", "kind", "msg", "inputs")} for c in unreproduced[:3]]):
            if x:
                print("  ", json.dumps(x, default=str)[:1500])
        sys.exit(status)
    print("OK property=%s" % prop)


COMMON_ASSUMPTIONS = [
    "the AST instrumentation and the models of struct/json/open/gzip/print/xsdata tokens preserve Python's semantics (validated by native replay of sampled paths and by the repository's own tests under instrumentation)",
    "z3 is sound; an unknown or a timeout is reported as inconclusive, never as success",
]

if __name__ == "__main__":
    main()
