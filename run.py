#!/usr/bin/env python3
"""Run the check of one property:  run.py <ID> [--tier quick|thorough] [--replay FILE]"""
import argparse
import fnmatch
import hashlib
import importlib
import json
import os
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/venv/bin/python"
if os.path.exists(VENV) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv"):
    os.execv(VENV, [VENV] + [os.path.abspath(sys.argv[0])] + sys.argv[1:])

_mpl = tempfile.mkdtemp(prefix="verif-mpl-")
os.environ.update(MPLBACKEND="Agg", MPLCONFIGDIR=_mpl, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                  PYTHONHASHSEED="0")
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent/pycache"
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.setrecursionlimit(20000)

import multiprocessing as mp  # noqa: E402
import logging  # noqa: E402

logging.disable(logging.CRITICAL)


def known(prop):
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                head, _, what = line.partition(" | ")
                d = {}
                for tok in head.split()[1:]:
                    k, _, v = tok.partition("=")
                    d[k] = v.replace("~", " ")
                d["what"] = what
                out.append(d)
    return out


def is_known(kf, scenario, label, inputs):
    for k in kf:
        if fnmatch.fnmatchcase(scenario, k.get("scenario", "*")) and \
                fnmatch.fnmatchcase(label, k.get("label", "*")):
            return k
    return None


def work(job):
    prop, name, fn, params, opts = job
    from symex import harness
    mod = importlib.import_module("checks." + prop)
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        return harness.ScenarioRun(prop, name, getattr(mod, fn), params, opts).go()
    except BaseException as e:
        import traceback
        return dict(scenario=name, crash="%s: %s" % (type(e).__name__, e), tb=traceback.format_exc()[-3000:])


def preload(harness):
    """Load the package once, so that the workers share it; a module that cannot be
    loaded is reported by the scenarios that need it."""
    for dirpath, _, files in os.walk(os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src", "diffpy", "srmise")):
        rel = os.path.relpath(dirpath, os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src")).split(os.sep)
        if "applications" in rel:
            continue
        for f in sorted(files):
            if f.endswith(".py") and f != "__init__.py":
                for w in (harness.symworld(), harness.realworld()):
                    try:
                        w.load(".".join(rel + [f[:-3]]))
                    except Exception:
                        pass


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--debug", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module("checks." + a.prop)
    from symex import harness
    if a.replay:
        d = json.load(open(a.replay))
        fn = getattr(mod, d["fn"])
        r = harness.run_real(fn, d["params_raw"], d["inputs"])
        print(r[:3])
        sys.exit(1 if r[0] == "viol" else 0)
    t0 = time.time()
    jobs = []
    kfs = known(a.prop)
    total = float(os.environ.get("VERIF_BUDGET", 600 if a.tier == "quick" else 3000))
    for name, fn, params, opts in mod.scenarios(a.tier):
        if a.only and not fnmatch.fnmatchcase(name, a.only):
            continue
        o = dict(seed=seed, debug=a.debug, known=[(k.get("scenario", "*"), k.get("label", "*")) for k in kfs])
        o.update(opts or {})
        jobs.append((a.prop, name, fn, params, o))
    weights = sorted(jobs, key=lambda j: -j[4].get("weight", 1))
    preload(harness)
    results = []
    if a.jobs == 1:
        results = [work(j) for j in weights]
    else:
        ctx = mp.get_context("fork")
        pool = ctx.Pool(min(a.jobs, max(1, len(weights))), maxtasksperchild=1)
        pend = [(j, pool.apply_async(work, (j,))) for j in weights]
        while pend and time.time() - t0 < total:
            left = []
            for j, r in pend:
                if r.ready():
                    res = r.get()
                    results.append(res)
                    if any(not is_known(kfs, res["scenario"], v[0], v[1]) for v in res.get("viol", ())):
                        total = min(total, time.time() - t0 + 150)   # reported anyway: no need to finish
                else:
                    left.append((j, r))
            pend = left
            time.sleep(0.02)
        for j, r in pend:
            results.append(dict(scenario=j[1], crash="time budget of the check used up", late=True))
        pool.terminate()
    finish(a, mod, jobs, results, seed, time.time() - t0)


def finish(a, mod, jobs, results, seed, wall):
    byname = {j[1]: j for j in jobs}
    kf = known(a.prop)
    seen_known, new, inconcl, crashed = {}, [], [], []
    for r in results:
        if "crash" in r:
            crashed.append(r)
            continue
        for lab, vals, det, goal in r["viol"]:
            k = is_known(kf, r["scenario"], lab, vals)
            if k:
                seen_known.setdefault(k["what"], (r["scenario"], lab, vals))
            else:
                new.append((r["scenario"], lab, vals, det))
        for lab, det in r["inconcl"]:
            if not is_known(kf, r["scenario"], lab, {}):
                inconcl.append((r["scenario"], lab, det))
    ok = [r for r in results if "crash" not in r]
    S = lambda k: sum(r[k] for r in ok)
    vacuous = [r["scenario"] for r in ok if not r["obligations"]]
    cov = dict(
        states=S("paths"), transitions=S("decisions"), branch_points=S("branches"),
        traces_validated_against_impl=S("validated"), observed_values_compared=S("obs_checked"),
        samples=[{"scenario": r["scenario"], "witness": s} for r in ok for s in r["samples"][:1]][:12],
        solver_queries=S("queries"), feasibility_queries=S("feas"), normal_form_discharged=S("norm"),
        constant_obligations=S("trivial"), solver_seconds=round(S("solver_s"), 2),
        obligations={k: sum(r["obligations"].get(k, 0) for r in ok) for k in
                     sorted({k for r in ok for k in r["obligations"]})},
        undecided={r["scenario"]: r["undecided"] for r in ok if r["undecided"]},
        unknown_feasibility=S("unknown"), concretisations=S("concretised"),
        concretised_subcases=S("fallback"),
        engine_limits={r["scenario"]: r["limited"] for r in ok if r["limited"]},
        exhaustive=all(r["exhaustive"] for r in ok) and not crashed,
        not_exhaustive=[r["scenario"] for r in ok if not r["exhaustive"]],
        divergent=sum(r["ndivergent"] for r in ok),
        divergent_samples=[d for r in ok for d in r["divergent"]][:5],
        scenarios=len(results),
        per_scenario=[dict(scenario=r["scenario"], paths=r["paths"], queries=r["queries"], wall=r["wall"])
                      for r in ok],
        functions_encoded=getattr(mod, "FUNCTIONS", []), bounds=getattr(mod, "BOUNDS", ""),
        inconclusive=[list(i) for i in inconcl][:20], crashed=[r["scenario"] + ": " + r["crash"] for r in crashed],
    )
    ev = dict(property=a.prop, tier=a.tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", []) + COMMON, wall_s=round(wall, 2), violations=len(new))
    if not a.only:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print("%s [%s]: %d scenarios, %d paths, %d obligations (%d queries, %d by normal form, %d constant), "
          "%d witnesses replayed, solver %.1fs, wall %.1fs%s" % (
              a.prop, a.tier, len(results), S("paths"), sum(cov["obligations"].values()), S("queries"), S("norm"),
              S("trivial"), S("validated"), S("solver_s"), wall, "" if cov["exhaustive"] else " (NOT exhaustive)"))
    if a.debug or a.only:
        for r in ok:
            print("  ", r["scenario"], "paths", r["paths"], "val", r["validated"], "wall", r["wall"],
                  "div", r["ndivergent"], r["divergent"][:2], r["limited"], "undec", r["nundecided"], r["undecided"][:3],
                  "" if r["exhaustive"] else "NOT EXHAUSTIVE")
    for what, (sc, lab, vals) in sorted(seen_known.items()):
        print("KNOWN-FINDING: property=%s %s" % (a.prop, what))
    code = 0
    if new:
        code = 1
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        done = set()
        for sc, lab, vals, det in new:
            if (sc, lab) in done or len(done) > 20:
                continue
            done.add((sc, lab))
            j = byname[sc]
            hsh = hashlib.sha1((sc + lab).encode()).hexdigest()[:8]
            p = os.path.join(HERE, "replays", "%s-%s.json" % (a.prop, hsh))
            with open(p, "w") as f:
                json.dump(dict(property=a.prop, scenario=sc, fn=j[2], params_raw=j[3], inputs=vals, label=lab,
                               detail=det), f, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (a.prop, p))
            print("   scenario %s: %s %s inputs=%s" % (sc, lab, (det or "")[:300], str(vals)[:400]))
    elif any(not r.get("late") for r in crashed) or len(vacuous) == len(ok):
        code = 2
    for i in inconcl[:10]:
        print("   undecided (solver model not reproduced by the real code):", i)
    for r in crashed:
        print("   crashed:", r["scenario"], r["crash"], r.get("tb", "") if not r.get("late") else "")
    if vacuous:
        print("   vacuous scenarios:", vacuous)
    if cov["divergent"]:
        print("   divergent witnesses:", cov["divergent"], str(cov["divergent_samples"])[:600])
    import shutil
    shutil.rmtree(_mpl, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


COMMON = [
    "floating point numbers are modelled as exact reals; every counterexample and a witness of every "
    "explored path is re-run in IEEE arithmetic on the unmodified package",
    "numpy/math functions behave as modelled in symex/npshim.py (validated by the replayed witnesses)",
    "sqrt/exp/log/sin/cos/arcsin are uninterpreted functions with sound axioms",
]

if __name__ == "__main__":
    main()
