"""Cases, their symbolic run, replay of counterexamples, evidence and exit status."""
import hashlib
import importlib
import json
import math
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
UNDECIDED = ("solver undecided", "feasibility undecided", "time limit", "path limit", "normal form too large", "does not reproduce on the real code")
REPO = os.environ.get("PYQLAW_REPO", "/repo")


class Case:
    def __init__(self, name, harness, setup=None, mode="real", tier="quick", bounds="", validate=True,
                 expect=(), algebra=False, **opts):
        self.name, self.harness, self.setup, self.mode, self.tier = name, harness, setup, mode, tier
        self.bounds, self.validate, self.expect, self.opts = bounds, validate, tuple(expect), opts
        self.algebra = algebra


def replay(modname, case, jobs, timeout=300):
    """run the case on the real library with concrete values"""
    d = tempfile.mkdtemp(prefix="vsym-")
    try:
        jp, op = os.path.join(d, "jobs.json"), os.path.join(d, "out.json")
        with open(jp, "w") as f:
            json.dump(jobs, f)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=VERIF, MPLBACKEND="Agg",
                   OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", NUMBA_NUM_THREADS="1", MPLCONFIGDIR=d,
                   NUMBA_CACHE_DIR=d)
        p = subprocess.run([sys.executable, "-m", "vsym.concrete", modname, case.name, jp, op],
                           cwd=d, env=env, capture_output=True, text=True, timeout=timeout)
        if p.returncode != 0 or not os.path.exists(op):
            return None, (p.stderr or p.stdout)[-2000:]
        with open(op) as f:
            return json.load(f), ""
    except subprocess.TimeoutExpired:
        return None, "replay timed out"
    finally:
        subprocess.run(["rm", "-rf", d])


def close(a, b, tol=1e-7):
    if a is None or b is None:
        return True
    if isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
        if isinstance(a, bool) or isinstance(b, bool):
            return bool(a) == bool(b)
        return a == b
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def run_case(modname, name, seed, tier, deadline):
    from . import expr as E, engine, loader
    from .concrete import Ctx
    t0 = time.time()
    mod = importlib.import_module(modname)
    case = {c.name: c for c in mod.CASES}[name]
    E.reset()
    E.set_mode(case.mode)
    out = {"case": name, "failures": [], "inconclusive": [], "bounds": case.bounds}
    ctx = Ctx()
    ctx.symbolic = True
    ctx.tier = tier
    patches, modules = case.setup(ctx) if case.setup else ({}, {})
    ctx.num = lambda x: E.evalf(E.node(x), {k: v for k, v in ctx.env.defaults.items()})
    lenv = loader.Env(patches, modules, getattr(ctx, "builtins", None))
    ctx.lenv = lenv
    ctx._sub = lenv.sub
    opts = dict(case.opts)
    want = opts.pop("want_traces", 6 if case.validate else 0)
    eng = engine.Engine(seed=seed, deadline=deadline, want_traces=want, algebra=case.algebra, **opts)
    try:
        ctx.lib = lenv.load()
    except E.Concretization as ex:
        out["inconclusive"].append(f"cannot load symbolically: {ex}")
        out["stats"] = eng.stats.as_dict()
        return out
    except Exception as ex:
        out["inconclusive"].append("cannot load symbolically: " + "".join(traceback.format_exception(ex, limit=-3)))
        out["stats"] = eng.stats.as_dict()
        return out

    def h(env):
        ctx.env = env
        case.harness(env, ctx)
    try:
        eng.explore(h)
    except Exception as ex:
        out["inconclusive"].append("harness error: " + "".join(traceback.format_exception(ex, limit=-6)))
    out["inconclusive"] += eng.inconclusive
    miss = [l for l in case.expect if l not in eng.stats.labels and l not in eng.reached]
    if miss and not eng.failures:
        out["inconclusive"].append(f"assertions never reached (vacuous): {miss}")
    # replay: counterexamples and path models
    jobs = [f.values for f in eng.failures] + [v for v, _ in eng.traces]
    out["validated"] = out["mismatch"] = 0
    out["samples"] = []
    out["mismatches"] = []
    if jobs:
        res, err = replay(modname, case, jobs)
        if res is None:
            out["inconclusive"].append("replay failed: " + err)
            res = []
        nf = len(eng.failures)
        for f, r in zip(eng.failures, res):
            rep = False
            if f.kind == "exception":
                rep = r["exception"] is not None or (f.label.startswith("undefined") and bool(r["failed"]))
            else:
                rep = bool(r["failed"])
            out["failures"].append({"label": f.label, "kind": f.kind, "detail": f.detail, "values": f.values,
                                    "reproduced": rep, "real_failed": r["failed"], "real_exception": r["exception"],
                                    "traceback": r.get("traceback"), "infeasible": r["infeasible"]})
        for (vals, ob), r in zip(eng.traces, res[nf:]):
            ok = not r["infeasible"] and r["exception"] is None and not r["failed"]
            bad = []
            if not ok:
                bad.append(f"exc={r['exception']} failed={r['failed'][:3]} infeasible={r['infeasible']}")
            for k, v in ob.items():
                w = r["obs"].get(k)
                if w is None or len(w) != len(v) or not all(close(a, b) for a, b in zip(v, w)):
                    ok = False
                    bad.append(f"{k}: encoding {v} real {w}")
            if ok:
                out["validated"] += 1
                if len(out["samples"]) < 2:
                    out["samples"].append({"case": name, "inputs": {k: repr(v) for k, v in list(vals.items())[:40]},
                                           "observed": {k: v[:12] for k, v in list(ob.items())[:6]}})
            else:
                out["mismatch"] += 1
                out["mismatches"].append({"values": {k: repr(v) for k, v in vals.items()}, "bad": bad[:4], "real_failed": r["failed"][:3]})
    if case.validate and jobs and not eng.failures and out["validated"] == 0:
        out["inconclusive"].append(f"no path model could be validated against the real code: {out['mismatches'][:1]}")
    out["stats"] = eng.stats.as_dict()
    out["wall"] = time.time() - t0
    return out


def _worker(args, q):
    modname, name, seed, tier, deadline = args
    os.setsid()
    try:
        r = run_case(modname, name, seed, tier, deadline)
    except BaseException as ex:
        r = {"case": name, "failures": [], "stats": None,
             "inconclusive": ["case error: " + "".join(traceback.format_exception(ex, limit=-6))]}
    q.put((name, r))


def run_all(modname, cases, seed, tier, budget, nproc=8):
    """run cases in parallel processes, each killed at the deadline"""
    deadline = time.time() + budget
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    pending = list(cases)
    procs, results = {}, {}
    while pending or procs:
        while pending and len(procs) < nproc:
            c = pending.pop(0)
            p = ctx.Process(target=_worker, args=((modname, c.name, seed, tier, deadline - 20), q))
            p.start()
            procs[c.name] = p
        try:
            name, r = q.get(timeout=0.5)
            results[name] = r
            procs.pop(name).join(10)
            continue
        except Exception:
            pass
        for n, p in list(procs.items()):
            if not p.is_alive():
                try:
                    while True:
                        nm, r = q.get(timeout=0.5)
                        results[nm] = r
                        if nm in procs:
                            procs.pop(nm).join(5)
                except Exception:
                    pass
                if n in procs:
                    procs.pop(n)
                    results[n] = {"case": n, "failures": [], "inconclusive": [f"worker died (exit {p.exitcode})"], "stats": None}
        if time.time() > deadline:
            for n, p in procs.items():
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    p.kill()
                results[n] = {"case": n, "failures": [], "inconclusive": ["time limit"], "stats": None}
            procs = {}
            for c in pending:
                results[c.name] = {"case": c.name, "failures": [], "inconclusive": ["not started: time limit"], "stats": None}
            pending = []
    return results


def load_known():
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                d = {}
                body = line[len("finding:"):].strip()
                head, _, what = body.partition(" :: ")
                for tok in head.split():
                    k, _, v = tok.partition("=")
                    d[k] = v
                d["what"] = what
                out.append(d)
    return out


def main(prop, modname, argv=None):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    argv = sys.argv[1:] if argv is None else argv
    if "--thorough" in argv:
        tier = "thorough"
    only = [a for a in argv if not a.startswith("--")]
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    sys.dont_write_bytecode = True
    t0 = time.time()
    mod = importlib.import_module(modname)
    cases = [c for c in mod.CASES if (tier == "thorough" or c.tier == "quick") and (not only or c.name in only)]
    budget = 800 if tier == "quick" else 3600
    results = run_all(modname, cases, seed, tier, budget)
    known = load_known()
    violations, suppressed, incon, partial = [], [], [], 0
    tot = dict(paths=0, decisions=0, queries=0, obligations=0, discharged=0, solver_s=0.0)
    funcs, samples, validated, mism = set(), [], 0, 0
    percase = {}
    for n in sorted(results):
        r = results[n]
        st = r.get("stats") or {}
        for k in tot:
            tot[k] += st.get(k, 0)
        funcs |= set(st.get("functions", []))
        samples += r.get("samples", [])[:1]
        validated += r.get("validated", 0)
        mism += r.get("mismatch", 0)
        percase[n] = {"bounds": r.get("bounds", ""), "paths": st.get("paths"), "obligations": st.get("obligations"),
                      "discharged": st.get("discharged"), "queries": st.get("queries"),
                      "solver_s": round(st.get("solver_s", 0), 2), "wall_s": round(r.get("wall", 0), 1),
                      "validated": r.get("validated", 0), "assertions": {k: v[0] for k, v in list(st.get("labels", {}).items())[:60]}}
        if r.get("mismatches"):
            percase[n]["mismatches"] = r["mismatches"][:3]
        nonrep = 0
        if r["inconclusive"] or any(not f["reproduced"] for f in r["failures"]):
            partial += 1
        for f in r["failures"]:
            if f["reproduced"]:
                k = next((k for k in known if k.get("property") == prop and k.get("case", n) == n and
                          (k.get("label", "").replace("_", " ") in f["label"])), None)
                (suppressed if k else violations).append((n, f, k))
            else:
                nonrep += 1
                incon.append(f"{n}: counterexample for '{f['label']}' does not reproduce on the real code ({f.get('detail')})"
                             f" values={ {k: v for k, v in list(f['values'].items())[:30]} } real={f.get('real_exception')}")
        for i in r["inconclusive"]:
            incon.append(f"{n}: {i}")
    cov = {
        "states": tot["paths"], "transitions": tot["decisions"],
        "traces_validated_against_impl": validated,
        "samples": samples[:6],
        "obligations": tot["obligations"], "discharged": tot["discharged"],
        "solver_queries": tot["queries"], "solver_seconds": round(tot["solver_s"], 2),
        "encoding_mismatches": mism,
        "functions_encoded": sorted(funcs), "cases": percase,
        "inconclusive": incon[:20],
        "meaning": "states = symbolic execution paths completed, transitions = two-way symbolic decisions taken; each obligation is one property assertion on one path, discharged = the solver answered unsat for its negation (or it is closed by construction)",
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2),
          "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    shown = set()
    for n, f, k in suppressed:
        key = (k.get("case"), k.get("label"))
        if key in shown:
            continue
        shown.add(key)
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    uniq = {}
    for n, f, k in violations:
        uniq.setdefault(f["label"].split("[")[0], (n, f, k))
    for n, f, k in list(uniq.values())[:6]:
        rp = os.path.join(VERIF, "evidence", f"replay-{prop}-{n}-{hashlib.sha1(f['label'].encode()).hexdigest()[:8]}.json")
        with open(rp, "w") as fh:
            json.dump({"property": prop, "module": modname, "case": n, **f}, fh, indent=1, default=str)
        print(f"  case {n}: {f['label']}  real code: {f['real_failed'][:3] or f['real_exception']}")
        print(f"  inputs: { {a: b for a, b in list(f['values'].items())[:40]} }")
        print(f"  replay with: python3 {VERIF}/replay.py {rp}")
        print(f"VIOLATION property={prop} replay={rp}")
    print(f"{prop} [{tier}]: {len(results)} cases, {tot['paths']} paths, {tot['obligations']} obligations, "
          f"{tot['discharged']} discharged, {tot['queries']} queries, {tot['solver_s']:.1f}s solver, "
          f"{validated} traces validated, {mism} mismatches, {time.time()-t0:.1f}s")
    if violations:
        return 1
    if incon:
        # what the solver left open inside a run that otherwise decided the property is reported, not an alarm;
        # code that could not be encoded, or too much left open, is no answer
        soft = all(any(w in i for w in UNDECIDED) for i in incon) and partial <= max(1, len(results) // 3) \
            and tot["discharged"] >= 0.8 * tot["obligations"] > 0
        for i in incon[:12]:
            print("UNDECIDED" if soft else "INCONCLUSIVE", i[:1500])
        return 0 if soft else 2
    return 0
