"""Replays a harness on the real, unmodified pyqlaw (numba-compiled) with concrete inputs.

usage: python -m vsym.concrete MODULE CASE JOBS.json OUT.json"""
import importlib
import importlib.abc
import importlib.machinery
import json
import math
import os
import sys
import traceback

REPO = os.environ.get("PYQLAW_REPO", "/repo")


class Infeasible(Exception):
    pass


class Abort(Exception):
    pass


def flatten(x):
    import numpy as np
    if isinstance(x, np.ndarray):
        return [e for e in x.reshape(-1)]
    if isinstance(x, (list, tuple)):
        out = []
        for e in x:
            out += flatten(e)
        return out
    return [x]


class ConcreteEnv:
    symbolic = False

    def __init__(self, values):
        self.values = values
        self.failed = []
        self.passed = 0
        self.obs = {}
        self.seq = {}
        self.define_mode = "ignore"
        self.missing = []

    def real(self, name, lo=None, hi=None, nan=False, near=None, **k):
        v = self.values.get(name)
        if v is None:
            self.missing.append(name)
            if lo is not None and hi is not None:
                v = (float(lo) + float(hi)) / 2
            elif lo is not None:
                v = float(lo) + 1.0
            elif hi is not None:
                v = float(hi) - 1.0
            else:
                v = 0.5
        if self.values.get("nan:" + name):
            v = math.nan
        return float(v)

    def bool(self, name):
        return bool(self.values.get(name, False))

    def fresh(self, base):
        k = self.seq.get(base, 0)
        self.seq[base] = k + 1
        return f"{base}#{k}"

    def choice(self, name, options):
        opts = list(options)
        for i, o in enumerate(opts[:-1]):
            if self.bool(f"{name}={i}"):
                return o
        return opts[-1]

    def assume(self, c):
        if not bool(c):
            raise Infeasible()

    def observe(self, name, v):
        self.obs[name] = v

    def hint(self, x):
        pass

    def abstract(self, x, name, lo, hi):
        pass

    def reach(self, label):
        pass

    def check(self, c, label):
        if bool(c):
            self.passed += 1
        else:
            self.failed.append(label)

    def check_eq(self, a, b, label, tol=1e-9):
        fa, fb = flatten(a), flatten(b)
        if len(fa) != len(fb):
            self.failed.append(f"{label} (length): {len(fa)} vs {len(fb)}")
            return
        for i, (x, y) in enumerate(zip(fa, fb)):
            lab = label if len(fa) == 1 else f"{label}[{i}]"
            x, y = float(x), float(y)
            ok = (math.isnan(x) and math.isnan(y)) or x == y or abs(x - y) <= tol * max(1.0, abs(x), abs(y))
            if ok:
                self.passed += 1
            else:
                self.failed.append(f"{lab}: {x!r} instead of {y!r}")

    def check_eq_shared(self, parts, fn, label, common=None, tol=1e-9, whole=True):
        a, b = fn(*parts)
        self.check_eq(a, b, label, tol)

    def isnan(self, x):
        return math.isnan(x)

    def implies(self, a, b):
        return (not bool(a)) or bool(b)

    def and_(self, *xs):
        return all(bool(x) for x in xs)

    def or_(self, *xs):
        return any(bool(x) for x in xs)

    def not_(self, x):
        return not bool(x)

    def ite(self, c, a, b):
        return a if bool(c) else b

    def lt(self, a, b, slack=1e-9):
        return a < b + slack

    def le(self, a, b, slack=1e-9):
        return a <= b + slack

    def is_true(self, x):
        return bool(x)

    def abort(self):
        raise Abort()


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, patches):
        self.patches = patches

    def find_spec(self, name, path, target=None):
        if not name.startswith("pyqlaw."):
            return None
        leaf = name.rsplit(".", 1)[1]
        if leaf not in self.patches:
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        orig = spec.loader
        patches = self.patches[leaf]

        class L(importlib.abc.Loader):
            def create_module(self, spec):
                return orig.create_module(spec)

            def exec_module(self, m):
                orig.exec_module(m)
                if callable(patches):
                    patches(m)
                else:
                    for k, v in patches.items():
                        setattr(m, k, v)
        spec.loader = L()
        return spec


class Ctx:
    """shared between harness and stubs"""
    env = None
    lib = None

    def sub(self, name):
        return self._sub(name)


def load_real(patches, modules):
    sys.path.insert(0, REPO)
    if patches:
        sys.meta_path.insert(0, _Finder(patches))
    for k, v in (modules or {}).items():
        sys.modules[k] = v
    import pyqlaw
    assert os.path.realpath(pyqlaw.__file__).startswith(os.path.realpath(REPO)), pyqlaw.__file__
    return pyqlaw


def run(case, values, ctx):
    env = ctx.env = ConcreteEnv(values)
    res = {"failed": [], "exception": None, "obs": {}, "infeasible": False}
    try:
        case.harness(env, ctx)
    except Infeasible:
        res["infeasible"] = True
    except Abort:
        pass
    except Exception as ex:
        res["exception"] = f"{type(ex).__name__}: {ex}"
        res["exc_type"] = type(ex).__name__
        tb = traceback.extract_tb(ex.__traceback__)
        res["in_code"] = any(os.path.realpath(f.filename).startswith(os.path.realpath(REPO)) or "<lambdify" in f.filename or "numba" in f.filename for f in tb)
        res["traceback"] = traceback.format_exc(limit=-4)
    res["failed"] = env.failed
    res["passed"] = env.passed
    res["missing"] = env.missing
    for k, v in env.obs.items():
        res["obs"][k] = [x if isinstance(x, (str, type(None), bool)) else float(x) for x in flatten(v)]
    return res


def main():
    modname, casename, jobs, out = sys.argv[1:5]
    with open(jobs) as f:
        jobs = json.load(f)
    mod = importlib.import_module(modname)
    case = {c.name: c for c in mod.CASES}[casename]
    ctx = Ctx()
    ctx.symbolic = False
    ctx.num = float
    ctx.tier = "quick"
    ctx._sub = lambda n: importlib.import_module("pyqlaw." + n)
    patches, modules = case.setup(ctx) if case.setup else ({}, {})
    ctx.lib = load_real(patches, modules)
    res = [run(case, v, ctx) for v in jobs]
    with open(out, "w") as f:
        json.dump(res, f)


if __name__ == "__main__":
    import warnings
    warnings.filterwarnings("ignore")
    main()
