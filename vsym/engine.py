"""Path exploration and query discharge."""
from fractions import Fraction
import math
import os
import random
import sys
import time
import traceback
from . import expr as E
from .expr import SymReal, SymBool, S, node, bnode
from .lower import RealLower, FpLower, model_value, z3
from .algebra import AlgLower, TooBig, Singular, Contradiction
from .shape import Shape
from . import loader


SLOW = float(os.environ.get('VSYM_SLOW', '0'))


class Infeasible(Exception):
    pass


class PathLimit(Exception):
    pass


class Abort(Exception):
    """harness asks to stop this path"""


class Stats:
    def __init__(self):
        self.paths = self.decisions = self.queries = self.sat = self.unsat = self.unknown = 0
        self.solver_s = 0.0
        self.obligations = self.discharged = 0
        self.functions = set()
        self.labels = {}
        self.samples = []

    def as_dict(self):
        d = dict(vars(self))
        d["functions"] = sorted(self.functions)
        return d


class Failure:
    def __init__(self, label, kind, values, detail=""):
        self.label, self.kind, self.values, self.detail = label, kind, values, detail


class SymEnv:
    """What a harness sees while it runs symbolically."""
    symbolic = True

    def __init__(self, eng, prefix):
        self.eng = eng
        self.prefix = prefix
        self.taken = []
        self.pos = 0
        self.alg = eng.algebra
        self.low = AlgLower(self) if eng.algebra else FpLower() if E.MODE == "fp" else RealLower()
        self.ranges = {}
        self.solver = z3.Solver()
        self.solver.set("timeout", eng.feas_ms)
        self.solver.set("random_seed", eng.seed)
        self.nside = 0
        self.cond = []            # node list: path condition and assumptions
        self.known = {}
        self.zknown = {}
        self.inputs = {}          # name -> node
        self.defaults = {}        # value of inputs the model leaves open
        self.obs = {}
        self.defs = []
        self.seq = {}
        self.points = [Point() for _ in range(96)] if eng.algebra else []
        self.zdec = []            # (poly, decision) of branch_z
        self.refills = 0
        self.rng = random.Random(eng.seed * 7919 + 1)
        self.hints = []           # input angles (nodes) an inverse function may evaluate to
        self.branching = True
        self.define_mode = "ignore"

    # ---- inputs
    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, nan=False, near=None):
        if name in self.inputs:
            return SymReal(self.inputs[name])
        n = E.var(name)
        self.inputs[name] = n
        self.defaults[name] = _default(lo, hi, near)
        self.ranges[name] = (_num(lo), _num(hi))
        for i, p in enumerate(self.points):
            p.v[name] = _draw(self.rng, self.defaults[name], *self.ranges[name], i)
        if nan:
            E.NANABLE.add(name)
            if E.MODE != "fp":
                self.inputs["nan:" + name] = E.bvar("nan:" + name)
        if E.MODE == "fp":
            if not nan:
                self.assume(SymBool(E.bnot(E.mk("isnan", (n,), kind="b"))))
        if lo is not None:
            self.assume_n((E.cmpn if not nan else _rawcmp)("lt" if lo_open else "le", node(lo), n))
        if hi is not None:
            self.assume_n((E.cmpn if not nan else _rawcmp)("lt" if hi_open else "le", n, node(hi)))
        return SymReal(n)

    def bool(self, name):
        n = E.bvar(name)
        self.inputs[name] = n
        for p in self.points:
            p.v[name] = self.rng.random() < 0.5
        return SymBool(n)

    def fresh(self, base):
        k = self.seq.get(base, 0)
        self.seq[base] = k + 1
        return f"{base}#{k}"

    def choice(self, name, options):
        """concrete branch over a finite set of options"""
        opts = list(options)
        for i, o in enumerate(opts[:-1]):
            b = self.bool(f"{name}={i}")
            if bool(b):
                return o
        return opts[-1]

    # ---- constraints
    def filter_points(self, n):
        """keep the sample points that satisfy n"""
        b, v = (n.args[0], False) if n.op == "not" else (n, True)
        if b.op == "bvar":
            for p in self.points:
                p.v[b.val] = v
                p.m.clear()
                p.g.clear()
            return
        if n.op == "eq":
            for x, y in (n.args, n.args[::-1]):
                if x.op == "var" and E.is_const(y):
                    for p in self.points:
                        p.v[x.val] = float(y.val[1])
                        p.m.clear()
                        p.g.clear()
                    self.points = [p for p in self.points if all(_holds(c, p) for c in self.cond)]
                    return
        self.points = [p for p in self.points if _holds(n, p)]

    def refill(self):
        """more sample points of the path"""
        if len(self.points) >= 12 or self.refills >= 12:
            return
        self.refills += 1
        fixed = {}
        for c in self.cond:
            if c.op == "eq":
                for x, y in (c.args, c.args[::-1]):
                    if x.op == "var" and E.is_const(y):
                        fixed[x.val] = float(y.val[1])
            b, v = (c.args[0], False) if c.op == "not" else (c, True)
            if b.op == "bvar":
                fixed[b.val] = v
        t0 = time.time()
        for t in range(3000):
            if len(self.points) >= 40 or time.time() - t0 > 1.5:
                break
            p = Point()
            for k, n in self.inputs.items():
                p.v[k] = _draw(self.rng, self.defaults[k], *self.ranges[k], t + 1) if n.op == "var" else self.rng.random() < 0.5
            p.v.update(fixed)
            if all(_holds(c, p) for c in self.cond) and all((self.low.pval(q, p)[0] >= 0) == d for q, d in self.zdec):
                self.points.append(p)

    def assert_(self, n):
        if self.alg:
            self.filter_points(n)
            z, gs = self.low.cond(n)
            self.cond.append(n)
            self._learn(n, True)
            self.low.asserted(n, z, gs)
            if n.op != "bvar" and not (n.op == "not" and n.args[0].op == "bvar"):
                self.refill()
            return
        z = self.low(n)
        while self.nside < len(self.low.side):
            s = self.low.side[self.nside]
            self.nside += 1
            self.solver.add(s)
        self.solver.add(z)
        self.cond.append(n)
        self._learn(n, True)

    def _learn(self, n, v):
        self.known[n.id] = v
        if n.op == "not":
            self._learn(n.args[0], not v)
        if n.op == "and" and v:
            for a in n.args:
                self._learn(a, True)

    def assume_n(self, n):
        if n.op == "true":
            return
        if n.op == "false":
            raise Infeasible()
        self.assert_(n)
        if self.alg and not self.points:
            z, gs = self.low.cond(n)
            if self.low.ask([z], gs, 1000) == z3.unsat:
                raise Infeasible()

    def assume(self, c):
        self.assume_n(bnode(c))

    def feasible(self, n):
        if self.alg:
            z, gs = self.low.cond(n)
            if z3.is_true(z):
                return z3.sat
            if z3.is_false(z):
                return z3.unsat
            if any(_holds(n, p) for p in self.points):
                return z3.sat
            return self.low.ask([z], gs, self.eng.feas_ms)
        z = self.low(n)
        while self.nside < len(self.low.side):
            s = self.low.side[self.nside]
            self.nside += 1
            self.solver.add(s)
        t = time.time()
        cone = self.cone(n)
        if cone is not None:
            s = z3.Solver()
            s.set("timeout", self.eng.feas_ms)
            s.add(*cone)
            r = s.check(z)          # the rest of the path is feasible and shares no variable with these
        else:
            r = self.solver.check(z)
        if SLOW and time.time() - t > SLOW:
            print("slow branch", round(time.time() - t, 2), r, E.show(n, 4)[:300], file=sys.stderr)
        self.eng.stats.solver_s += time.time() - t
        self.eng.stats.queries += 1
        return r

    def cone(self, n):
        """the conditions of the path connected to n, in binary64 mode when they are not all of them"""
        if E.MODE != "fp" or self.low.side:
            return None
        vs = [{x.id for x in E.variables(c)} for c in self.cond]
        seen = {x.id for x in E.variables(n)}
        left = list(range(len(vs)))
        while True:
            near = [i for i in left if vs[i] & seen]
            if not near:
                break
            for i in near:
                seen |= vs[i]
            left = [i for i in left if i not in near]
        return [self.low(c) for i, c in enumerate(self.cond) if i not in left] if left else None

    def branch(self, n):
        if n.id in self.known:
            return self.known[n.id]
        if n.op == "not":
            return not self.branch(n.args[0])
        if self.alg:
            self.low.cond(n)          # may fork first
        d = self._decide(lambda: self.feasible(n), lambda: self.feasible(E.bnot(n)))
        self.assert_(n if d else E.bnot(n))
        return d

    def _decide(self, ft, ff):
        if self.pos < len(self.prefix):
            d, forced = self.prefix[self.pos]
        else:
            if ft() == z3.unsat:
                d, forced = False, True
            elif ff() == z3.unsat:
                d, forced = True, True
            else:
                d, forced = True, False
                self.eng.stats.decisions += 1
                if len(self.taken) > self.eng.max_depth:
                    raise PathLimit()
        self.pos += 1
        self.taken.append((d, forced))
        return d

    def branch_z(self, zf, gs, key, poly=None):
        """fork on a condition that arose while rewriting"""
        if key in self.zknown:
            return self.zknown[key]
        z = zf()
        gs = frozenset(gs)
        ms = self.eng.feas_ms
        seen = self.low.signs_seen(poly) if poly is not None else ()
        d = self._decide(lambda: z3.sat if 1 in seen else self.low.ask([z], gs, ms),
                         lambda: z3.sat if -1 in seen else self.low.ask([z3.Not(z)], gs, ms))
        if poly is not None:
            self.points = [p for p in self.points if (self.low.pval(poly, p)[0] >= 0) == d]
            self.zdec.append((poly, d))
            self.refill()
        self.zknown[key] = d
        self.low.asserted(None, z if d else z3.Not(z), gs)
        return d

    def defined(self, kind, n):
        if self.define_mode == "ignore":
            return
        if kind == "div":
            c = E.bnot(_rawcmp("eq", n, E.const(0)))
        elif kind == "root":
            c = _rawcmp("le", E.const(0), n)
        else:
            c = E.band(_rawcmp("le", E.const(-1), n), _rawcmp("le", n, E.const(1)))
        if c.op != "true":
            self.defs.append((kind, c))

    # ---- results
    def observe(self, name, v):
        self.obs[name] = v

    def hint(self, x):
        """this input angle may be what an inverse trigonometric function returns"""
        self.hints.append(node(x))

    def abstract(self, x, name, lo, hi):
        """replace this value, wherever it arises, by an arbitrary number between lo and hi"""
        self.low.abstract(node(x), name, lo, hi)

    def reach(self, label):
        self.eng.reached.add(label)

    def check(self, c, label):
        """the property assertion"""
        self.eng.check(self, bnode(c), label)

    def check_eq(self, a, b, label, tol=1e-9):
        """a == b (elementwise for sequences)"""
        fa, fb = flatten(a), flatten(b)
        if len(fa) != len(fb):
            self.check(False, label + " (length)")
            return
        for i, (x, y) in enumerate(zip(fa, fb)):
            lab = label if len(fa) == 1 else f"{label}[{i}]"
            nx, ny = E.isnan(node(x)), E.isnan(node(y))
            eq = E.mk("eq", (node(x), node(y)), kind="b") if node(x) is not node(y) else E.TRUE
            if node(x).op == "const" and node(y).op == "const":
                eq = E.TRUE if str(node(x).val[0]) == str(node(y).val[0]) else E.FALSE
            c = E.bor(E.band(nx, ny), E.band(E.bnot(nx), E.bnot(ny), eq))
            diff = None
            if E.MODE == "real":
                d = E.absn(E.sub(node(x), node(y)))
                diff = E.band(c if c.op == "false" else E.bnot(c),
                              _rawcmp("le", E.add(E.const(Fraction(1, 16)), E.mul(E.const(Fraction(1, 16)), E.absn(node(y)))), d)) if c.op != "true" else None
            self.eng.check(self, c, lab, strong=diff)

    def check_eq_shared(self, parts, fn, label, common=None, tol=1e-9, whole=True):
        """a == b for (a, b) = fn(*parts), first with the factors the common parts are made of replaced
        by arbitrary numbers in all parts"""
        a, b = (flatten(x) for x in fn(*parts))
        if len(a) != len(b):
            self.check(False, label + " (length)")
            return
        eng, E.ENGINE = E.ENGINE, None
        try:
            sh = Shape()
            common = list(range(len(parts)) if common is None else common)
            nodes = [node(x) for x in flatten([parts[i] for i in common])]
            keep = sh.opaque(nodes) if whole else sh.shared(nodes, [node(x) for x in flatten([p for i, p in enumerate(parts) if i not in common])])
            new = lambda g: node(self.real(f"_shared{g}", near=0.5 + g % 7 / 8))
            rep = lambda x: [rep(y) for y in x] if not isinstance(x, SymReal) and hasattr(x, "__len__") else SymReal(sh.part(node(x), keep, new))
            sa, sb = (flatten(x) for x in fn(*[rep(x) for x in parts]))
        finally:
            E.ENGINE = eng
        for i in range(len(a)):
            lab = label if len(a) == 1 else f"{label}[{i}]"
            if sa[i] is sb[i] or self.eng.prove(self, E.mk("eq", (node(sa[i]), node(sb[i])), kind="b"), lab):
                continue
            self.check_eq(a[i], b[i], lab, tol)

    def isnan(self, x):
        return SymBool(E.isnan(node(x)))

    def implies(self, a, b):
        return SymBool(E.bor(E.bnot(bnode(a)), bnode(b)))

    def and_(self, *xs):
        return SymBool(E.band(*[bnode(x) for x in xs]))

    def or_(self, *xs):
        return SymBool(E.bor(*[bnode(x) for x in xs]))

    def not_(self, x):
        return SymBool(E.bnot(bnode(x)))

    def ite(self, c, a, b):
        return SymReal(E.ite(bnode(c), node(a), node(b)))

    def lt(self, a, b, slack=0):
        return S(a) < b

    def le(self, a, b, slack=0):
        return S(a) <= b

    def is_true(self, x):
        return bool(x)

    def abort(self):
        raise Abort()


class Point:
    """a random input, with the values of nodes and generators at it"""
    __slots__ = ("v", "m", "g")

    def __init__(self):
        self.v, self.m, self.g = {}, {}, {}


def _holds(n, p):
    try:
        return E.evalf(n, p.v, p.m) is True
    except (KeyError, NotImplementedError):
        return False


def _draw(rng, d, lo, hi, t):
    """a random input value: the default first, then all over the range and around the default"""
    if t == 0:
        return d
    if t % 2 and lo is not None and hi is not None:
        v = rng.uniform(lo, hi)
    else:
        w = d * rng.uniform(0.4, 1.7) if d else rng.uniform(-1, 1)
        v = w if (lo is None or w >= lo) and (hi is None or w <= hi) else d
    return (round(v * 1024) / 1024 or v) if abs(v) < 1e6 else v


def _num(x):
    return float(x) if isinstance(x, (int, float, Fraction)) else None


def _default(lo, hi, near):
    lo, hi = _num(lo), _num(hi)
    if near is not None:
        return float(near)
    if lo is not None and hi is not None:
        return (lo + hi) / 2
    if lo is not None:
        return lo + 1.0
    if hi is not None:
        return hi - 1.0
    return 0.5


def _rawcmp(op, a, b):
    old, E.NANABLE = E.NANABLE, set()
    try:
        return E.cmpn(op, a, b)
    finally:
        E.NANABLE = old


def flatten(x):
    import numpy as np
    if isinstance(x, np.ndarray):
        return [e for e in x.reshape(-1)]
    if isinstance(x, (list, tuple)):
        out = []
        for e in x:
            out += flatten(e)
        return out
    return [x]


class Engine:
    def __init__(self, seed=1, feas_ms=3000, check_ms=30000, max_paths=4000, max_depth=400,
                 deadline=None, want_traces=3, stop_at=3, algebra=False):
        self.algebra = algebra
        self.seed = seed
        self.feas_ms, self.check_ms = feas_ms, check_ms
        self.max_paths, self.max_depth = max_paths, max_depth
        self.stats = Stats()
        self.failures = []
        self.inconclusive = []
        self.reached = set()
        self.traces = []          # (values, observed) of path models
        self.want_traces = want_traces
        self.deadline = deadline
        self.stop_at = stop_at
        self.env = None

    # hooks used by expr
    def branch(self, n):
        return self.env.branch(n)

    def defined(self, kind, n):
        return self.env.defined(kind, n)

    def explore(self, harness):
        """run harness on every feasible path"""
        work = [[]]
        E.ENGINE = self
        first = True
        try:
            while work:
                if self.stats.paths >= self.max_paths:
                    self.inconclusive.append(f"path limit {self.max_paths} reached")
                    break
                if self.deadline and time.time() > self.deadline:
                    self.inconclusive.append("time limit reached")
                    break
                if len(self.failures) >= self.stop_at:
                    break
                prefix = work.pop()
                env = self.env = SymEnv(self, prefix)
                E.NANABLE.clear()
                self.stats.paths += 1
                prof = None
                try:
                    if first or self.stats.paths <= 6:
                        sys.setprofile(self._profile)
                    try:
                        harness(env)
                    finally:
                        sys.setprofile(None)
                    first = False
                    self._trace(env)
                except (Infeasible, Contradiction) as ex:
                    if SLOW: traceback.print_exc(limit=-5); print(env.taken, [E.show(c,3)[:150] for c in env.cond], env.low.zknown if hasattr(env.low,'zknown') else '')
                    self.stats.paths -= 1
                except Abort:
                    pass
                except E.Concretization as ex:
                    self.inconclusive.append(f"cannot encode: {ex} at {where(ex)}")
                    self.stop_at = 0
                except TooBig:
                    self.inconclusive.append("normal form too large")
                except Singular:
                    self.fail_path(env, "undefined: division by zero or root of a negative number", "")
                except PathLimit:
                    self.inconclusive.append("path depth limit")
                except HarnessError:
                    raise
                except Exception as ex:     # raised by the code under test
                    w = where(ex)
                    if w is None:
                        raise
                    self.fail_path(env, f"raises {type(ex).__name__}", f"{ex} at {w}")
                for i in range(len(prefix), len(env.taken)):
                    d, forced = env.taken[i]
                    if not forced:
                        work.append(env.taken[:i] + [(not d, True)])
        finally:
            E.ENGINE = None
        return self

    def _profile(self, frame, event, arg):
        if event == "call":
            f = frame.f_code.co_filename
            if f.startswith(loader.REPO) or f.startswith("<lambdify"):
                nm = frame.f_code.co_qualname
                if f.startswith("<lambdify"):
                    self.stats.functions.add("lambdified:" + nm)
                else:
                    self.stats.functions.add(f[len(loader.REPO) + 1:] + ":" + nm)

    def sample(self, env, extra, tries=400):
        """a point of the path where extra holds, by evaluation; None if none was found"""
        for p in env.points:
            if _holds(extra, p) and all(_holds(c, p) for c in env.cond):
                v = dict(p.v)
                for k, n in env.inputs.items():
                    v.setdefault(k, False if n.op == "bvar" else 0.0)
                return v
        rng = random.Random(self.seed)
        cond = env.cond + [extra]
        names = [k for k, n in env.inputs.items() if n.op == "var"]
        base = {}
        for c in env.cond:
            if c.op == "bvar":
                base[c.val] = True
            if c.op == "not" and c.args[0].op == "bvar":
                base[c.args[0].val] = False
        fixed = {}
        for c in env.cond:
            if c.op == "eq":
                for x, y in (c.args, c.args[::-1]):
                    if x.op == "var" and E.is_const(y):
                        fixed[x.val] = float(y.val[1])
        for t in range(tries):
            v = dict(base)
            for k in names:
                v[k] = _draw(rng, env.defaults[k], *env.ranges.get(k, (None, None)), t)
            v.update(fixed)
            memo = {}
            if all(E.evalf(c, v, memo) is True for c in cond):
                p = Point()
                p.v.update(v)
                if any((x >= 0) != d and abs(x) > 1e-9 * mag for x, mag, d in ((*env.low.pval(q, p), d) for q, d in env.zdec)):
                    continue
                for k, n in env.inputs.items():
                    v.setdefault(k, False if n.op == "bvar" else 0.0)
                return v
        return None

    def solve_alg(self, env, extra, ms):
        low = env.low
        z, gs = low.cond(extra)
        if z3.is_false(z3.simplify(z)):
            self.stats.queries += 1
            return z3.unsat, None
        r = low.ask([z], gs, min(ms, 20000))
        if r == z3.unsat:
            return r, None
        v = self.sample(env, extra)
        if v is not None:
            return z3.sat, v
        t = time.time()
        s = z3.Tactic("qfnra-nlsat").solver()
        s.set("timeout", ms)
        s.add(*low.relevant(range(len(low.gens))))
        s.add(z)
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.stats.solver_s += time.time() - t
        if r != z3.sat:
            return r, None
        m = s.model()
        have = {d.name() for d in m.decls()}
        vals = {}
        for k, n in env.inputs.items():
            if n.op == "bvar":
                vals[k] = bool(env.known.get(n.id, False))
                continue
            g = low.byname.get(k)
            vals[k] = env.defaults.get(k, 0.0)
            if g is None:
                continue
            if g.i in low.subst:
                sb = low.subst[g.i]
                try:
                    w = model_value(m, low.zpoly(sb.num)) / sb.q
                    for f, x in sb.den.items():
                        w /= model_value(m, low.zpoly(low.factors[f].poly)) ** x
                    vals[k] = float(w)
                except (ZeroDivisionError, ValueError):
                    pass
            elif isinstance(g.data, tuple):
                u, (sn, cs) = g.data
                zs = [low.zpoly(t.num) for t in (sn, cs)]
                x = [float(model_value(m, q)) for q in zs]
                vals[k] = math.atan2(*x) / float(u)
            elif k in have:
                vals[k] = float(model_value(m, g.z))
        return z3.sat, vals

    def solve(self, env, extra, ms=None):
        """sat / unsat / unknown of path and extra, plus model"""
        if env.alg:
            return self.solve_alg(env, extra, ms or self.check_ms)
        z = env.low(extra)
        while env.nside < len(env.low.side):
            env.solver.add(env.low.side[env.nside])
            env.nside += 1
        t = time.time()
        self.stats.queries += 1
        ms = ms or self.check_ms
        nra = E.MODE != "fp" and _nra(env.solver.assertions(), z)
        r, m = z3.unknown, None
        cone = env.cone(extra)
        if cone is not None:
            s = z3.Solver()
            s.set("timeout", ms)
            s.add(*cone)
            if s.check(z) == z3.unsat:
                self.stats.solver_s += time.time() - t
                return z3.unsat, None
        for kind, lim in (("inc", 1500), ("nlsat", 20000), ("inc", 8000), ("smt", ms)) if nra else (("inc", 8000), ("smt", ms)):
            if E.MODE == "fp" and kind == "smt":
                continue
            lim = min(lim, ms)
            try:
                if kind == "inc":
                    env.solver.set("timeout", lim if E.MODE != "fp" else ms)
                    r = env.solver.check(z)
                    m = env.solver.model() if r == z3.sat else None
                else:
                    fresh = z3.Tactic("qfnra-nlsat").solver() if kind == "nlsat" else z3.Solver()
                    fresh.set("timeout", lim)
                    fresh.add(*env.solver.assertions())
                    fresh.add(z)
                    r = fresh.check()
                    m = fresh.model() if r == z3.sat else None
            except z3.Z3Exception:
                r = z3.unknown
            if r != z3.unknown:
                break
            if time.time() - t > ms / 1000:
                break
        env.solver.set("timeout", self.feas_ms)
        if SLOW and time.time() - t > SLOW:
            print("slow check", round(time.time() - t, 2), r, E.show(extra, 4)[:300], file=sys.stderr)
        self.stats.solver_s += time.time() - t
        return r, m

    def values(self, env, m, extra):
        """concrete input values of a model, preferring dyadic ones"""
        if env.alg:
            return m
        names = [k for k in env.inputs if k in env.low.vars]
        vals = {}
        if E.MODE == "fp":
            for k in names:
                vals[k] = model_value(m, env.low.vars[k])
        else:
            s = z3.Solver()
            s.set("timeout", 2000)
            s.add(*env.solver.assertions())
            s.add(env.low(extra))
            cur = m
            t0 = time.time()
            for k in names:
                v = env.low.vars[k]
                if z3.is_bool(v):
                    vals[k] = model_value(cur, v)
                    s.add(v == vals[k])
                    continue
                x = model_value(cur, v)
                done = False
                if k in env.defaults:
                    c = Fraction(env.defaults[k])
                    if s.check(v == z3.Q(c.numerator, c.denominator)) == z3.sat:
                        cur = s.model()
                        s.add(v == z3.Q(c.numerator, c.denominator))
                        vals[k] = c
                        continue
                for den in (1, 4, 64, 4096):
                    if time.time() - t0 > 40:
                        break
                    for c in (Fraction(round(x * den), den), Fraction(math.floor(x * den), den), Fraction(math.ceil(x * den), den)):
                        if s.check(v == z3.Q(c.numerator, c.denominator)) == z3.sat:
                            cur = s.model()
                            s.add(v == z3.Q(c.numerator, c.denominator))
                            vals[k] = c
                            done = True
                            break
                    if done:
                        break
                if not done:
                    vals[k] = x
            vals = {k: (v if isinstance(v, bool) else float(v)) for k, v in vals.items()}
        for k, n in env.inputs.items():
            if k not in vals:
                vals[k] = False if n.op == "bvar" else env.defaults.get(k, 0.0)
        for k in list(vals):
            if k.startswith("nan:") and vals[k]:
                vals[k[4:]] = math.nan
        return vals

    def check(self, env, c, label, strong=None):
        n = self.stats.obligations
        try:
            self._check(env, c, label, strong)
        except (Infeasible, Contradiction, Singular):       # the path does not exist
            self.stats.obligations = n
            raise

    def _check(self, env, c, label, strong=None):
        if c.id in env.known and env.known[c.id]:
            self.stats.obligations += 1
            self.stats.discharged += 1
            lab = self.stats.labels.setdefault(label, [0, 0])
            lab[0] += 1; lab[1] += 1
            return
        self.stats.obligations += 1
        lab = self.stats.labels.setdefault(label, [0, 0])
        lab[0] += 1
        neg = E.bnot(c)
        if c.op == "true":
            self.stats.discharged += 1
            lab[1] += 1
            return
        v = self.witness(env, strong) if env.alg and strong is not None else None
        r, m = self.solve(env, neg) if v is None else (z3.sat, v)
        if v is not None:
            self.stats.sat += 1
            self.failures.append(Failure(label, "assertion", v))
            raise Abort()
        if r == z3.unsat:
            self.stats.unsat += 1
            self.stats.discharged += 1
            lab[1] += 1
            if env.alg and z3.is_true(z3.simplify(env.low.cond(c)[0])):
                env._learn(c, True)          # an identity adds nothing to the path
            else:
                env.assert_(c)
            return
        if r == z3.sat:
            self.stats.sat += 1
            ex = neg
            if strong is not None:
                r2, m2 = self.solve(env, strong, 5000)
                if r2 == z3.sat:
                    m, ex = m2, strong
            self.failures.append(Failure(label, "assertion", self.values(env, m, ex)))
            raise Abort()
        self.stats.unknown += 1
        self.inconclusive.append(f"{label}: solver undecided")

    def witness(self, env, n):
        """a sample point of the path that satisfies n, also when evaluated with many digits: a counterexample candidate"""
        for p in env.points[:24]:
            if _holds(n, p) and all(_holds(c, p) for c in env.cond):
                v = dict(p.v)
                for k, x in env.inputs.items():
                    v.setdefault(k, False if x.op == "bvar" else 0.0)
                if E.evalmp(n, v) is True:
                    return v
        return None

    def prove(self, env, c, label):
        """a stronger statement than an assertion: discharges it when it holds"""
        r, m = self.solve(env, E.bnot(c))
        if r != z3.unsat:
            return False
        self.stats.obligations += 1
        self.stats.discharged += 1
        self.stats.unsat += 1
        lab = self.stats.labels.setdefault(label, [0, 0])
        lab[0] += 1; lab[1] += 1
        return True

    def fail_path(self, env, label, detail):
        r, m = self.solve(env, E.TRUE)
        self.stats.obligations += 1
        if r == z3.unsat:
            self.stats.paths -= 1
            self.stats.discharged += 1
            return
        if r == z3.sat:
            self.failures.append(Failure(label, "exception", self.values(env, m, E.TRUE), detail))
        else:
            self.inconclusive.append(f"{label}: {detail}: path feasibility undecided")

    def _trace(self, env):
        if len(self.traces) >= self.want_traces:
            return
        r, m = self.solve(env, E.TRUE, 5000)
        if r != z3.sat:
            return
        vals = self.values(env, m, E.TRUE)
        ob = {}
        memo = {}
        cenv = dict(vals)
        for k, v in env.obs.items():
            ob[k] = [ev(x, cenv, memo) for x in flatten(v)]
        self.traces.append((vals, ob))


def ev(x, env, memo):
    if isinstance(x, (SymReal, SymBool)):
        try:
            r = E.evalf(x.n, env, memo)
        except NotImplementedError:
            return None
        return r
    if isinstance(x, (str, type(None), bool)):
        return x
    return float(x)


def _nra(assertions, z):
    """quantifier-free nonlinear reals without uninterpreted functions or ints"""
    seen = set()
    st = list(assertions) + [z]
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            d = t.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and d.arity() > 0:
                return False
            if z3.is_int(t):
                return False
            st += t.children()
    return True


class HarnessError(Exception):
    pass


def where(ex):
    """innermost frame in the code under test"""
    r = None
    for fs in traceback.extract_tb(ex.__traceback__):
        if fs.filename.startswith(loader.REPO) or fs.filename.startswith("<lambdify"):
            r = f"{fs.filename.replace(loader.REPO + '/', '')}:{fs.name}"
    return r
