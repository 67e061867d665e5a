"""Bounded symbolic runs of QLaw.solve.

The real constructor, set_problem, solve, lyapunov_control_angles, thrust-angle extraction,
evaluate_osculating_qdot are executed.  Stubbed (arbitrary results, arguments recorded): the
lambdified Q-law functions and the one-step integrators rk4 / rkf45.  The convergence tests and the
element safeguard are replaced by what C09 and C10 decide about them.
"""
import numpy as np

KEP, MEE = "keplerian", "mee_with_a"


class Log:
    def __init__(self):
        self.steps = []      # dict(t, h, y, u, ptrb, mu, psi, next, hnext)
        self.ctrl = []       # dict(args, oe, f, u, q, dq, nan)
        self.dqdt = []       # dict(oe, f, val)
        self.eta = []        # dict(kind, args, val)


class Run:
    """one QLaw object and its recorded interaction with the stubs"""

    def __init__(self, env, ctx, K=3, u="sym", nan=False, qsym=False, dq=None, trunc="abort"):
        self.env, self.ctx, self.K = env, ctx, K
        self.u_mode, self.nan, self.qsym, self.dq = u, nan, qsym, dq
        self.log = Log()
        self.prob = None
        self.truncated = False
        self.on_trunc = None
        self.tag = ""
        ctx.run = self

    def np(self):
        if self.env.symbolic:
            from vsym import npshim
            return npshim.NP
        return np

    # ---- stubs
    def arr(self, xs):
        if self.env.symbolic:
            from vsym import npshim
            return npshim.n_array(list(xs))
        return np.array(xs, dtype=float)

    def vec(self, base, n, **k):
        base = self.env.fresh(self.tag + base)
        return self.arr([self.env.real(f"{base}.{i}", **k) for i in range(n)])

    def next_state(self):
        env = self.env
        nm = env.fresh(self.tag + "oe")
        lo, hi = self.oe_range
        return self.arr([env.real(f"{nm}.{i}", lo[i], hi[i], near=0.375) for i in range(6)])

    oe_range = ([0.25, -0.5, -0.5, -2, -2, None], [100, 0.5, 0.5, 2, 2, None])

    def control(self, mu, f, oe, oeT, rpmin, m, n, r, b, k, wp, woe):
        env = self.env
        nm = env.fresh(self.tag + "u")
        rec = {"f": f, "oe": snap(oe), "oeT": oeT, "params": (mu, rpmin, m, n, r, b, k, wp), "woe": woe}
        # RTN components of the gradient seen through psi; consistent with a real Q-law:
        # psi selects (a_R, a_T, a_N) into elements 0..2, so u_raw = dq[0:3]
        psi = [[1.0, 0.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0, 0.0]]
        if self.u_mode == "sym":
            d = [env.real(f"{nm}.0", nan=self.nan, near=0.25), env.real(f"{nm}.1", near=-0.5), env.real(f"{nm}.2", near=0.125)]
        else:
            # fixed direction -(2,3,6)/7; gradient magnitude m
            x = env.real(f"{nm}.0", nan=True, near=2.0) if self.nan else 2.0
            if self.nan:
                env.assume(env.or_(env.isnan(x), x == 2.0))
            m = env.real(f"{nm}.m", 0, 100, lo_open=True, near=0.5) if self.qsym else 0.5
            d = [x, 3.0, 6.0]
            rec["m"] = m
        u = list(d)
        dq = (d if self.u_mode == "sym" else [m * 2.0 / 7.0, m * 3.0 / 7.0, m * 6.0 / 7.0]) + [0.0, 0.0]
        rec["d"] = d
        rec["nan"] = env.isnan(d[0]) if self.nan else False
        q = env.real(f"{nm}.q", near=1.5) if self.qsym else 1.5
        rec.update(u=u, psi=psi, q=q, dq=dq)
        self.log.ctrl.append(rec)
        return [list(u), [list(c) for c in psi], q, list(dq)]

    def fun_dqdt(self, mu, f, oe, oeT, rpmin, m, n, r, b, k, wp, woe):
        v = self.env.real(self.env.fresh(self.tag + "dqdt"), near=0.5)
        if self.dq is not None:
            v = self.dq(self.env, f, v)
        self.log.dqdt.append({"f": f, "oe": snap(oe), "oeT": oeT, "val": v, "woe": woe, "params": (mu, rpmin, m, n, r, b, k, wp)})
        return v

    def step(self, kind, rhs, t, h, y, p, tol=None):
        if len(self.log.steps) >= self.K:
            self.truncated = True
            if self.on_trunc:
                self.on_trunc()
            self.env.abort()
        nxt = self.next_state()
        der = rhs(t, y, p)
        rec = {"kind": kind, "t": t, "h": h, "y": y, "yv": snap(y), "next": nxt, "nextv": snap(nxt), "tol": tol,
               "acc": [der[0], der[1], der[2]], "der": snap(der), "nctrl": len(self.log.ctrl)}
        self.log.steps.append(rec)
        if kind == "rk4":
            return nxt
        hn = self.env.real(self.env.fresh(self.tag + "hnext"), near=0.3)
        rec["hnext"] = hn
        return nxt, hn


def snap(x):
    return [e for e in x]


def setup(ctx, extra=None):
    def make_sym(name):
        def f(*a, **k):
            ctx.elements_builder = name
            return (lambda *a: ctx.run.control(*a),
                    lambda *a: [[0.0] * 5] * 3, lambda *a: [0.0] * 5,
                    lambda *a: ctx.run.fun_dqdt(*a))
        return f

    def rk4(rhs, t, h, y, p):
        return ctx.run.step("rk4", rhs, t, h, y, p)

    def rkf45(rhs, t, h, y, p, tol=1e-6):
        return ctx.run.step("rkf45", rhs, t, h, y, p, tol)
    patches = {"_symbolic": {"symbolic_qlaw_keplerian": make_sym("kep"), "symbolic_qlaw_mee_with_a": make_sym("mee")},
               "_integrate": {"rk4": rk4, "rkf45": rkf45}}
    if ctx.symbolic:
        patches["_convergence"] = {"elements_safety": safety(ctx), "check_convergence_keplerian": convergence(ctx, True),
                                   "check_convergence_mee": convergence(ctx, False)}
    for m, p in (extra or {}).items():
        patches.setdefault(m, {}).update(p)
    return patches, {}


def units(ctx):
    """the safeguard and the convergence tests themselves"""
    patches, modules = setup(ctx)
    patches.pop("_convergence", None)
    return patches, modules


# The safeguard and the convergence test as stated by C10 and C09, whose unit cases decide them for the real code: one
# value per result in place of a path per comparison.
def safety(ctx):
    def elements_safety(oe, oe_min, oe_max):
        env = ctx.run.env
        out = oe.copy()
        for i in range(5):
            x, lo, hi = oe[i], oe_min[i], oe_max[i]
            if lo != -INF:
                x = env.ite(x < lo, lo, x)
            if hi != INF:
                x = env.ite(x > hi, hi, x)
            out[i] = x
        return out
    return elements_safety


def convergence(ctx, keplerian):
    def check_convergence(oe, oeT, woe, tol_oe):
        env, m = ctx.run.env, ctx.run.np()
        ok = []
        for i in range(len(tol_oe)):
            if type(woe[i]) is float and woe[i] == 0:
                continue
            d = oeT[i] - oe[i]
            if keplerian and i > 2:
                d = m.arccos(m.cos(d))
            w = abs(d) <= tol_oe[i]
            ok.append(w if type(woe[i]) is float else env.or_(woe[i] == 0, w))
        return bool(env.and_(*ok)) if ok else True
    return check_convergence


INF = float("inf")
FAR = [1000.0, 1000.0, 1000.0, 1000.0, 1000.0]


def oe_start(run, elements=MEE, sym=True):
    if sym:
        return run.arr([run.env.real(f"oe0.{i}", -1000, 1000, near=[1.0, 0.1, 0.2, 0.3, 0.4, 0.5][i]) for i in range(6)])
    return run.arr([1.0, 0.125, 0.25, 0.375, 0.5, 0.625])


def target(run, sym=False):
    if sym:
        return run.arr([run.env.real(f"oeT.{i}", near=2.0) for i in range(5)])
    return run.arr([1.5, 0.25, 0.25, 0.25, 0.25])


def build(run, elements=MEE, oe0=None, oeT=None, mass0=1.0, tmax=0.125, mdot=0.0, tf_max=None, t_step=0.5,
          ctor=None, **problem):
    lib = run.ctx.lib
    prob = lib.QLaw(elements_type=elements, verbosity=0, **{"anomaly_grid_size": 2, **(ctor or {})})
    prob.set_problem(oe_start(run, elements) if oe0 is None else oe0, target(run) if oeT is None else oeT,
                     mass0, tmax, mdot, tf_max, t_step, **problem)
    run.prob = prob
    return prob


def far_from_target(run):
    """assume no recorded next state is within the relaxed tolerance: keeps runs going"""
    pass


def throttles(prob):
    return [c[2] for c in prob.controls]


def unit(run, alpha, beta):
    """documented thrust direction in RTN"""
    np_ = run.np()
    return [np_.cos(beta) * np_.sin(alpha), np_.cos(beta) * np_.cos(alpha), np_.sin(beta)]


def within(env, oe, oeT, tol, woe):
    """documented convergence test, modified equinoctial elements"""
    return env.and_(*[env.or_(w == 0.0, abs(oe[i] - oeT[i]) <= t) for i, (t, w) in enumerate(zip(tol, woe))])
