"""C07: rk4 is the classical Runge-Kutta step; rkf45 the fourth-order solution of Fehlberg's 4(5) pair."""
from fractions import Fraction as F
from vsym.case import Case
from . import _kep as K
ASSUMPTIONS = ["real arithmetic; literals are the rationals they denote",
               "right-hand side: any function, represented by arbitrary values at the points it is evaluated at, in order"]

RK4 = ([0, F(1, 2), F(1, 2), 1], [[], [F(1, 2)], [0, F(1, 2)], [0, 0, 1]], [F(1, 6), F(1, 3), F(1, 3), F(1, 6)])
RKF = ([0, F(1, 4), F(3, 8), F(12, 13), 1, F(1, 2)],
       [[], [F(1, 4)], [F(3, 32), F(9, 32)], [F(1932, 2197), F(-7200, 2197), F(7296, 2197)],
        [F(439, 216), -8, F(3680, 513), F(-845, 4104)], [F(-8, 27), 2, F(-3544, 2565), F(1859, 4104), F(-11, 40)]],
       [F(25, 216), 0, F(1408, 2565), F(2197, 4104), F(-1, 5), 0])
RKF5 = [F(16, 135), 0, F(6656, 12825), F(28561, 56430), F(-9, 50), F(2, 55)]


def num(ctx, x):
    return x if ctx.symbolic else float(x)


def lin(ctx, cs, vs, d):
    """sum of c * v"""
    return [sum((num(ctx, c) * v[j] for c, v in zip(cs, vs) if c), 0.0) for j in range(d)]


def jit_rhs():
    import numba

    @numba.njit
    def rhs(t, y, p):
        tab, log, n = p
        i = int(n[0])
        n[0] += 1
        if i < log.shape[0]:
            log[i, 0] = t
            log[i, 1:] = y
            return tab[i].copy()
        return tab[0].copy()
    return rhs


def mk(kind, dim, mode="any"):
    """mode: any / constant (same value everywhere) / default tolerance"""
    def harness(env, ctx):
        c, A, b = RK4 if kind == "rk4" else RKF
        s = len(c)
        t = env.real("t", -100, 100, near=1.5)
        h = env.real("h", -10, 10, near=-0.25)
        env.assume(env.or_(env.lt(0, h), env.lt(h, 0)))
        y = [env.real(f"y{j}", -100, 100, near=1 + j) for j in range(dim)]
        tol = env.real("tol", 1e-12, 1, near=1e-5) if mode != "default" else 1e-6
        if mode == "constant":
            k0 = [env.real(f"k{j}", -10, 10, near=0.0) for j in range(dim)]
            ks = [k0] * s
        else:
            ks = [[env.real(f"k{i}.{j}", -10, 10, near=(0.5 + 0.3125 * i * i) * (1 + j) - i) for j in range(dim)] for i in range(s)]
        fn = getattr(ctx.sub("_integrate"), kind)
        ya = K.arr(ctx, y)
        extra = () if kind == "rk4" or mode == "default" else (tol,)
        log = []
        if ctx.symbolic:
            par = object()

            def rhs(tt, yy, p):
                env.check(p is par, "parameters are passed on")
                env.check(len(log) < s, "number of stages")
                log.append((tt, [x for x in yy]))
                return K.arr(ctx, ks[len(log) - 1])
            out = fn(rhs, t, h, ya, par, *extra)
        else:
            import numpy as np
            rec, n = np.zeros((s, dim + 1)), np.zeros(1)
            out = fn(jit_rhs(), t, h, ya, (np.array(ks, dtype=float), rec, n), *extra)
            env.check(int(n[0]) <= s, "number of stages")
            log = [(r[0], list(r[1:])) for r in rec[:int(n[0])]]
        env.check(len(log) == s, "number of stages")
        nxt = out if kind == "rk4" else out[0]
        for i, (tt, yy) in enumerate(log):
            env.check_eq(tt, t + num(ctx, c[i]) * h, f"time of stage {i + 1}")
            env.check_eq(yy, [a + h * d for a, d in zip(y, lin(ctx, A[i], ks, dim))], f"state of stage {i + 1}")
        env.observe("next", nxt)
        env.check_eq([x for x in nxt], [a + h * d for a, d in zip(y, lin(ctx, b, ks, dim))], "next state")
        env.check_eq([x for x in ya], y, "the state passed in is not modified")
        if kind == "rkf45":
            m = K.m(ctx)
            d = [h * x for x in lin(ctx, [p - q for p, q in zip(RKF5, b)], ks, dim)]
            e2 = sum(x * x for x in d)
            if mode == "constant":
                env.check(env.lt(0, out[1] * h), "suggested step goes on in the same direction when there is no error")
            elif env.symbolic or e2 > 1e-10 * sum(h * h * x * x for k in ks for x in k):
                if env.is_true(e2 > 0):
                    env.reach("error")
                    r = out[1] / (0.84 * h)
                    env.check(env.lt(0, r), "suggested step goes on in the same direction")
                    env.check_eq(r ** 8 * e2, tol * tol, "suggested step follows from the error estimate and tolerance", tol=1e-6)
    return harness


CASES = [Case(f"rk4-{d}", mk("rk4", d), algebra=True, bounds=f"dimension {d}") for d in (1, 6)]
CASES += [Case(f"rkf45-{d}", mk("rkf45", d), algebra=True, bounds=f"dimension {d}", expect=["error"]) for d in (1, 2)]
CASES += [Case("rkf45-6", mk("rkf45", 6), algebra=True, tier="thorough", bounds="dimension 6", expect=["error"]),
          Case("rkf45-default", mk("rkf45", 1, "default"), algebra=True, bounds="dimension 1, default tolerance", expect=["error"]),
          Case("rkf45-constant", mk("rkf45", 6, "constant"), algebra=True, bounds="dimension 6, error estimate zero"),
          Case("rk4-constant", mk("rk4", 6, "constant"), algebra=True, bounds="dimension 6")]
