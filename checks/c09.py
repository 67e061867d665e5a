"""C09: the convergence decision."""
import math
from vsym.case import Case
from . import _solve as S
ASSUMPTIONS = ["angles within two revolutions of their target", "tolerances are not NaN"]


def kep(angles, nan=None, ks=(-1, 0, 1)):
    def harness(env, ctx):
        run = S.Run(env, ctx)
        pi = run.np().pi
        T = [env.real(f"T.{i}", -10, 10, near=1.0) for i in range(5)]
        tol = [env.real(f"tol.{i}", 0, 3, near=0.5) for i in range(5)]
        w = [env.real(f"w.{i}", 0, 10, near=1.0) for i in range(5)]
        d = [env.real(f"d.{i}", -8, 8, near=0.25, nan=(nan == i)) for i in range(5)]
        x = [T[i] + d[i] for i in range(3)]
        for i in (3, 4):
            if i in angles:
                env.assume(env.or_(env.isnan(d[i]), env.and_(d[i] >= -pi, d[i] <= pi)))
                k = env.choice(f"turns.{i}", list(ks))
                x.append(T[i] + d[i] + 2 * pi * k)
            else:
                env.assume(w[i] == 0.0)
                x.append(T[i] + d[i])
        oe = run.arr(x + [env.real("ta", near=0.5)])
        res = ctx.lib.check_convergence_keplerian(oe, run.arr(T), run.arr(w), run.arr(tol))
        want = env.and_(*[env.or_(w[i] == 0.0, env.and_(env.not_(env.isnan(d[i])), abs(d[i]) <= tol[i])) for i in range(5)])
        env.check(env.implies(res == True, want), "converged only if every weighted element is within tolerance")  # noqa: E712
        env.check(env.implies(want, res == True), "converged whenever every weighted element is within tolerance")  # noqa: E712
        if env.is_true(want):
            env.reach("yes")
        else:
            env.reach("no")
        env.observe("res", bool(res))
    return harness


def mee(nT, nan=()):
    def harness(env, ctx):
        run = S.Run(env, ctx)
        T = [env.real(f"T.{i}", near=1.0) for i in range(nT)]
        tol = [env.real(f"tol.{i}", near=0.5) for i in range(5)]
        w = [env.real(f"w.{i}", near=1.0) for i in range(5)]
        x = [env.real(f"x.{i}", near=1.25, nan=i in nan) for i in range(6)]
        decide(env, ctx.lib.check_convergence_mee, run, x, T, w, tol, range(5))
    return harness


def decide(env, f, run, x, T, w, tol, idx):
    res = f(run.arr(x), run.arr(T), run.arr(w), run.arr(tol))
    want = env.and_(*[env.or_(w[i] == 0.0, abs(T[i] - x[i]) <= tol[i]) for i in idx])
    env.check(env.implies(res == True, want), "converged only if every weighted element is within tolerance")  # noqa: E712
    env.check(env.implies(want, res == True), "converged whenever every weighted element is within tolerance")  # noqa: E712
    env.reach("yes" if env.is_true(want) else "no")
    env.observe("res", bool(res))


def one(name, i):
    """one weighted element, in binary64"""
    def harness(env, ctx):
        run = S.Run(env, ctx)
        T = [env.real(f"T.{i}", near=1.0) if j == i else 1.0 for j in range(5)]
        tol = [env.real(f"tol.{i}", near=0.5) if j == i else 0.0 for j in range(5)]
        w = [env.real(f"w.{i}", near=1.0) if j == i else 0.0 for j in range(5)]
        x = [env.real(f"x.{i}", near=1.25, nan=True) if j == i else 2.0 for j in range(6)]
        decide(env, getattr(ctx.lib, name), run, x, T, w, tol, [i])
    return harness


YN = ["yes", "no"]
CASES = [Case("mee-real", mee(5), S.units, bounds="all reals", expect=YN),
         Case("mee-real-6", mee(6), S.units, bounds="six-component target", expect=YN),
         Case("mee-nan", mee(5, range(6)), S.units, bounds="any elements NaN", expect=YN),
         Case("kep-raan", kep({3}), S.units, bounds="whole turns -1..1", expect=YN),
         Case("kep-omega", kep({4}), S.units, bounds="whole turns -1..1", expect=YN),
         Case("kep-both", kep({3, 4}, ks=(0, 1)), S.units, bounds="whole turns 0..1", expect=YN),
         Case("kep-turns", kep({3, 4}, ks=(-2, -1, 0, 1, 2)), S.units, tier="thorough", bounds="whole turns -2..2", expect=YN)]
for i in range(5):
    CASES.append(Case(f"kep-nan-{i}", kep({i} if i > 2 else set(), nan=i), S.units, bounds="one element NaN", expect=YN))
for i in range(5):
    CASES.append(Case(f"mee-fp-{i}", one("check_convergence_mee", i), S.units, mode="fp", bounds="all binary64 values, NaN included", expect=YN))
for i in range(3):
    CASES.append(Case(f"kep-fp-{i}", one("check_convergence_keplerian", i), S.units, mode="fp", bounds="all binary64 values, NaN included", expect=YN))
