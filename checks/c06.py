"""C06: thrust along the returned angles is the steepest descent of Q, and the reported rate is its magnitude."""
from vsym.case import Case
from . import _kep as K, _q as Q
ASSUMPTIONS = ["real arithmetic", "elliptic orbits, 0.001 <= e <= 0.999 and 0.001 <= i <= 3.1406 (Keplerian); f^2+g^2 < 0.998 (MEE)",
               "acceleration of either sign, not zero; the gradient mapped through psi is not zero (otherwise the direction is undefined, see C18)",
               "that psi and dqdoe are the influence matrix and the gradient of Q is C04 and C05"]
U = ((0.25, -0.5, 0.125),)


def unit(m, al, be):
    return [m.cos(be) * m.sin(al), m.cos(be) * m.cos(al), m.sin(be)]


def direction(env, ctx, axes=None):
    m = K.m(ctx)
    u = [env.real(f"u{i}", -100, 100, near=U[0][i]) if axes is None or i in axes else 0.0 for i in range(3)]
    env.assume(env.lt(1e-12, sum(x * x for x in u)))
    return m, u


def angles(axes):
    def harness(env, ctx):
        m, u = direction(env, ctx, axes)
        out, al, be = ctx.sub("_lyapunov")._u_to_thrust_angles(K.arr(ctx, u))
        n = m.sqrt(sum(x * x for x in u))
        env.observe("angles", [al, be])
        env.check_eq([n * x for x in unit(m, al, be)], [-x for x in u], "thrust direction is opposite to the mapped gradient")
        env.check_eq([n * x for x in out], u, "returned vector is the unit vector of the mapped gradient")
        env.check(env.le(0, m.cos(be), 1e-9), "out-of-plane angle is within a quarter revolution")
    return harness


def control(axes):
    def harness(env, ctx):
        m, u = direction(env, ctx, axes)
        f = env.real("accel", -10, 10, near=-0.125)
        psi = [[env.real(f"psi{i}{j}", -10, 10, near=0.25 * i - 0.125 * j + 0.0625) for j in range(5)] for i in range(3)]
        dq = [env.real(f"dq{j}", -10, 10, near=0.5 - 0.1875 * j) for j in range(5)]
        n = m.sqrt(sum(x * x for x in u))
        q = env.real("q", 0, 100, near=1.5)
        names = ["mu", "f", "oe", "oeT", "rpmin", "m_petro", "n_petro", "r_petro", "b_petro", "k_petro", "wp", "woe"]
        vals = dict(mu=1.5, f=f, oe=K.arr(ctx, [1, .1, .2, .3, .4, .5]), oeT=K.arr(ctx, [2, .1, .2, .3, .4]), rpmin=0.25, m_petro=3.0, n_petro=4.0,
                    r_petro=2.0, b_petro=0.0625, k_petro=0.75, wp=0.875, woe=K.arr(ctx, [1, 1, 1, 1, 1]))
        seen = []

        def fun(*a):
            seen.append(a)
            return [list(u), [list(c) for c in psi], q, list(dq)]
        al, be, un, ps, qq, rate = ctx.sub("_lyapunov").lyapunov_control_angles(fun_lyapunov_control=fun, **vals)
        env.check(len(seen) == 1 and len(seen[0]) == 12, "control function is evaluated once with its twelve arguments")
        for k, v in zip(names, seen[0]):
            env.check(v is vals[k] or not hasattr(v, "shape") and bool(v == vals[k]), f"argument {k} is passed in its place")
        env.observe("rate", rate)
        env.check_eq([n * x for x in unit(m, al, be)], [-x for x in u], "thrust direction is opposite to the mapped gradient")
        env.check_eq(qq, q, "Q is passed through")
        env.check_eq([x for c in ps for x in c], [x for c in psi for x in c], "influence matrix is passed through")
        env.check_eq(n * rate, f * sum(u[i] * psi[i][j] * dq[j] for i in range(3) for j in range(5)), "rate is the gradient times the element rates along the unit vector")
    return harness


def functions(elements, cse, default=True):
    def harness(env, ctx):
        fs = Q.functions(ctx, elements, cse)
        f = env.real("accel", -10, 10, near=-0.125)
        env.assume(env.or_(env.lt(1e-6, f), env.lt(f, -1e-6)))
        P = Q.Params(env, ctx, elements, default=default, f=f)
        m = P.m
        if elements == "keplerian":
            P.oe = K.kep(env, ctx)
            P.oeT = [env.real("aT", 0.05, 100, near=2.0), env.real("eT", 0, 1, near=0.125), env.real("iT", 0, 3.140625, near=0.25),
                     env.real("raanT", -6.25, 6.25, near=1.0), env.real("aopT", -6.25, 6.25, near=0.5)]
        else:
            P.oe = K.mee(env, ctx, "a")
            P.oeT = [env.real("aT", 0.05, 100, near=2.0)] + [env.real(n + "T", -10, 10, near=v) for n, v in zip("fghk", (0.125, 0.0625, -0.25, 0.5))]
        u, psi, q, dq = fs[0](*P.args())
        rate = fs[3](*P.args())
        dq2 = fs[2](*P.args())
        if not env.symbolic and (P.oe[0] == P.oeT[0] or any(x != x for x in u)):
            env.abort()
        env.observe("u", u)
        env.check(len(u) == 3 and len(dq) == 5, "three components of thrust and five of the gradient")
        mapped = lambda psi, dq: [sum(psi[k][j] * dq[j] for j in range(5)) for k in range(3)]
        env.check_eq_shared([list(u), psi, list(dq)], lambda u, psi, dq: (u, mapped(psi, dq)),
                            "control vector is the gradient mapped through the influence matrix", common=(1, 2), tol=1e-6)
        env.check_eq_shared([rate, list(u), psi, list(dq), f], lambda rate, u, psi, dq, f: (rate * m.sqrt(sum(x * x for x in u)), f * sum(x * y for x, y in zip(u, mapped(psi, dq)))),
                            "fun_eval_dqdt is acceleration times the norm of the mapped gradient", common=(1, 2, 3), tol=1e-6)
        env.check_eq_shared([list(dq2), list(dq)], lambda a, b: (a, b), "fun_eval_dqdoe agrees with the control function", common=(1,), tol=1e-6)
    return harness


CASES = [Case(f"{nm}-{t}", h(ax), algebra=True, bounds=b)
         for nm, h in (("angles", angles), ("control", control))
         for t, ax, b in (("any", None, "all components free"), ("normal", (2,), "purely out of plane"), ("plane", (0, 1), "in the orbit plane"),
                          ("radial", (0,), "purely radial"), ("transverse", (1,), "purely transverse"))]
for el in ("keplerian", "mee_with_a"):
    for cse in (True, False):
        for default in (True, False):
            CASES.append(Case(f"{el}-{'cse' if cse else 'plain'}{'' if default else '-general'}", functions(el, cse, default), algebra=True,
                              bounds="default m, n, r" if default else "any m, n, r"))
