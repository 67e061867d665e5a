"""C08: a Sundman step lasts as long as the eccentric anomaly takes to advance by the requested angle."""
from vsym.case import Case
from . import _kep as K, _solve as S
ASSUMPTIONS = ["real arithmetic", "elliptic orbits; ta/2 not at an odd multiple of 90 degrees (tangent of the half anomaly is finite)",
               "the Q-law evaluation and the one-step integrator return arbitrary values"]


def geometry(m, elements, oe):
    """e, and sine and cosine of the eccentric anomaly, from the true anomaly"""
    if elements == "keplerian":
        e, c, s = oe[1], m.cos(oe[5]), m.sin(oe[5])
        w = 1 + e * c
        return e, m.sqrt(1 - e * e) * s / w, (e + c) / w
    f, g, L = oe[1], oe[2], oe[5]
    e = m.sqrt(f * f + g * g)
    c, s = m.cos(L), m.sin(L)
    w = 1 + f * c + g * s
    # e cos nu = f c + g s, e sin nu = f s - g c; times e
    return e, m.sqrt(1 - e * e) * (f * s - g * c) / w, (e * e + f * c + g * s) / w


def step_time(m, elements, oe, mu, d):
    """Kepler's equation: time for the eccentric anomaly to advance by d"""
    e, s, c = geometry(m, elements, oe)
    # e (sin E0 - sin(E0 + d)); the MEE sine and cosine carry the factor e already
    z = s - s * m.cos(d) - c * m.sin(d)
    if elements == "keplerian":
        z = e * z
    return m.sqrt(oe[0] ** 3 / mu) * (d + z)


RANGE = {"keplerian": ([0.25, 0.001, 0.01, -6, -6, -6.25], [50, 0.998, 3.125, 6, 6, 6.25]),
         "mee_with_a": ([0.25, -0.7, -0.7, -2, -2, -6.25], [50, 0.7, 0.7, 2, 2, 6.25])}


def mk(elements, sign, n, sundman, integrator="rk4"):
    def harness(env, ctx):
        m = K.m(ctx)
        run = S.Run(env, ctx, K=n, u="fixed")
        run.oe_range = RANGE[elements]
        mu = K.mu_(env)
        d = env.real("t_step", 0.0009765625, 6.25, near=0.25) * sign
        oe0 = K.kep(env, ctx) if elements == "keplerian" else K.mee(env, ctx, "a")
        if elements == "mee_with_a":
            env.assume(env.lt(1e-9, oe0[1] ** 2 + oe0[2] ** 2))
        prob = S.build(run, elements, oe0=run.arr(oe0), tf_max=1e9, t_step=d, woe=[0.0] * 5 if n == 1 else [1.0, 1.0, 1.0, 0.0, 0.0], oeT=run.arr([1e4, 5.0, 5.0, 5.0, 5.0]),
                       ctor={"integrator": integrator, "mu": mu, "use_sundman": sundman, "oe_min": [-1e6] * 6, "oe_max": [1e6] * 6})

        def common():
            for i, s in enumerate(run.log.steps):
                oe = s["yv"]
                if elements == "mee_with_a" and i:
                    env.assume(env.lt(1e-9, oe[1] ** 2 + oe[2] ** 2))
                ref = step_time(m, elements, oe, mu, d) if sundman else d
                env.check_eq(s["h"], ref, "step lasts as long as Kepler's equation says" if sundman else "step lasts the requested time")
            env.check_eq(prob.times[-1], sum((s["h"] for s in run.log.steps[1:]), run.log.steps[0]["h"]), "time advances by the steps")
        run.on_trunc = common
        prob.solve()
        common()
        env.observe("times", prob.times)
    return harness


def conversion(elements):
    def harness(env, ctx):
        m = K.m(ctx)
        el = ctx.sub("_elements")
        if elements == "keplerian":
            e = env.real("e", 0, 0.9990234375, near=0.25)
            nu = env.real("ta", -6.25, 6.25, near=2.125)
            E0, oe = el.ta2ea(nu, e), [1.0, e, 0, 0, 0, nu]
            k = 1
        else:
            oe = K.mee(env, ctx, "a")
            env.assume(env.lt(1e-9, oe[1] ** 2 + oe[2] ** 2))
            E0 = el.mee2ea(K.arr(ctx, oe))
            k = m.sqrt(oe[1] ** 2 + oe[2] ** 2)
        _, s, c = geometry(m, elements, oe)
        env.observe("E", [m.sin(E0), m.cos(E0)])
        env.check_eq(k * m.sin(E0), s, "sine of the eccentric anomaly")
        env.check_eq(k * m.cos(E0), c, "cosine of the eccentric anomaly")
    return harness


CASES = [Case(f"conversion-{el}", conversion(el), algebra=True) for el in ("keplerian", "mee_with_a")]
for el in ("keplerian", "mee_with_a"):
    for sg in (1, -1):
        t = "fwd" if sg > 0 else "bwd"
        CASES.append(Case(f"{el}-sundman-{t}", mk(el, sg, 1, True), S.setup, algebra=True, bounds="1 step"))
        CASES.append(Case(f"{el}-plain-{t}", mk(el, sg, 2, False), S.setup, bounds="<= 2 steps"))
        CASES.append(Case(f"{el}-sundman2-{t}", mk(el, sg, 2, True, "rkf45"), S.setup, algebra=True, bounds="<= 2 steps", tier="thorough"))
