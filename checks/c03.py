"""C03: the element equations of motion are two-body motion plus the given RTN acceleration."""
from vsym.case import Case
from . import _kep as K
ASSUMPTIONS = ["real arithmetic", "elliptic orbits, 0.001 <= e <= 0.999 and 0.001 <= i <= 3.1406 (Keplerian); f^2+g^2 < 0.998, |h|,|k| <= 1000 (MEE), f and g may be 0",
               "arbitrary thrust and perturbing acceleration in [-10,10]",
               "the influence columns handed to the equations are those produced by the generated control function, as in solve()"]


def acc(env, ctx):
    u = [env.real("u" + c, -10, 10, near=d) for c, d in zip("rtn", (0.125, -0.25, 0.0625))]
    p = [env.real("p" + c, -10, 10, near=d) for c, d in zip("rtn", (0.03125, 0.0625, -0.125))]
    return K.arr(ctx, u), K.arr(ctx, p), [x + y for x, y in zip(u, p)]


def two_body(env, ctx, state, elements, doe, total):
    """dx/dt by the chain rule is velocity and gravity plus the acceleration"""
    f, mu = K.m(ctx), elements[1]
    x, J = K.partials(ctx, lambda g, v: state(g, v[:6], v[6]), list(elements[0]) + [mu])
    r, v = x[:3], x[3:]
    er, et, en = K.rtn(f, r, v)
    r3 = f.sqrt(K.dot(r, r)) ** 3
    for k in range(6):
        d = sum((J[k][i] * doe[i] for i in range(1, 6)), J[k][0] * doe[0])
        if k < 3:
            env.check_eq(d, v[k], "position rate is the velocity", tol=1e-6)
        else:
            j = k - 3
            env.check_eq(d, -mu * r[j] / r3 + total[0] * er[j] + total[1] * et[j] + total[2] * en[j],
                         "velocity rate is gravity plus the RTN acceleration", tol=1e-6)


def setup(ctx):
    return {}, {}


def psi_of(env, ctx, name, oe, mu):
    fs = ctx.cache = getattr(ctx, "cache", None) or getattr(ctx.sub("_symbolic"), name)()
    tgt = K.arr(ctx, [1.5, 0.25, 0.375, 0.5, 0.625])
    return fs[0](mu, 0.125, oe, tgt, 0.5, 3.0, 4.0, 2.0, 0.01, 1.0, 1.0, [1.0] * 5)[1]


def kep(env, ctx):
    mu = K.mu_(env)
    el = K.kep(env, ctx)
    oe = K.arr(ctx, el)
    psi = psi_of(env, ctx, "symbolic_qlaw_keplerian", oe, mu)
    u, p, tot = acc(env, ctx)
    doe = ctx.sub("_eom").eom_kep_gauss(env.real("t", -100, 100, near=1.0), oe, (mu, u, *[K.arr(ctx, c) for c in psi], p))
    env.observe("doe", doe)
    two_body(env, ctx, K.kep_state, (el, mu), doe, tot)


def meea_state(f, oe, mu):
    return K.mee_state(f, [oe[0] * (1 - oe[1] ** 2 - oe[2] ** 2)] + list(oe[1:]), mu)


def mee_with_a(env, ctx):
    mu = K.mu_(env)
    el = K.mee(env, ctx, "a")
    if env.is_true(el[1] == 0):
        env.reach("f=0")
        if env.is_true(el[2] == 0):
            env.reach("circular")
    oe = K.arr(ctx, el)
    psi = psi_of(env, ctx, "symbolic_qlaw_mee_with_a", oe, mu)
    u, p, tot = acc(env, ctx)
    doe = ctx.sub("_eom").eom_mee_with_a_gauss(env.real("t", -100, 100, near=1.0), oe, (mu, u, *[K.arr(ctx, c) for c in psi], p))
    env.observe("doe", doe)
    two_body(env, ctx, meea_state, (el, mu), doe, tot)


def mee(env, ctx):
    mu = K.mu_(env)
    el = K.mee(env, ctx, "p")
    oe = K.arr(ctx, el)
    u, p, tot = acc(env, ctx)
    z = K.arr(ctx, [0.0] * 5)
    doe = ctx.sub("_eom").eom_mee_gauss(env.real("t", -100, 100, near=1.0), oe, (mu, u, z, z, z, p))
    env.observe("doe", doe)
    two_body(env, ctx, K.mee_state, (el, mu), doe, tot)


CASES = [Case("keplerian", kep, setup, algebra=True),
         Case("mee-with-a", mee_with_a, setup, algebra=True, expect=("f=0", "circular")),
         Case("mee", mee, setup, algebra=True)]
