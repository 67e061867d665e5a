"""C01: Keplerian elements <-> Cartesian states."""
from vsym.case import Case
from . import _kep as K
ASSUMPTIONS = ["real arithmetic",
               "Keplerian elements 0.001 <= e <= 0.999 where the element set is regular, 0 <= i <= 3.1406 with i either 0 or >= 0.001 (below that get_omega's own 1e-12 singularity threshold applies)",
               "Cartesian states: any position and velocity with nonzero angular momentum"]


def args(env, ctx):
    return K.m(ctx), K.mu_(env), ctx.sub("_elements")


def forward(env, ctx):
    f, mu, lib = args(env, ctx)
    kep = K.kep(env, ctx, i0=True, e0=True)
    if env.is_true(kep[3] == 0):
        env.reach("raan=0")
    if env.is_true(kep[4] == 0):
        env.reach("aop=0")
    out = lib.kep2sv(K.arr(ctx, kep), mu)
    env.observe("state", out)
    env.check_eq(out, K.kep_state(f, kep, mu), "kep2sv is the state of the elements", tol=1e-6)
    r, v = list(out)[:3], list(out)[3:]
    rn = f.sqrt(K.dot(r, r))
    env.check_eq(kep[0] * (2 * mu / rn - K.dot(v, v)), mu, "kep2sv satisfies the vis-viva equation", tol=1e-6)
    h = K.cross(r, v)
    env.check_eq(K.dot(h, h), mu * kep[0] * (1 - kep[1] ** 2), "kep2sv has the angular momentum of the elements", tol=1e-6)


def back(planar):
    def harness(env, ctx):
        f, mu, lib = args(env, ctx)
        kep = K.kep(env, ctx)
        if planar:
            kep[2] = 0.0
        if not planar:
            env.assume(f.sin(kep[2]) > 0.0009765625)
        st = K.arr(ctx, K.kep_state(f, kep, mu))
        out = lib.sv2kep(st, mu)
        env.observe("kep", [out[0], out[1], f.cos(out[2])] + [f.sin(x) for x in out][5:])
        env.check_eq(out[0], kep[0], "sv2kep recovers the semimajor axis", tol=1e-5)
        env.check_eq(out[1], kep[1], "sv2kep recovers the eccentricity", tol=1e-6)
        env.check_eq(f.cos(out[2]), f.cos(kep[2]), "sv2kep recovers the inclination", tol=1e-6)
        if planar:
            K.same_angle(env, f, out[3] + out[4], kep[3] + kep[4], "sv2kep recovers the longitude of periapsis", tol=1e-5)
        else:
            K.same_angle(env, f, out[3], kep[3], "sv2kep recovers RAAN", tol=1e-5)
            K.same_angle(env, f, out[4], kep[4], "sv2kep recovers the argument of periapsis", tol=1e-5)
        K.same_angle(env, f, out[5], kep[5], "sv2kep recovers the true anomaly", tol=1e-5)
        again = lib.kep2sv(out, mu)
        env.check_eq(again, st, "kep2sv undoes sv2kep", tol=1e-5)
    return harness


def retrograde(env, ctx):
    """equatorial retrograde orbits"""
    f, mu, lib = args(env, ctx)
    kep = K.kep(env, ctx)
    kep[2] = f.pi
    st = K.arr(ctx, [x if j not in (2, 5) else 0.0 for j, x in enumerate(K.kep_state(f, kep, mu))])
    out = lib.sv2kep(st, mu)
    env.observe("kep", [out[0], out[1]])
    env.check_eq(f.cos(out[2]), -1.0, "sv2kep recovers a retrograde inclination", tol=1e-6)
    again = lib.kep2sv(out, mu)
    env.check_eq(again, st, "kep2sv undoes sv2kep on a retrograde equatorial orbit", tol=1e-5)


def cartesian(env, ctx):
    """scalar functions of an arbitrary state, any eccentricity (the true anomaly is decided in the back cases)"""
    f, mu, lib = args(env, ctx)
    st = [env.real(n, -50, 50, near=d) for n, d in zip(("x", "y", "z", "vx", "vy", "vz"), (1.0, 0.25, -0.5, 0.125, 0.875, 0.25))]
    r, v = st[:3], st[3:]
    h = K.cross(r, v)
    env.assume(K.dot(h, h) > 0.0009765625)
    x = K.arr(ctx, st)
    rn2, hn2 = K.dot(r, r), K.dot(h, h)
    env.assume(rn2 > 0.0009765625)
    rn = f.sqrt(rn2)
    ecc = lib.get_eccentricity(x, mu)
    env.observe("ecc", ecc)
    rv = K.dot(r, v)
    en = 2 * mu / rn - K.dot(v, v)          # mu / a
    if env.is_true(env.or_(en > 0.0009765625, en < -0.0009765625)):
        env.check_eq(lib.get_semiMajorAxis(x, mu) * en, mu, "get_semiMajorAxis satisfies the vis-viva equation", tol=1e-5)
    ref = [((K.dot(v, v) - mu / rn) * r[j] - rv * v[j]) / mu for j in range(3)]
    env.check_eq(ecc, ref, "get_eccentricity is the eccentricity vector", tol=1e-7)
    inc = lib.get_inclination(x)
    env.check_eq(f.cos(inc) * f.sqrt(hn2), h[2], "get_inclination is the angle between angular momentum and z", tol=1e-7)
    env.check(env.le(0, inc), "get_inclination is in [0,pi]")
    if env.is_true(h[0] * h[0] + h[1] * h[1] > 0.0009765625):
        raan = lib.get_raan(x)
        nn = f.sqrt(h[0] * h[0] + h[1] * h[1])
        env.check_eq([nn * f.cos(raan), nn * f.sin(raan)], [-h[1], h[0]], "get_raan points to the ascending node", tol=1e-7)


def hyperbola(env, ctx):
    f, mu, lib = args(env, ctx)
    a = -env.real("a", 0.05, 100, near=1.25)
    e = env.real("e", 1.0009765625, 20, near=1.5)
    i = env.real("i", 0.0009765625, 3.140625, near=0.5)
    O = env.real("raan", -6.25, 6.25, near=0.75)
    w = env.real("aop", -6.25, 6.25, near=1.125)
    nu = env.real("ta", -2, 2, near=0.5)
    env.assume(f.sin(i) > 0)
    env.assume(1 + e * f.cos(nu) > 0.0009765625)
    st = K.arr(ctx, K.kep_state(f, [a, e, i, O, w, nu], mu))
    env.check_eq(lib.get_semiMajorAxis(st, mu), a, "get_semiMajorAxis is negative on a hyperbola", tol=1e-5)
    T = lib.get_period(st, mu)
    env.observe("T", T)
    env.check_eq(T, -1.0, "get_period is -1 on a hyperbola")


def period_kep(env, ctx):
    f, mu, lib = args(env, ctx)
    kep = K.kep(env, ctx)
    T = lib.get_period(K.arr(ctx, K.kep_state(f, kep, mu)), mu)
    env.observe("T", T)
    env.check_eq(T * T * mu, 4 * f.pi * f.pi * kep[0] ** 3, "get_period is Kepler's third law", tol=1e-5)


CASES = [Case("forward", forward, algebra=True, expect=("raan=0", "aop=0", "equatorial", "circular")),
         Case("back", back(False), algebra=True), Case("back-planar", back(True), algebra=True),
         Case("retrograde", retrograde, algebra=True),
         Case("cartesian", cartesian, algebra=True), Case("hyperbola", hyperbola, algebra=True),
         Case("period", period_kep, algebra=True)]
