"""C21: rotation matrices, angle wrapping, eccentric anomaly."""
from vsym.case import Case
from . import _kep as K, c08
ASSUMPTIONS = ["real arithmetic", "ta/2 not at an odd multiple of 90 degrees (tangent of the half anomaly is finite)"]


def matrix(axis):
    def harness(env, ctx):
        m = K.m(ctx)
        fn = getattr(ctx.sub("_transformations"), f"rotmat{axis + 1}")
        a, b, th = [env.real(n, -100, 100, near=v) for n, v in (("phi", 0.5), ("psi", -1.25), ("theta", 2.0))]
        get = lambda R: [[R[i, j] for j in range(3)] for i in range(3)]
        R, Rb, Rab = get(fn(a)), get(fn(b)), get(fn(a + b))
        env.observe("R", [x for r in R for x in r])
        mul = lambda M, x: [K.dot(r, x) for r in M]
        e = [0.0, 0.0, 0.0]
        e[axis] = 1.0
        env.check_eq(mul(R, e), e, "the axis is fixed")
        for i in range(3):
            for j in range(i, 3):
                env.check_eq(K.dot(R[i], R[j]), 1.0 if i == j else 0.0, "orthonormal")
        env.check_eq(K.dot(R[0], K.cross(R[1], R[2])), 1.0, "proper: determinant one")
        # a direction at angle theta in the plane normal to the axis is at theta - phi in the rotated frame
        i, j = (axis + 1) % 3, (axis + 2) % 3
        d, want = [0.0] * 3, [0.0] * 3
        d[i], d[j] = m.cos(th), m.sin(th)
        want[i], want[j] = m.cos(th - a), m.sin(th - a)
        env.check_eq(mul(R, d), want, "the frame is rotated by the angle")
        for i in range(3):
            env.check_eq([sum(R[i][k] * Rb[k][j] for k in range(3)) for j in range(3)], Rab[i], "angles add up")
    return harness


def wrap(n, angle):
    def harness(env, ctx):
        m = K.m(ctx)
        fn = ctx.sub("_transformations").wrap
        xs = [env.real(f"x.{i}", -1000, 1000, near=[4.0, -7.0, 1.0][i]) for i in range(n or 1)]
        r = fn(K.arr(ctx, xs)) if n else [fn(xs[0])]
        env.observe("wrapped", [y for y in r])
        for x, y in zip(xs, r):
            if angle:
                K.same_angle(env, m, y, x, "equivalent angle")
            else:
                env.check(env.and_(env.le(-m.pi, y), env.lt(y, m.pi)), "within one revolution, [-pi, pi)")
    return harness


def inside(env, ctx):
    """an angle already in range is kept; a whole number of turns is removed"""
    m = K.m(ctx)
    fn = ctx.sub("_transformations").wrap
    x = env.real("x", near=1.0)
    env.assume(env.and_(-m.pi <= x, x < m.pi))
    env.check_eq(fn(x), x, "an angle in range is unchanged")
    for k in (1, -1, 2, -2):
        if not env.symbolic and (m.pi - abs(x)) < 1e-9:
            env.abort()
        env.check_eq(fn(x + k * 2 * m.pi), x, f"{k} whole turns are removed")


def bounds(env, ctx):
    """the eccentric anomaly lies in the half revolution of the true anomaly"""
    m = K.m(ctx)
    e = env.real("e", 0, 0.9990234375, near=0.25)
    nu = env.real("ta", -6.25, 6.25, near=2.125)
    s = m.sin(ctx.sub("_elements").ta2ea(nu, e))
    env.observe("s", s)
    env.check(env.or_(m.sin(nu) <= 0, env.lt(0, s)), "ascending half")
    env.check(env.or_(m.sin(nu) >= 0, env.lt(s, 0)), "descending half")


CASES = [Case(f"rotmat{i + 1}", matrix(i), algebra=True) for i in range(3)]
CASES += [Case(f"wrap-{'angle' if a else 'range'}-{'scalar' if not n else n}", wrap(n, a), algebra=a, bounds="|angle| <= 1000") for n in (0, 3) for a in (True, False)]
CASES.append(Case("wrap-inside", inside, bounds="<= 2 whole turns"))
CASES += [Case(f"conversion-{el}", c08.conversion(el), algebra=True) for el in ("keplerian", "mee_with_a")]
CASES.append(Case("half", bounds, algebra=True))
