"""C19: perturbing accelerations: third body, J2, solar radiation pressure, their sum in the RTN frame."""
import types
from vsym.case import Case
from . import _kep as K
ASSUMPTIONS = ["real arithmetic", "the SPICE library is replaced by a stub that returns arbitrary body positions, constants and rotation matrices",
               "composite cases: the conversion of elements to a state (property C01) is replaced by an arbitrary state"]


def vec(env, name, near, lo=-50, hi=50):
    return [env.real(f"{name}.{i}", lo, hi, near=near[i]) for i in range(3)]


def norm(m, v):
    return m.sqrt(K.dot(v, v))


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


# ---- references
def third_body(m, r, s, mu3):
    """attraction on the spacecraft minus attraction on the central body"""
    d = sub(s, r)
    dn, sn = norm(m, d), norm(m, s)
    return [mu3 * (d[i] / (dn * dn * dn) - s[i] / (sn * sn * sn)) for i in range(3)]


def j2_potential(m, r, mu, J2, Re):
    n = norm(m, r)
    return -mu * J2 * Re * Re / (2 * n * n * n) * (3 * (r[2] / n) * (r[2] / n) - 1)


def rotation(m, a, b, c):
    """general rotation matrix R3(c) R1(b) R3(a)"""
    ca, sa, cb, sb, cc, sc = m.cos(a), m.sin(a), m.cos(b), m.sin(b), m.cos(c), m.sin(c)
    return [[cc * ca - sc * cb * sa, cc * sa + sc * cb * ca, sc * sb],
            [-sc * ca - cc * cb * sa, -sc * sa + cc * cb * ca, cc * sb],
            [sb * sa, -sb * ca, cb]]


def mul(T, x):
    return [K.dot(row, x) for row in T]


def tr(T):
    return [[T[j][i] for j in range(3)] for i in range(3)]


def j2(ctx, m, r, T, mu, J2, Re):
    """gradient of the potential in principal axes, by differentiation, seen in the inertial frame"""
    _, D = K.partials(ctx, lambda f, x: [j2_potential(f, x[:3], x[3], x[4], x[5])], mul(T, r) + [mu, J2, Re])
    return mul(tr(T), D[0][:3])


def srp(m, rs, au, k):
    n = norm(m, rs)
    return [k * (au / n) * (au / n) * x / n for x in rs]


def j2_form(m, r, mu, J2, Re):
    """closed form of the gradient of j2_potential, r in principal axes"""
    n = norm(m, r)
    z = (r[2] / n) * (r[2] / n)
    c = -1.5 * mu * J2 * Re * Re / (n * n * n * n * n)
    return [c * (1 - 5 * z) * r[0], c * (1 - 5 * z) * r[1], c * (3 - 5 * z) * r[2]]


# ---- units
def u_third(env, ctx):
    m = K.m(ctx)
    P = ctx.sub("_perturbations")
    r, s = vec(env, "r", [1.0, 0.5, -0.25]), vec(env, "s", [4.0, -2.0, 3.0], -1000, 1000)
    mu3 = env.real("mu3", 0, 1000, near=0.75)
    d = sub(s, r)
    env.assume(env.lt(0.01, K.dot(d, d)))
    env.assume(env.lt(0.01, K.dot(s, s)))
    a = P.perturbation_third_body_battin(K.arr(ctx, r), K.arr(ctx, s), mu3)
    env.observe("a", a)
    env.check_eq(a, third_body(m, r, s, mu3), "third body: difference of attractions", tol=1e-7)


def u_j2(env, ctx):
    m = K.m(ctx)
    P = ctx.sub("_perturbations")
    r = vec(env, "r", [1.0, 0.5, -0.25])
    env.assume(env.lt(0.01, K.dot(r, r)))
    T = rotation(m, *[env.real(f"eul.{i}", -6.25, 6.25, near=[0.5, 0.75, -1.25][i]) for i in range(3)])
    mu, J2, Re = K.mu_(env), env.real("J2", -0.1, 0.1, near=0.001), env.real("Re", 0.01, 10, near=1.0)
    np_ = NP(ctx)
    a = P.perturbation_J2(K.arr(ctx, r), np_.array(T), mu, J2, Re)
    env.observe("a", a)
    env.check_eq(a, j2(ctx, m, r, T, mu, J2, Re), "J2: gradient of the potential in principal axes", tol=1e-7)


def u_j2_aligned(env, ctx):
    m = K.m(ctx)
    P = ctx.sub("_perturbations")
    r = vec(env, "r", [1.0, 0.5, -0.25])
    env.assume(env.lt(0.01, K.dot(r, r)))
    mu, J2, Re = K.mu_(env), env.real("J2", -0.1, 0.1, near=0.001), env.real("Re", 0.01, 10, near=1.0)
    I3 = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]
    a = P.perturbation_J2(K.arr(ctx, r), NP(ctx).array(I3), mu, J2, Re)
    env.observe("a", a)
    env.check_eq(a, j2(ctx, m, r, I3, mu, J2, Re), "J2: gradient of the potential (frame aligned)", tol=1e-7)
    env.check_eq(j2_form(m, r, mu, J2, Re), j2(ctx, m, r, I3, mu, J2, Re), "closed form of the reference is the gradient", tol=1e-7)


def u_srp(env, ctx):
    m = K.m(ctx)
    P = ctx.sub("_perturbations")
    r = vec(env, "r", [100.0, 50.0, -25.0], -1000, 1000)
    env.assume(env.lt(0.01, K.dot(r, r)))
    au, k = env.real("AU", 0.01, 1000, near=100.0), env.real("k", 0, 10, near=0.25)
    a = P.perturbation_SRP(K.arr(ctx, r), au, k)
    env.observe("a", a)
    env.check_eq(a, srp(m, r, au, k), "SRP: away from the Sun, inverse square", tol=1e-7)


def u_rtn(env, ctx):
    m = K.m(ctx)
    P = ctx.sub("_perturbations")
    r, v = vec(env, "r", [1.0, 0.5, -0.25]), vec(env, "v", [-0.25, 0.75, 0.5])
    h = K.cross(r, v)
    env.assume(env.lt(0.01, K.dot(r, r)))
    env.assume(env.lt(0.01, K.dot(h, h)))
    T = P.pxformECI2RTN(K.arr(ctx, r), K.arr(ctx, v))
    T = [[T[i, j] for j in range(3)] for i in range(3)]
    env.observe("T", [x for row in T for x in row])
    env.check_eq([x for row in T for x in row], [x for row in K.rtn(m, r, v) for x in row], "rows are radial, transverse, normal")
    for i in range(3):
        for j in range(i, 3):
            env.check_eq(K.dot(T[i], T[j]), 1.0 if i == j else 0.0, f"orthonormal {i}{j}")
    env.check_eq(K.cross(T[0], T[1]), T[2], "right handed")
    # the transverse axis is along the motion, the radial one along the position
    env.check_eq(mul(T, r)[1:], [0.0, 0.0], "position is radial")
    env.check_eq(mul(T, v)[2], 0.0, "velocity is in plane")
    rn = norm(m, r)
    env.check_eq(mul(T, v)[1] * rn, norm(m, h), "transverse velocity is positive")


def NP(ctx):
    if ctx.symbolic:
        from vsym import npshim
        return npshim.NP
    import numpy
    return numpy


# ---- composite
def setup(ctx):
    m = types.ModuleType("spiceypy")
    m.bodvrd = lambda *a: ctx.spice.bodvrd(*a)
    m.spkpos = lambda *a: ctx.spice.spkpos(*a)
    m.pxform = lambda *a: ctx.spice.pxform(*a)
    m.convrt = lambda *a: ctx.spice.convrt(*a)
    patches = {"_elements": {"kep2sv": lambda oe, mu: ctx.spice.conv("keplerian", oe, mu),
                             "mee_with_a2sv": lambda oe, mu: ctx.spice.conv("mee_with_a", oe, mu)}}
    return patches, {"spiceypy": m}


class Spice:
    """arbitrary but consistent ephemeris: every query is a function of its arguments"""

    def __init__(self, env, ctx):
        self.env, self.ctx, self.et, self.state = env, ctx, None, None

    def gm(self, body):
        return self.env.real(f"GM.{body}", 0.01, 1e6, near={"399": 400.0, "301": 5.0, "10": 600.0}.get(body, 40.0))

    def bodvrd(self, body, item, n):
        assert item == "GM"
        return 1, [self.gm(str(body))]

    def pos(self, body, frame, obs):
        return vec(self.env, f"pos.{body}.{frame}.{obs}", {"10": [40.0, -300.0, 20.0], "301": [40.0, 20.0, -10.0]}.get(body, [15.0, 25.0, -8.0]), -1e6, 1e6)

    def spkpos(self, body, et, frame, abcorr, obs):
        self.env.check_eq(et, self.et, "ephemeris queried at the epoch of the step")
        return NP(self.ctx).array(self.pos(str(body), frame, str(obs))), 1.0

    def rot(self, a, b):
        if a == b:
            return [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]
        if self.env.rotsym:
            return rotation(K.m(self.ctx), *[self.env.real(f"eul.{a}.{b}.{i}", -6.25, 6.25, near=[0.5, 0.75, -1.25][i]) for i in range(3)])
        m = {("J2000", "ITRF93"): [[0.0, 0.8, 0.6], [-1.0, 0.0, 0.0], [0.0, -0.6, 0.8]],
             ("ITRF93", "J2000"): [[0.0, -1.0, 0.0], [0.8, 0.0, -0.6], [0.6, 0.0, 0.8]],
             ("FQ", "FP"): [[0.6, 0.0, 0.8], [0.0, 1.0, 0.0], [-0.8, 0.0, 0.6]]}
        return m.get((a, b)) or [[0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [1.0, 0.0, 0.0]]

    def pxform(self, a, b, et):
        self.env.check_eq(et, self.et, "frame queried at the epoch of the step")
        return NP(self.ctx).array(self.rot(a, b))

    def convrt(self, x, a, b):
        f = {("AU", "km"): 1.0, ("km", "AU"): -1.0}[(a, b)]
        au = self.env.real("AUkm", 1.0, 1e9, near=300.0)
        return x * au if f > 0 else x / au

    def conv(self, kind, oe, mu):
        self.env.check_eq([x for x in oe], self.oe, "state of the current elements")
        self.env.check_eq(mu, self.mu, "state with the gravitational parameter of the central body")
        self.env.check(kind == self.kind, "conversion of the element type in use")
        return NP(self.ctx).array(self.state)


def begin(env, ctx, kind, obs):
    """epoch, units, elements, state; returns what the constructor needs"""
    env.rotsym = False
    sp = ctx.spice = Spice(env, ctx)
    sp.LU, sp.TU = env.real("LU", 0.5, 1e5, near=10.0), env.real("TU", 0.5, 1e5, near=2.0)
    et0, sp.t = env.real("et_ref", near=100.0), env.real("t", near=3.0)
    sp.et = et0 + sp.t * sp.TU
    sp.kind = kind
    sp.state = vec(env, "r", [1.0, 0.5, -0.25]) + vec(env, "v", [-0.25, 0.75, 0.5])
    sp.oe = [env.real(f"oe.{i}", near=0.25 + i) for i in range(6)]
    sp.MU = sp.LU * sp.LU * sp.LU / (sp.TU * sp.TU)
    sp.mu = sp.gm(obs) / sp.MU
    r, v = sp.state[:3], sp.state[3:]
    h = K.cross(r, v)
    env.assume(env.lt(0.01, K.dot(r, r)))
    env.assume(env.lt(0.01, K.dot(h, h)))
    return sp, (et0, sp.LU, sp.TU)


def apart(env, sp, bodies, frame, obs):
    """no collisions"""
    r = sp.state[:3]
    for b in bodies:
        s = [x / sp.LU for x in sp.pos(b, frame, obs)]
        d = sub(s, r)
        env.assume(env.lt(0.01, K.dot(s, s)))
        env.assume(env.lt(0.01, K.dot(d, d)))


def single(kind, effect, gms=False):
    """one effect, all parameters given"""
    def harness(env, ctx):
        m = K.m(ctx)
        P = ctx.sub("_perturbations")
        obs, fq, fp = "4", "FQ", "FP"
        sp, args = begin(env, ctx, kind, obs)
        r, v = sp.state[:3], sp.state[3:]
        J2, Re = env.real("J2", -0.1, 0.1, near=0.002), env.real("Re", 1, 1e5, near=7.0)
        Pr, Cr, Am = env.real("P", 0, 1, near=0.125), env.real("Cr", 0, 2, near=1.5), env.real("Am", 0, 10, near=0.75)
        g = env.real("gm", 0, 100, near=0.5)
        obj = P.SpicePerturbations(*args, obs_id=obs, frame_qlaw=fq, frame_PA=fp, J2=J2, Re_km=Re, P_SRP_SI=Pr, Cr_SRP=Cr, Am_SI=Am,
                                   third_bodies_names=["5"] if effect == "body" else (None if gms else []), third_bodies_gms=[g] if gms and effect == "body" else None,
                                   use_J2=effect == "j2", use_SRP=effect == "srp")
        apart(env, sp, {"body": ["5"], "srp": ["10"]}.get(effect, []), fq, obs)
        if effect == "body":
            ref = third_body(m, r, [x / sp.LU for x in sp.pos("5", fq, obs)], g if gms else sp.gm("5") / sp.MU)
        elif effect == "j2":
            T = sp.rot(fq, fp)
            ref = mul(tr(T), j2_form(m, mul(T, r), sp.mu, J2, Re / sp.LU))
        elif effect == "srp":
            rs = sub(r, [x / sp.LU for x in sp.pos("10", fq, obs)])
            # pressure x coefficient x area to mass in m/s^2, to canonical units
            ref = srp(m, rs, sp.convrt(1.0, "AU", "km") / sp.LU, Pr * Cr * Am / 1000 * sp.TU * sp.TU / sp.LU)
        else:
            ref = [0.0, 0.0, 0.0]
        a = obj.get_perturbations_RTN(sp.t, K.arr(ctx, sp.oe), kind)
        env.observe("a", a)
        env.check_eq(a, mul(K.rtn(m, r, v), ref), "acceleration in RTN", tol=1e-6)
        env.check_eq(obj.get_perturbations_RTN(sp.t, K.arr(ctx, sp.oe), kind), a, "same at a second call")
    return harness


def total(kind, bodies, j2, srp_, given=None):
    """all effects together are the sum of each alone; defaults are the documented values
    given: None (defaults), 'explicit' (everything passed), 'gms' (and the GMs of the bodies)"""
    def harness(env, ctx):
        P = ctx.sub("_perturbations")
        sp, args = begin(env, ctx, kind, "399" if given is None else "4")
        obs, fq, fp = ("399", "J2000", "ITRF93") if given is None else ("4", "FQ", "FP")
        if given is None:
            full = dict(J2=0.00108263, Re_km=6378.0, P_SRP_SI=4.56e-6, Cr_SRP=1.2, Am_SI=0.01)
        else:
            full = dict(J2=env.real("J2", -0.1, 0.1, near=0.002), Re_km=env.real("Re", 1, 1e5, near=7.0), P_SRP_SI=env.real("P", 0, 1, near=0.125),
                        Cr_SRP=env.real("Cr", 0, 2, near=1.5), Am_SI=env.real("Am", 0, 10, near=0.75))
        full.update(obs_id=obs, frame_qlaw=fq, frame_PA=fp)
        some = dict(full) if given else {}
        gm = {b: env.real(f"gm.{b}", 0, 100, near=0.5) if given == "gms" else sp.gm(b) / sp.MU for b in bodies}
        if not (given is None and bodies == ["301", "10"]):
            some["third_bodies_names"] = list(bodies)
        if given == "gms":
            some["third_bodies_gms"] = [gm[b] for b in bodies]
        if not (given is None and j2):
            some["use_J2"] = j2
        if not (given is None and srp_):
            some["use_SRP"] = srp_
        apart(env, sp, sorted(set(bodies) | ({"10"} if srp_ else set())), fq, obs)
        oe = lambda: K.arr(ctx, sp.oe)
        tot = P.SpicePerturbations(*args, **some).get_perturbations_RTN(sp.t, oe(), kind)
        one = lambda b, **k: P.SpicePerturbations(*args, **dict(full, third_bodies_names=b, **k)).get_perturbations_RTN(sp.t, oe(), kind)
        parts = [one([b], third_bodies_gms=[gm[b]], use_J2=False, use_SRP=False) for b in bodies]
        if j2:
            parts.append(one([], use_J2=True, use_SRP=False))
        if srp_:
            parts.append(one([], use_J2=False, use_SRP=True))
        env.observe("a", tot)
        env.check_eq_shared([list(tot)] + [list(p) for p in parts], lambda t, *ps: (t, [sum(p[i] for p in ps[1:]) + ps[0][i] for i in range(3)]),
                            "all effects are the sum of each alone", common=range(1, 1 + len(parts)), tol=1e-6, whole=False)
    return harness


def invalid(env, ctx):
    P = ctx.sub("_perturbations")
    sp = ctx.spice = Spice(env, ctx)
    env.rotsym = False
    sp.et, sp.oe, sp.mu = 0.0, [1.0] * 6, 1.0
    obj = P.SpicePerturbations(0.0, env.real("LU", 0.5, 1e5), env.real("TU", 0.5, 1e5))
    for kind in ("mee", "MEE", "cartesian", "", "keplerian_", "mee_with_p"):
        try:
            obj.get_perturbations_RTN(0.0, K.arr(ctx, [1.0, 0.1, 0.2, 0.3, 0.4, 0.5]), kind)
            env.check(False, "unknown element type rejected")
        except ValueError:
            env.check(True, "unknown element type rejected")


CASES = [Case("third-body", u_third, algebra=True), Case("j2", u_j2, algebra=True), Case("j2-aligned", u_j2_aligned, algebra=True),
         Case("srp", u_srp, algebra=True), Case("rtn", u_rtn, algebra=True), Case("invalid-type", invalid, setup)]
for el in ("keplerian", "mee_with_a"):
    for eff in ("none", "body", "j2", "srp"):
        for gms in ((False, True) if eff in ("none", "body") else (False,)):
            CASES.append(Case(f"{eff}{'-given' if gms else ''}-{el}", single(el, eff, gms), setup, algebra=True, bounds="<= 1 third body"))
for name, args in {"default": ("mee_with_a", ["301", "10"], True, True), "default-kep": ("keplerian", ["301", "10"], True, True),
                   "default-bodies": ("keplerian", ["301", "10"], False, False), "default-j2": ("mee_with_a", [], True, False),
                   "default-srp": ("keplerian", [], False, True),
                   "two-bodies": ("keplerian", ["5", "6"], False, False, "explicit"), "two-bodies-gms": ("mee_with_a", ["5", "6"], False, False, "gms"),
                   "bodies-j2": ("mee_with_a", ["5", "10"], True, False, "explicit"), "bodies-srp": ("keplerian", ["10", "5"], False, True, "gms"),
                   "j2-srp": ("mee_with_a", [], True, True, "explicit"), "all": ("keplerian", ["5", "10"], True, True, "gms")}.items():
    CASES.append(Case("sum-" + name, total(*args), setup, algebra=True, bounds="<= 2 third bodies"))
