"""Reference two-body formulas, written independently of the library, usable with floats and
symbolic values alike."""
import math
from vsym import expr as E


def m(ctx):
    """math functions for the current mode"""
    return SYM if ctx.symbolic else CON


class SYM:
    pi = E.SymReal(E.PI)
    sin = staticmethod(lambda x: E.S(x).sin())
    cos = staticmethod(lambda x: E.S(x).cos())
    tan = staticmethod(lambda x: E.S(x).tan())
    sqrt = staticmethod(lambda x: E.S(x).sqrt())
    exp = staticmethod(lambda x: E.S(x).exp())
    atan2 = staticmethod(lambda y, x: E.S(y).arctan2(x))
    root3 = staticmethod(lambda x: E.S(x) ** (1.0 / 3.0))


class CON:
    pi = math.pi
    sin, cos, tan, sqrt, exp, atan2 = math.sin, math.cos, math.tan, math.sqrt, math.exp, math.atan2
    root3 = staticmethod(lambda x: x ** (1.0 / 3.0))


def arr(ctx, xs):
    """a numpy array of the mode"""
    if ctx.symbolic:
        from vsym import npshim
        return npshim.NP.array(list(xs))
    import numpy as np
    return np.array([float(x) for x in xs])


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def kep_state(f, kep, mu):
    """position and velocity of Keplerian elements, from the perifocal basis vectors"""
    a, e, i, O, w, nu = kep
    cO, sO, cw, sw, ci, si = f.cos(O), f.sin(O), f.cos(w), f.sin(w), f.cos(i), f.sin(i)
    P = [cO * cw - sO * sw * ci, sO * cw + cO * sw * ci, sw * si]
    Q = [-cO * sw - sO * cw * ci, -sO * sw + cO * cw * ci, cw * si]
    p = a * (1 - e * e)
    r = p / (1 + e * f.cos(nu))
    k = f.sqrt(mu / p)
    x, y = r * f.cos(nu), r * f.sin(nu)
    vx, vy = -k * f.sin(nu), k * (e + f.cos(nu))
    return [x * P[j] + y * Q[j] for j in range(3)] + [vx * P[j] + vy * Q[j] for j in range(3)]


def mee_state(f, mee, mu):
    """position and velocity of modified equinoctial elements (p,f,g,h,k,L)"""
    p, F, G, h, k, L = mee
    a2, s2 = h * h - k * k, 1 + h * h + k * k
    c, s = f.cos(L), f.sin(L)
    w = 1 + F * c + G * s
    r = p / w
    q = f.sqrt(mu / p)
    return [r / s2 * (c + a2 * c + 2 * h * k * s),
            r / s2 * (s - a2 * s + 2 * h * k * c),
            2 * r / s2 * (h * s - k * c),
            -q / s2 * (s + a2 * s - 2 * h * k * c + G - 2 * F * h * k + a2 * G),
            -q / s2 * (-c + a2 * c + 2 * h * k * s - F + 2 * G * h * k + a2 * F),
            2 * q / s2 * (h * c + k * s + F * h + G * k)]


def kep(env, ctx, i0=False, e0=False, tag=""):
    """symbolic elliptic Keplerian elements"""
    f = m(ctx)
    a = env.real("a" + tag, 0.05, 100, near=1.25)
    e = env.real("e" + tag, 0 if e0 else 0.0009765625, 0.9990234375, near=0.25)
    i = env.real("i" + tag, 0 if i0 else 0.0009765625, 3.140625, near=0.5)
    O = env.real("raan" + tag, -6.25, 6.25, near=0.75)
    w = env.real("aop" + tag, -6.25, 6.25, near=1.125)
    nu = env.real("ta" + tag, -6.25, 6.25, near=2.125)
    if e0 and env.is_true(e == 0):
        env.reach("circular")
    if i0 and env.is_true(i == 0):
        env.reach("equatorial")
    else:
        env.assume(f.sin(i) > 0)
    return [a, e, i, O, w, nu]


def mu_(env):
    return env.real("mu", 0.0625, 64, near=1.5)


def mee(env, ctx, first="a", tag=""):
    """symbolic elliptic MEE, first component semimajor axis or semilatus rectum"""
    f = m(ctx)
    a = env.real(first + tag, 0.05, 100, near=1.25)
    F = env.real("f" + tag, -0.9990234375, 0.9990234375, near=0.25)
    G = env.real("g" + tag, -0.9990234375, 0.9990234375, near=-0.125)
    h = env.real("h" + tag, -1000, 1000, near=0.375)
    k = env.real("k" + tag, -1000, 1000, near=0.625)
    L = env.real("L" + tag, -6.25, 6.25, near=1.125)
    env.assume(F * F + G * G < 0.998)
    return [a, F, G, h, k, L]


def same_angle(env, f, a, b, label, tol=1e-9):
    env.check_eq(f.sin(a), f.sin(b), label + " (sine)", tol=tol)
    env.check_eq(f.cos(a), f.cos(b), label + " (cosine)", tol=tol)


def partials(ctx, fn, xs):
    """values and partial derivatives d fn_k / d x_i of a reference formula, by differentiating it symbolically"""
    vs = [E.var(f"_d{i}") for i in range(len(xs))]
    eng, E.ENGINE = E.ENGINE, None
    mode = E.MODE
    E.set_mode("real")
    try:
        ns = [E.node(y) for y in fn(SYM, [E.SymReal(v) for v in vs])]
        memos = [{} for _ in vs]
        D = [[E.diff(n, v, m) for v, m in zip(vs, memos)] for n in ns]
        if ctx.symbolic:
            mp = {f"_d{i}": E.node(x) for i, x in enumerate(xs)}
            memo = {}
            sub = lambda n: E.SymReal(E.substitute(n, mp, memo))
        else:
            vals = {f"_d{i}": float(x) for i, x in enumerate(xs)}
            memo = {}
            sub = lambda n: E.evalf(n, vals, memo)
        return [sub(n) for n in ns], [[sub(n) for n in r] for r in D]
    finally:
        E.ENGINE = eng
        E.set_mode(mode)


def rtn(f, r, v):
    """unit vectors radial, transverse, normal"""
    h = cross(r, v)
    rn, hn = f.sqrt(dot(r, r)), f.sqrt(dot(h, h))
    er, en = [x / rn for x in r], [x / hn for x in h]
    return er, cross(en, er), en
