"""C02: conversions between MEE, MEE with semimajor axis, Keplerian elements and states."""
from vsym.case import Case
from . import _kep as K
ASSUMPTIONS = ["real arithmetic", "elliptic orbits, 0 <= e <= 0.999, 0 <= i <= 3.1406 (Keplerian); f^2+g^2 < 0.998, any h, k (MEE)",
               "angles compared through their sine and cosine (the representable element set is periodic in them)"]


def setup_args(env, ctx):
    return K.m(ctx), K.mu_(env), ctx.sub("_elements")


def kep_to_mee(env, ctx):
    f, mu, lib = setup_args(env, ctx)
    kep = K.kep(env, ctx, i0=True, e0=True)
    st = K.kep_state(f, kep, mu)
    out = lib.kep2mee(K.arr(ctx, kep))
    env.observe("mee", out)
    env.check_eq(K.mee_state(f, out, mu), st, "kep2mee is the same orbit and position", tol=1e-6)
    outa = lib.kep2mee_with_a(K.arr(ctx, kep))
    env.check_eq(outa[0], kep[0], "kep2mee_with_a keeps the semimajor axis")
    env.check_eq(list(outa)[1:5], list(out)[1:5], "kep2mee_with_a agrees with kep2mee")
    env.check_eq(K.mee_state(f, [kep[0] * (1 - kep[1] ** 2)] + list(outa)[1:], mu), st, "kep2mee_with_a is the same orbit and position", tol=1e-6)


def mee_to_kep(env, ctx):
    f, mu, lib = setup_args(env, ctx)
    mee = K.mee(env, ctx, "p")
    out = lib.mee2kep(K.arr(ctx, mee))
    env.observe("kep", out)
    env.check_eq(K.kep_state(f, out, mu), K.mee_state(f, mee, mu), "mee2kep is the same orbit and position", tol=1e-6)
    env.check(env.and_(env.le(0, out[1]), env.lt(out[1], 1)), "mee2kep gives an eccentricity in [0,1)")
    env.check(env.le(0, f.sin(out[2])), "mee2kep gives an inclination in [0,pi]")


def meea_to_kep(env, ctx):
    f, mu, lib = setup_args(env, ctx)
    mee = K.mee(env, ctx, "a")
    out = lib.mee_with_a2kep(K.arr(ctx, mee))
    p = mee[0] * (1 - mee[1] ** 2 - mee[2] ** 2)
    env.observe("kep", out)
    env.check_eq(out[0], mee[0], "mee_with_a2kep keeps the semimajor axis")
    env.check_eq(K.kep_state(f, out, mu), K.mee_state(f, [p] + mee[1:], mu), "mee_with_a2kep is the same orbit and position", tol=1e-6)


def meea_to_state(env, ctx):
    f, mu, lib = setup_args(env, ctx)
    mee = K.mee(env, ctx, "a")
    p = mee[0] * (1 - mee[1] ** 2 - mee[2] ** 2)
    ref = K.mee_state(f, [p] + mee[1:], mu)
    out = lib.mee_with_a2sv(K.arr(ctx, mee), mu)
    env.observe("state", out)
    env.check_eq(out, ref, "mee_with_a2sv is the state of the elements", tol=1e-6)


def sma_swap(env, ctx):
    f, mu, lib = setup_args(env, ctx)
    mee = K.mee(env, ctx, "p")
    out = lib.mee2mee_with_a(K.arr(ctx, mee))
    env.observe("mee_with_a", out)
    env.check_eq(out[0] * (1 - mee[1] ** 2 - mee[2] ** 2), mee[0], "mee2mee_with_a gives the semimajor axis")
    env.check_eq(list(out)[1:], mee[1:], "mee2mee_with_a keeps the other elements")
    back = lib.mee_with_a2mee(out)
    env.check_eq(back, mee, "mee_with_a2mee undoes mee2mee_with_a")
    fwd = lib.mee_with_a2mee(K.arr(ctx, mee))       # the same numbers read as (a,f,g,h,k,L)
    env.check_eq(fwd[0], mee[0] * (1 - mee[1] ** 2 - mee[2] ** 2), "mee_with_a2mee gives the semilatus rectum")
    env.check_eq(list(fwd)[1:], mee[1:], "mee_with_a2mee keeps the other elements")


def kep_round_trip(env, ctx):
    f, mu, lib = setup_args(env, ctx)
    kep = K.kep(env, ctx, i0=True, e0=True)
    out = lib.mee2kep(lib.kep2mee(K.arr(ctx, kep)))
    env.observe("kep", out)
    env.check_eq(out[0], kep[0], "round trip keeps a", tol=1e-6)
    env.check_eq(out[1], kep[1], "round trip keeps e", tol=1e-6)
    K.same_angle(env, f, out[2], kep[2], "round trip keeps the inclination", tol=1e-6)
    K.same_angle(env, f, out[3] + out[4] + out[5], kep[3] + kep[4] + kep[5], "round trip keeps the true longitude", tol=1e-6)
    if env.is_true(env.and_(f.sin(kep[2]) > 0.001, kep[1] > 0.001)):
        K.same_angle(env, f, out[3], kep[3], "round trip keeps RAAN", tol=1e-6)
        K.same_angle(env, f, out[4], kep[4], "round trip keeps the argument of periapsis", tol=1e-6)
        K.same_angle(env, f, out[5], kep[5], "round trip keeps the true anomaly", tol=1e-6)
        env.reach("regular")


def mee_round_trip(env, ctx):
    f, mu, lib = setup_args(env, ctx)
    mee = K.mee(env, ctx, "p")
    out = lib.kep2mee(lib.mee2kep(K.arr(ctx, mee)))
    env.observe("mee", out)
    env.check_eq(list(out)[:5], mee[:5], "MEE -> Keplerian -> MEE keeps the elements", tol=1e-6)
    K.same_angle(env, f, out[5], mee[5], "MEE -> Keplerian -> MEE keeps the true longitude", tol=1e-6)


CASES = [Case(n, h, algebra=True, expect=x, feas_ms=1000) for n, h, x in [
    ("kep-to-mee", kep_to_mee, ()), ("mee-to-kep", mee_to_kep, ()), ("meea-to-kep", meea_to_kep, ()),
    ("meea-to-state", meea_to_state, ()), ("sma-swap", sma_swap, ()),
    ("kep-round-trip", kep_round_trip, ("regular",)), ("mee-round-trip", mee_round_trip, ())]]
