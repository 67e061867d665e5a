"""C05: Q is the documented Lyapunov function and dqdoe its gradient."""
from vsym.case import Case
from . import _kep as K, _q as Q
ASSUMPTIONS = ["real arithmetic", "elliptic orbits, 0.001 <= e <= 0.999 and 0.001 <= i <= 3.1406 (Keplerian); f^2+g^2 < 0.998, |h|,|k| <= 1000 (MEE)",
               "angle differences to the target within +-pi plus up to one revolution",
               "gradient: where Q is differentiable (a not at its target, sin and cos of omega nonzero, f and g not both zero)",
               "cos of the anomaly of the fastest in-plane change of omega is abstracted to any number in (-1,1) for value and sign, and put back for identities"]
TURNS = ((0, 0), (1, -1), (-1, 1))


def build(env, ctx, elements, default, unit=None, quad=None, kinks=True):
    w = None if unit is None else [1.0 if i == unit else 0.0 for i in range(5)]
    P = Q.Params(env, ctx, elements, default=default, weights=w)
    m = P.m
    aT = env.real("aT", 0.05, 100, near=2.0)
    if elements == "keplerian":
        oe = K.kep(env, ctx)
        env.abstract(Q.cos_ta_xx(m, oe[1]), "cos_ta_xx", -1, 1)
        tgt = [aT, env.real("eT", 0, 1, near=0.125), env.real("iT", 0, 3.140625, near=0.25)]
        doe = [oe[0] - aT, oe[1] - tgt[1], oe[2] - tgt[2]]
        turns = env.choice("turns", TURNS if kinks else TURNS[:2])
        if quad is not None:
            env.assume(env.and_(env.le(0, quad[0] * m.cos(oe[4])), env.le(0, quad[1] * m.sin(oe[4])), env.le(0, quad[2] * doe[0])))
        for i, nm in ((3, "draan"), (4, "daop")):
            d = env.real(nm, -3.140625, 3.140625, near=0.375)
            env.hint(d)
            k = turns[i - 3]
            tgt.append(oe[i] - d - 2 * k * m.pi)
            doe.append(d)
    else:
        oe = K.mee(env, ctx, "a")
        tgt = [aT] + [env.real(n + "T", -10, 10, near=v) for n, v in zip("fghk", (0.125, 0.0625, -0.25, 0.5))]
        doe = [oe[i] - tgt[i] for i in range(5)]
    if not kinks:
        env.assume(env.lt(1e-6, abs(doe[0])))
        if elements == "keplerian":
            env.assume(env.and_(env.lt(1e-6, abs(m.sin(oe[4]))), env.lt(1e-6, abs(m.cos(oe[4])))))
        else:
            env.assume(env.lt(1e-6, oe[1] ** 2 + oe[2] ** 2))
    P.oe, P.oeT, P.doe = oe, tgt, doe
    return P


def value(elements, default, quad=None):
    def harness(env, ctx):
        fs = Q.functions(ctx, elements)
        P = build(env, ctx, elements, default, quad=quad)
        env.observe("q", fs[0](*P.args())[2])
        ref = Q.q_terms(P.m, elements, P.oe, P.oeT[0], P.doe, P.mu, P.f, P.rpmin, P.mp, P.np_, P.rp_, P.b, P.k, P.wp)
        Q.by_weight(env, ctx, lambda w: fs[0](*P.args(w))[2], P.w, ref, "Q is the documented function")
        for j in range(5):
            q = fs[0](*P.args([1.0 if i == j else 0.0 for i in range(5)]))[2]
            env.check(env.le(0, q), "Q is never negative")
            env.check(env.or_(P.doe[j] == 0, env.lt(0, q)), "Q is zero only at the target")
    return harness


def gradient(elements, default, quad=None, comps=range(5)):
    """dqdoe[i] is the derivative of Q with the target fixed (an angle to its target moves with the angle)"""
    def harness(env, ctx):
        fs = Q.functions(ctx, elements)
        P = build(env, ctx, elements, default, quad=quad, kinks=False)
        kep = elements == "keplerian"
        env.observe("dqdoe", fs[0](*P.args())[3])

        def ref(m, v):
            oe = list(v[:5]) + [0.0]
            doe = [oe[0] - P.oeT[0]] + ([oe[i] - P.oeT[i] for i in (1, 2)] + [v[5], v[6]] if kep else [oe[i] - P.oeT[i] for i in range(1, 5)])
            return Q.q_terms(m, elements, oe, P.oeT[0], doe, P.mu, P.f, P.rpmin, P.mp, P.np_, P.rp_, P.b, P.k, P.wp)
        _, J = K.partials(ctx, ref, list(P.oe[:5]) + (list(P.doe[3:]) if kep else []))
        for i in comps:
            d = [J[j][i] + (J[j][i + 2] if kep and i >= 3 else 0) for j in range(5)]
            Q.by_weight(env, ctx, lambda w: fs[0](*P.args(w))[3][i], P.w, d, f"gradient of Q, element {i}")
            Q.by_weight(env, ctx, lambda w: fs[2](*P.args(w))[i], P.w, d, f"fun_eval_dqdoe, element {i}")
    return harness


CASES = []
QUADS = [(x, y, z) for x in (1, -1) for y in (1, -1) for z in (1, -1)]
for default in (True, False):
    tag = "" if default else "-general"
    B = "default m, n, r" if default else "any m, n, r"
    CASES.append(Case(f"mee_with_a-q{tag}", value("mee_with_a", default), algebra=True, bounds=B))
    CASES.append(Case(f"mee_with_a-grad{tag}", gradient("mee_with_a", default), algebra=True, bounds=B))
    for n, q in enumerate(QUADS):
        b = f"{B}; signs of cos(omega), sin(omega), a-aT: {q}"
        CASES.append(Case(f"keplerian-q{tag}-{n}", value("keplerian", default, q), algebra=True, bounds=b))
        for comps in ((0, 2, 3, 4), (1,)):
            CASES.append(Case(f"keplerian-grad{tag}-{n}-{'e' if comps == (1,) else 'r'}", gradient("keplerian", default, q, comps), algebra=True, bounds=b,
                              tier="quick" if (n in (0, 3, 5, 6) if default else n == 3) else "thorough"))
