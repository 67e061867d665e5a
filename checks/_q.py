"""Reference Q-law: influence matrix and Lyapunov function, written from the published formulas
(Petropoulos 2004/2005 and Varga & Perez 2016, as in docs/source/theory.rst)."""
from vsym import expr as E
from . import _kep as K

NAMES = {"keplerian": "symbolic_qlaw_keplerian", "mee_with_a": "symbolic_qlaw_mee_with_a"}


def functions(ctx, elements, cse=True):
    c = ctx.__dict__.setdefault("cache", {})
    if (elements, cse) not in c:
        c[elements, cse] = getattr(ctx.sub("_symbolic"), NAMES[elements])(cse=cse)
    return c[elements, cse]


class Params:
    """all arguments of the generated functions"""

    def __init__(self, env, ctx, elements, default=True, weights=None, oe=None, oeT=None, f=None, backward=False):
        m = K.m(ctx)
        self.env, self.ctx, self.m, self.elements = env, ctx, m, elements
        self.mu = K.mu_(env)
        self.f = f if f is not None else env.real("accel", 0.0009765625, 10, near=0.125)
        if backward:
            self.f = -self.f
        self.rpmin = env.real("rpmin", 0.0009765625, 10, near=0.5)
        self.k = env.real("k_petro", 0, 10, near=0.75)
        self.wp = env.real("wp", 0, 100, near=0.5)
        if default:
            self.mp, self.np_, self.rp_, self.b = 3.0, 4.0, 2.0, env.real("b_petro", 0, 10, near=0.25)
        else:
            self.mp = env.real("m_petro", 0.125, 100, near=2.5)
            self.np_ = env.real("n_petro", 1, 20, near=3.5)
            self.rp_ = env.real("r_petro", 0.125, 20, near=1.5)
            self.b = env.real("b_petro", 0, 10, near=0.25)
        self.w = weights if weights is not None else [env.real(f"w{i}", 0, 100, near=d) for i, d in enumerate((1.0, 0.5, 2.0, 0.25, 0.75))]
        self.oe, self.oeT, self.doe = oe, oeT, None

    def args(self, w=None):
        A = lambda x: K.arr(self.ctx, x)
        return (self.mu, self.f, A(self.oe), A(self.oeT), self.rpmin, self.mp, self.np_, self.rp_, self.b, self.k, self.wp, A(self.w if w is None else w))

    # ---- reference
    def all_inputs(self):
        return list(self.oe) + list(self.oeT)


def psi_kep(m, oe, mu):
    """columns: radial, transverse, normal"""
    a, e, i, O, w, nu = oe
    p = a * (1 - e * e)
    h = m.sqrt(mu * p)
    r = p / (1 + e * m.cos(nu))
    s, c = m.sin(nu), m.cos(nu)
    R = [2 * a * a * e * s / h, p * s / h, 0, 0, -p * c / (e * h)]
    T = [2 * a * a * (1 + e * c) / h, ((p + r) * c + r * e) / h, 0, 0, (p + r) * s / (e * h)]
    N = [0, 0, r * m.cos(nu + w) / h, r * m.sin(nu + w) / (h * m.sin(i)), -r * m.sin(nu + w) * m.cos(i) / (h * m.sin(i))]
    return [R, T, N]


def psi_mee(m, oe, mu):
    a, f, g, h, k, L = oe
    q = 1 - f * f - g * g
    p = a * q
    s, c = m.sin(L), m.cos(L)
    w = 1 + f * c + g * s
    sp = m.sqrt(p / mu)
    ss = 1 + h * h + k * k
    x = h * s - k * c
    R = [2 * a * sp / q * (f * s - g * c), sp * s, -sp * c, 0, 0]
    T = [2 * a * sp / q * w, sp * (f + (1 + w) * c) / w, sp * (g + (1 + w) * s) / w, 0, 0]
    N = [0, -sp * g * x / w, sp * f * x / w, sp * ss * c / (2 * w), sp * ss * s / (2 * w)]
    return [R, T, N]


PSI = {"keplerian": psi_kep, "mee_with_a": psi_mee}


def inputs(env, ctx, elements, tag=""):
    """elements and their target; Keplerian angles relative to the target by the shortest arc"""
    if elements == "keplerian":
        oe = K.kep(env, ctx, tag=tag)
        return oe
    return K.mee(env, ctx, "a", tag=tag)


def cos_ta_xx(m, e):
    """cosine of the true anomaly at which the in-plane rate of omega is largest"""
    x = (1 - e * e) / (2 * e ** 3)
    y = m.sqrt(x * x + 1.0 / 27.0)
    return m.root3(x + y) - m.root3(y - x) - 1 / e


def rates_kep(m, oe, mu, f, b):
    """largest rates of change of the elements over thrust direction and true anomaly"""
    a, e, i, O, w, nu = oe
    p = a * (1 - e * e)
    h = m.sqrt(mu * p)
    ci, si, cw, sw = m.cos(i), m.sin(i), m.cos(w), m.sin(w)
    absr = lambda x: m.sqrt(x * x)
    adot = 2 * f * m.sqrt(a ** 3 * (1 + e) / (mu * (1 - e)))
    edot = 2 * p * f / h
    idot = p * f / (h * (m.sqrt(1 - e * e * sw * sw) - e * absr(cw)))
    radot = p * f / (h * si * (m.sqrt(1 - e * e * cw * cw) - e * absr(sw)))
    c = cos_ta_xx(m, e)
    r = p / (1 + e * c)
    wi = f / (e * h) * m.sqrt(p * p * c * c + (p + r) * (p + r) * (1 - c * c))
    wo = radot * absr(ci)
    return [adot, edot, idot, radot, (wi + b * wo) / (1 + b)]


def rates_mee(m, oe, mu, f, b):
    a, F, G, h, k, L = oe
    p = a * (1 - F * F - G * G)
    e = m.sqrt(F * F + G * G)
    sp = m.sqrt(p / mu)
    ss = 1 + h * h + k * k
    return [2 * f * a * m.sqrt(a / mu * (1 + e) / (1 - e)), 2 * f * sp, 2 * f * sp,
            f * sp * ss / (2 * (m.sqrt(1 - G * G) + F)), f * sp * ss / (2 * (m.sqrt(1 - F * F) + G))]


def q_terms(m, elements, oe, aT, doe, mu, f, rpmin, mp, np_, rp_, b, k, wp):
    """Q is the sum of weight times these; doe: differences to the target (shortest arcs for angles)"""
    a = oe[0]
    e = oe[1] if elements == "keplerian" else m.sqrt(oe[1] ** 2 + oe[2] ** 2)
    P = m.exp(k * (1 - a * (1 - e) / rpmin))
    x = m.sqrt(doe[0] ** 2) / (mp * aT)
    S = (1 + x ** np_) ** (1 / rp_)
    rates = (rates_kep if elements == "keplerian" else rates_mee)(m, oe, mu, f, b)
    t = [(doe[i] / rates[i]) ** 2 for i in range(5)]
    t[0] = t[0] * S
    return [(1 + wp * P) * x for x in t]


def by_weight(env, ctx, fn, w, terms, label, tol=1e-6):
    """fn(w) == sum of w[j] * terms[j].  Symbolically: fn is linear in the weights, nothing is left
    without them, and each coefficient is its term"""
    if not ctx.symbolic:
        env.check_eq(fn(w), sum(a * b for a, b in zip(w, terms)), label, tol=tol)
        for j in range(5):
            env.check_eq(fn([1.0 if i == j else 0.0 for i in range(5)]), terms[j], label + f", unit weight {j}", tol=tol)
        return
    n = E.node(fn(w))
    ws = [E.node(x) for x in w]
    eng, E.ENGINE = E.ENGINE, None
    try:
        D = [E.diff(n, v) for v in ws]
        rest = E.substitute(n, {v.val: E.const(0) for v in ws})
        left = {x.id for d in D for x in E.variables(d)}
    finally:
        E.ENGINE = eng
    if any(v.id in left for v in ws):
        env.check_eq(E.SymReal(n), sum(a * b for a, b in zip(w, terms)), label, tol=tol)
        return
    env.check_eq(E.SymReal(rest), 0.0, label + ", no weights")
    for j in range(5):
        env.check_eq(E.SymReal(D[j]), terms[j], label + f", unit weight {j}", tol=tol)
