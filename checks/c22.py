"""C22: Cartesian histories, orbit coordinates and plots show the recorded solution."""
import types
import numpy
from vsym.case import Case
from . import _kep as K, _solve as S
ASSUMPTIONS = ["real arithmetic", "the Q-law evaluation and the one-step integrator return arbitrary values; states stay unconverged",
               "matplotlib is a recording stand-in, scipy's interp1d one that interpolates linearly between the first and last point and records what it is given",
               "labelled curves are identified by their label, others by their order on the axis"]
RANGE = {"keplerian": ([0.25, 0.001, 0.01, 0.001, 0.001, -6.25], [50, 0.998, 3.125, 6, 6, 6.25]),
         "mee_with_a": ([0.25, -0.7, -0.7, -2, -2, -6.25], [50, 0.7, 0.7, 2, 2, 6.25])}


# ---- stand-ins
class Axis:
    def __init__(self):
        self.calls = []

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return lambda *a, **kw: self.calls.append((k, a, kw))

    def of(self, *kinds):
        return [(a, k) for n, a, k in self.calls if n in kinds]

    def curve(self, label):
        """the curve of this label"""
        r = [a for a, k in self.of("plot", "step") if k.get("label") == label]
        return r[0] if len(r) == 1 else None

    def plain(self):
        return [a for a, k in self.of("plot", "step") if k.get("label") is None]


class Fig(Axis):
    def __init__(self):
        super().__init__()
        self.panels = []

    def add_subplot(self, *a, **k):
        self.calls.append(("add_subplot", a, k))
        self.panels.append(Axis())
        return self.panels[-1]


def pyplot(ctx):
    m = types.ModuleType("matplotlib.pyplot")

    def subplots(nrows=1, ncols=1, **k):
        ctx.fig = f = Fig()
        if nrows == ncols == 1:
            f.grid_ = Axis()
        elif 1 in (nrows, ncols):
            f.grid_ = numpy.empty(nrows * ncols, dtype=object)
            f.grid_[:] = [Axis() for _ in range(nrows * ncols)]
        else:
            f.grid_ = numpy.empty((nrows, ncols), dtype=object)
            for i in numpy.ndindex(nrows, ncols):
                f.grid_[i] = Axis()
        return f, f.grid_

    def figure(*a, **k):
        ctx.fig = Fig()
        return ctx.fig
    m.subplots, m.figure = subplots, figure
    m.__getattr__ = lambda k: (lambda *a, **kw: None) if not k.startswith("__") else (_ for _ in ()).throw(AttributeError(k))
    return m


def conversion(ctx, name):
    """an arbitrary function of its arguments"""
    def f(*args):
        from vsym import expr as E
        key = [E.node(x) for a in args for x in (a if hasattr(a, "__len__") else [a])]
        low = ctx.env.low
        same = (lambda a, b: low.same(low.elem(a), low.elem(b))) if ctx.env.alg else (lambda a, b: a.id == b.id)
        for k, v in ctx.memo.setdefault(name, []):
            if len(k) == len(key) and all(same(a, b) for a, b in zip(k, key)):
                return K.arr(ctx, v)
        nm = ctx.env.fresh(name)
        ctx.memo[name].append((key, [ctx.env.real(f"{nm}.{i}", 0.125, 100, near=0.25 + 0.125 * i) for i in range(6)]))
        return K.arr(ctx, ctx.memo[name][-1][1])
    return f


def setup_real(ctx):
    never = lambda *a, **k: False
    patches, modules = S.setup(ctx, {"_convergence": {"check_convergence_keplerian": never, "check_convergence_mee": never}})
    plt = pyplot(ctx)
    top = types.ModuleType("matplotlib")
    top.pyplot = plt
    ctx.interp = []

    class interp1d:
        def __init__(self, x, y, kind="linear", axis=-1, **k):
            import numpy as np
            y = np.asarray(y, dtype=object)
            if y.ndim == 2 and axis in (0, -2):
                y = y.T
            self.x, self.y, self.kind = list(x), y, kind
            ctx.interp.append(self)

        def __call__(self, t):
            s = (t - self.x[0]) / (self.x[-1] - self.x[0])
            if self.y.ndim == 1:
                return self.y[0] * (1 - s) + self.y[-1] * s
            return [row[0] * (1 - s) + row[-1] * s for row in self.y]
    si = types.ModuleType("scipy.interpolate")
    si.interp1d = interp1d
    modules.update({"matplotlib": top, "matplotlib.pyplot": plt, "scipy.interpolate": si})
    return patches, modules


def setup(ctx):
    """symbolic runs: conversions are arbitrary functions (replays use the real ones)"""
    patches, modules = setup_real(ctx)
    ctx.memo = {}
    if ctx.symbolic:
        patches["_elements"] = {k: conversion(ctx, k) for k in ("kep2sv", "mee2kep")}
    return patches, modules


def NP(ctx):
    if ctx.symbolic:
        from vsym import npshim
        return npshim.NP
    return numpy


def ls(x):
    return [e for e in x]


def solved(env, ctx, elements, n=2, eta=False, dt=None, coast=False):
    ctx.interp.clear()
    ctx.memo = {}
    run = S.Run(env, ctx, K=n, u="sym" if n == 1 and not eta else "fixed", qsym=True, dq=lambda env, f, v: 0.5 / (1 + len(run.log.dqdt) % 2), nan=coast)
    run.oe_range = lo, hi = RANGE[elements]
    mu = env.real("mu", 0.0625, 64, near=1.5)
    oe0 = run.arr([env.real(f"oe0.{i}", lo[i], hi[i], near=[1.5, 0.125, 0.25, 0.5, 0.375, 1.0][i]) for i in range(6)])
    oeT = run.arr([env.real(f"oeT.{i}", lo[i], hi[i], near=[2.0, 0.25, 0.5, 0.125, 0.625][i]) for i in range(5)])
    dt = env.real("t_step", 0.125, 2, near=0.5) if dt is None else dt
    kw = {}
    if eta:
        kw = dict(eta_a=env.real("eta_a", 0.0625, 4, near=0.5), eta_r=env.real("eta_r", 0.0625, 1, near=0.25))
    prob = S.build(run, elements, oe0=oe0, oeT=oeT, mass0=2.0, mdot=env.real("mdot", 0, 0.0625, near=0.03125), tf_max=dt * (n - 0.5), t_step=dt, mass_min=0.01,
                   battery_initial=0.75, battery_capacity=(0.25, 1.0), battery_charge_discharge_rate=(env.real("chg", 0, 0.1, near=0.0625), env.real("dis", 0, 0.1, near=0.03125)),
                   ctor={"mu": mu, "exit_at_relaxed": 1000, "anomaly_grid_size": 2, "oe_min": [-1e6] * 6, "oe_max": [1e6] * 6,
                         "tol_oe": [env.real(f"tol.{i}", 0, 1, near=0.03125 * (i + 1)) for i in range(5)]})
    prob.solve(**kw)
    env.check(len(prob.times) == n + 1, "steps were taken")
    return run, prob, mu, oe0, oeT


def state(ctx, elements, oe, mu):
    """Cartesian state; the library's conversions are the subject of C01 and C02"""
    el = ctx.sub("_elements")
    return ls((el.kep2sv if elements == "keplerian" else el.mee_with_a2sv)(K.arr(ctx, ls(oe)), mu))


def history(elements, interpolate, dt=None, n=2):
    def harness(env, ctx):
        run, prob, mu, oe0, oeT = solved(env, ctx, elements, n, dt=dt)
        nt = len(prob.times)
        if not interpolate:
            cart = prob.get_cartesian_history()
            env.check(cart.shape == (6, nt), "one column per recorded state")
            for i in range(nt):
                env.check_eq([cart[j, i] for j in range(6)], state(ctx, elements, prob.states[i], mu), "column is the recorded state")
        else:
            k = 3 if dt is None else None
            kind = "linear" if dt is None else "quadratic"
            cart, ts = prob.get_cartesian_history(interpolate=True, steps=k, kind=kind, get_t_evals=True)
            k = k or round(2 * dt / 0.01)
            env.check(cart.shape == (6, k) and len(ts) == k, "one column per evaluation")
            rows = []
            for f in ctx.interp:
                env.check(f.kind == kind, "kind of interpolation requested")
                env.check_eq(f.x, ls(prob.times), "interpolated over the recorded times")
                rows += [ls(r) for r in ([f.y] if f.y.ndim == 1 else f.y)]
            env.check(len(rows) == 6, "six elements are interpolated")
            for j, r in enumerate(rows[:6]):
                env.check_eq(r, [s[j] for s in prob.states], "interpolated through the recorded states")
            for i in range(k):
                s = i / (k - 1) if not env.symbolic else frac(i, k - 1)
                t = prob.times[-1] * s
                env.check_eq(ts[i], t, "evaluation times span the transfer")
                oe = [prob.states[0][j] * (1 - s) + prob.states[-1][j] * s for j in range(6)]
                env.check_eq([cart[j, i] for j in range(6)], state(ctx, elements, oe, mu), "column is the interpolated state")
            cart2 = prob.get_cartesian_history(interpolate=True, steps=2)
            env.check(cart2.shape == (6, 2), "steps as requested, history only")
        env.observe("cart", [cart.shape[0], cart.shape[1]])
        for i in range(len(prob.states)):
            env.check(len(prob.states[i]) == 6, "states are unchanged")
    return harness


def frac(i, d):
    from vsym import expr as E
    return E.S(E.Fraction(i, d))


def orbit(steps):
    def harness(env, ctx):
        m = K.m(ctx)
        mu = K.mu_(env)
        oe = K.kep(env, ctx)
        fn = ctx.sub("_elements").get_orbit_coordinates
        c = fn(K.arr(ctx, oe), mu, steps)
        env.check(c.shape == (6, steps), "one column per point")
        for i in range(steps):
            nu = 2 * m.pi * (frac(i, steps - 1) if env.symbolic else i / (steps - 1))
            env.check_eq([c[j, i] for j in range(6)], K.kep_state(m, oe[:5] + [nu], mu), "point of the orbit")
        env.check_eq([c[j, 0] for j in range(6)], [c[j, steps - 1] for j in range(6)], "the revolution is closed")
        env.observe("c", [c[j, i] for j in range(6) for i in range(steps)])
    return harness


def kep_of(ctx, elements, oe):
    return ls(oe) if elements == "keplerian" else ls(ctx.sub("_elements").mee_with_a2kep(K.arr(ctx, ls(oe))))


def elements_history(elements, to_kep, mass, peri):
    def harness(env, ctx):
        m = K.m(ctx)
        run, prob, mu, oe0, oeT = solved(env, ctx, elements, 1)
        TU = env.real("TU", 0.0625, 100, near=3.0)
        fig, _ = prob.plot_elements_history(to_keplerian=to_kep, TU=TU, time_unit_name="day", plot_mass=mass, plot_periapsis=peri)
        axs = [a for a in ctx.fig.grid_.reshape(-1)]
        env.check(fig is ctx.fig and len(axs) == 6, "six panels")
        times = [t * TU for t in prob.times]
        conv = to_kep and elements == "mee_with_a"
        st = [kep_of(ctx, elements, s) if conv else ls(s) for s in prob.states]
        tgt = kep_of(ctx, elements, ls(oeT) + [0.0]) if conv else ls(oeT)
        deg = [1, 1] + [180 / m.pi] * 4 if conv else [1] * 6
        names = ["a", "e", "i", "raan", "om", "ta"] if conv else prob.element_names
        for i in range(5):
            c = axs[i].curve(names[i])
            env.check(c is not None, "history is drawn")
            env.check_eq(ls(c[0]), times, "over time in the requested unit")
            env.check_eq(ls(c[1]), [s[i] * deg[i] for s in st], "element history")
            band, line = axs[i].of("fill_between"), axs[i].of("axhline")
            if conv:
                env.check(len(line) == 1 and not band, "target line")
                env.check_eq(line[0][0][0], tgt[i] * deg[i], "target value")
            else:
                env.check(len(band) == 1 and not line, "target band")
                a = band[0][0]
                env.check_eq(ls(a[0]), times, "band over time")
                env.check_eq([a[1], a[2]], [tgt[i] - prob.tol_oe[i], tgt[i] + prob.tol_oe[i]], "target and tolerance")
        p = axs[0].plain()
        env.check(len(p) == (1 if peri else 0), "periapsis drawn when requested")
        if peri:
            e = lambda s: s[1] if conv or elements == "keplerian" else m.sqrt(s[1] * s[1] + s[2] * s[2])
            env.check_eq(ls(p[0][0]), times, "periapsis over time")
            env.check_eq(ls(p[0][1]), [s[0] * (1 - e(s)) for s in st], "periapsis history")
        if mass:
            p = axs[5].plain()
            env.check(len(p) == 1, "mass is drawn")
            env.check_eq(ls(p[0][0]), times, "mass over time")
            env.check_eq(ls(p[0][1]), ls(prob.masses), "mass history")
        else:
            c = axs[5].curve(names[5])
            env.check(c is not None, "anomaly is drawn")
            env.check_eq(ls(c[0]), times, "anomaly over time")
            for s, y in zip(st, ls(c[1])):
                K.same_angle(env, m, y * m.pi / 180, s[5], "anomaly in degrees")
        env.observe("x", times)
    return harness


def battery(env, ctx):
    run, prob, mu, oe0, oeT = solved(env, ctx, "mee_with_a", 2)
    TU, BU = env.real("TU", 0.0625, 100, near=3.0), env.real("BU", 0.0625, 100, near=5.0)
    fig, ax = prob.plot_battery_history(TU=TU, BU=BU)
    env.check(ax is ctx.fig.grid_, "axis is returned")
    c = ax.of("plot")
    env.check(len(c) == 1, "battery is drawn")
    env.check_eq(ls(c[0][0][0]), [t * TU for t in prob.times], "over time in the requested unit")
    env.check_eq(ls(c[0][0][1]), [b * BU for b in prob.battery], "battery history in the requested unit")
    lines = {k.get("label"): a[0] for a, k in ax.of("axhline")}
    env.check_eq(lines.get("min capacity"), 0.25 * BU, "lower limit")
    env.check_eq(lines.get("max capacity"), 1.0 * BU, "upper limit")
    env.observe("b", prob.battery)


def controls(elements, anomaly, n=2):
    def harness(env, ctx):
        m = K.m(ctx)
        run, prob, mu, oe0, oeT = solved(env, ctx, elements, n, coast=n > 1)
        TU = env.real("TU", 0.0625, 100, near=3.0)
        fig, ax = prob.plot_controls(TU=TU, show_anomaly=anomaly)
        t = [x * TU for x in prob.times]
        for i, (nm, f) in enumerate((("alpha", 180 / m.pi), ("beta", 180 / m.pi), ("throttle, %", 100))):
            c = ax.curve(nm)
            env.check(c is not None, "control is drawn")
            env.check_eq(ls(c[0]), t[:-1], "at the time from which it applies")
            env.check_eq(ls(c[1]), [u[i] * f for u in prob.controls], "control history")
        c = ax.curve("Anomaly")
        env.check((c is not None) == anomaly, "anomaly drawn when requested")
        if anomaly:
            env.check_eq(ls(c[0]), t, "anomaly over time")
            for s, y in zip(prob.states, ls(c[1])):
                K.same_angle(env, m, y * m.pi / 180, s[5], "anomaly in degrees")
        env.observe("t", t)
    return harness


def efficiency(env, ctx):
    run, prob, mu, oe0, oeT = solved(env, ctx, "mee_with_a", 1, eta=True)
    TU = env.real("TU", 0.0625, 100, near=3.0)
    prob.plot_efficiency(TU=TU)
    axs = ls(ctx.fig.grid_.reshape(-1))
    for i, nm in enumerate(("eta_a", "eta_r")):
        c, b = axs[i].curve(nm), axs[i].curve(nm + "_min")
        env.check(c is not None and b is not None, "effectivity and threshold are drawn")
        for d, src, lab in ((c, prob.etas, "effectivity"), (b, prob.etas_bounds, "threshold")):
            env.check_eq(ls(d[0]), [x * TU for x in prob.times[:-1]], lab + " over time")
            env.check_eq(ls(d[1]), [e[i] for e in src], lab + " history")
    env.observe("t", prob.times)


def plot_q(env, ctx):
    run, prob, mu, oe0, oeT = solved(env, ctx, "mee_with_a", 2)
    TU = env.real("TU", 0.0625, 100, near=3.0)
    fig, ax = prob.plot_Q(TU=TU)
    for nm, src in (("Q", prob.Qs), ("|dQ/dt|, [1/TU]", prob.dQdts)):
        c = ax.curve(nm)
        env.check(c is not None, "history is drawn")
        env.check_eq(ls(c[0]), [x * TU for x in prob.times[:-1]], "over time")
        env.check_eq(ls(c[1]), ls(src), "history of Q or its rate")
    env.observe("t", prob.times)


def box(env, ax, pts, scale, dim3, aspect=True):
    """axis limits: same length on every axis, centred on the data, the largest extent times the scale"""
    lo = [min_(env, p) for p in pts]
    hi = [max_(env, p) for p in pts]
    half = max_(env, [(h - l) / 2 for l, h in zip(lo, hi)])
    for i, nm in enumerate(("set_xlim", "set_ylim", "set_zlim")):
        c = ax.of(nm)
        if i == 2 and not dim3:
            env.check(not c, "no z-limits for a plane plot")
            continue
        env.check(len(c) == 1, "limits are set")
        a = c[0][0]
        a = a if len(a) == 2 else a[0]
        mid = (lo[i] + hi[i]) / 2
        env.check_eq([a[0], a[1]], [mid - half * scale, mid + half * scale], "axis limits")
    if dim3:
        b = ax.of("set_box_aspect")
        env.check(len(b) == 1, "box aspect is set")
        v = ls(b[0][0][0])
        env.check_eq([v[0] - v[1], v[1] - v[2]], [0.0, 0.0], "equal box aspect")


def min_(env, xs):
    r = xs[0]
    for x in xs[1:]:
        r = env.ite(x < r, x, r)
    return r


def max_(env, xs):
    r = xs[0]
    for x in xs[1:]:
        r = env.ite(r < x, x, r)
    return r


def limits(dim3, lens=(2, 2, 2)):
    def harness(env, ctx):
        pts = [[env.real(f"{c}.{i}", -100, 100, near=[3.0, -1.0, 4.5][i] + j) for i in range(n)] for j, (c, n) in enumerate(zip("xyz", lens))]
        ax = Axis()
        given = env.bool("scale?")
        s = env.real("scale", 0.1, 10, near=1.5)
        fn = ctx.sub("_plot_helper").set_equal_axis
        if env.is_true(given):
            fn(ax, *pts, scale=s, dim3=dim3)
        else:
            s = 1.0
            fn(ax, *pts, dim3=dim3)
        box(env, ax, pts, s, dim3)
        env.observe("x", ls(ax.of("set_xlim")[0][0]))
    return harness


def surface(kind, centre, n=5):
    def harness(env, ctx):
        P = ctx.sub("_plot_helper")
        r = [env.real(f"r.{i}", 0.0625, 100, near=0.5 + i) for i in range(3)]
        c = [env.real(f"c.{i}", -100, 100, near=0.25 + i) for i in range(3)] if centre else [0.0, 0.0, 0.0]
        if kind == "sphere":
            r = [r[0]] * 3
            X = P.get_sphere_coordinates(r[0], c) if centre else P.get_sphere_coordinates(r[0])
            ax = Axis()
            P.plot_sphere_wireframe(ax, r[0], c if centre else None)
        else:
            X = P.get_ellipsoid_coordinates(*r, center=c if centre else None, n=n)
            ax = Axis()
            P.plot_ellipsoid_wireframe(ax, *r, center=c if centre else None, n=n)
        w = ax.of("plot_wireframe")
        env.check(len(w) == 1, "wireframe is drawn")
        X = [numpy.asarray(x, dtype=object) for x in X]
        env.check(X[0].shape == X[1].shape == X[2].shape and X[0].ndim == 2, "one grid")
        if kind != "sphere":
            env.check(X[0].shape == (n, n), "requested number of points")
        nu, nv = X[0].shape
        for k in range(3):
            env.check_eq(ls(numpy.asarray(w[0][0][k], dtype=object).reshape(-1)), ls(X[k].reshape(-1)), "wireframe of the coordinates")
        d = lambda i, j: [(X[k][i, j] - c[k]) / r[k] for k in range(3)]
        for i in range(nu):
            for j in range(nv):
                q = d(i, j)
                env.check_eq(q[0] * q[0] + q[1] * q[1] + q[2] * q[2], 1.0, "points lie on the surface")
        for i in range(nu):
            env.check_eq([abs(d(i, 0)[2]), abs(d(i, nv - 1)[2])], [1.0, 1.0], "the grid reaches both poles")
            env.check_eq(d(i, 0)[2] + d(i, nv - 1)[2], 0.0, "which are opposite")
        for j in range(nv):
            env.check_eq(d(0, j), d(nu - 1, j), "the grid closes around the axis")
        env.observe("x", [X[k][1, 1] for k in range(3)])
    return harness


def trajectory(elements, dim3, interpolate, sphere=True, n=1):
    def harness(env, ctx):
        run, prob, mu, oe0, oeT = solved(env, ctx, elements, n)
        kw = dict(interpolate=interpolate, steps=3)
        if dim3:
            rad, sc = env.real("rad", 0.0625, 10, near=0.5), env.real("scale", 0.1, 10, near=1.5)
            fig, ax = prob.plot_trajectory_3d(plot_sphere=sphere, sphere_radius=rad, scale=sc, **kw)
            env.check(ax is ctx.fig.panels[0] and any(k.get("projection") == "3d" for a, k in ctx.fig.of("add_subplot")), "three-dimensional axis")
        else:
            fig, ax = prob.plot_trajectory_2d(**kw)
        D = 3 if dim3 else 2
        cart = prob.get_cartesian_history(interpolate, 3)
        row = lambda M, i: [M[i, j] for j in range(M.shape[1])]
        el = ctx.sub("_elements")
        o0 = el.get_orbit_coordinates(K.arr(ctx, kep_of(ctx, elements, oe0)), mu)
        oT = el.get_orbit_coordinates(K.arr(ctx, kep_of(ctx, elements, ls(oeT) + [0.0])), mu)
        for nm, M in (("transfer", cart), ("Initial", o0), ("Final", oT)):
            c = ax.curve(nm)
            env.check(c is not None and len(c) == D, "curve is drawn")
            for i in range(D):
                env.check_eq(ls(c[i]), row(M, i), f"{nm} curve")
        sc_ = [a for a, k in ax.of("scatter")]
        env.check(len(sc_) == 2, "end points are marked")
        for a, j in zip(sc_, (0, cart.shape[1] - 1)):
            env.check_eq(ls(a[:D]), [cart[i, j] for i in range(D)], "end point")
        if dim3:
            w = ax.of("plot_wireframe")
            env.check(len(w) == (1 if sphere else 0), "central body drawn when requested")
            if sphere:
                X = ctx.sub("_plot_helper").get_sphere_coordinates(rad)
                for k in range(3):
                    env.check_eq(ls(numpy.asarray(w[0][0][k], dtype=object).reshape(-1)), ls(numpy.asarray(X[k], dtype=object).reshape(-1)), "central body of the given radius")
                box(env, ax, [row(cart, i) for i in range(3)], sc, True)
        env.observe("cart", [cart.shape[0], cart.shape[1]])
    return harness


CASES = []
for el in ("keplerian", "mee_with_a"):
    CASES.append(Case(f"history-{el}", history(el, False), setup, algebra=True, bounds="2 steps"))
    CASES.append(Case(f"history-real-{el}", history(el, False, n=1), setup_real, algebra=True, tier="quick" if el == "keplerian" else "thorough", bounds="1 step"))
    CASES.append(Case(f"interpolated-{el}", history(el, True), setup, algebra=True, bounds="2 steps, 3 evaluations"))
    CASES.append(Case(f"interpolated-default-{el}", history(el, True, 0.02), setup, algebra=True, bounds="2 steps, 4 evaluations"))
    for conv, mass, peri in ((False, True, False), (False, False, True), (True, True, True), (True, False, False)):
        CASES.append(Case(f"elements-{el}{'-kep' if conv else ''}{'-mass' if mass else '-anomaly'}{'-peri' if peri else ''}", elements_history(el, conv, mass, peri), setup, algebra=True, bounds="1 step"))
    CASES.append(Case(f"controls-{el}", controls(el, True), setup, algebra=True, bounds="2 steps"))
    CASES.append(Case(f"controls-{el}-free", controls(el, False, 1), setup, algebra=True, bounds="1 step, any direction"))
    CASES.append(Case(f"traj2d-{el}", trajectory(el, False, False), setup, bounds="1 step"))
    CASES.append(Case(f"traj2d-{el}-interp", trajectory(el, False, True), setup, bounds="1 step, 3 evaluations"))
    CASES.append(Case(f"traj3d-{el}", trajectory(el, True, False), setup, bounds="1 step"))
    CASES.append(Case(f"traj3d-{el}-nosphere", trajectory(el, True, True, False), setup, bounds="1 step, 3 evaluations"))
CASES += [Case("orbit-3", orbit(3), algebra=True), Case("orbit-6", orbit(6), algebra=True, bounds="6 points")]
CASES += [Case("battery", battery, setup, bounds="2 steps"), Case("efficiency", efficiency, setup, bounds="1 step"), Case("Q", plot_q, setup, bounds="2 steps")]
CASES += [Case(f"limits-{'3d' if d else '2d'}-{max(l)}", limits(d, l), setup, bounds=f"{l} points") for d in (True, False) for l in ((2, 2, 2), (3, 2, 3))]
for c in (True, False):
    CASES.append(Case(f"sphere{'-centre' if c else ''}", surface("sphere", c), setup, algebra=True))
    CASES.append(Case(f"ellipsoid{'-centre' if c else ''}", surface("ellipsoid", c), setup, algebra=True, bounds="5 x 5 points"))
