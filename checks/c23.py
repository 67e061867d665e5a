"""C23: invalid settings are rejected, valid ones are stored and take effect."""
from vsym.case import Case
from . import _solve as S
ASSUMPTIONS = ["real arithmetic", "strings and sequence lengths are the listed ones"]
REJECT = (AssertionError, ValueError)
CTOR = dict(mu=1.0, rpmin=0.1, k_petro=1.0, m_petro=3.0, n_petro=4.0, r_petro=2.0, b_petro=0.01, wp=1.0, elements_type="mee_with_a", integrator="rk4",
            verbosity=1, anomaly_grid_size=5, nan_angles_threshold=10, print_frequency=200, use_sundman=False, perturbations=None, exit_at_relaxed=100)
PROBLEM = dict(tf_max=100000.0, t_step=0.1, mass_min=0.1, duty_cycle=(1e16, 0.0), battery_initial=1.0, battery_capacity=(0.2, 1.0),
               battery_charge_discharge_rate=(0.0, 0.0), require_full_recharge=False)
BAD_TYPES = ["mee", "Keplerian", "MEE_with_a", "", "kep", "keplerian ", "mee_with_p", "cartesian", None, 0]
BAD_INTEGRATORS = ["rk5", "RK4", "", "rkf", "rkf78", "euler", "rk45", None, 4]


def accepted(fn):
    try:
        return True, fn()
    except REJECT:
        return False, None


def same(env, got, want, label):
    if want is None or isinstance(want, (str, bool)):
        env.check(got is want or got == want, label)
    elif hasattr(want, "__len__"):
        env.check(len(got) == len(want), label + " (length)")
        env.check_eq([x for x in got], [x for x in want], label)
    else:
        env.check_eq(got, want, label)


def defaults(elements):
    def harness(env, ctx):
        p = ctx.lib.QLaw() if elements is None else ctx.lib.QLaw(elements_type=elements)
        for k, v in dict(CTOR, elements_type=elements or "mee_with_a").items():
            same(env, getattr(p, k), v, f"default {k}")
        same(env, p.tol_oe, [1e-3] * 5, "default tolerances")
        env.check_eq([x for x in p.tol_oe_relaxed], [10 * x for x in p.tol_oe], "default relaxed tolerances")
        env.check(p.converge is False and p.exitcode == 0, "not attempted yet")
        env.check(p.element_names[:5] == (["a", "e", "i", "raan", "omega"] if elements == "keplerian" else ["a", "f", "g", "h", "k"]), "element names")
        run = S.Run(env, ctx)
        oe0, oeT = S.oe_start(run), S.target(run, True)
        m0, tm, md = (env.real(n, near=v) for n, v in (("m0", 1.0), ("tmax", 0.25), ("mdot", 0.125)))
        p.set_problem(oe0, oeT, m0, tm, md)
        for k, v in PROBLEM.items():
            same(env, getattr(p, k), v, f"default {k}")
        same(env, p.woe, [1.0] * 5, "default weights")
        for k, v in dict(oe0=oe0, oeT=oeT, mass0=m0, tmax=tm, mdot=md).items():
            same(env, getattr(p, k), v, f"{k} is stored")
    return harness


def stored(elements, integrator):
    """every valid value is stored under its own name"""
    def harness(env, ctx):
        vals = dict(mu=env.real("mu", 0, None, lo_open=True, near=1.5), relaxed_tol_factor=env.real("relax", 1, None, near=3.0),
                    elements_type=elements, integrator=integrator)
        for i, k in enumerate(("rpmin", "k_petro", "m_petro", "n_petro", "r_petro", "b_petro", "wp", "anomaly_grid_size", "nan_angles_threshold", "print_frequency", "exit_at_relaxed")):
            vals[k] = env.real(k, near=0.25 * (i + 1))
        env.assume(vals["mu"] > 0)
        tol = [env.real(f"tol.{i}", 0, None, near=0.125 * (i + 1)) for i in range(5)]
        lo = [env.real(f"lo.{i}", near=0.125 * i) for i in range(6)]
        hi = [env.real(f"hi.{i}", near=0.125 * i + 3) for i in range(6)]
        pt = object()
        p = ctx.lib.QLaw(tol_oe=tol, oe_min=lo, oe_max=hi, use_sundman=True, perturbations=pt, verbosity=0, **vals)
        relax = vals.pop("relaxed_tol_factor")
        for k, v in vals.items():
            same(env, getattr(p, k), v, f"{k} is stored")
        same(env, p.tol_oe, tol, "tolerances are stored")
        env.check_eq([x for x in p.tol_oe_relaxed], [relax * x for x in tol], "relaxed tolerances are the tolerances times the factor")
        same(env, p.oe_min, lo, "lower bounds are stored")
        same(env, p.oe_max, hi, "upper bounds are stored")
        env.check(p.use_sundman is True and p.perturbations is pt and p.verbosity == 0, "options are stored")
        env.check(p.converge is False and p.exitcode == 0, "not attempted yet")
        run = S.Run(env, ctx)
        oe0 = S.oe_start(run)
        six = env.bool("six")
        oeT = [env.real(f"oeT.{i}", near=2.0 + i) for i in range(6)]
        oeT = oeT if env.is_true(six) else oeT[:5]
        woe = [env.real(f"w.{i}", near=0.5 + i) for i in range(5)]
        pv = {k: env.real(k, near=0.5 + i) for i, k in enumerate(("mass0", "tmax", "mdot", "tf_max", "t_step"))}
        pv["mass_min"] = env.real("mass_min", 0.01, None, near=0.25)
        env.assume(pv["mass_min"] >= 0.01)
        pair = lambda n: (env.real(n + ".0", near=0.25), env.real(n + ".1", near=0.75))
        pv.update(duty_cycle=pair("duty"), battery_initial=env.real("b0", near=0.5), battery_capacity=pair("cap"), battery_charge_discharge_rate=pair("rate"), require_full_recharge=True)
        p.set_problem(oe0, run.arr(oeT), woe=woe, **pv)
        for k, v in pv.items():
            same(env, getattr(p, k), v, f"{k} is stored")
        same(env, p.oe0, oe0, "initial elements are stored")
        same(env, p.oeT, oeT[:5], "target elements are stored (first five)")
        same(env, p.woe, woe, "weights are stored")
        for k, v in vals.items():
            same(env, getattr(p, k), v, f"{k} is still stored")
        # a second problem replaces the first entirely
        p.set_problem(oe0, run.arr(oeT[:5]), 1.0, 2.0, 3.0)
        for k, v in dict(PROBLEM, mass0=1.0, tmax=2.0, mdot=3.0).items():
            same(env, getattr(p, k), v, f"{k} of the second problem")
        same(env, p.woe, [1.0] * 5, "weights of the second problem")
    return harness


def limits(env, ctx):
    """numeric settings: rejected exactly outside their range"""
    lib = ctx.lib
    mu = env.real("mu", nan=True, near=0.5)
    ok, p = accepted(lambda: lib.QLaw(mu=mu))
    env.check(env.or_(env.not_(ok), mu > 0), "a gravitational parameter that is not positive is rejected")
    env.check(env.or_(ok, env.not_(mu > 0)), "a positive gravitational parameter is accepted")
    f = env.real("relax", nan=True, near=2.0)
    ok, p = accepted(lambda: lib.QLaw(relaxed_tol_factor=f))
    env.check(env.or_(env.not_(ok), f >= 1), "a relaxation factor below one is rejected")
    env.check(env.or_(ok, env.not_(f >= 1)), "a relaxation factor of at least one is accepted")
    if p is not None:
        env.check_eq([x for x in p.tol_oe_relaxed], [f * 0.001] * 5, "relaxation factor takes effect")


def changes(env, ctx):
    """changing a setting of an existing object"""
    p = ctx.lib.QLaw(mu=2.5, elements_type="keplerian", integrator="rkf45")
    mu = env.real("mu", nan=True, near=0.5)
    ok, _ = accepted(lambda: setattr(p, "mu", mu))
    env.check(env.or_(env.not_(ok), mu > 0), "an invalid gravitational parameter is rejected")
    env.check(env.or_(ok, env.not_(mu > 0)), "a valid gravitational parameter is accepted")
    env.check_eq(p.mu, mu if ok else 2.5, "the value in effect is the last valid one")
    for s in BAD_TYPES:
        env.check(not accepted(lambda: setattr(p, "elements_type", s))[0], f"element type {s!r} is rejected")
        env.check(p.elements_type == "keplerian", "element type is unchanged")
        env.check(not accepted(lambda: ctx.lib.QLaw(elements_type=s))[0], f"element type {s!r} is rejected by the constructor")
    for s in BAD_INTEGRATORS:
        env.check(not accepted(lambda: setattr(p, "integrator", s))[0], f"integrator {s!r} is rejected")
        env.check(p.integrator == "rkf45", "integrator is unchanged")
        env.check(not accepted(lambda: ctx.lib.QLaw(integrator=s))[0], f"integrator {s!r} is rejected by the constructor")
    p.integrator = "rk4"
    env.check(p.integrator == "rk4", "a valid integrator is accepted")


def problem(env, ctx):
    """invalid problems are rejected and leave the previous problem in place"""
    run = S.Run(env, ctx)
    p = ctx.lib.QLaw(verbosity=0)
    env.check(not accepted(lambda: p.solve())[0], "solving before a problem is set fails")
    val = lambda n, tag: run.arr([env.real(f"{tag}{i}", near=0.5 + 0.125 * i) for i in range(n)])
    good = lambda: p.set_problem(first, target, 1.0, 0.5, 0.25, woe=weights)
    first, target, weights = val(6, "a"), val(5, "b"), val(5, "c")

    def in_place(label):
        same(env, p.oe0, first, label)
        same(env, p.oeT, target, label)
        same(env, p.woe, weights, label)
        same(env, [p.mass0, p.tmax, p.mdot, p.mass_min], [1.0, 0.5, 0.25, 0.1], label)
    for n in (0, 3, 4, 5, 7, 8):
        env.check(not accepted(lambda: p.set_problem(val(n, "x"), target, 3.0, 3.0, 3.0))[0], f"{n} initial elements are rejected")
        env.check(not accepted(lambda: p.solve())[0], "solving after a rejected problem fails")
    good()
    in_place("problem is stored")
    for n in (0, 3, 4, 5, 7, 8):
        env.check(not accepted(lambda: p.set_problem(val(n, "x"), val(5, "y"), 3.0, 3.0, 3.0))[0], f"{n} initial elements are rejected")
        in_place("rejected problem leaves the previous one")
    for n in (0, 1, 3, 4, 6, 7):
        env.check(not accepted(lambda: p.set_problem(val(6, "x"), val(5, "y"), 3.0, 3.0, 3.0, woe=val(n, "z")))[0], f"{n} weights are rejected")
        in_place("rejected problem leaves the previous one")
        env.check(not accepted(lambda: ctx.lib.QLaw(tol_oe=val(n, "t")))[0], f"{n} tolerances are rejected")
    m = env.real("mass_min", nan=True, near=0.5)
    new = val(6, "x")
    ok, _ = accepted(lambda: p.set_problem(new, target, 3.0, 4.0, 5.0, mass_min=m, woe=weights))
    env.check(env.or_(env.not_(ok), m >= 0.01), "too small a minimum mass is rejected")
    env.check(env.or_(ok, env.not_(m >= 0.01)), "a large enough minimum mass is accepted")
    if ok:
        same(env, p.oe0, new, "the new problem takes effect")
        same(env, [p.mass0, p.tmax, p.mdot, p.mass_min], [3.0, 4.0, 5.0, m], "the new problem takes effect")
        env.reach("new")
    else:
        in_place("rejected problem leaves the previous one")
        env.reach("kept")
    env.check(p.converge is False and p.exitcode == 0, "not attempted yet")


CASES = [Case("limits", limits, S.setup), Case("changes", changes, S.setup), Case("problem", problem, S.setup, expect=["new", "kept"], bounds="lengths 0 to 8")]
CASES += [Case(f"defaults-{el}", defaults(el), S.setup) for el in (None, "keplerian", "mee_with_a")]
CASES += [Case(f"stored-{el}-{i}", stored(el, i), S.setup) for el in ("keplerian", "mee_with_a") for i in ("rk4", "rkf45")]
