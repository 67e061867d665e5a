"""C16: effectivity-based coasting."""
import math
from vsym.case import Case
from . import _solve as S
ASSUMPTIONS = ["real arithmetic", "dQ/dt values along the orbit are not all equal (relative effectivity undefined otherwise)"]


def mk(elements, sign, N, kind_a, kind_r, K=1, fuel=True):
    def harness(env, ctx):
        run = S.Run(env, ctx, K=K, u="fixed", qsym=True)
        dt = env.real("t_step", 0.25, 2, near=0.5) * sign
        tmax = 0.25
        # the rate of decrease achievable at an anomaly: positive, signed like the thrust

        def dq(env, f, v):
            env.assume(env.and_(v >= 0.015625, v <= 64.0))
            return f * v
        run.dq = dq
        calls = []

        def thr(name, kind):
            v = env.real(name, -1, 2, near=0.5)
            if kind == "zero":
                return 0.0, lambda i: 0.0
            if kind == "float":
                return v, lambda i: v

            def f(t, oe, mass, battery):
                w = env.real(f"{name}.{len(calls)}", -1, 2, near=0.5)
                calls.append((name, t, oe, mass, battery, w))
                return w
            return f, lambda i: [c[5] for c in calls if c[0] == name][i]
        ea, ref_a = thr("eta_a", kind_a)
        er, ref_r = thr("eta_r", kind_r)
        mdot = env.real("mdot", 0, 0.125, near=0.0625) if fuel else 0.0
        b0 = 1.0
        prob = S.build(run, elements, tf_max=abs(dt) * (K - 0.5), t_step=dt, tmax=tmax, mdot=mdot, mass0=2.0,
                       woe=[1.0, 0.0, 0.0, 0.0, 0.0], battery_initial=b0, battery_capacity=(0.25, 2.0), battery_charge_discharge_rate=(0.0, 0.0),
                       ctor={"anomaly_grid_size": N, "tol_oe": [0.0] * 5, "exit_at_relaxed": 1000})

        def common():
            th = S.throttles(prob)
            used = 0
            for i, s in enumerate(run.log.steps):
                c = run.log.ctrl[i]
                a = tmax / prob.masses[i] * sign
                cur = c["m"] * a            # dQ/dt here: along the Lyapunov direction
                va, vr = ref_a(i), ref_r(i)
                env.check_eq(prob.dQdts[i], cur, "recorded dQ/dt is that of the step's control")
                env.check_eq(prob.etas_bounds[i], [va, vr], "thresholds in force are recorded")
                if env.is_true(env.or_(va > 0, vr > 0)):
                    g = run.log.dqdt[used:used + N]
                    used += N
                    env.check(len(g) == N, "dQ/dt sampled on the anomaly grid")
                    if len(g) != N:
                        return
                    ks = []
                    for e in g:
                        env.check_eq(e["oe"][:5], prob.states[i][:5] if elements == S.MEE else s["yv"][:5], "grid points share the slow elements")
                        env.check_eq(e["f"], a, "grid uses the current acceleration")
                        d = e["oe"][5] - prob.states[i][5]
                        k = round(ctx.num(d) * N / (2 * math.pi))
                        ks.append(k % N)
                        env.check_eq(d, run.np().pi * 2 * k / N, "grid is evenly spaced in anomaly")
                    env.check(sorted(ks) == list(range(N)), "grid covers one revolution")
                    vals = [abs(e["val"]) for e in g]
                    hi, lo = vals[0], vals[0]
                    for v in vals[1:]:
                        hi = env.ite(v > hi, v, hi)
                        lo = env.ite(v < lo, v, lo)
                    env.assume(hi > lo)
                    # cross-multiplied: eta_a = |cur|/hi, eta_r = | |cur| - lo | / (hi - lo)
                    cm = c["m"] * (tmax / prob.masses[i])
                    ra, rr = prob.etas[i]
                    env.check_eq(ra * hi, cm, "absolute effectivity is |dQ/dt| over the best on the orbit")
                    env.check_eq(rr * (hi - lo), abs(cm - lo), "relative effectivity is measured between worst and best on the orbit")
                    coast = env.or_(cm < va * hi, abs(cm - lo) < vr * (hi - lo))
                    env.check(env.implies(coast, th[i] == 0), "coasts when an effectivity is below its threshold")
                    env.check(env.implies(env.not_(coast), th[i] == 1), "thrusts when no effectivity is below its threshold")
                    env.reach("thresholds")
                else:
                    env.check(th[i] == 1, "thrusts when no threshold is set")
                want = [a * x for x in S.unit(run, prob.controls[i][0], prob.controls[i][1])] if th[i] == 1 else [0.0] * 3
                env.check_eq(s["acc"], want, "applied acceleration follows the decision")
                env.check_eq(prob.masses[i + 1], prob.masses[i] - (mdot * s["h"] if th[i] == 1 else 0.0), "no propellant is used when coasting")
                for name, t, oe, m, b, w in calls[:]:
                    pass
            for kind, name in ((kind_a, "eta_a"), (kind_r, "eta_r")):
                if kind == "call":
                    mine = [c for c in calls if c[0] == name]
                    env.check(len(mine) == len(run.log.steps), "callable threshold is evaluated once per step")
                    for i, (_, t, oe, m, b, w) in enumerate(mine):
                        env.check_eq(t, prob.times[i], "callable threshold gets the time")
                        env.check_eq([x for x in oe], run.log.ctrl[i]["oe"], "callable threshold gets the elements")
                        env.check_eq(m, prob.masses[i], "callable threshold gets the mass")
                        env.check_eq(b, prob.battery[i], "callable threshold gets the battery level")
        run.on_trunc = common
        prob.solve(eta_a=ea, eta_r=er)
        common()
        env.observe("throttle", S.throttles(prob))
        env.observe("etas", prob.etas)
    return harness


def bad_types(env, ctx):
    run = S.Run(env, ctx, K=2, u="fixed")
    which = env.choice("which", ["a", "r"])
    val = env.choice("val", ["int", "str", "list", "none"])
    v = {"int": 1, "str": "0.5", "list": [0.5], "none": None}[val]
    prob = S.build(run, S.MEE, oe0=S.oe_start(run, sym=False), tf_max=0.25, t_step=0.5)
    try:
        prob.solve(**{"eta_a" if which == "a" else "eta_r": v})
        ok = len(run.log.dqdt) > 0 and val == "int"        # an int honoured as a number would be fine too
    except (ValueError, TypeError):
        ok = True
    env.check(ok, "a threshold that is neither a number nor callable is rejected, not ignored")
    env.observe("ok", ok)


CASES = [Case("types", bad_types, S.setup, bounds="all listed types")]
for el in ("keplerian", "mee_with_a"):
    for sg in (1, -1):
        for N, a, r in ((3, "float", "float"), (2, "call", "call"), (2, "zero", "float"), (2, "float", "zero")):
            CASES.append(Case(f"{el}-{'fwd' if sg > 0 else 'bwd'}-N{N}-{a}-{r}", mk(el, sg, N, a, r), S.setup,
                              bounds=f"1 step, anomaly grid {N}", expect=["thresholds"]))
for N in (1, 4, 5):
    CASES.append(Case(f"mee-grid-{N}", mk("mee_with_a", 1, N, "float", "float", fuel=False), S.setup, bounds=f"1 step, grid {N}",
                      tier="quick" if N == 5 else "thorough", validate=N > 1))
CASES.append(Case("two-steps", mk("mee_with_a", 1, 2, "float", "float", K=2), S.setup, bounds="2 steps, grid 2"))
