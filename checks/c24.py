"""C24: every parameter reaches the control law, equations of motion, effectivity evaluation and integrator."""
from vsym.case import Case
from . import _kep as K, _solve as S
ASSUMPTIONS = ["real arithmetic", "the Q-law evaluation and the one-step integrator return arbitrary values; states stay unconverged"]
RANGE = {"keplerian": ([0.25, 0.001, 0.01, -6, -6, -6.25], [50, 0.998, 3.125, 6, 6, 6.25]),
         "mee_with_a": ([0.25, -0.7, -0.7, -2, -2, -6.25], [50, 0.7, 0.7, 2, 2, 6.25])}


def rates(m, elements, mu, oe, psi, a):
    """element rates: influence of the acceleration on the five slow elements, Gauss for the anomaly"""
    slow = [sum(psi[i][j] * a[i] for i in range(3)) for j in range(5)]
    if elements == "keplerian":
        sma, e, _, _, _, nu = oe
        p = sma * (1 - e * e)
        h = m.sqrt(mu * p)
        r = p / (1 + e * m.cos(nu))
        return slow + [h / (r * r) + (p * m.cos(nu) * a[0] - (p + r) * m.sin(nu) * a[1]) / (e * h)]
    sma, f, g, h, k, L = oe
    p = sma * (1 - f * f - g * g)
    w = 1 + f * m.cos(L) + g * m.sin(L)
    return slow + [m.sqrt(mu * p) * (w / p) * (w / p) + m.sqrt(p / mu) / w * (h * m.sin(L) - k * m.cos(L)) * a[2]]


def setup(ctx):
    """the run goes on until its time is up: convergence is the subject of C09 and C13"""
    never = lambda *a, **k: False
    return S.setup(ctx, {"_convergence": {"check_convergence_keplerian": never, "check_convergence_mee": never}})


class Ptrb:
    def __init__(self, env, v):
        self.v = v

    def get_perturbations_RTN(self, t, oe, elements_type):
        return self.v


def mk(elements, integrator, sign, coast=None, ptrb=False, K_=2):
    """coast: None, 'duty', 'battery', 'eta', 'nan'"""
    def harness(env, ctx):
        m = K.m(ctx)
        run = S.Run(env, ctx, K=K_, u="fixed", nan=coast == "nan", dq=lambda env, f, v: 0.5 * sign / (1 + len(run.log.dqdt) % 2))
        run.oe_range = RANGE[elements]
        lo, hi = RANGE[elements]
        oe0 = run.arr([env.real(f"oe0.{i}", lo[i], hi[i], near=[1.5, 0.125, 0.25, 0.5, 0.375, 1.0][i]) for i in range(6)])
        par = {k: env.real(k, 0.0625, 64, near=0.3125 * (i + 1)) for i, k in enumerate(("mu", "rpmin", "m_petro", "n_petro", "r_petro", "b_petro", "k_petro", "wp"))}
        oeT = [env.real(f"oeT.{i}", 100, 200, near=128.0 + i) for i in range(5)]
        woe = [env.real(f"woe.{i}", 0.125, 8, near=0.5 + i) for i in range(5)]
        dt = env.real("t_step", 0.125, 2, near=0.5) * sign
        tmax, m0, mdot = env.real("tmax", 0.0625, 1, near=0.25), env.real("mass0", 1, 8, near=2.0), env.real("mdot", 0, 0.0625, near=0.03125)
        kw, ctor, eta = {}, {}, {}
        pv = [0.0, 0.0, 0.0]
        if ptrb:
            pv = [env.real(f"ptrb.{i}", -1, 1, near=0.0625 * (i + 1)) for i in range(3)]
            ctor["perturbations"] = Ptrb(env, run.arr(pv))
        if coast == "duty":
            kw["duty_cycle"] = (0.0, 1e6)
        if coast == "battery":
            kw.update(battery_initial=0.25, battery_capacity=(0.25, 1.0), battery_charge_discharge_rate=(0.0, 0.5))
        else:
            kw.update(battery_charge_discharge_rate=(0.0, 0.0))
        if coast == "eta":
            eta = dict(eta_a=env.real("eta_a", 0.0625, 4, near=0.5), eta_r=env.real("eta_r", 0.0625, 1, near=0.25))
            ctor["anomaly_grid_size"] = 2
        prob = S.build(run, elements, oe0=oe0, oeT=run.arr(oeT), mass0=m0, tf_max=abs(dt) * (K_ - 0.5), t_step=dt, tmax=tmax, mdot=mdot, woe=run.arr(woe),
                       mass_min=0.01, ctor={"integrator": integrator, "exit_at_relaxed": 1000, "oe_min": [-1e6] * 6, "oe_max": [1e6] * 6, "tol_oe": [1e-3] * 5, **par, **ctor}, **kw)
        if integrator == "rkf45":
            prob.ode_tol = env.real("ode_tol", 1e-9, 1, near=0.0078125)
        order = ("mu", "rpmin", "m_petro", "n_petro", "r_petro", "b_petro", "k_petro", "wp")

        def common():
            env.check(len(run.log.steps) > 0, "at least one step")
            for i, s in enumerate(run.log.steps):
                acc = tmax / prob.masses[i] * sign
                env.check(s["kind"] == integrator, "the chosen integrator takes the step")
                if integrator == "rkf45" and s["tol"] is not None:
                    env.check_eq(s["tol"], prob.ode_tol, "integrator tolerance")
                c = run.log.ctrl[s["nctrl"] - 1]
                al, be, th = prob.controls[i]
                if th == 1:
                    env.reach("thrust")
                else:
                    env.reach("coast")
                a = [acc * x + y for x, y in zip(S.unit(run, al, be), pv)] if th == 1 else pv
                env.check_eq(s["der"], rates(m, elements, par["mu"], s["yv"], c["psi"], a), "equations of motion of the element type with this gravitational parameter")
                env.check_eq(c["oe"], s["yv"], "control law sees the current elements")
            for c in run.log.ctrl:
                env.check_eq(list(c["params"]), [par[k] for k in order], "control law parameters")
                env.check_eq([x for x in c["oeT"]], oeT, "control law target")
                env.check_eq([x for x in c["woe"]], woe, "control law weights")
            if coast == "eta":
                env.check(len(run.log.dqdt) >= 2, "rates along the orbit are evaluated")
            for c in run.log.dqdt:
                env.check_eq(list(c["params"]), [par[k] for k in order], "rate parameters")
                env.check_eq([x for x in c["oeT"]], oeT, "rate target")
                env.check_eq([x for x in c["woe"]], woe, "rate weights")
        run.on_trunc = common
        prob.solve(**eta)
        common()
        env.check(ctx.elements_builder == ("kep" if elements == "keplerian" else "mee"), "control law of the element type")
        for k, v in par.items():
            env.check_eq(getattr(prob, k), v, f"{k} is not changed by solving")
        env.check_eq([x for x in prob.oeT], oeT, "target is not changed by solving")
        env.check_eq([prob.tmax, prob.mdot, prob.mass0, prob.t_step], [tmax, mdot, m0, dt], "vehicle and step are not changed by solving")
        env.observe("times", prob.times)
        env.observe("throttle", S.throttles(prob))
    return harness


CASES = []
for el in ("keplerian", "mee_with_a"):
    for i in ("rk4", "rkf45"):
        for sg in (1, -1):
            CASES.append(Case(f"{el}-{i}-{'fwd' if sg > 0 else 'bwd'}", mk(el, i, sg, ptrb=i == "rkf45"), setup, algebra=True, bounds="<= 2 steps", expect=["thrust"]))
        for c in ("duty", "battery", "nan", "eta"):
            CASES.append(Case(f"{el}-{i}-{c}", mk(el, i, 1, c, ptrb=i == "rk4", K_=1 if c == "eta" else 2), setup, algebra=True, bounds="1 step" if c == "eta" else "<= 2 steps", expect=["coast"]))
    CASES.append(Case(f"{el}-deep", mk(el, "rk4", 1, "nan", True, 4), setup, algebra=True, bounds="<= 4 steps", tier="thorough"))
