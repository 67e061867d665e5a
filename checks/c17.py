"""C17: the recorded histories describe the propagation that was performed."""
from vsym.case import Case
from . import _solve as S
ASSUMPTIONS = ["real arithmetic", "the Q-law evaluation and the one-step integrator return arbitrary values"]


class Ptrb:
    def __init__(self, run):
        self.run, self.calls = run, []

    def get_perturbations_RTN(self, t, oe, elements_type):
        v = self.run.vec("ptrb", 3, near=0.03125)
        self.calls.append((t, S.snap(oe), elements_type, S.snap(v)))
        return v


def mk(elements, integrator, sign, K, u="sym", nan=False, ptrb=False, eta=False, duty=False, battery=None, sundman=False):
    def harness(env, ctx):
        run = S.Run(env, ctx, K=K, u=u, nan=nan, qsym=True)
        dt = env.real("t_step", 0.125, 2, near=0.5) * sign
        mdot = env.real("mdot", 0, 0.0625, near=0.03125)
        tmax = env.real("tmax", 0, 1, near=0.25)
        kw, ctor = {}, {}
        if ptrb:
            ctor["perturbations"] = pt = Ptrb(run)
        if duty:
            kw["duty_cycle"] = (env.real("on", 0, 2, near=0.25), env.real("off", 0, 2, near=0.25))
        if battery == "empty":
            kw.update(battery_initial=0.25, battery_capacity=(0.25, 1.0), battery_charge_discharge_rate=(0.5, 0.5))
        elif battery == "sym":
            b0 = env.real("b0", 0.25, 1.0, near=0.5)
            kw.update(battery_initial=b0, battery_capacity=(0.25, 1.0), battery_charge_discharge_rate=(0.5, 0.5))
        else:
            kw.update(battery_charge_discharge_rate=(0.0, 0.0))
        oe0 = S.oe_start(run)
        keep = S.snap(oe0)
        prob = S.build(run, elements, oe0=oe0, tf_max=abs(dt) * (K - 0.5), t_step=dt, tmax=tmax, mdot=mdot, mass0=2.0,
                       woe=[1.0, 1.0, 1.0, 0.0, 0.0], mass_min=0.01,
                       ctor={"integrator": integrator, "exit_at_relaxed": 1000, "oe_min": [-1e6] * 6, "oe_max": [1e6] * 6, **ctor}, **kw)

        def common(trunc=False):
            st, n = run.log.steps, len(run.log.steps)
            env.check(n > 0, "at least one step is taken")
            for nm in ("times", "states", "masses", "battery"):
                env.check(len(getattr(prob, nm)) == n + 1, f"{nm}: initial value and one entry per step")
            for nm in ("controls", "etas", "etas_bounds", "Qs", "dQdts"):
                env.check(len(getattr(prob, nm)) == n, f"{nm}: one entry per step")
            env.check(len(run.log.ctrl) >= n, "the control law is evaluated for every step")
            env.check_eq([x for x in prob.states[0]], keep, "history starts at the initial elements")
            env.check_eq(prob.masses[0], 2.0, "history starts at the initial mass")
            for i, s in enumerate(st):
                c = run.log.ctrl[s["nctrl"] - 1]
                env.check_eq(c["oe"], s["yv"], "control law is evaluated at the state being propagated")
                env.check_eq([x for x in prob.states[i]], s["yv"], "recorded state is where the step starts")
                env.check_eq([x for x in prob.states[i + 1]], s["nextv"], "recorded state is where the step ends")
                env.check_eq(s["t"], prob.times[i], "recorded time is where the step starts")
                env.check_eq(s["h"], prob.times[i + 1] - prob.times[i], "recorded times span the step")
                a = tmax / prob.masses[i] * sign
                env.check_eq(c["f"], a, "control law is given the current signed acceleration")
                al, be, th = prob.controls[i]
                env.check(th in (0, 1), "throttle is on or off")
                thr = [a * x for x in S.unit(run, al, be)] if th == 1 else [0.0, 0.0, 0.0]
                pv = [0.0] * 3
                if ptrb:
                    t, oe, ty, pv = pt.calls[i]
                    env.check_eq(t, prob.times[i], "perturbation is evaluated at the current time")
                    env.check_eq(oe, s["yv"], "perturbation is evaluated at the current elements")
                    env.check(ty == elements, "perturbation is told the element type")
                env.check_eq(s["acc"], [x + y for x, y in zip(thr, pv)], "acceleration applied is the recorded control plus the perturbation")
                env.check_eq(prob.masses[i + 1], prob.masses[i] - (mdot * s["h"] if th == 1 else 0.0), "recorded mass reflects the throttle")
                env.check_eq(prob.Qs[i], c["q"], "recorded Q is that of the step's start")
                if th == 1:
                    env.reach("thrust")
                    env.check(env.not_(c["nan"]), "never thrusts along an undefined direction")
                if u == "fixed" and not nan:
                    env.check_eq(prob.dQdts[i], c["m"] * a, "recorded dQ/dt is that of the step's control")
                else:
                    env.check(th == 0 or not nan or env.not_(env.isnan(al)), "angles of a thrusting step are numbers")
            if ptrb:
                env.check(len(pt.calls) == n, "perturbation is evaluated once per step")
        run.on_trunc = common
        prob.solve(eta_a=0.5) if eta else prob.solve()
        common()
        env.observe("masses", prob.masses)
        env.observe("throttle", S.throttles(prob))
    return harness


CASES = []
for el in ("keplerian", "mee_with_a"):
    for integ in ("rk4", "rkf45"):
        for sg in (1, -1):
            CASES.append(Case(f"{el}-{integ}-{'fwd' if sg > 0 else 'bwd'}", mk(el, integ, sg, 2), S.setup,
                              bounds="<= 2 steps, arbitrary control direction", expect=["thrust"]))
            CASES.append(Case(f"{el}-{integ}-{'fwd' if sg > 0 else 'bwd'}-ptrb", mk(el, integ, sg, 2, u="fixed", ptrb=True), S.setup,
                              bounds="<= 2 steps, arbitrary perturbation", expect=["thrust"]))
    CASES.append(Case(f"{el}-nan", mk(el, "rk4", 1, 3, u="fixed", nan=True), S.setup, bounds="<= 3 steps", expect=["thrust"]))
    CASES.append(Case(f"{el}-eta", mk(el, "rk4", 1, 2, u="fixed", eta=True), S.setup, bounds="<= 2 steps"))
    CASES.append(Case(f"{el}-duty", mk(el, "rk4", 1, 3, u="fixed", duty=True), S.setup, bounds="<= 3 steps", expect=["thrust"]))
    CASES.append(Case(f"{el}-empty", mk(el, "rk4", 1, 3, u="fixed", battery="empty"), S.setup, bounds="<= 3 steps"))
    CASES.append(Case(f"{el}-battery", mk(el, "rkf45", 1, 2, u="fixed", battery="sym"), S.setup, bounds="<= 2 steps", expect=["thrust"]))
CASES.append(Case("deep", mk("mee_with_a", "rk4", 1, 6, u="fixed", ptrb=True), S.setup, tier="thorough", bounds="<= 6 steps"))
CASES.append(Case("deep-nan", mk("mee_with_a", "rk4", 1, 5, u="fixed", nan=True, duty=True), S.setup, tier="thorough", bounds="<= 5 steps"))
