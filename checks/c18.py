"""C18: undefined (NaN) control directions."""
from vsym.case import Case
from . import _solve as S
ASSUMPTIONS = ["real arithmetic with NaN propagation", "the control direction at each step is arbitrary or undefined"]


def mk(elements, T, K, default=False, duty=False, eta=False, sign=1):
    def harness(env, ctx):
        run = S.Run(env, ctx, K=K, u="fixed", nan=True, qsym=False)
        dt = env.real("t_step", 0.125, 2, near=0.5) * sign
        mdot = env.real("mdot", 0, 0.0625, near=0.03125)
        ctor = {} if default else {"nan_angles_threshold": T}
        kw = {}
        if duty:
            kw["duty_cycle"] = (env.real("on", 0, 2, near=0.25), env.real("off", 0, 2, near=0.25))
        prob = S.build(run, elements, tf_max=abs(dt) * (K - 0.5), t_step=dt, tmax=0.25, mdot=mdot, mass0=2.0,
                       woe=[1.0, 0.0, 0.0, 0.0, 0.0], mass_min=0.01,
                       ctor={"exit_at_relaxed": 1000, "tol_oe": [0.0] * 5, "oe_min": [-1e6] * 6, "oe_max": [1e6] * 6, **ctor}, **kw)

        def common(trunc=False):
            st = run.log.steps
            seen = 0
            for i, s in enumerate(st):
                c = run.log.ctrl[i]
                al, be, th = prob.controls[i]
                env.check(env.not_(env.or_(*[env.isnan(x) for x in s["acc"]])), "no undefined acceleration is ever applied")
                env.check(env.not_(env.or_(env.isnan(al), env.isnan(be))), "recorded angles are numbers")
                if env.is_true(c["nan"]):
                    env.reach("nan")
                    if not duty:
                        seen += 1
                    env.check(th == 0, "coasts when the direction is undefined")
                    env.check_eq(s["acc"], [0.0] * 3, "no thrust when the direction is undefined")
                    env.check_eq(prob.masses[i + 1], prob.masses[i], "no propellant when the direction is undefined")
                elif not duty and not eta:
                    env.check(th == 1, "thrust resumes when the direction is defined again")
                if not duty:
                    env.check(seen <= T, "the run stops once undefined directions exceed the threshold")
            ex = prob.exitcode
            extra = len(run.log.ctrl) - len(st)
            if not trunc:
                if ex == -3:
                    env.reach("exit -3")
                    env.check(extra == 1, "stops at the step that exceeded the threshold")
                    env.check(run.log.ctrl[-1]["nan"], "stops only because the direction is undefined")
                    if not duty:
                        env.check(seen == T, "tolerates as many undefined directions as allowed")
                    env.check(env.not_(prob.converge), "not reported as converged")
                elif not duty:
                    env.check(extra == 0, "every evaluation belongs to a step")
                    env.check(ex in (1, 2, -1, -2), "some other outcome is reported")
        run.on_trunc = lambda: common(True)
        prob.solve(eta_a=0.25) if eta else prob.solve()
        common()
        env.observe("exit", prob.exitcode)
        env.observe("throttle", S.throttles(prob))
        env.observe("masses", prob.masses)
    return harness


CASES = []
for el in ("keplerian", "mee_with_a"):
    for T in (0, 1, 2):
        CASES.append(Case(f"{el}-{T}", mk(el, T, 4), S.setup, bounds=f"threshold {T}, <= 4 steps", expect=["nan", "exit -3"] if T else ["exit -3"]))
    CASES.append(Case(f"{el}-bwd", mk(el, 1, 3, sign=-1), S.setup, bounds="threshold 1, <= 3 steps", expect=["nan", "exit -3"]))
    CASES.append(Case(f"{el}-duty", mk(el, 1, 3, duty=True), S.setup, bounds="threshold 1, <= 3 steps, duty cycle", expect=["nan"]))
    CASES.append(Case(f"{el}-eta", mk(el, 1, 2, eta=True), S.setup, bounds="threshold 1, <= 2 steps, effectivity threshold", expect=["nan"]))
CASES.append(Case("deep", mk("mee_with_a", 3, 7), S.setup, tier="thorough", bounds="threshold 3, <= 7 steps", max_paths=20000))
