"""C11: mass budget, thrust acceleration and the minimum-mass exit."""
from vsym.case import Case
from . import _solve as S
ASSUMPTIONS = ["real arithmetic"]


def mk(elements, integrator, sign, K, nan):
    def harness(env, ctx):
        run = S.Run(env, ctx, K=K, u="fixed", nan=nan)
        dt = env.real("t_step", 0.001, 4, near=0.5) * sign
        mdot = env.real("mdot", 0, 4, near=0.125)
        m0 = env.real("mass0", 0.01, 1000, near=2.0)
        mmin = env.real("mass_min", 0.01, 1000, near=0.1)
        tmax = env.real("tmax", 0, 10, near=0.25)
        env.assume(m0 > mmin)
        prob = S.build(run, elements, oe0=S.oe_start(run, sym=False), tf_max=abs(dt) * (K - 0.5), t_step=dt, mass0=m0,
                       mdot=mdot, tmax=tmax, mass_min=mmin, woe=[1.0, 0.0, 0.0, 0.0, 0.0],
                       ctor={"integrator": integrator, "exit_at_relaxed": 1000, "nan_angles_threshold": 1000})

        def common():
            st, M = run.log.steps, prob.masses
            env.check(len(M) == len(st) + 1, "one recorded mass per step")
            env.check_eq(M[0], m0, "starts at the initial mass")
            for i, s in enumerate(st):
                al, be, th = prob.controls[i]
                env.check(th == 0 or th == 1, "throttle is 0 or 1")
                env.check_eq(M[i + 1], M[i] - (mdot * s["h"] if th == 1 else 0.0), "mass changes by mdot*dt exactly when thrusting")
                a = tmax / M[i] * sign
                want = [a * c for c in S.unit(run, al, be)] if th == 1 else [0.0, 0.0, 0.0]
                env.check_eq(s["acc"], want, "thrust acceleration is tmax/mass along the recorded angles, zero when coasting")
                env.check(mmin < M[i], "no step starts at or below the minimum mass")
                if nan:
                    env.check(env.is_true(run.log.ctrl[i]["nan"]) == (th == 0), "thrusts unless angles are nan")
                else:
                    env.check(th == 1, "thrusts when nothing forbids it")
        run.on_trunc = common
        prob.solve()
        common()
        env.observe("masses", prob.masses)
        env.observe("exit", prob.exitcode)
        end = prob.masses[-1]
        if prob.exitcode == -1:
            env.check(env.le(end, mmin), "mass exit only below the minimum mass")
            env.check(prob.converge is False, "not converged on mass exit")
            env.reach("mass exit")
        elif not prob.converge:
            env.check(mmin < end, "mass exit is reported whenever mass falls to the minimum")
    return harness


CASES = []
for el in ("keplerian", "mee_with_a"):
    for integ in ("rk4", "rkf45"):
        for sg in (1, -1):
            CASES.append(Case(f"{el}-{integ}-{'fwd' if sg > 0 else 'bwd'}", mk(el, integ, sg, 3, False), S.setup,
                              bounds="<= 3 steps", expect=["mass changes by mdot*dt exactly when thrusting"]))
CASES.append(Case("nan-angles", mk("mee_with_a", "rk4", 1, 3, True), S.setup, bounds="<= 3 steps, angles may be nan at any step"))
