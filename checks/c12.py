"""C12: time stepping and termination at the allowed time."""
from vsym.case import Case
from . import _solve as S
ASSUMPTIONS = ["real arithmetic"]


def mk(elements, integrator, sign, K):
    def harness(env, ctx):
        run = S.Run(env, ctx, K=K, u="fixed")
        dt = env.real("t_step", 0.001, 4, near=0.5)
        if sign < 0:
            dt = -dt
        tf = env.real("tf_max", 0, 40, near=1.25)
        prob = S.build(run, elements, tf_max=tf, t_step=dt, woe=[1.0, 1.0, 1.0, 0.0, 0.0], 
                       ctor={"integrator": integrator, "oe_min": [-1e6] * 6, "oe_max": [1e6] * 6})

        def common(trunc=False):
            st, T = run.log.steps, prob.times
            env.check(len(T) == len(st) + 1, "one recorded time per step")
            env.check_eq(T[0], 0.0, "starts at t=0")
            for i, s in enumerate(st):
                env.check_eq(s["h"], dt, "integrator is given the requested step")
                env.check_eq(s["t"], T[i], "integrator is given the current time")
                env.check_eq(T[i + 1], T[i] + dt, "time advances by the step taken")
                env.check(env.lt(abs(T[i]), tf), "no step is started at or beyond the time limit")
                env.check_eq(prob.states[i + 1], s["next"], "recorded state is the integrated one")
        run.on_trunc = common
        prob.solve()
        common()
        env.observe("times", prob.times)
        env.observe("exit", prob.exitcode)
        if prob.exitcode == -2:
            env.check(env.le(tf, abs(prob.times[-1])), "reports out of time only when time ran out")
        elif prob.exitcode == 0:
            env.check(False, "exit code is assigned")
    return harness


CASES = []
for el in ("keplerian", "mee_with_a"):
    for integ in ("rk4", "rkf45"):
        for sg in (1, -1):
            CASES.append(Case(f"{el}-{integ}-{'fwd' if sg > 0 else 'bwd'}", mk(el, integ, sg, 3), S.setup,
                              bounds="<= 3 steps", expect=["time advances by the step taken"]))
