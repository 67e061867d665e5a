"""C14: duty cycle."""
from vsym.case import Case
from . import _solve as S
ASSUMPTIONS = ["real arithmetic"]


def mk(elements, integrator, sign, K):
    def harness(env, ctx):
        run = S.Run(env, ctx, K=K, u="fixed")
        dt = env.real("t_step", 0.001, 4, near=0.5)
        on = env.real("on", 0, 20, near=0.75)
        off = env.real("off", 0, 20, near=0.75)
        prob = S.build(run, elements, oe0=S.oe_start(run, sym=False), tf_max=dt * (K - 0.5), t_step=dt * sign, mdot=0.0,
                       duty_cycle=(on, off), woe=[1.0, 0.0, 0.0, 0.0, 0.0],
                       ctor={"integrator": integrator, "tol_oe": [0.0] * 5, "exit_at_relaxed": 1000})
        env.assume(True)
        run.on_trunc = lambda: env.check(False, "step bound too small")
        prob.solve()
        th = S.throttles(prob)
        T = [abs(t) for t in prob.times]
        # reference: thrusting since `since` until more than `on` has elapsed, coasting until
        # more than `off` has elapsed, decided at step boundaries
        state, since = 1, 0.0
        for i in range(len(th)):
            if state == 1 and env.is_true(T[i] - since > on):
                state, since = 0, T[i]
            if state == 0 and env.is_true(T[i] - since > off):
                state, since = 1, T[i]
            env.check(th[i] == state, "thrusts during the ON time and coasts during the OFF time")
            env.check_eq(run.log.steps[i]["acc"], [0.0] * 3 if state == 0 else
                         [0.125 * sign * c for c in S.unit(run, prob.controls[i][0], prob.controls[i][1])],
                         "applied acceleration follows the duty cycle")
        env.observe("throttle", th)
        env.observe("times", prob.times)
        if 0 in th:
            env.reach("coast")
            if 1 in th[th.index(0):]:
                env.reach("resume")
    return harness


CASES = []
for el in ("keplerian", "mee_with_a"):
    for integ in ("rk4", "rkf45"):
        for sg in (1, -1):
            K = 6 if (el, integ) == ("mee_with_a", "rk4") else 4
            CASES.append(Case(f"{el}-{integ}-{'fwd' if sg > 0 else 'bwd'}", mk(el, integ, sg, K), S.setup,
                              bounds=f"<= {K} steps", expect=["coast", "resume"]))
for K in (10,):
    for sg in (1, -1):
        CASES.append(Case(f"deep-{'fwd' if sg > 0 else 'bwd'}", mk("mee_with_a", "rk4", sg, K), S.setup, tier="thorough",
                          bounds=f"<= {K} steps", max_paths=40000))
