"""C13: the outcome flags describe the run, also when the object is reused."""
from vsym.case import Case
from . import _solve as S
ASSUMPTIONS = ["real arithmetic"]


def judge(env, prob, steps, oeT, tol, factor, woe, need, mmin, tf, nanthr):
    """reference outcome from the recorded history"""
    n_relaxed, code = 0, None
    N = len(prob.states) - 1
    for i in range(1, N + 1):
        oe = prob.states[i]
        if env.is_true(S.within(env, oe, oeT, tol, woe)):
            code = 1
        elif env.is_true(S.within(env, oe, oeT, [factor * t for t in tol], woe)):
            n_relaxed += 1
            if n_relaxed >= need:
                code = 2
        if code is None and env.is_true(prob.masses[i] <= mmin):
            code = -1
        if code is not None:
            env.check(i == N, "the run ends at the first state that ends it")
            return code
    return None


def mk(integrator, K, woe, need, nan=False, resolve=False, sign=1):
    def harness(env, ctx):
        run = S.Run(env, ctx, K=K, u="fixed", nan=nan)
        dt = env.real("t_step", 0.25, 1, near=0.5) * sign
        factor = env.real("factor", 1, 100, near=10)
        tol0 = env.real("tol", 0, 1, near=0.125)
        tol = [tol0] + [0.125] * 4
        T = run.arr([env.real("oeT.0", near=1.5), 0.25, 0.25, 0.25, 0.25])
        thr = 1
        ctor = {"integrator": integrator, "tol_oe": tol, "relaxed_tol_factor": factor, "exit_at_relaxed": need,
                "nan_angles_threshold": thr}
        mdot = env.real("mdot", 0, 1, near=0.125)
        mmin = env.real("mass_min", 0.01, 1, near=0.5)
        env.assume(mmin < 1.0)
        base = 0
        prob = S.build(run, S.MEE, oe0=S.oe_start(run, sym=False), oeT=T, tf_max=K - 0.75 if not resolve else 0.1, t_step=dt,
                       mass0=1.0, mdot=mdot, mass_min=mmin, woe=woe, ctor=ctor)
        run.on_trunc = lambda: env.check(False, "step bound too small")
        if resolve:
            env.check(prob.exitcode == 0 and prob.converge is False, "fresh object: not attempted")
            prob.solve()
            run.tag = "second."
            base = len(run.log.steps)
            run.K = base + K
            nbase = len(run.log.ctrl)
            T = run.arr([env.real("oeT2.0", near=2.5), 0.25, 0.25, 0.25, 0.25])
            prob.set_problem(S.oe_start(run, sym=False), T, 1.0, 0.125, mdot, (K - 1) * 0.25, 0.25 * sign, woe=woe, mass_min=mmin)
        else:
            nbase = 0
            env.assume(abs(dt) * K >= K - 0.75)
        tf = abs(prob.tf_max)
        prob.solve()
        env.observe("exit", prob.exitcode)
        env.observe("converge", prob.converge)
        env.observe("times", prob.times)
        code = judge(env, prob, run.log.steps, T, tol, factor, woe, need, mmin, tf, thr)
        if code is None:
            nn = len([1 for c in run.log.ctrl[nbase:] if nan and env.is_true(c["nan"])])
            if nn > thr:
                code = -3
                env.reach("nan exit")
            else:
                code = -2
                env.check(env.le(tf, abs(prob.times[-1])), "unfinished only when the time is used up")
        env.check(prob.exitcode == code, "exit code states how the run ended")
        env.check((prob.converge is True) == (code in (1, 2)), "converge flag is set exactly for exit codes 1 and 2")
        env.reach(f"exit {code}")
    return harness


A0 = [1.0, 0.0, 0.0, 0.0, 0.0]
ALL = [1.0, 1.0, 1.0, 1.0, 1.0]
CASES = [
    Case("sma-only", mk("rk4", 3, A0, 2), S.setup, bounds="<= 3 steps", expect=["exit 1", "exit 2", "exit -1", "exit -2"]),
    Case("sma-only-backward", mk("rk4", 3, A0, 2, sign=-1), S.setup, bounds="<= 3 steps"),
    Case("sma-only-rkf45", mk("rkf45", 3, A0, 2), S.setup, bounds="<= 3 steps"),
    Case("relaxed-at-once", mk("rk4", 2, A0, 1), S.setup, bounds="<= 2 steps"),
    Case("all-elements", mk("rk4", 2, ALL, 2), S.setup, bounds="<= 2 steps"),
    Case("nan", mk("rk4", 3, A0, 2, nan=True), S.setup, bounds="<= 3 steps", expect=["exit -3"]),
    Case("reused-object", mk("rk4", 2, A0, 2, resolve=True), S.setup, bounds="two runs, <= 2 steps each"),
]
