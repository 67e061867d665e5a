"""C10: element safeguard, and inputs left untouched."""
import math
from vsym.case import Case
from . import _solve as S
ASSUMPTIONS = ["unit cases: IEEE-754 binary64", "in-solve cases: real arithmetic; lower bound <= upper bound; the safeguard is the one the unit cases decide"]
INF = math.inf
DEF_MIN = [0.05, 1e-4, 1e-4, 1e-4, 1e-4, 1e-8]
DEF_MAX = [1e2, 0.95, math.pi, INF, INF, INF]


def unit(bounds):
    def harness(env, ctx):
        run = S.Run(env, ctx)
        x = [env.real(f"x.{i}", near=0.5) for i in range(6)]
        if bounds == "sym":
            lo = [env.real(f"lo.{i}", near=0.25) for i in range(6)]
            hi = [env.real(f"hi.{i}", near=0.75) for i in range(6)]
            for a, b in zip(lo, hi):
                env.assume(a <= b)
        else:
            lo, hi = DEF_MIN, [run.np().pi if v == math.pi else v for v in DEF_MAX]
        oe, omin, omax = run.arr(x), run.arr(lo), run.arr(hi)
        out = ctx.lib.elements_safety(oe, omin, omax)
        env.check(len(out) == 6, "six elements are returned")
        for i in range(5):
            env.check(env.and_(out[i] >= lo[i], out[i] <= hi[i]), "result lies within the bounds")
            env.check(env.implies(env.and_(x[i] >= lo[i], x[i] <= hi[i]), out[i] == x[i]), "an element within its bounds is unchanged")
            env.check(env.implies(x[i] < lo[i], out[i] == lo[i]), "an element below its lower bound is raised to it")
            env.check(env.implies(x[i] > hi[i], out[i] == hi[i]), "an element above its upper bound is lowered to it")
        env.check(out[5] == x[5], "the anomaly is unchanged")
        for i in range(6):
            env.check(oe[i] == x[i], "the caller's elements are not modified")
            env.check(env.and_(omin[i] == lo[i], omax[i] == hi[i]), "the bounds are not modified")
        env.observe("out", [out[i] for i in range(6)])
    return harness


def clampv(env, x, lo, hi):
    if lo > -INF:
        x = env.ite(x < lo, lo, x)
    if hi < INF:
        x = env.ite(x > hi, hi, x)
    return x


def solve(elements, sign, K, bounds, integrator="rk4"):
    def harness(env, ctx):
        run = S.Run(env, ctx, K=K, u="fixed")
        run.oe_range = ([-2, -1, -1, -2, -2, None], [200, 2, 4, 8, 8, None])
        dt = 0.5 * sign
        ctor = {}
        lo, hi = DEF_MIN, [run.np().pi if v == math.pi else v for v in DEF_MAX]
        if bounds == "custom":
            lo, hi = [0.5, 0.125, 0.25, -1.0, -1.0, 0.0], [8.0, 0.5, 2.0, 3.0, 3.0, 0.0]
            ctor = {"oe_min": lo, "oe_max": hi}
        x = [env.real(f"oe0.{i}", -4, 200, near=[1.0, 0.1, 0.2, 0.3, 0.4, 0.5][i]) for i in range(6)]
        oe0 = run.arr(x)
        xT = [env.real(f"oeT.{i}", -4, 200, near=2.0) for i in range(5)]
        oeT = run.arr(xT)
        woe = [1.0, 1.0, 1.0, 0.0, 0.0]
        wa = run.arr(woe)
        prob = S.build(run, elements, oe0=oe0, oeT=oeT, tf_max=abs(dt) * (K - 0.5), t_step=dt, woe=wa,
                       ctor={"exit_at_relaxed": 1000, "integrator": integrator, **ctor})

        def common(trunc=False):
            for i in range(6):
                env.check_eq(oe0[i], x[i], "the initial elements passed in are not modified")
                env.check_eq(prob.oe0[i], x[i], "the problem's initial elements are not modified")
            for i in range(5):
                env.check_eq(oeT[i], xT[i], "the target passed in is not modified")
                env.check_eq(wa[i], woe[i], "the weights passed in are not modified")
            prev = x
            for i, s in enumerate(run.log.steps):
                if elements == "keplerian":
                    want = [clampv(env, prev[j], lo[j], hi[j]) for j in range(5)] + [prev[5]]
                else:
                    want = prev
                env.check_eq(s["yv"], want, "each step starts from the previous result moved into the bounds")
                env.check_eq(run.log.ctrl[i]["oe"], want, "the control law sees the safeguarded elements")
                prev = s["nextv"]
            if run.log.steps:
                last = prob.states[-1]
                if not trunc:
                    env.check_eq([e for e in last], prev, "the final state is the integrator's result")
                    env.reach("end")
        run.on_trunc = lambda: common(True)
        prob.solve()
        common()
        env.observe("exit", prob.exitcode)
        env.observe("states", [list(s) for s in prob.states])
    return harness


def twice(elements):
    """solving again starts from the same initial conditions"""
    def harness(env, ctx):
        run = S.Run(env, ctx, K=4, u="fixed")
        x = [env.real(f"oe0.{i}", -4, 200, near=[1.0, 0.1, 0.2, 0.3, 0.4, 0.5][i]) for i in range(6)]
        prob = S.build(run, elements, oe0=run.arr(x), tf_max=0.75, t_step=0.5, woe=[1.0, 0, 0, 0, 0],
                       ctor={"exit_at_relaxed": 1000, "tol_oe": [0.0] * 5})
        prob.solve()
        first = run.log.steps[0]["yv"]
        n = len(run.log.steps)
        prob.solve()
        env.check_eq(run.log.steps[n]["yv"], first, "solving again starts from the same elements")
        env.check(len(prob.times) == len(run.log.steps) - n + 1, "histories are restarted")
        env.check_eq(prob.times[0], 0.0, "time is restarted")
    return harness


CASES = [Case("unit-fp-default", unit("default"), S.units, mode="fp", bounds="all binary64 values but NaN"),
         Case("unit-fp-bounds", unit("sym"), S.units, mode="fp", bounds="all binary64 values but NaN, any ordered bounds")]
for el in ("keplerian", "mee_with_a"):
    for sg in (1, -1):
        for b in ("default", "custom"):
            CASES.append(Case(f"{el}-{'fwd' if sg > 0 else 'bwd'}-{b}", solve(el, sg, 2, b), S.setup, bounds="<= 2 steps", expect=["end"]))
    CASES.append(Case(f"{el}-rkf45", solve(el, 1, 2, "default", "rkf45"), S.setup, bounds="<= 2 steps", expect=["end"]))
    CASES.append(Case(f"{el}-twice", twice(el), S.setup, bounds="two runs of <= 2 steps", validate=False))
