"""C15: battery bookkeeping (forward propagation)."""
from vsym.case import Case
from . import _solve as S
ASSUMPTIONS = ["real arithmetic", "forward propagation", "capacity floor <= initial level <= capacity"]


def mk(elements, integrator, full, K, sym_rates=True, duty=False):
    def harness(env, ctx):
        run = S.Run(env, ctx, K=K, u="fixed")
        dt = env.real("t_step", 0.0625, 2, near=0.5)
        dis = env.real("discharge", 0, 2, near=0.5)
        chg = env.real("charge", 0, 2, near=0.25)
        if not sym_rates:
            env.assume(dis == 0.5)
        lo = env.real("floor", 0, 0.5, near=0.25)
        hi = env.real("capacity", 0.5, 2, near=1.0)
        b0 = env.real("b0", near=0.5)
        env.assume(env.and_(lo <= b0, b0 <= hi, lo < hi))
        kw = {}
        if duty:
            kw["duty_cycle"] = (env.real("on", 0, 4, near=0.75), env.real("off", 0, 4, near=0.75))
        prob = S.build(run, elements, oe0=S.oe_start(run, sym=False), tf_max=dt * (K - 0.5), t_step=dt, mdot=0.0,
                       woe=[1.0, 0.0, 0.0, 0.0, 0.0], battery_initial=b0, battery_capacity=(lo, hi),
                       battery_charge_discharge_rate=(chg, dis), require_full_recharge=full,
                       ctor={"integrator": integrator, "tol_oe": [0.0] * 5, "exit_at_relaxed": 1000}, **kw)

        def common():
            B, st = prob.battery, run.log.steps
            th = S.throttles(prob)
            env.check(len(B) == len(st) + 1, "one recorded battery level per step")
            env.check_eq(B[0], b0, "starts at the initial level")
            recharging = False
            for i, s in enumerate(st):
                h = s["h"]
                env.check_eq(prob.times[i + 1] - prob.times[i], h, "step taken equals the recorded one")
                env.check(env.and_(env.lt(0, h), env.le(h, dt)), "step is positive and at most the requested one")
                env.check(env.and_(env.le(lo, B[i + 1]), env.le(B[i + 1], hi)), "level stays between floor and capacity")
                env.assume(env.or_(B[i] <= lo, B[i] >= lo + 1e-6))    # numerical tolerance of the floor test
                if env.is_true(B[i] <= lo):
                    env.reach("floor")
                    recharging = True
                    env.check(th[i] == 0, "no thrust at the floor")
                elif full and recharging:
                    env.check(th[i] == 0, "no thrust until fully recharged")
                elif not duty and env.is_true(B[i] > lo):
                    env.check(th[i] == 1, "thrust while the battery allows it")
                if th[i] == 1:
                    env.check_eq(B[i + 1], B[i] - dis * h, "thrusting drains rate*dt, never more than is available", tol=1e-9)
                    if not duty and env.is_true(h < dt):
                        env.reach("shortened")
                        env.check_eq(B[i + 1], lo, "a shortened step ends at the floor")
                elif not duty:
                    v = B[i] + chg * h
                    env.check_eq(B[i + 1], env.ite(v < hi, v, hi), "coasting charges rate*dt up to capacity")
                else:
                    env.check(env.le(B[i], B[i + 1]), "coasting never drains")
                    env.check(env.le(B[i + 1], B[i] + chg * h), "coasting charges at most rate*dt")
                if recharging and env.is_true(B[i + 1] >= hi):
                    recharging = False
        run.on_trunc = common
        prob.solve()
        common()
        env.observe("battery", prob.battery)
        env.observe("times", prob.times)
    return harness


CASES = []
for el in ("keplerian", "mee_with_a"):
    for integ in ("rk4", "rkf45"):
        for full in (False, True):
            K = 4 if (el, integ) == ("mee_with_a", "rk4") else 3
            CASES.append(Case(f"{el}-{integ}-{'full' if full else 'partial'}", mk(el, integ, full, K), S.setup,
                              bounds=f"<= {K} steps", expect=["floor"]))
for full in (False, True):
    CASES.append(Case(f"duty-{'full' if full else 'partial'}", mk("mee_with_a", "rk4", full, 3, duty=True), S.setup,
                      bounds="<= 3 steps, with a duty cycle"))
    CASES.append(Case(f"deep-{'full' if full else 'partial'}", mk("mee_with_a", "rk4", full, 6), S.setup, tier="thorough",
                      bounds="<= 6 steps", max_paths=40000))
CASES.sort(key=lambda c: -c.name.startswith(("duty", "deep")))     # the longest first
