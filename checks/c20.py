"""C20: the exported dictionary and JSON file hold the solved trajectory."""
import json
import os
import tempfile
import types
from vsym.case import Case
from . import _kep as K, _solve as S
ASSUMPTIONS = ["real arithmetic", "the Q-law evaluation and the one-step integrator return arbitrary values",
               "symbolic runs: json.dump and open are recording stand-ins; replays write and read a real file in a scratch directory"]
RANGE = {"keplerian": ([0.25, 0.001, 0.01, -6, -6, -6.25], [50, 0.998, 3.125, 6, 6, 6.25]),
         "mee_with_a": ([0.25, -0.7, -0.7, -2, -2, -6.25], [50, 0.7, 0.7, 2, 2, 6.25])}


class File:
    def __init__(self, path, mode):
        self.path, self.mode, self.body = path, mode, []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def write(self, x):
        self.body.append(x)

    def close(self):
        pass


def plain(x, cls):
    """what a reader of the file gets back"""
    from vsym.expr import SymReal
    if isinstance(x, dict):
        return {str(k): plain(v, cls) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v, cls) for v in x]
    if x is None or isinstance(x, (str, bool, SymReal)):
        return x
    if isinstance(x, (int, float)):
        return x
    return plain((cls or json.JSONEncoder)().default(x), cls)


def setup(ctx):
    patches, modules = S.setup(ctx)
    if ctx.symbolic:
        m = types.ModuleType("json")
        m.JSONEncoder = json.JSONEncoder
        m.dumps = lambda o, cls=None, **k: plain(o, cls)
        m.dump = lambda o, f, cls=None, **k: f.write(plain(o, cls))
        m.loads, m.load = (lambda x: x), (lambda f: f.body[-1])
        modules["json"] = m
        ctx.files = {}

        def fopen(path, mode="r", *a, **k):
            f = ctx.files[path] = File(path, mode)
            return f
        ctx.builtins = {"open": fopen}
    return patches, modules


def same(env, a, b, label):
    """equal nested lists, tuples and arrays"""
    if isinstance(a, dict) or isinstance(b, dict):
        env.check(isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b), label + " (keys)")
        for k in a:
            same(env, a[k], b[k], label + "." + k)
    elif hasattr(a, "__len__") and not isinstance(a, str) and not is_scalar(a):
        env.check(len(a) == len(b), label + " (length)")
        for x, y in zip(a, b):
            same(env, x, y, label)
    elif a is None or isinstance(a, str):
        env.check(a == b, label)
    else:
        env.check_eq(a, b, label)


def is_scalar(x):
    return getattr(x, "shape", None) == () or isinstance(x, (int, float, bool))


def mk(elements, angles, tofile, integrator="rk4", sign=1, K_=2, throttle="nan"):
    def harness(env, ctx):
        m = K.m(ctx)
        run = S.Run(env, ctx, K=K_, u="fixed" if throttle == "nan" else "sym", nan=throttle == "nan")
        run.oe_range = RANGE[elements]
        lo, hi = RANGE[elements]
        oe0 = run.arr([env.real(f"oe0.{i}", lo[i], hi[i], near=[1.5, 0.125, 0.25, 0.5, 0.375, 1.0][i]) for i in range(6)])
        mdot = env.real("mdot", 0, 0.0625, near=0.03125)
        dt = env.real("t_step", 0.125, 2, near=0.5) * sign
        prob = S.build(run, elements, oe0=oe0, oeT=run.arr([1e4, 5.0, 5.0, 5.0, 5.0]), tf_max=abs(dt) * (K_ - 0.5), t_step=dt, mass0=2.0, mdot=mdot, woe=[1.0, 1.0, 1.0, 0.0, 0.0],
                       battery_charge_discharge_rate=(0.0, 0.0),
                       ctor={"integrator": integrator, "exit_at_relaxed": 1000, "oe_min": [-1e6] * 6, "oe_max": [1e6] * 6})
        prob.solve()
        units = {"LU": env.real("LU", 1, 1e6, near=7.0), "name": "canonical"}
        n = len(prob.times)
        before = {k: [list(x) if hasattr(x, "__len__") else x for x in getattr(prob, k)] for k in ("times", "states", "masses", "controls")}
        d = None
        if tofile:
            if env.symbolic:
                path = "out.json"
            else:
                d = tempfile.mkdtemp(prefix="c20-")
                path = os.path.join(d, "out.json")
        try:
            r = prob.save_to_dict(path if tofile else None, canonical_units=units if tofile else None, save_control_angles=angles)
            if tofile:
                if env.symbolic:
                    env.check(list(ctx.files) == [path] and "w" in ctx.files[path].mode, "the file of the given name is written")
                    got = ctx.files[path].body
                    got = got[-1] if len(got) == 1 else None
                else:
                    with open(path) as f:
                        got = json.load(f)
                env.reach("file")
            else:
                env.check(not env.symbolic or not ctx.files, "no file without a path")
        finally:
            if d:
                if os.path.exists(path):
                    os.remove(path)
                os.rmdir(d)
        if env.symbolic:
            ctx.files.clear()
        env.check_eq(r["t0"], 0.0, "initial time")
        env.check_eq(r["tf"], before["times"][-1], "final time")
        same(env, r["times"], before["times"], "recorded times")
        same(env, r["canonical_units"], units if tofile else None, "canonical units")
        env.check(len(r["states"]) == n and len(r["controls"]) == n, "one row per recorded time")
        for i in range(n):
            oe, row = before["states"][i], r["states"][i]
            env.check(len(row) == 7, "state row: six elements and mass")
            if elements == "keplerian":
                a, e, inc, O, w, nu = oe
                t = m.sin(inc / 2) / m.cos(inc / 2)
                ref = [a * (1 - e * e), e * m.cos(O + w), e * m.sin(O + w), t * m.cos(O), t * m.sin(O)]
                L = O + w + nu
            else:
                ref = [oe[0] * (1 - oe[1] * oe[1] - oe[2] * oe[2])] + oe[1:5]
                L = oe[5]
            for j in range(5):
                env.check_eq(row[j], ref[j], "state as modified equinoctial elements")
            K.same_angle(env, m, row[5], L, "true longitude")
            env.check_eq(row[6], before["masses"][i], "mass is appended")
            al, be, th = before["controls"][i] if i < n - 1 else (0.0, 0.0, 0.0)
            c = r["controls"][i]
            if angles:
                env.check(len(c) == 3, "control row: two angles and throttle")
                env.check_eq(c[2], th, "throttle")
                if i < n - 1:
                    env.check_eq([c[0], c[1]], [al, be], "recorded control angles")
            else:
                env.check(len(c) == 4, "control row: unit vector and throttle")
                env.check_eq(c[3], th, "throttle")
                if i < n - 1:
                    env.check_eq([c[0], c[1], c[2]], S.unit(run, al, be), "unit thrust direction in radial, transverse, normal")
                env.check_eq(c[0] * c[0] + c[1] * c[1] + c[2] * c[2], 1.0, "direction has unit length")
        if tofile:
            same(env, got, {k: v.tolist() if hasattr(v, "tolist") else v for k, v in r.items()}, "the file holds the dictionary")
        for k, v in before.items():
            same(env, getattr(prob, k), v, f"{k} of the solver is unchanged")
        env.check(prob.converge is False and prob.exitcode == -2, "outcome is unchanged")
        env.observe("states", [list(x) for x in r["states"]])
        env.observe("controls", [list(x) for x in r["controls"]])
    return harness


CASES = []
for el in ("keplerian", "mee_with_a"):
    for ang in (True, False):
        for tf in (True, False):
            CASES.append(Case(f"{el}-{'angles' if ang else 'vectors'}{'-file' if tf else ''}", mk(el, ang, tf), setup, algebra=True,
                              bounds="<= 2 steps", expect=["file"] if tf else []))
    CASES.append(Case(f"{el}-bwd", mk(el, False, True, "rkf45", -1), setup, algebra=True, bounds="<= 2 steps", expect=["file"]))
    CASES.append(Case(f"{el}-free", mk(el, False, False, K_=1, throttle="sym"), setup, algebra=True, bounds="1 step, arbitrary direction"))
    CASES.append(Case(f"{el}-deep", mk(el, False, True, K_=4), setup, algebra=True, bounds="<= 4 steps", tier="thorough"))
