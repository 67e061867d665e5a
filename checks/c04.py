"""C04: the influence matrix of the generated functions is Gauss' variational equations."""
from vsym.case import Case
from . import _kep as K, _q as Q
ASSUMPTIONS = ["real arithmetic", "elliptic orbits, 0.001 <= e <= 0.999 and 0.001 <= i <= 3.1406 (Keplerian); f^2+g^2 < 0.998, |h|,|k| <= 1000 (MEE), f and g may be 0",
               "sympy's lambdify is executed as it is; the generated code is what is encoded"]
TARGET = [1.5, 0.25, 0.375, 0.5, 0.625]


def mk(elements, cse):
    def harness(env, ctx):
        fs = Q.functions(ctx, elements, cse)
        P = Q.Params(env, ctx, elements)
        P.oe = K.kep(env, ctx) if elements == "keplerian" else K.mee(env, ctx, "a")
        P.oeT = TARGET
        m = P.m
        if elements == "mee_with_a" and env.is_true(env.and_(P.oe[1] == 0, P.oe[2] == 0)):
            env.reach("circular")
        ref = Q.PSI[elements](m, P.oe, P.mu)
        out = fs[1](*P.args())
        env.observe("psi", out)
        env.check(len(out) == 3 and all(len(c) == 5 for c in out), "influence matrix has three columns of five")
        names = "radial", "transverse", "normal"
        for c, r, n in zip(out, ref, names):
            env.check_eq(list(c), r, f"fun_eval_psi: {n} column", tol=1e-6)
        for c, r, n in zip(fs[0](*P.args())[1], ref, names):
            env.check_eq(list(c), r, f"fun_lyapunov_control: {n} column", tol=1e-6)
    return harness


CASES = [Case(f"{el}-{'cse' if cse else 'plain'}", mk(el, cse), algebra=True, expect=("circular",) if el == "mee_with_a" else ())
         for el in ("keplerian", "mee_with_a") for cse in (True, False)]
