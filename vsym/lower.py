"""DAG -> z3.

Real arithmetic: sqrt/abs/powers are axiomatised on fresh variables, sin/cos get
uninterpreted applications with s^2+c^2=1, other transcendental functions are
uninterpreted (equal arguments give equal values) with range axioms.
Floating point: IEEE-754 binary64, round to nearest even."""
from fractions import Fraction
import math
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402
from . import expr as E  # noqa: E402

RNE = z3.RNE()
F64 = z3.Float64()


def q(v):
    return z3.Q(v.numerator, v.denominator)


TURNS = 4          # angles are resolved exactly up to this many revolutions


def _all(n):
    seen, st = {}, [n]
    while st:
        t = st.pop()
        if t.id not in seen:
            seen[t.id] = t
            st += t.args
    return seen.values()


class RealLower:
    def __init__(self):
        self.memo = {}
        self.side = []        # axioms
        self.vars = {}
        self.ufs = {}
        self.fresh = 0
        self.PI = None

    def pi(self):
        if self.PI is None:
            self.PI = z3.Real("pi!")
            self.side += [self.PI > q(Fraction("3.14159265358979")), self.PI < q(Fraction("3.14159265358980"))]
        return self.PI

    def new(self, tag):
        self.fresh += 1
        return z3.Real(f"{tag}!{self.fresh}")

    def _turns(self, x, v, fold):
        """v is x reduced by whole turns (and by its sign, if fold)"""
        p2 = 2 * self.pi()
        alts = [x == v + j * p2 for j in range(-TURNS, TURNS + 1)]
        if fold:
            alts += [x == j * p2 - v for j in range(-TURNS, TURNS + 1)]
        self.side.append(z3.Implies(z3.And(x <= TURNS * p2, x >= -TURNS * p2), z3.Or(*alts)))

    def uf(self, name, n):
        if name not in self.ufs:
            self.ufs[name] = z3.Function(name, *([z3.RealSort()] * (n + 1)))
        return self.ufs[name]

    def __call__(self, n):
        if n.id in self.memo:
            return self.memo[n.id]
        order, st, seen = [], [n], set()
        while st:
            x = st.pop()
            if x.id in seen or x.id in self.memo:
                continue
            seen.add(x.id)
            order.append(x)
            st.extend(x.args)
        for x in sorted(order, key=lambda t: t.id):
            self.memo[x.id] = self.low(x, [self.memo[c.id] for c in x.args])
        return self.memo[n.id]

    def low(self, x, a):
        o = x.op
        if o == "const":
            if x.val[0] is None:
                v = self.new("nonfinite")
                return v
            return q(x.val[0])
        if o == "pi":
            return self.pi()
        if o == "var":
            v = self.vars.get(x.val)
            if v is None:
                v = self.vars[x.val] = z3.Real(x.val)
            return v
        if o == "bvar":
            v = self.vars.get(x.val)
            if v is None:
                v = self.vars[x.val] = z3.Bool(x.val)
            return v
        if o == "true":
            return z3.BoolVal(True)
        if o == "false":
            return z3.BoolVal(False)
        if o == "add":
            return a[0] + a[1]
        if o == "sub":
            return a[0] - a[1]
        if o == "mul":
            return a[0] * a[1]
        if o == "div":
            if E.is_const(x.args[1]) and E.cval(x.args[1]) != 0:
                return a[0] / a[1]
            v = self.new("quot")
            self.side.append(z3.Implies(a[1] != 0, v * a[1] == a[0]))
            # congruence: same numerator/denominator terms are hash-consed already
            return v
        if o == "neg":
            return -a[0]
        if o == "abs":
            return z3.If(a[0] >= 0, a[0], -a[0])
        if o == "ite":
            return z3.If(a[0], a[1], a[2])
        if o == "sqrt":
            v = self.new("sqrt")
            self.side += [v >= 0, z3.Implies(a[0] >= 0, v * v == a[0])]
            return v
        if o == "pow":
            e = x.val
            if e.denominator == 1 and 0 < e <= 8:
                r = a[0]
                for _ in range(int(e) - 1):
                    r = r * a[0]
                return r
            if e.denominator == 1 and -8 <= e < 0:
                d = a[0]
                for _ in range(int(-e) - 1):
                    d = d * a[0]
                v = self.new("quot")
                self.side.append(z3.Implies(d != 0, v * d == 1))
                return v
            v = self.uf(f"pow[{e}]", 1)(a[0])
            self.side.append(z3.Implies(a[0] > 0, v > 0))
            if 1 < e.denominator <= 6 and abs(e.numerator) <= 6:
                l, r = v, a[0]
                for _ in range(e.denominator - 1):
                    l = l * v
                for _ in range(abs(e.numerator) - 1):
                    r = r * a[0]
                self.side.append(z3.Implies(a[0] > 0, l == r if e > 0 else l * r == 1))
            return v
        if o in ("sin", "cos"):
            s, c = self.uf("sin", 1)(a[0]), self.uf("cos", 1)(a[0])
            self.side.append(s * s + c * c == 1)
            return s if o == "sin" else c
        if o == "tan":
            v = self.uf("tan", 1)(a[0])
            return v
        if o in ("atan", "asin", "acos", "exp", "log", "atan2"):
            v = self.uf(o, len(a))(*a)
            if o == "acos" and x.args[0].op == "cos":
                self._turns(self.memo[x.args[0].args[0].id], v, True)
            if o == "atan2" and x.args[0].op == "sin" and x.args[1].op == "cos" and x.args[0].args[0] is x.args[1].args[0]:
                self._turns(self.memo[x.args[0].args[0].id], v, False)
                self.side.append(v > -self.pi())
            if o == "exp":
                self.side.append(v > 0)
            if o == "acos":
                self.side += [v >= 0, v <= self.pi()]
            if o in ("atan", "asin"):
                self.side += [2 * v >= -self.pi(), 2 * v <= self.pi()]
            if o == "atan2":
                self.side += [v >= -self.pi(), v <= self.pi()]
            return v
        if o == "powg":
            v = self.uf("powg", 2)(*a)
            self.side.append(z3.Implies(a[0] > 0, v > 0))
            return v
        if o == "floor":
            k = z3.Int(f"floor!{x.id}")
            self.side += [z3.ToReal(k) <= a[0], a[0] < z3.ToReal(k) + 1]
            return z3.ToReal(k)
        if o == "mod":
            # Python modulo: sign of the divisor
            k = z3.Int(f"mod!{x.id}")
            m, d = a
            r = m - z3.ToReal(k) * d
            if any(t.op == "pi" for t in _all(x.args[1])):
                v = self.new("mod")
                self.side += [z3.Implies(d > 0, z3.And(0 <= v, v < d)), z3.Implies(d < 0, z3.And(d < v, v <= 0)),
                              z3.Implies(z3.And(m <= TURNS * d, m >= -TURNS * d), z3.Or(*[m == v + j * d for j in range(-TURNS - 1, TURNS + 1)]))]
                return v
            self.side.append(z3.And(z3.Implies(d > 0, z3.And(0 <= r, r < d)),
                                    z3.Implies(d < 0, z3.And(d < r, r <= 0))))
            return r
        if o == "lt":
            return a[0] < a[1]
        if o == "le":
            return a[0] <= a[1]
        if o == "eq":
            return a[0] == a[1]
        if o == "and":
            return z3.And(*a)
        if o == "not":
            return z3.Not(a[0])
        if o == "uf":
            return self.uf(x.val, len(a))(*a) if a else z3.Real(x.val)
        raise NotImplementedError("lower " + o)


class FpLower(RealLower):
    def pi(self):
        return z3.FPVal(math.pi, F64)

    def low(self, x, a):
        o = x.op
        if o == "const":
            return z3.FPVal(float(x.val[1]), F64)
        if o == "pi":
            return z3.FPVal(math.pi, F64)
        if o == "var":
            v = self.vars.get(x.val)
            if v is None:
                v = self.vars[x.val] = z3.FP(x.val, F64)
            return v
        if o == "add":
            return z3.fpAdd(RNE, *a)
        if o == "sub":
            return z3.fpSub(RNE, *a)
        if o == "mul":
            return z3.fpMul(RNE, *a)
        if o == "div":
            return z3.fpDiv(RNE, *a)
        if o == "neg":
            return z3.fpNeg(a[0])
        if o == "abs":
            return z3.fpAbs(a[0])
        if o == "sqrt":
            return z3.fpSqrt(RNE, a[0])
        if o == "lt":
            return z3.fpLT(*a)
        if o == "le":
            return z3.fpLEQ(*a)
        if o == "eq":
            return z3.fpEQ(*a)
        if o == "isnan":
            return z3.fpIsNaN(a[0])
        if o == "pow" and x.val == 2:
            return z3.fpMul(RNE, a[0], a[0])
        if o in ("sin", "cos", "acos", "atan", "tan", "exp", "log", "asin", "atan2", "powg"):
            if o not in self.ufs:
                self.ufs[o] = z3.Function(o, *([F64] * (len(a) + 1)))
            v = self.ufs[o](*a)
            one = z3.FPVal(1.0, F64)
            bad = z3.Or(*[z3.Or(z3.fpIsNaN(t), z3.fpIsInf(t)) if o in ("sin", "cos", "tan") else z3.fpIsNaN(t) for t in a])
            if o in ("sin", "cos"):
                self.side += [z3.If(bad, z3.fpIsNaN(v), z3.And(z3.fpLEQ(z3.FPVal(-1.0, F64), v), z3.fpLEQ(v, one)))]
            elif o == "acos":
                out = z3.Or(bad, z3.fpGT(z3.fpAbs(a[0]), one))
                self.side += [z3.If(out, z3.fpIsNaN(v),
                                    z3.And(z3.fpLEQ(z3.FPVal(0.0, F64), v), z3.fpLEQ(v, z3.FPVal(math.pi, F64))))]
            else:
                self.side += [z3.Implies(bad, z3.fpIsNaN(v))]
            return v
        if o in ("ite", "and", "not", "true", "false", "bvar"):
            return RealLower.low(self, x, a)
        raise NotImplementedError("fp lower " + o)


def model_value(m, v):
    """python value of z3 constant v in model m"""
    t = m.eval(v, model_completion=True)
    if z3.is_bool(t):
        return z3.is_true(t)
    if z3.is_fp(t):
        s = z3.simplify(z3.fpToIEEEBV(t))
        if z3.is_bv_value(s):
            import struct
            return struct.unpack("<d", struct.pack("<Q", s.as_long()))[0]
        if z3.simplify(z3.fpIsNaN(t)):
            return math.nan
        return float("nan")
    if z3.is_algebraic_value(t):
        t = t.approx(20)
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    if z3.is_int_value(t):
        return Fraction(t.as_long())
    raise ValueError(f"no value for {v}: {t}")
