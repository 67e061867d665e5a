"""Hash-consed expression DAG and the proxy values (SymReal, SymBool) that the real
pyqlaw code is executed on.

A SymReal wraps a DAG node; every arithmetic operation the code under test performs on it
builds a new node.  A SymBool asked for its truth value calls the current engine, which
forks the execution path.
"""
from fractions import Fraction
import math
import numbers
import numpy as _np

# arithmetic mode: "real" (exact reals, float literals read as the rational they denote)
# or "fp" (IEEE-754 binary64, literals taken bit-exactly, no algebraic folding)
MODE = "real"
ENGINE = None          # set by engine.Engine while it runs


class Concretization(Exception):
    """The code under test asked for a concrete value of a symbolic one."""


def set_mode(m):
    global MODE
    MODE = m


# ------------------------------------------------------------------ nodes
class Node:
    __slots__ = ("op", "args", "val", "id", "kind", "__weakref__")

    def __repr__(self):
        return show(self)


_table = {}
_count = [0]


def reset():
    _table.clear()


def mk(op, args=(), val=None, kind="r"):
    key = (op, tuple(a.id for a in args), val, kind)
    n = _table.get(key)
    if n is None:
        n = Node()
        n.op, n.args, n.val, n.kind = op, tuple(args), val, kind
        _count[0] += 1
        n.id = _count[0]
        _table[key] = n
    return n


def show(n, depth=6):
    if n.op == "const":
        return str(n.val[0]) if n.val[0] is not None else str(n.val[1])
    if n.op in ("var", "bvar"):
        return n.val
    if n.op == "pi":
        return "pi"
    if depth == 0:
        return "..."
    return "%s(%s)" % (n.op if n.val is None else f"{n.op}[{n.val}]",
                       ", ".join(show(a, depth - 1) for a in n.args))


def snap(c):
    """The rational a float literal denotes: a short decimal, a simple fraction (within
    5e-15 relative, 15-digit printing), otherwise the exact binary value."""
    if c == int(c) and abs(c) < 1e15:
        return Fraction(int(c))
    r = repr(c)
    digits = r.split("e")[0].replace(".", "").replace("-", "").lstrip("0")
    if len(digits) <= 8:
        return Fraction(r)
    f = Fraction(c).limit_denominator(100000)
    if f != 0 and abs(f - Fraction(c)) <= Fraction(5, 10**15) * abs(Fraction(c)):
        return f
    return Fraction(c)


def const(c):
    if isinstance(c, Fraction):
        return mk("const", (), (c, float(c)))
    if isinstance(c, bool):
        c = int(c)
    if isinstance(c, int):
        return mk("const", (), (Fraction(c), float(c)))
    c = float(c)
    if math.isnan(c) or math.isinf(c):
        return mk("const", (), (None, repr(c)))
    if MODE == "fp":
        return mk("const", (), (Fraction(c), c))
    return mk("const", (), (snap(c), c))


PI = mk("pi")
TRUE = mk("true", kind="b")
FALSE = mk("false", kind="b")


def is_const(n):
    return n.op == "const" and n.val[0] is not None


def cval(n):
    return n.val[0]


def isz(n):
    return n.op == "const" and n.val[0] == 0


def isone(n):
    return n.op == "const" and n.val[0] == 1


def var(name):
    return mk("var", (), name)


def bvar(name):
    return mk("bvar", (), name, "b")


NANABLE = set()        # names of variables that may be NaN


def add(a, b):
    if MODE == "real":
        if isz(a):
            return b
        if isz(b):
            return a
        if is_const(a) and is_const(b):
            return const(cval(a) + cval(b))
    return mk("add", (a, b))


def neg(a):
    if is_const(a):
        return const(-cval(a))
    if a.op == "neg":
        return a.args[0]
    return mk("neg", (a,))


def sub(a, b):
    if MODE == "real":
        if isz(b):
            return a
        if isz(a):
            return neg(b)
        if is_const(a) and is_const(b):
            return const(cval(a) - cval(b))
        if a is b:
            return const(0)
    return mk("sub", (a, b))


def mul(a, b):
    if MODE == "real":
        if is_const(a) and is_const(b):
            return const(cval(a) * cval(b))
        if isz(a) or isz(b):
            return const(0)
        if isone(a):
            return b
        if isone(b):
            return a
    return mk("mul", (a, b))


def div(a, b):
    if MODE == "real":
        if is_const(b) and cval(b) != 0:
            if is_const(a):
                return const(cval(a) / cval(b))
            if isone(b):
                return a
    if ENGINE is not None:
        ENGINE.defined("div", b)
    return mk("div", (a, b))


def floor(a):
    """greatest integer; of a ratio to a multiple of pi, by the remainder"""
    if MODE == "real" and a.op == "div" and a.args[1].op != "const":
        st, seen = [a.args[1]], set()
        while st:
            x = st.pop()
            if x.op == "pi":
                return div(sub(a.args[0], mk("mod", a.args)), a.args[1])
            if x.id not in seen and x.op in ("mul", "neg", "add", "div"):
                seen.add(x.id)
                st.extend(x.args)
    return mk("floor", (a,))


def power(a, e):
    """a ** e, e a node"""
    if is_const(e):
        q = cval(e)
        if q == 1:
            return a
        if q == 0:
            return const(1)
        if is_const(a) and q.denominator == 1 and (cval(a) != 0 or q > 0):
            return const(cval(a) ** int(q))
        if q == Fraction(1, 2):
            return sqrt(a)
        if q < 0 and ENGINE is not None:
            ENGINE.defined("div", a)
        if q.denominator != 1 and ENGINE is not None:
            ENGINE.defined("root", a)
        return mk("pow", (a,), q)
    return mk("powg", (a, e))


def sqrt(a):
    if is_const(a) and cval(a) >= 0:
        q = cval(a)
        n, d = math.isqrt(q.numerator), math.isqrt(q.denominator)
        if n * n == q.numerator and d * d == q.denominator:
            return const(Fraction(n, d))
    if ENGINE is not None:
        ENGINE.defined("root", a)
    return mk("sqrt", (a,))


def fun(name, *args):
    if MODE == "real" and all(is_const(a) for a in args):
        if name in ("sin", "tan", "atan", "asin") and isz(args[0]):
            return const(0)
        if name in ("cos", "exp") and isz(args[0]):
            return const(1)
        if name == "acos" and isone(args[0]):
            return const(0)
    if name == "acos" and ENGINE is not None:
        ENGINE.defined("acos", args[0])
    return mk(name, args)


def absn(a):
    if is_const(a):
        return const(abs(cval(a)))
    if a.op in ("abs", "sqrt", "exp"):
        return a
    if a.op == "sub" and a.args[0].id > a.args[1].id:
        a = mk("sub", a.args[::-1])         # |x - y| is |y - x|, also in binary64
    return mk("abs", (a,))


def ite(c, a, b):
    if c.op == "true":
        return a
    if c.op == "false":
        return b
    if a is b:
        return a
    return mk("ite", (c, a, b), kind=a.kind)


# boolean
def band(*xs):
    out = []
    for x in xs:
        if x.op == "false":
            return FALSE
        if x.op == "true":
            continue
        if x.op == "and":
            out += [y for y in x.args if y not in out]
        elif x not in out:
            out.append(x)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else mk("and", out, kind="b")


def bor(*xs):
    return bnot(band(*[bnot(x) for x in xs]))


def bnot(x):
    if x.op == "true":
        return FALSE
    if x.op == "false":
        return TRUE
    if x.op == "not":
        return x.args[0]
    return mk("not", (x,), kind="b")


def _nanleaves(n, memo={}):
    if not NANABLE:
        return frozenset()
    seen, out, st = set(), set(), [n]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "var" and x.val in NANABLE:
            out.add(x.val)
        if x.op == "const" and x.val[1] == "nan":
            out.add(None)
        st.extend(x.args)
    return out


def isnan(n):
    if MODE == "fp":
        return mk("isnan", (n,), kind="b")
    if n.op == "const":
        return TRUE if n.val[1] == "nan" else FALSE
    ls = _nanleaves(n)
    if None in ls:
        return TRUE
    return bor(*[bvar("nan:" + l) for l in sorted(ls)]) if ls else FALSE


def cmpn(op, a, b):
    if MODE == "real":
        if a.op == "const" and b.op == "const":
            fa = cval(a) if cval(a) is not None else float(a.val[1])
            fb = cval(b) if cval(b) is not None else float(b.val[1])
            return TRUE if {"lt": fa < fb, "le": fa <= fb, "eq": fa == fb}[op] else FALSE
        for x, y, flip in ((a, b, False), (b, a, True)):   # comparison with +-inf / nan
            if x.op == "const" and x.val[0] is None:
                v = float(x.val[1])
                if math.isnan(v) or op == "eq":
                    return FALSE
                res = (v < 0) if not flip else (v > 0)
                r = TRUE if res else FALSE
                return band(bnot(isnan(y)), r)
        if a is b:
            r = FALSE if op == "lt" else TRUE
        else:
            r = mk(op, (a, b), kind="b")
        if NANABLE:
            return band(bnot(isnan(a)), bnot(isnan(b)), r)
        return r
    return mk(op, (a, b), kind="b")


# ------------------------------------------------------------------ proxies
def node(x):
    """node of any scalar"""
    if isinstance(x, SymReal):
        return x.n
    if isinstance(x, SymBool):
        return ite(x.n, const(1), const(0))
    if isinstance(x, Node):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return const(int(x))
    if isinstance(x, (int, _np.integer)):
        return const(int(x))
    if isinstance(x, Fraction):
        return const(x)
    if isinstance(x, (float, _np.floating)):
        return const(float(x))
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return node(x.item())
    raise TypeError(f"not a scalar: {type(x)}")


def bnode(x):
    if isinstance(x, SymBool):
        return x.n
    if isinstance(x, Node):
        return x
    if isinstance(x, SymReal):
        return bnot(cmpn("eq", x.n, const(0)))
    return TRUE if bool(x) else FALSE


def _scalar(x):
    return isinstance(x, (SymReal, SymBool, int, float, Fraction, _np.generic)) or \
        (isinstance(x, _np.ndarray) and x.ndim == 0)


class _ArrayHooks:
    __slots__ = ()

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import npshim
        return npshim.array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import npshim
        return npshim.array_function(func, args, kwargs)


class SymReal(_ArrayHooks):
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def _b(self, o, f, r=False):
        if not _scalar(o):
            return NotImplemented
        o = node(o)
        return SymReal(f(o, self.n) if r else f(self.n, o))

    def __add__(self, o): return self._b(o, add)
    def __radd__(self, o): return self._b(o, add, True)
    def __sub__(self, o): return self._b(o, sub)
    def __rsub__(self, o): return self._b(o, sub, True)
    def __mul__(self, o): return self._b(o, mul)
    def __rmul__(self, o): return self._b(o, mul, True)
    def __truediv__(self, o): return self._b(o, div)
    def __rtruediv__(self, o): return self._b(o, div, True)
    def __pow__(self, o): return self._b(o, power)
    def __rpow__(self, o): return self._b(o, power, True)
    def __mod__(self, o): return self._b(o, lambda a, b: mk("mod", (a, b)))
    def __rmod__(self, o): return self._b(o, lambda a, b: mk("mod", (a, b)), True)
    def __floordiv__(self, o): return self._b(o, lambda a, b: floor(div(a, b)))
    def __rfloordiv__(self, o): return self._b(o, lambda a, b: floor(div(a, b)), True)
    def __neg__(self): return SymReal(neg(self.n))
    def __pos__(self): return self
    def __abs__(self): return SymReal(absn(self.n))

    def _c(self, o, f):
        if not _scalar(o):
            return NotImplemented
        return SymBool(f(self.n, node(o)))

    def __lt__(self, o): return self._c(o, lambda a, b: cmpn("lt", a, b))
    def __le__(self, o): return self._c(o, lambda a, b: cmpn("le", a, b))
    def __gt__(self, o): return self._c(o, lambda a, b: cmpn("lt", b, a))
    def __ge__(self, o): return self._c(o, lambda a, b: cmpn("le", b, a))
    def __eq__(self, o):
        if o is None or not _scalar(o):
            return NotImplemented
        return self._c(o, lambda a, b: cmpn("eq", a, b))
    def __ne__(self, o):
        if o is None or not _scalar(o):
            return NotImplemented
        return self._c(o, lambda a, b: bnot(cmpn("eq", a, b)))
    __hash__ = object.__hash__

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        if is_const(self.n):
            return float(self.n.val[1])
        raise Concretization("float() of a symbolic value")

    def __int__(self):
        if is_const(self.n):
            return int(cval(self.n))
        raise Concretization("int() of a symbolic value")

    def __index__(self):
        if is_const(self.n) and cval(self.n).denominator == 1:
            return int(cval(self.n))
        raise Concretization("index of a symbolic value")

    def __round__(self, nd=None):
        if is_const(self.n):
            return round(float(self), nd) if nd else round(float(self))
        raise Concretization("round of a symbolic value")

    def __format__(self, spec): return "<sym>"
    def __repr__(self): return "S:" + show(self.n, 3)
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def item(self): return self
    def copy(self): return self
    def conjugate(self): return self
    def astype(self, *a, **k): return self
    real = property(lambda s: s)
    imag = property(lambda s: 0.0)
    shape = ()
    ndim = 0
    size = 1

    # object-dtype ufunc fallbacks
    def sqrt(self): return SymReal(sqrt(self.n))
    def sin(self): return SymReal(fun("sin", self.n))
    def cos(self): return SymReal(fun("cos", self.n))
    def tan(self): return SymReal(fun("tan", self.n))
    def arctan(self): return SymReal(fun("atan", self.n))
    def arccos(self): return SymReal(fun("acos", self.n))
    def arcsin(self): return SymReal(fun("asin", self.n))
    def exp(self): return SymReal(fun("exp", self.n))
    def log(self): return SymReal(fun("log", self.n))
    def arctan2(self, o): return SymReal(fun("atan2", self.n, node(o)))
    def isnan(self): return SymBool(isnan(self.n))
    def square(self): return self * self


numbers.Real.register(SymReal)


class SymBool(_ArrayHooks):
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __bool__(self):
        if self.n.op == "true":
            return True
        if self.n.op == "false":
            return False
        if ENGINE is None:
            raise Concretization("truth value outside an engine")
        return ENGINE.branch(self.n)

    def __and__(self, o): return SymBool(band(self.n, bnode(o)))
    __rand__ = __and__
    def __or__(self, o): return SymBool(bor(self.n, bnode(o)))
    __ror__ = __or__
    def __invert__(self): return SymBool(bnot(self.n))
    def __xor__(self, o):
        o = bnode(o)
        return SymBool(bor(band(self.n, bnot(o)), band(bnot(self.n), o)))
    def __eq__(self, o):
        if isinstance(o, (bool, _np.bool_, SymBool)):
            o = bnode(o)
            return SymBool(bor(band(self.n, o), band(bnot(self.n), bnot(o))))
        return SymReal(node(self)) == o
    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SymBool) else r
    __hash__ = object.__hash__
    def _r(self): return SymReal(node(self))
    def __add__(self, o): return self._r() + o
    __radd__ = __add__
    def __sub__(self, o): return self._r() - o
    def __rsub__(self, o): return o - self._r()
    def __mul__(self, o): return self._r() * o
    __rmul__ = __mul__
    def __lt__(self, o): return self._r() < o
    def __le__(self, o): return self._r() <= o
    def __gt__(self, o): return self._r() > o
    def __ge__(self, o): return self._r() >= o
    def __int__(self): return int(bool(self))
    __index__ = __int__
    def __float__(self): return float(bool(self))
    def __deepcopy__(self, memo): return self
    def item(self): return self
    def astype(self, *a): return self._r()
    def all(self): return self
    def any(self): return self
    def __repr__(self): return "B:" + show(self.n, 3)
    shape = ()
    ndim = 0


def S(x):
    return x if isinstance(x, SymReal) else SymReal(node(x))


# ------------------------------------------------------------------ numeric evaluation
def evalf(n, env, memo=None):
    """float value of a node; env maps variable names to floats / bools"""
    memo = {} if memo is None else memo
    order, st, seen = [], [n], set()
    while st:
        x = st.pop()
        if x.id in seen or x.id in memo:
            continue
        seen.add(x.id)
        order.append(x)
        st.extend(x.args)
    # children have smaller ids than parents
    for x in sorted(order, key=lambda t: t.id):
        a = [memo[c.id] for c in x.args]
        memo[x.id] = _ev(x, a, env)
    return memo[n.id]


def _ev(x, a, env):
    o = x.op
    try:
        if o == "const":
            return float(x.val[1])
        if o == "var":
            return env[x.val]
        if o == "bvar":
            return bool(env.get(x.val, False))
        if o == "pi":
            return math.pi
        if o == "add":
            return a[0] + a[1]
        if o == "sub":
            return a[0] - a[1]
        if o == "mul":
            return a[0] * a[1]
        if o == "div":
            return a[0] / a[1]
        if o == "neg":
            return -a[0]
        if o == "abs":
            return abs(a[0])
        if o == "pow":
            q = x.val
            return a[0] ** (int(q) if q.denominator == 1 else float(q))
        if o == "powg":
            return a[0] ** a[1]
        if o == "sqrt":
            return math.sqrt(a[0]) if a[0] >= 0 else math.nan
        if o in ("sin", "cos", "tan", "atan", "acos", "asin", "exp", "log", "atan2"):
            return getattr(math, o)(*a)
        if o == "mod":
            return a[0] % a[1]
        if o == "floor":
            return float(math.floor(a[0]))
        if o == "ite":
            return a[1] if a[0] else a[2]
        if o == "true":
            return True
        if o == "false":
            return False
        if o == "lt":
            return a[0] < a[1]
        if o == "le":
            return a[0] <= a[1]
        if o == "eq":
            return a[0] == a[1]
        if o == "and":
            return all(a)
        if o == "not":
            return not a[0]
        if o == "isnan":
            return math.isnan(a[0])
        if o == "uf":
            return env[("uf", x.id)]
    except (ZeroDivisionError, ValueError, OverflowError, TypeError):
        return math.nan
    raise NotImplementedError(o)


def evalmp(n, env, digits=60):
    """as evalf, with many digits"""
    import mpmath
    with mpmath.workdps(digits):
        mp = mpmath.mp
        memo = {}
        order, st, seen = [], [n], set()
        while st:
            x = st.pop()
            if x.id not in seen:
                seen.add(x.id)
                order.append(x)
                st.extend(x.args)
        for x in sorted(order, key=lambda t: t.id):
            a = [memo[c.id] for c in x.args]
            o = x.op
            try:
                if o == "const":
                    q = x.val[0]
                    r = mp.mpf(q.numerator) / q.denominator if q is not None else mp.mpf(x.val[1])
                elif o == "var":
                    r = mp.mpf(env[x.val])
                elif o == "pi":
                    r = +mp.pi
                elif o in ("sqrt", "pow", "powg"):
                    e = mp.mpf(1) / 2 if o == "sqrt" else mp.mpf(x.val.numerator) / x.val.denominator if o == "pow" else a[1]
                    r = mp.nan if a[0] < 0 and e != int(e) else mp.power(a[0], int(e) if e == int(e) else e)
                elif o in ("sin", "cos", "tan", "atan", "acos", "asin", "exp", "log", "atan2"):
                    r = getattr(mp, o)(*a)
                    r = r if isinstance(r, mpmath.mpf) else mp.nan
                elif o == "mod":
                    r = a[0] - a[1] * mp.floor(a[0] / a[1])
                elif o == "floor":
                    r = mp.floor(a[0])
                elif o == "isnan":
                    r = mpmath.isnan(a[0])
                else:
                    r = _ev(x, a, env)
            except (ZeroDivisionError, ValueError, OverflowError, TypeError):
                r = mp.nan
            memo[x.id] = r
        r = memo[n.id]
        return bool(r) if isinstance(r, bool) else r


def variables(*ns):
    seen, out, st = set(), [], list(ns)
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op in ("var", "bvar"):
            out.append(x)
        st.extend(x.args)
    return out


# ------------------------------------------------------------------ differentiation
def diff(n, v, memo=None):
    """d n / d v (v a var node), other variables held fixed"""
    memo = {} if memo is None else memo
    if n.id in memo:
        return memo[n.id]
    a = n.args
    o = n.op
    if o in ("const", "pi"):
        r = const(0)
    elif o == "var":
        r = const(1 if n is v else 0)
    else:
        d = [diff(c, v, memo) if c.kind == "r" else None for c in a]
        if all(isz(x) for x in d if x is not None):
            r = const(0)
        elif o == "add":
            r = add(d[0], d[1])
        elif o == "sub":
            r = sub(d[0], d[1])
        elif o == "neg":
            r = neg(d[0])
        elif o == "mul":
            r = add(mul(d[0], a[1]), mul(a[0], d[1]))
        elif o == "div":
            if isz(d[1]):
                r = div(d[0], a[1])
            else:
                r = div(sub(mul(d[0], a[1]), mul(a[0], d[1])), mul(a[1], a[1]))
        elif o == "pow":
            r = mul(mul(const(n.val), power(a[0], const(n.val - 1))), d[0])
        elif o == "sqrt":
            r = div(d[0], mul(const(2), n))
        elif o == "sin":
            r = mul(fun("cos", a[0]), d[0])
        elif o == "cos":
            r = neg(mul(fun("sin", a[0]), d[0]))
        elif o == "tan":
            r = mul(add(const(1), mul(n, n)), d[0])
        elif o == "exp":
            r = mul(n, d[0])
        elif o == "atan":
            r = div(d[0], add(const(1), mul(a[0], a[0])))
        elif o == "acos":
            r = neg(div(d[0], sqrt(sub(const(1), mul(a[0], a[0])))))
        elif o == "atan2":
            y, x = a
            r = div(sub(mul(x, d[0]), mul(y, d[1])), add(mul(x, x), mul(y, y)))
        elif o == "abs":
            r = mul(div(a[0], n), d[0])
        elif o == "powg" and isz(d[1]):
            r = mul(mul(a[1], div(n, a[0])), d[0])
        else:
            raise NotImplementedError("diff " + o)
    memo[n.id] = r
    return r


def substitute(n, mapping, memo=None):
    """mapping: var name -> node"""
    memo = {} if memo is None else memo
    if n.id in memo:
        return memo[n.id]
    if n.op in ("var", "bvar") and n.val in mapping:
        r = mapping[n.val]
    elif not n.args:
        r = n
    else:
        a = [substitute(c, mapping, memo) for c in n.args]
        r = rebuild(n, a)
    memo[n.id] = r
    return r


def rebuild(n, a):
    o = n.op
    f = {"add": add, "sub": sub, "mul": mul, "div": div, "neg": neg, "sqrt": sqrt,
         "abs": absn, "ite": ite, "and": band, "not": bnot}.get(o)
    if f:
        return f(*a)
    if o == "pow":
        return power(a[0], const(n.val))
    if o in ("lt", "le", "eq"):
        return cmpn(o, *a)
    if o in ("sin", "cos", "tan", "atan", "acos", "asin", "exp", "log", "atan2"):
        return fun(o, *a)
    return mk(o, a, n.val, n.kind)
