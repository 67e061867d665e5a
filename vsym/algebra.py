"""Normal forms for expressions with trigonometric functions and roots.

Every real-valued DAG node becomes a quotient of polynomials with integer coefficients over
generators: input variables, sin/cos of angle variables, roots, exponentials, and the values
of inverse trigonometric functions.  Generators carry their defining relation (s^2 = 1-c^2,
v^2 = S, ...), and polynomials are kept reduced by it.  Conditions and equalities become
polynomial constraints over the generators, together with the defining relations of every
generator involved; these are what the solver decides.  The rewriting is equality preserving,
so an expression that becomes the zero polynomial is zero everywhere the code is defined."""
from fractions import Fraction
import math
import time
from math import gcd, isqrt
from . import expr as E
from .lower import z3, RealLower

BITS = 12
MASK = (1 << BITS) - 1
MAXTERMS = 60000


class TooBig(Exception):
    pass


class Singular(Exception):
    """division by the zero polynomial"""


# ------------------------------------------------------------------ polynomials
def pmul_raw(a, b):
    if len(a) > len(b):
        a, b = b, a
    r = {}
    get = r.get
    for ma, ca in a.items():
        for mb, cb in b.items():
            m = ma + mb
            r[m] = get(m, 0) + ca * cb
    if len(r) > MAXTERMS:
        raise TooBig()
    return {m: c for m, c in r.items() if c}


def padd(a, b, ka=1, kb=1):
    r = {m: c * ka for m, c in a.items()} if ka != 1 else dict(a)
    for m, c in b.items():
        c = r.get(m, 0) + c * kb
        if c:
            r[m] = c
        else:
            r.pop(m, None)
    return r


def pscale(a, k):
    return {m: c * k for m, c in a.items()} if k != 1 else a


def pcontent(a):
    g = 0
    for c in a.values():
        g = gcd(g, c)
        if g == 1:
            return 1
    return g


def mexps(m):
    out, i = [], 0
    while m:
        e = m & MASK
        if e:
            out.append((i, e))
        m >>= BITS
        i += 1
    return out


def pgens(a):
    u = 0
    for m in a:
        u |= m
    return [i for i, _ in mexps(u)]


def pkey(a):
    return frozenset(a.items())


ONE = {0: 1}


class Elem:
    """num / (q * prod f^e)"""
    __slots__ = ("num", "q", "den")

    def __init__(self, num, q=1, den=None):
        self.num, self.q, self.den = num, q, den or {}


def ekey(e):
    return pkey(e.num), e.q, frozenset(e.den.items())


class Gen:
    __slots__ = ("i", "name", "kind", "deg", "rel", "z", "data", "deps", "cons", "ev")

    def __init__(self, i, name, kind, z):
        self.i, self.name, self.kind, self.z = i, name, kind, z
        self.deg = 0          # relation g^deg = rel
        self.rel = None
        self.data = None
        self.deps = frozenset()
        self.cons = []        # z3 side conditions defining it
        self.ev = None        # its value at a sample point


class Factor:
    __slots__ = ("poly", "gens", "sign", "lead", "id")


class AlgLower(RealLower):
    """same interface as RealLower"""

    def __init__(self, env):
        super().__init__()
        self.env = env
        self.gens = []
        self.byname = {}
        self.factors = []
        self.fkey = {}
        self.el = {}              # node id -> Elem
        self.trig = {}            # gen index -> (sin Elem, cos Elem)
        self.keyed = {}           # kind -> list of (key..., value)
        self.subst = {}           # gen index -> Fraction
        self.rels = []            # (gen index, deg)
        self.conz = []            # (z3 constraint, gen set) of the path condition
        self.signs = {}
        self.zmemo = {}
        self.bools = {}
        self.stats = {"sign_queries": 0, "time": 0.0}
        self.trigvars = {}
        self.products = {}
        self.absdef = {}
        self.abstracted = {}
        self.nforced = 0

    # -------------------------------------------------------------- generators
    def gen(self, name, kind, z=None):
        g = Gen(len(self.gens), name, kind, z if z is not None else z3.Real(name))
        self.gens.append(g)
        self.byname[name] = g
        return g

    # ---- sample points: cheap hints that a sign is open or a branch feasible
    def gval(self, i, pt):
        v = pt.g.get(i)
        if v is None:
            G = self.gens[i]
            try:
                v = float(pt.v[G.name]) if G.kind == "var" else math.pi if G.kind == "pi" else float(G.ev(pt))
            except (KeyError, TypeError, ValueError, OverflowError, ZeroDivisionError):
                v = math.nan
            pt.g[i] = v
        return v

    def pval(self, p, pt):
        """value and magnitude of a polynomial at a sample point"""
        t = mag = 0.0
        try:
            for m, c in p.items():
                x = float(c)
                for i, e in mexps(m):
                    x *= self.gval(i, pt) ** e
                t += x
                mag += abs(x)
        except OverflowError:
            return math.nan, math.nan
        return t, mag

    def ival(self, e, pt):
        t = self.pval(e.num, pt)[0] / e.q
        for k, x in e.den.items():
            t /= self.pval(self.factors[k].poly, pt)[0] ** x
        return t

    def signs_seen(self, p):
        """signs p clearly takes at the sample points of the path"""
        out = set()
        for pt in self.env.points:
            t, mag = self.pval(p, pt)
            if abs(t) > 1e-7 * mag:
                out.add(1 if t > 0 else -1)
                if len(out) == 2:
                    break
        return out

    def closure(self, gs):
        out, st = set(), list(gs)
        while st:
            i = st.pop()
            if i in out:
                continue
            out.add(i)
            st += self.gens[i].deps
        return out

    def var_gen(self, name):
        g = self.byname.get(name)
        if g is None:
            g = self.gen(name, "var", z3.Real(name))
            self.vars[name] = g.z
        return g

    def pi_gen(self):
        g = self.byname.get("pi!")
        if g is None:
            g = self.gen("pi!", "pi", self.pi())
            g.cons = [g.z > RealQ("3.14159265358979"), g.z < RealQ("3.14159265358980")]
        return g

    # -------------------------------------------------------------- reduction
    def reduce(self, p):
        """apply the relations g^deg = rel"""
        if not self.rels:
            return p
        while True:
            bad = None
            u = 0
            for m in p:
                u |= m                     # OR of exponents bounds each from below
            for i, d in reversed(self.rels):
                sh = BITS * i
                if (u >> sh) & MASK >= d:
                    if any((m >> sh) & MASK >= d for m in p):
                        bad = (i, d)
                        break
            if bad is None:
                return p
            i, d = bad
            sh = BITS * i
            rel = self.gens[i].rel
            keep, groups = {}, {}
            for m, c in p.items():
                e = (m >> sh) & MASK
                if e >= d:
                    k = e // d
                    groups.setdefault(k, {})[m - ((k * d) << sh)] = c
                else:
                    keep[m] = c
            acc = {}
            for k in sorted(groups, reverse=True):
                pw = self.ppow_raw(rel, k)
                acc = padd(acc, pmul_raw(groups[k], pw))
            p = padd(keep, acc)

    def ppow_raw(self, p, k):
        r = ONE
        for _ in range(k):
            r = pmul_raw(r, p)
        return r

    def pmul(self, a, b):
        return self.reduce(pmul_raw(a, b))

    # -------------------------------------------------------------- factors of denominators
    def factor(self, p):
        """register a primitive polynomial with positive leading coefficient"""
        k = pkey(p)
        f = self.fkey.get(k)
        if f is None:
            f = Factor()
            f.poly, f.gens, f.sign, f.lead, f.id = p, frozenset(pgens(p)), None, max(p), len(self.factors)
            self.factors.append(f)
            self.fkey[k] = f
        return f

    def split(self, p):
        """content * prod factor^e, trial division by known factors"""
        c, mm, p = self.primitive(p)
        fs = {}
        for i, e in mm.items():
            fs[self.factor({1 << (BITS * i): 1}).id] = e
        prod = self.products.get(pkey(p)) if len(p) > 1 else None
        if prod:
            c0, mm0, a, b = prod
            f2 = dict(fs)
            ca, fa = self.split(a)
            cb, fb = self.split(b)
            for f in (fa, fb):
                for k, e in f.items():
                    f2[k] = f2.get(k, 0) + e
            for i, e in mm0.items():
                k = self.factor({1 << (BITS * i): 1}).id
                f2[k] = f2.get(k, 0) - e
            if (c * ca * cb) % c0 == 0 and all(e >= 0 for e in f2.values()):
                return c * ca * cb // c0, {k: e for k, e in f2.items() if e}
        if p != ONE and len(p) > 1:
            gs = frozenset(pgens(p))
            if pkey(p) not in self.fkey:
                for f in list(self.factors):
                    if len(f.poly) < 2 or not f.gens <= gs or len(f.poly) > len(p) * 4:
                        continue
                    while True:
                        qt = self.exdiv(p, f.poly)
                        if qt is None:
                            break
                        fs[f.id] = fs.get(f.id, 0) + 1
                        p = qt
                    if len(p) == 1:
                        break
            if len(p) > 1:
                c2 = pcontent(p)
                if p[max(p)] < 0:
                    c2 = -c2
                if c2 != 1:
                    p = {m: v // c2 for m, v in p.items()}
                    c *= c2
                f = self.factor(p)
                fs[f.id] = fs.get(f.id, 0) + 1
                p = ONE
        if len(p) == 1:
            (m, v), = p.items()
            c *= v
            for i, e in mexps(m):
                k = self.factor({1 << (BITS * i): 1}).id
                fs[k] = fs.get(k, 0) + e
        return c, fs

    def exdiv(self, a, b):
        """exact quotient of integer polynomials, or None"""
        lb = max(b)
        cb = b[lb]
        sb = min(b)
        if min(a) < sb or not _mdiv(min(a), sb):
            return None
        r = dict(a)
        qt = {}
        n = 0
        lim = 4 * len(a) + 50
        while r:
            m = max(r)
            if not _mdiv(m, lb):
                return None
            c = r[m]
            if c % cb:
                return None
            c //= cb
            d = m - lb
            qt[d] = c
            for mb, v in b.items():
                k = d + mb
                w = r.get(k, 0) - c * v
                if w:
                    r[k] = w
                else:
                    r.pop(k, None)
            n += 1
            if n > lim:
                return None
        return qt

    # -------------------------------------------------------------- field operations
    def const(self, fr):
        fr = Fraction(fr)
        return Elem({0: fr.numerator} if fr else {}, fr.denominator)

    def norm(self, e, cancel=True):
        if not e.num:
            return Elem({})
        g = gcd(pcontent(e.num), e.q)
        if g > 1:
            e = Elem({m: c // g for m, c in e.num.items()}, e.q // g, e.den)
        if cancel and e.den:
            den = dict(e.den)
            num = e.num
            ch = False
            for k in list(den):
                f = self.factors[k]
                if len(num) > 400 and len(f.poly) > 1:
                    continue
                while den.get(k):
                    qt = self.exdiv(num, f.poly)
                    if qt is None:
                        break
                    num = qt
                    ch = True
                    den[k] -= 1
                    if not den[k]:
                        del den[k]
            if ch:
                e = Elem(num, e.q, den)
        return e

    def add(self, a, b, kb=1):
        if not a.num:
            return Elem(pscale(b.num, kb), b.q, b.den)
        if not b.num:
            return a
        den = dict(a.den)
        for k, v in b.den.items():
            if den.get(k, 0) < v:
                den[k] = v
        na = self.lift(a.num, a.den, den)
        nb = self.lift(b.num, b.den, den)
        q = a.q * b.q // gcd(a.q, b.q)
        return self.norm(Elem(padd(na, nb, q // a.q, kb * (q // b.q)), q, den))

    def lift(self, num, have, want):
        for k, v in want.items():
            for _ in range(v - have.get(k, 0)):
                num = self.pmul(num, self.factors[k].poly)
        return num

    def mul(self, a, b):
        if not a.num or not b.num:
            return Elem({})
        # cancel across before multiplying
        a2, b2 = self.xcancel(a.num, b.den), self.xcancel(b.num, a.den)
        den = dict(a2[1])
        for k, v in b2[1].items():
            den[k] = den.get(k, 0) + v
        # a2[1] is b.den reduced, b2[1] is a.den reduced
        num = self.pmul(a2[0], b2[0])
        if self.rels and 1 < len(num) <= 2000 and len(a2[0]) > 1 and len(b2[0]) > 1:
            self.remember(num, a2[0], b2[0])
        return self.norm(Elem(num, a.q * b.q, den))

    def remember(self, num, a, b):
        """num was the product of a and b before it was reduced by the relations"""
        c, mm, p = self.primitive(num)
        k = pkey(p)
        if k not in self.products:
            self.products[k] = (c, mm, a, b)

    def primitive(self, p):
        """content, monomial and the rest of a polynomial"""
        c = pcontent(p)
        if p[max(p)] < 0:
            c = -c
        if c != 1:
            p = {m: v // c for m, v in p.items()}
        mm = None
        for m in p:
            ex = dict(mexps(m))
            mm = ex if mm is None else {i: min(e, ex[i]) for i, e in mm.items() if i in ex}
            if not mm:
                break
        if mm:
            sh = sum(e << (BITS * i) for i, e in mm.items())
            p = {m - sh: v for m, v in p.items()}
        return c, mm or {}, p

    def xcancel(self, num, den):
        if not den:
            return num, den
        den = dict(den)
        for k in list(den):
            f = self.factors[k]
            if len(num) > 400 and len(f.poly) > 1:
                continue
            while den.get(k):
                qt = self.exdiv(num, f.poly)
                if qt is None:
                    break
                num = qt
                den[k] -= 1
                if not den[k]:
                    del den[k]
        return num, den

    def inv(self, a):
        if not a.num:
            raise Singular()
        c, fs = self.split(a.num)
        num = {0: a.q if c > 0 else -a.q}
        for k, v in a.den.items():
            for _ in range(v):
                num = self.pmul(num, self.factors[k].poly)
        return self.norm(Elem(num, abs(c), fs))

    def div(self, a, b):
        return self.mul(a, self.inv(b))

    def pw(self, a, n):
        if n < 0:
            return self.pw(self.inv(a), -n)
        r = self.const(1)
        while n:
            if n & 1:
                r = self.mul(r, a)
            n >>= 1
            if n:
                a = self.mul(a, a)
        return r

    def is_zero(self, a):
        return not a.num

    def same(self, a, b):
        try:
            return self.is_zero(self.add(a, b, -1))
        except TooBig:
            return False

    def g_elem(self, g):
        return Elem({1 << (BITS * g.i): 1})

    # -------------------------------------------------------------- z3 side
    def zpoly(self, p):
        k = pkey(p)
        r = self.zmemo.get(k)
        if r is None:
            ts = []
            for m, c in p.items():
                fs = [z3.RealVal(c)] if c != 1 or not m else []
                for i, e in mexps(m):
                    fs += [self.gens[i].z] * e
                t = fs[0]
                for x in fs[1:]:
                    t = t * x
                ts.append(t)
            r = z3.RealVal(0) if not ts else ts[0] if len(ts) == 1 else z3.Sum(ts)
            self.zmemo[k] = r
        return r

    def gen_constraints(self, gs):
        out = []
        for i in sorted(self.closure(gs)):
            out += self.gens[i].cons
        return out

    def relevant(self, gs):
        """defining relations and the path conditions that only involve these generators"""
        cl = self.closure(gs)
        out = []
        for i in sorted(cl):
            out += self.gens[i].cons
        for zc, cg in self.conz:
            if cg <= cl:
                out.append(zc)
        return out

    def connected(self, gs):
        """generators tied to gs by path conditions"""
        cl = self.closure(gs)
        grew = True
        while grew:
            grew = False
            for _, cg in self.conz:
                if cg & cl and not cg <= cl:
                    cl |= self.closure(cg)
                    grew = True
        return cl

    def ask(self, zs, gs, ms=4000):
        """z3 verdict on zs with the constraints relevant for gs, then with everything"""
        t = time.time()
        self.stats["sign_queries"] += 1
        r = z3.unknown
        for full in (False, True):
            s = z3.Tactic("qfnra-nlsat").solver()
            s.set("timeout", ms if not full else ms // 2)
            s.add(*(self.relevant(gs) if not full else self.relevant(self.connected(gs))))
            s.add(*zs)
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r == z3.unsat:
                break
            if not full and self.connected(gs) == self.closure(gs):
                break
        dt = time.time() - t
        self.stats["time"] += dt
        st = self.env.eng.stats
        st.queries += 1
        st.solver_s += dt
        return r

    def sign(self, p):
        """+1 / -1 if p has that sign on the whole path, 0 if it is nonnegative, else None"""
        if len(p) == 1 and 0 in p:
            return 1 if p[0] > 0 else -1
        k = pkey(p)
        if k in self.signs and self.signs[k] is not None:
            return self.signs[k]
        ver = len(self.conz)
        if self.signs.get(("ver", k)) == ver:
            return None
        z = self.zpoly(p)
        gs = pgens(p)
        r = None
        if self.hard(gs):
            self.signs[k], self.signs[("ver", k)] = None, ver
            return None
        seen = self.signs_seen(p)
        if -1 not in seen and self.ask([z <= 0], gs) == z3.unsat:
            r = 1
        elif 1 not in seen and self.ask([z >= 0], gs) == z3.unsat:
            r = -1
        elif -1 not in seen and self.ask([z < 0], gs) == z3.unsat:
            r = 0
        self.signs[k] = r
        self.signs[("ver", k)] = ver
        return r

    def hard(self, gs):
        """beyond what the solver decides: several cube roots"""
        return sum(self.gens[i].kind == "root" and self.gens[i].deg > 2 for i in gs) > 1

    def fsign(self, k):
        f = self.factors[k]
        if f.sign is None:
            s = self.sign(f.poly)
            if s in (1, -1):
                f.sign = s
            return s
        return f.sign

    def decide_sign(self, p):
        """sign of p as +1 or -1 (0 counts as +1), forking the path when open"""
        s = self.sign(p)
        if s is None:
            d = self.env.branch_z(lambda: self.zpoly(p) >= 0, pgens(p), ("sign", pkey(p)), p)
            s = 0 if d else -1
            self.signs[pkey(p)] = s
        return s

    # -------------------------------------------------------------- elements of nodes
    def elem(self, n):
        r = self.el.get(n.id)
        if r is not None:
            return r
        order, st, seen = [], [n], set()
        while st:
            x = st.pop()
            if x.id in seen or x.id in self.el:
                continue
            seen.add(x.id)
            order.append(x)
            if x.op != "ite":
                st.extend(c for c in x.args if c.kind == "r")
        for x in sorted(order, key=lambda t: t.id):
            if x.id not in self.el:
                r = self.conv(x)
                if self.abstracted and x.op in ("add", "sub", "neg", "mul", "div"):
                    r = self.abstracted.get(ekey(r), r)
                self.el[x.id] = r
        return self.el[n.id]

    def abstract(self, n, name, lo, hi):
        """from now on this value is just some number between lo and hi"""
        r = self.elem(n)
        g = self.gen(name, "abs")
        g.ev = lambda pt: self.ival(r, pt)
        g.cons = [g.z > RealQ(lo), g.z < RealQ(hi)]
        v = self.g_elem(g)
        self.absdef[g.i] = r
        self.abstracted[ekey(r)] = v
        self.abstracted[ekey(Elem(pscale(r.num, -1), r.q, r.den))] = Elem(pscale(v.num, -1))
        self.el[n.id] = v

    def conv(self, x):
        o = x.op
        a = [self.elem(c) for c in x.args if c.kind == "r"] if o != "ite" else []
        if o == "const":
            if x.val[0] is None:
                raise E.Concretization("infinite or nan constant")
            return self.const(x.val[0])
        if o == "pi":
            return self.g_elem(self.pi_gen())
        if o == "var":
            g = self.var_gen(x.val)
            if g.i in self.subst:
                return self.subst[g.i]
            return self.g_elem(g)
        if o == "add":
            return self.add(*a)
        if o == "sub":
            return self.add(a[0], a[1], -1)
        if o == "mul":
            return self.mul(*a)
        if o == "div":
            return self.div(*a)
        if o == "neg":
            return Elem(pscale(a[0].num, -1), a[0].q, a[0].den)
        if o == "abs":
            s = self.esign(a[0])
            return a[0] if s >= 0 else Elem(pscale(a[0].num, -1), a[0].q, a[0].den)
        if o == "sqrt":
            return self.root(a[0], Fraction(1, 2))
        if o == "pow":
            if x.val.denominator == 1:
                return self.pw(a[0], int(x.val))
            return self.root(a[0], x.val)
        if o == "powg":
            return self.powg(a[0], a[1])
        if o == "sin":
            return self.angle(a[0])[0]
        if o == "cos":
            return self.angle(a[0])[1]
        if o == "tan":
            h = self.half(a[0])
            if h is not None:
                s, c = h
                return self.div(s, self.add(self.const(1), c))
            s, c = self.angle(a[0])
            return self.div(s, c)
        if o in ("atan2", "atan", "acos", "asin"):
            return self.inverse(o, a)
        if o == "exp":
            return self.exp(a[0])
        if o == "mod":
            return self.mod(*a)
        if o == "ite":
            c = self.env.branch(x.args[0])
            return self.elem(x.args[1] if c else x.args[2])
        if o == "uf":
            nm = f"uf:{x.val}:{x.id}"
            g = self.byname.get(nm) or self.gen(nm, "uf", z3.Real(nm))
            return self.g_elem(g)
        raise E.Concretization(f"no normal form for {o}")

    def esign(self, e):
        """sign of an element, forking if needed"""
        if not e.num:
            return 0
        s = 1
        for k, v in e.den.items():
            if v % 2:
                t = self.fsign(k)
                if t not in (1, -1):
                    t = 1 if self.decide_sign(self.factors[k].poly) >= 0 else -1
                s *= t
        c, fs = self.split(e.num)
        s *= 1 if c > 0 else -1
        rest = ONE
        for k, v in fs.items():
            if v % 2:
                t = self.fsign(k)
                if t in (1, -1):
                    s *= t
                else:
                    rest = self.pmul(rest, self.factors[k].poly)
        if rest != ONE:
            if rest:
                t = self.decide_sign(rest)
                s *= 1 if t >= 0 else -1
        return s

    # -------------------------------------------------------------- angles
    def linear(self, e):
        """{gen or None: coefficient} if e is linear with rational coefficients"""
        if e.den:
            return None
        out = {}
        for m, c in e.num.items():
            ex = mexps(m)
            if not ex:
                out[None] = Fraction(c, e.q)
            elif len(ex) == 1 and ex[0][1] == 1:
                out[ex[0][0]] = Fraction(c, e.q)
            else:
                return None
        return out

    def half(self, e):
        """(sin, cos) of 2e if e has half-integer coefficients, so tan e = sin/(1+cos)"""
        l = self.linear(e)
        if l is None or all(v.denominator == 1 for v in l.values()):
            return None
        d = Elem(pscale(e.num, 2), e.q)
        d = self.norm(d)
        return self.angle(d)

    def angle(self, e):
        """(sin e, cos e)"""
        l = self.linear(e)
        if l is None:
            return self.basic_angle("expr", e)
        s, c = self.const(0), self.const(1)
        for g, k in l.items():
            if g is None:
                sg, cg = self.basic_angle("const", k)
                n = 1
            elif self.gens[g].kind == "pi":
                k2 = k * 2
                if k2.denominator != 1:
                    sg, cg = self.basic_angle("pi", k)
                    n = 1
                else:
                    sg, cg = [(0, 1), (1, 0), (0, -1), (-1, 0)][int(k2) % 4]
                    sg, cg, n = self.const(sg), self.const(cg), 1
            else:
                unit = self.unit(g, k)
                sg, cg = self.gen_trig(g, unit)
                n = k / unit
                assert n.denominator == 1
                n = int(n)
            sg, cg = self.multiple(sg, cg, n)
            s, c = (self.add(self.mul(s, cg), self.mul(c, sg)),
                    self.add(self.mul(c, cg), self.mul(s, sg), -1))
        return s, c

    def unit(self, g, k):
        us = self.trigvars.setdefault(g, [])
        if not us:
            us.append(Fraction(1, k.denominator))
        for u in us:
            if (k / u).denominator == 1:
                return u
        raise E.Concretization(f"angle {self.gens[g].name} used at multiple {k} and {us}")

    def gen_trig(self, g, unit):
        t = self.trig.get((g, unit))
        if t is None:
            if (g, Fraction(1)) in self.trig and unit != 1:
                raise E.Concretization("half of a computed angle")
            G = self.gens[g]
            t = self.trig[(g, unit)] = self.new_angle(f"{G.name}" if unit == 1 else f"{G.name}/{1/unit}", {g},
                                                      lambda pt: self.gval(g, pt) * float(unit))
            self.trigvars.setdefault(g, [unit])
            G.data = (unit, t)
        return t

    def new_angle(self, nm, deps, arg):
        cg = self.gen("cos:" + nm, "cos")
        sg = self.gen("sin:" + nm, "sin")
        sg.ev = lambda pt: math.sin(arg(pt))
        cg.ev = lambda pt: math.cos(arg(pt))
        cg.deps = frozenset({sg.i})
        sg.deps = frozenset({cg.i})
        cg.cons = [cg.z * cg.z + sg.z * sg.z == 1, cg.z <= 1, cg.z >= -1]
        sg.deg, sg.rel = 2, {0: 1, 2 << (BITS * cg.i): -1}
        sg.data = cg.data = (sg, cg)
        self.rels.append((sg.i, 2))
        return self.g_elem(sg), self.g_elem(cg)

    def basic_angle(self, kind, key):
        lst = self.keyed.setdefault("angle:" + kind, [])
        for k, v in lst:
            if (self.same(k, key) if kind == "expr" else k == key):
                return v
        if kind == "expr":
            neg = Elem(pscale(key.num, -1), key.q, key.den)
            for k, v in lst:
                if self.same(k, neg):
                    return Elem(pscale(v[0].num, -1), v[0].q, v[0].den), v[1]
        v = self.new_angle(f"{kind}{len(lst)}", set(), (lambda pt: self.ival(key, pt)) if kind == "expr" else
                           (lambda pt: float(key) * (math.pi if kind == "pi" else 1)))
        if kind == "const":
            s, c = v
            f = float(key)
            for el, val in ((s, math.sin(f)), (c, math.cos(f))):
                gg = self.gens[mexps(next(iter(el.num)))[0][0]]
                gg.cons = gg.cons + [gg.z > RealQ(val - 1e-12), gg.z < RealQ(val + 1e-12)]
        lst.append((key, v))
        return v

    def multiple(self, s, c, n):
        if n < 0:
            s, c = self.multiple(s, c, -n)
            return Elem(pscale(s.num, -1), s.q, s.den), c
        rs, rc = self.const(0), self.const(1)
        for _ in range(n):
            rs, rc = self.add(self.mul(rs, c), self.mul(rc, s)), self.add(self.mul(rc, c), self.mul(rs, s), -1)
        return rs, rc

    def inverse(self, o, a):
        """value of an inverse trigonometric function, with its sine and cosine"""
        one = self.const(1)
        if o == "atan2":
            y, x = a
            if not y.num and not x.num:
                return self.const(0)
            rho2 = self.add(self.mul(y, y), self.mul(x, x))
            if not y.num:
                return self.const(0) if self.esign(x) >= 0 else self.g_elem(self.pi_gen())
            if self.zero_on_path(rho2):
                return self.const(0)
            rho = self.root(rho2, Fraction(1, 2))
            s, c = self.div(y, rho), self.div(x, rho)
        elif o == "atan":
            y = a[0]
            if not y.num:
                return self.const(0)
            rho = self.root(self.add(one, self.mul(y, y)), Fraction(1, 2))
            s, c = self.div(y, rho), self.inv(rho)
        elif o == "acos":
            c = a[0]
            s = self.root(self.add(one, self.mul(c, c), -1), Fraction(1, 2))
        else:
            s = a[0]
            c = self.root(self.add(one, self.mul(s, s), -1), Fraction(1, 2))
        return self.angle_value(o, {"atan2": 2, "atan": 1, "asin": 1, "acos": 0}[o], s, c)

    def mod(self, a, b):
        """a modulo whole turns"""
        l = self.linear(b)
        if l and len(l) == 1 and None not in l:
            (g, k), = l.items()
            if self.gens[g].kind == "pi" and k == 2:
                if not a.num:
                    return a
                s, c = self.angle(a)
                return self.angle_value("mod", 3, s, c)
        raise E.Concretization("no normal form for this modulo")

    def angle_value(self, o, rng, s, c):
        """the angle with this sine and cosine in the range of kind rng"""
        lst = self.keyed.setdefault("inv:%d" % rng, [])
        for k, v in lst:
            if self.same(k[0], s) and self.same(k[1], c):
                return v
        pi = self.pi_gen()
        for h in self.env.hints:        # an input angle that is this angle
            e = self.elem(h)
            hs, hc = self.angle(e)
            if self.same(hs, s) and self.same(hc, c):
                z, p = self.zpoly(e.num) / e.q, pi.z
                out = {2: z3.Or(z <= -p, z > p), 1: z3.Or(2 * z <= -p, 2 * z >= p), 0: z3.Or(z < 0, z > p), 3: z3.Or(z < 0, z >= 2 * p)}[rng]
                if self.ask([out], set(pgens(e.num)) | {pi.i}) == z3.unsat:
                    lst.append(((s, c), e))
                    return e
        g = self.gen(f"{o}#{len(self.gens)}", "angle")
        g.deps = frozenset({pi.i}) | frozenset(self.egens(s)) | frozenset(self.egens(c))
        g.ev = lambda pt: math.atan2(self.ival(s, pt), self.ival(c, pt)) % (2 * math.pi if rng == 3 else 1e9) \
            if rng == 3 else math.atan2(self.ival(s, pt), self.ival(c, pt))
        z, p = g.z, pi.z
        g.cons = {2: [z >= -p, z <= p], 1: [2 * z >= -p, 2 * z <= p], 0: [z >= 0, z <= p], 3: [z >= 0, z < 2 * p]}[rng]
        # the sign of the angle follows the sign of its sine, its size the sign of its cosine
        zs, zc = self.zsign(s), self.zsign(c)
        if zs is not None and rng == 3:
            g.cons += [z3.Implies(zs > 0, z3.And(z > 0, z < p)), z3.Implies(zs < 0, z > p)]
        elif zs is not None:
            g.cons += [z3.Implies(zs > 0, z3.And(z > 0, z < p)), z3.Implies(zs < 0, z3.And(z < 0, z > -p))]
        if zs is not None and zc is not None:
            g.cons += [z3.Implies(z3.And(zs == 0, zc > 0), z == 0), z3.Implies(z3.And(zs == 0, zc < 0), z == p)]
        self.trig[(g.i, Fraction(1))] = (s, c)
        self.trigvars[g.i] = [Fraction(1)]
        v = self.g_elem(g)
        lst.append(((s, c), v))
        return v

    def zsign(self, e):
        """z3 term with the sign of e"""
        t = e.num
        try:
            for k, v in e.den.items():
                if v % 2:
                    s = self.fsign(k)
                    if s == -1:
                        t = pscale(t, -1)
                    elif s != 1:
                        t = self.pmul(t, self.factors[k].poly)
            return self.zpoly(t)
        except TooBig:
            return None

    def egens(self, e):
        s = set(pgens(e.num))
        for k in e.den:
            s |= self.factors[k].gens
        return s

    def zero_on_path(self, e):
        """does e vanish? forks when both are possible"""
        if not e.num:
            return True
        s = self.sign(e.num) if len(e.num) < 500 else 1
        if s in (1, -1):
            return False
        if self.ask([self.zpoly(e.num) == 0], pgens(e.num)) == z3.unsat:
            return False
        p = e.num
        return self.env.branch_z(lambda: self.zpoly(p) == 0, pgens(p), ("zero", pkey(p)))

    # -------------------------------------------------------------- roots and exponentials
    def ffactor(self, p):
        """(content, [(poly, exponent)]) by full factorisation"""
        c, fs = self.split(p)
        out = {}
        for k, e in fs.items():
            for q, m in self.irreducible(self.factors[k].poly):
                kk = pkey(q)
                if kk in out:
                    out[kk] = (q, out[kk][1] + e * m)
                else:
                    out[kk] = (q, e * m)
        return c, list(out.values())

    def irreducible(self, p):
        if len(p) == 1 or len(p) > 600:
            return [(p, 1)]
        k = ("irr", pkey(p))
        if k in self.zmemo:
            return self.zmemo[k]
        import sympy
        gs = pgens(p)
        R = sympy.polys.rings.ring([f"x{i}" for i in range(len(gs))], sympy.ZZ)[0]
        pos = {g: j for j, g in enumerate(gs)}
        d = {}
        for m, c in p.items():
            ex = [0] * len(gs)
            for i, e in mexps(m):
                ex[pos[i]] = e
            d[tuple(ex)] = c
        c, fl = R.from_dict(d).factor_list()
        out = []
        for f, e in fl:
            q = {}
            for ex, v in f.items():
                q[sum(x << (BITS * gs[j]) for j, x in enumerate(ex))] = int(v)
            if q[max(q)] < 0:
                q = pscale(q, -1)
            out.append((q, e))
        self.zmemo[k] = out
        return out

    def cos_of(self, p):
        """generator index c and sign if p is 1-c or 1+c for a cosine generator"""
        if len(p) == 2 and p.get(0) is not None and abs(p[0]) == 1:
            (m, v), = [(m, v) for m, v in p.items() if m]
            ex = mexps(m)
            if len(ex) == 1 and ex[0][1] == 1 and abs(v) == 1 and self.gens[ex[0][0]].kind == "cos":
                return ex[0][0], v * p[0]
        return None

    def root(self, e, q):
        """e ** q, q a non-integer rational"""
        d = q.denominator
        n = q.numerator
        if not e.num:
            if n < 0:
                raise Singular()
            return Elem({})
        e = self.rational_den(e)
        # integer content and polynomial factors of e, as exponents
        c, fs = self.ffactor(e.num)
        pk = {}
        for p, m in fs:
            pk[pkey(p)] = [p, m]
        for k, m in e.den.items():
            for p, mm in self.irreducible(self.factors[k].poly):
                t = pk.setdefault(pkey(p), [p, 0])
                t[1] -= m * mm
        # make every factor positive where the path tells
        sgn = 1 if c > 0 else -1
        c = Fraction(abs(c), e.q)
        pos, openf = [], []
        # (1-c)(1+c) = s^2
        lone = {}
        for p, m in list(pk.values()):
            if m == 0:
                continue
            t = self.cos_of(p)
            if t:
                lone.setdefault(t[0], {})[t[1]] = (p, m)
        for ci, t in lone.items():
            if 1 in t and -1 in t and t[1][1] == t[-1][1]:
                m = t[1][1]
                sg = self.gens[ci].data[0]
                for v in (1, -1):
                    del pk[pkey(t[v][0])]
                # p are 1+c and +-(c-1) with positive leading coefficient: fix the sign
                for v in (1, -1):
                    if t[v][0][0] < 0 and m % 2:
                        sgn = -sgn
                sp = {1 << (BITS * sg.i): 1}
                pk.setdefault(pkey(sp), [sp, 0])[1] += 2 * m
        for p, m in pk.values():
            if m == 0:
                continue
            if m % 2 == 0 and d % 2 == 0 and (m * n) % d == 0 and ((m * n) // d) % 2 == 0:
                pos.append((p, m))
                continue
            s = self.sign(p)
            if s is None and m % 2 == 0:
                s = 1 if self.decide_sign(p) >= 0 else -1
            if s in (1, 0):
                pos.append((p, m))
            elif s == -1:
                pos.append((pscale(p, -1), m))
                if m % 2:
                    sgn = -sgn
            else:
                openf.append((p, m))
        tot = None
        for p, m in openf:
            if m == 1:
                tot = self.pmul(tot or ONE, p)
            else:
                t = 1 if self.decide_sign(p) >= 0 else -1
                pos.append((p if t > 0 else pscale(p, -1), m))
                if m % 2:
                    sgn *= t
        if tot is not None:
            tot = pscale(tot, sgn)
            sgn = 1
            if self.sign(tot) == -1:
                raise Singular()
            pos.append((tot, 1))
        if sgn < 0:
            raise Singular()          # root of a negative number
        # combine
        res = self.iroot(c, d, n)
        for p, m in pos:
            t = Fraction(m * n, d)
            k = math.floor(t)
            fr = t - k
            if fr:
                r = self.root_gen(p, fr.denominator)
                res = self.mul(res, self.pw(r, fr.numerator))
            if k:
                res = self.mul(res, self.pw(Elem(p), k))
        return res

    def rational_den(self, e):
        """no roots as factors of the denominator"""
        for _ in range(20):
            hit = None
            for k, v in e.den.items():
                f = self.factors[k].poly
                if len(f) == 1:
                    g = self.gens[mexps(next(iter(f)))[0][0]]
                    if g.kind == "root":
                        hit = (k, v, g)
            if hit is None:
                return e
            k, v, g = hit
            den = dict(e.den)
            del den[k]
            up = -v % g.deg
            num = e.num
            for _ in range(up):
                num = self.pmul(num, {1 << (BITS * g.i): 1})
            e = self.mul(Elem(num, e.q, den), self.inv(self.pw(Elem(g.rel), (v + up) // g.deg)))
        return e

    def iroot(self, c, d, n):
        """c ** (n/d) for a positive rational c"""
        res = self.const(1)
        for v, sg in ((c.numerator, 1), (c.denominator, -1)):
            for pr, m in _primes(v):
                t = Fraction(m * n * sg, d)
                k = math.floor(t)
                fr = t - k
                if fr:
                    res = self.mul(res, self.pw(self.root_gen({0: pr}, fr.denominator), fr.numerator))
                res = self.mul(res, self.const(Fraction(pr) ** k))
        return res

    def root_gen(self, p, d):
        """the d-th root of a nonnegative polynomial"""
        key = ("root", pkey(p), d)
        g = self.keyed.get(key)
        if g is None and d > 2 and len(p) > 1:
            conj = self.conjugate(p, d)
            if conj is not None:
                return conj
        if g is None:
            g = self.gen(f"root{d}#{len(self.gens)}", "root")
            g.deg, g.rel = d, p
            g.ev = lambda pt: max(self.pval(p, pt)[0], 0.0) ** (1.0 / d)
            g.deps = frozenset(pgens(p))
            zz = g.z
            for _ in range(d - 1):
                zz = zz * g.z
            zp = self.zpoly(p)
            g.cons = [g.z >= 0, zz == zp] if p.keys() == {0} or self.sign(p) in (0, 1) else [g.z >= 0, z3.Implies(zp >= 0, zz == zp)]
            self.rels.append((g.i, d))
            self.keyed[key] = g
        return self.g_elem(g)

    def conjugate(self, p, d):
        """the root of p through that of q, when p * q is a perfect power: root p = root(p q) / root q"""
        for key, h in list(self.keyed.items()):
            if not (isinstance(key, tuple) and key[0] == "root" and key[2] == d and len(h.rel) > 1):
                continue
            pq = self.pmul(p, h.rel)
            if len(pq) != 1:
                continue
            (m, c), = pq.items()
            ex = mexps(m)
            if c < 0 or any(e % d or self.sign({1 << (BITS * i): 1}) not in (0, 1) for i, e in ex):
                continue
            t = self.iroot(Fraction(c), d, 1)
            t = self.mul(t, Elem({sum((e // d) << (BITS * i) for i, e in ex): 1}))
            # 1 / h = h^(d-1) / q
            return self.mul(t, self.mul(self.pw(self.g_elem(h), d - 1), self.inv(Elem(h.rel))))
        return None

    def exp(self, e):
        if not e.num:
            return self.const(1)
        lst = self.keyed.setdefault("exp", [])
        for k, v in lst:
            if self.same(k, e):
                return v
            if self.same(k, Elem(pscale(e.num, -1), e.q, e.den)):
                return self.inv(v)
        g = self.gen(f"exp#{len(lst)}", "exp")
        g.ev = lambda pt: math.exp(self.ival(e, pt))
        g.cons = [g.z > 0]
        v = self.g_elem(g)
        lst.append((e, v))
        return v

    def powg(self, b, e):
        """b ** e with a symbolic exponent"""
        l = e.num.get(0, 0)
        k = 0
        if not e.den and l and l % e.q == 0:
            k = l // e.q
            e = Elem({m: c for m, c in e.num.items() if m}, e.q)
        if not e.num:
            return self.pw(b, k)
        if not b.num:
            return Elem({})             # 0 ** positive
        lst = self.keyed.setdefault("powg", [])
        v = None
        for (kb, ke), t in lst:
            if self.same(kb, b) and self.same(ke, e):
                v = t
                break
            if self.same(kb, b) and self.same(ke, Elem(pscale(e.num, -1), e.q, e.den)):
                v = self.inv(t)
                break
        if v is None:
            g = self.gen(f"powg#{len(lst)}", "powg")
            g.ev = lambda pt, b=b, e=e: self.ival(b, pt) ** self.ival(e, pt)
            s = self.esign(b)
            g.cons = [g.z >= 0]
            g.deps = frozenset(self.egens(b) | self.egens(e))
            zb = self.zsign(b)
            if zb is not None:
                g.cons.append(z3.Implies(zb > 0, g.z > 0))
            v = self.g_elem(g)
            lst.append(((b, e), v))
        return self.mul(v, self.pw(b, k)) if k else v

    # -------------------------------------------------------------- boolean nodes
    def __call__(self, n):
        """z3 formula of a boolean node; records the generators it involves"""
        z, gs = self.cond(n)
        self.last_gens = gs
        return z

    def cond(self, n):
        r = self.bools.get(n.id)
        if r is not None:
            return r
        o = n.op
        if o == "true":
            r = z3.BoolVal(True), frozenset()
        elif o == "false":
            r = z3.BoolVal(False), frozenset()
        elif o == "bvar":
            v = self.vars.get(n.val)
            if v is None:
                v = self.vars[n.val] = z3.Bool(n.val)
            r = v, frozenset()
        elif o == "not":
            z, g = self.cond(n.args[0])
            r = z3.Not(z), g
        elif o == "and":
            ps = [self.cond(c) for c in n.args]
            r = z3.And(*[p[0] for p in ps]), frozenset().union(*[p[1] for p in ps])
        elif o == "ite":
            r = self.cond(n.args[1] if self.env.branch(n.args[0]) else n.args[2])
        elif o in ("lt", "le", "eq"):
            d = self.add(self.elem(n.args[1]), self.elem(n.args[0]), -1)
            if o == "eq" and d.num and self.absdef and self.vanishes(d.num):
                d = Elem({})
            if o == "eq":
                z = self.zpoly(d.num) == 0 if d.num else z3.BoolVal(True)
                g = frozenset(pgens(d.num))
            else:
                p = d.num
                for k, v in d.den.items():
                    if v % 2:
                        s = self.fsign(k)
                        if s == -1:
                            p = pscale(p, -1)
                        elif s != 1:
                            p = self.pmul(p, self.factors[k].poly)
                z, g = self.signed(p, o == "lt")
            r = z, g
        else:
            raise E.Concretization("no normal form for condition " + o)
        self.bools[n.id] = r
        return r

    def signed(self, p, strict):
        """p > 0 or p >= 0, without the factors whose sign is known"""
        nz = []
        if 1 < len(p) <= 400:
            c, fs = self.split(p)
            if len(fs) > 1 or max(fs.values()) > 1:
                p = {0: 1 if c > 0 else -1}
                for k, e in fs.items():
                    f = self.factors[k].poly
                    s = self.fsign(k)
                    if s in (1, -1):
                        if e % 2 and s < 0:
                            p = pscale(p, -1)
                        continue
                    if strict and e > 1:
                        nz.append(f)
                    if e % 2:
                        p = self.pmul(p, f)
        zp = self.zpoly(p)
        z = zp > 0 if strict else zp >= 0
        gs = set(pgens(p))
        for f in nz:
            z = z3.And(z, self.zpoly(f) != 0)
            gs |= set(pgens(f))
        return z, frozenset(gs)

    def vanishes(self, p):
        """p is zero once abstracted values are what they stand for; the coefficient of every
        monomial in the other generators is looked at by itself"""
        inner = set(self.absdef)
        for e in self.absdef.values():
            inner |= self.closure(self.egens(e))
        if not set(self.absdef) & set(pgens(p)):
            return False
        mask = sum(MASK << (BITS * i) for i in inner)
        groups = {}
        for m, c in p.items():
            groups.setdefault(m & ~mask, {})[m & mask] = c
        try:
            return all(self.is_zero(self.expand(q)) for q in groups.values())
        except TooBig:
            return False

    def expand(self, p):
        for g, e in self.absdef.items():
            sh = BITS * g
            co = {}
            for m, c in p.items():
                k = (m >> sh) & MASK
                co.setdefault(k, {})[m - (k << sh)] = c
            acc = self.const(0)
            for k in range(max(co), -1, -1):        # Horner
                acc = self.mul(acc, e)
                if k in co:
                    acc = self.add(acc, Elem(co[k]))
            if len(self.absdef) == 1:
                return acc
            if acc.den:
                raise TooBig()
            p = acc.num
        return acc

    def asserted(self, n, z, gs):
        """a condition became part of the path"""
        self.conz.append((z, frozenset(gs)))
        self.bools.clear()
        self.signs = {k: v for k, v in self.signs.items() if v is not None}
        changed = False
        if n is not None:
            for c in (n.args if n.op == "and" else (n,)):
                if c.op == "eq":
                    changed |= self.equation(self.add(self.elem(c.args[1]), self.elem(c.args[0]), -1))
        if changed:
            self.recheck()

    def recheck(self):
        """after a substitution: the earlier conditions in their new form"""
        for n in list(self.env.cond):
            z, gs = self.cond(n)
            z = z3.simplify(z)
            if z3.is_false(z):
                raise Contradiction()
            if not z3.is_true(z):
                self.conz.append((z, frozenset(gs)))
        self.bools.clear()

    def equation(self, d):
        """d = 0 holds: solve it for a generator if possible"""
        if not d.num:
            return False
        p = d.num
        if p.keys() == {0}:
            raise Contradiction()
        l = self.linear(Elem(p)) or {}
        gl = [g for g in l if g is not None]
        if len(gl) == 1:
            g = gl[0]
            G = self.gens[g]
            val = -l.get(None, Fraction(0)) / l[g]
            if G.kind == "var":
                self.subst[g] = self.const(val)
                if val == 0:
                    for (gi, u), (s, c) in list(self.trig.items()):
                        if gi == g:
                            for el, t in ((s, 0), (c, 1)):
                                gg = self.gens[mexps(next(iter(el.num)))[0][0]]
                                gg.cons = gg.cons + [gg.z == t]
                self.el.clear()
                return True
        if any(self.gens[g].kind == "angle" for g in gl):
            # an angle is zero: so is its sine, and its cosine is one
            s, c = self.angle(d)
            self.conz.append((self.zpoly(s.num) == 0, frozenset(pgens(s.num))))
            self.conz.append((self.zpoly(self.add(c, self.const(1), -1).num) == 0, frozenset(self.egens(c))))
            return self.equation(s) if s.num else False
        if len(gl) == 1:
            return False
        # a factor with a known sign cannot vanish
        c, fs = self.split(p)
        left = [self.factors[k].poly for k in fs if self.fsign(k) not in (1, -1)]
        if len(left) != 1:
            return False
        p = left[0]
        for g in sorted(pgens(p), reverse=True):
            G = self.gens[g]
            if G.kind != "var" or G.data is not None or g in self.subst:
                continue
            sh = BITS * g
            A, B = {}, {}
            ok = True
            for m, c in p.items():
                e = (m >> sh) & MASK
                if e == 0:
                    B[m] = c
                elif e == 1:
                    A[m - (1 << sh)] = c
                else:
                    ok = False
            if not ok or any(g in self.closure([x]) for x in pgens(A) + pgens(B)):
                continue
            if self.sign(A) not in (1, -1):
                continue
            self.subst[g] = self.div(Elem(pscale(B, -1)), Elem(A))
            self.el.clear()
            return True
        return False


class Contradiction(Exception):
    pass


def RealQ(v):
    f = Fraction(v)
    return z3.Q(f.numerator, f.denominator)


def _mdiv(m, d):
    """monomial d divides m"""
    while d:
        if (d & MASK) > (m & MASK):
            return False
        d >>= BITS
        m >>= BITS
    return True


def _primes(n):
    out = []
    p = 2
    while p * p <= n and p < 100000:
        k = 0
        while n % p == 0:
            n //= p
            k += 1
        if k:
            out.append((p, k))
        p += 1
    if n > 1:
        out.append((n, 1))
    return out
