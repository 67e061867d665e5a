"""Sums and products up to order, association and content, and expressions with the common parts
replaced by arbitrary numbers."""
from fractions import Fraction
from . import expr as E

ONE = ()


class Shape:
    def __init__(self):
        self.memo, self.atoms, self.info = {}, {}, []

    def atom(self, key):
        if key not in self.atoms:
            self.atoms[key] = len(self.info)
            self.info.append(key)
        return self.atoms[key]

    def monomial(self, s):
        """a sum as coefficient and product, a sum of several terms becoming one factor"""
        if not s:
            return Fraction(0), ONE
        if len(s) == 1:
            (m, c), = s.items()
            return c, m
        items = sorted(s.items())
        lead = items[0][1]
        return lead, ((self.atom(("sum", tuple((m, c / lead) for m, c in items))), Fraction(1)),)

    @staticmethod
    def times(a, b):
        d = dict(a)
        for g, e in b:
            d[g] = d.get(g, 0) + e
            if d[g] == 0:
                del d[g]
        return tuple(sorted(d.items()))

    def single(self, key):
        return {((self.atom(key), Fraction(1)),): Fraction(1)}

    def sum_key(self, s):
        return tuple(sorted(s.items()))

    def canon(self, n):
        r = self.memo.get(n.id)
        if r is None:
            r = self.memo[n.id] = self._canon(n)
        return r

    def _canon(self, n):
        o = n.op
        if E.is_const(n):
            c = E.cval(n)
            return {ONE: c} if c else {}
        if o in ("add", "sub", "neg"):
            a = self.canon(n.args[0])
            if o == "neg":
                return {m: -c for m, c in a.items()}
            r = dict(a)
            k = 1 if o == "add" else -1
            for m, c in self.canon(n.args[1]).items():
                r[m] = r.get(m, 0) + k * c
                if r[m] == 0:
                    del r[m]
            return r
        if o in ("mul", "div"):
            a, b = self.canon(n.args[0]), self.canon(n.args[1])
            if o == "mul" and len(b) == 1 and not next(iter(b)):
                a, b = b, a
            if o == "mul" and len(a) == 1 and not next(iter(a)):
                c = a[ONE]
                return {m: c * x for m, x in b.items()}
            (ca, ma), (cb, mb) = self.monomial(a), self.monomial(b)
            if o == "div":
                if cb == 0:
                    return self.single(("div", self.sum_key(a), self.sum_key(b)))
                if not mb:
                    return {m: x / cb for m, x in a.items()}
                ca, cb, mb = ca / cb, 1, tuple((g, -e) for g, e in mb)
            c = ca * cb
            return {self.times(ma, mb): c} if c else {}
        if o == "pow" and n.val.denominator == 1:
            c, m = self.monomial(self.canon(n.args[0]))
            if c != 0:
                return {tuple((g, e * int(n.val)) for g, e in m): c ** int(n.val)}
        if o == "var":
            return self.single(("var", n.val))
        return self.single(("fn", o, n.val, tuple(self.sum_key(self.canon(a)) for a in n.args)))

    # ---- with common parts replaced
    def build(self, s, keep, new):
        """E node of a sum; atoms in keep, and those without structure of their own, become new(atom)"""
        r = E.const(0)
        for m, c in sorted(s.items()):
            t = E.const(c)
            for g, e in m:
                t = E.mul(t, E.power(self.rep(g, keep, new), E.const(e)))
            r = E.add(r, t)
        return r

    def rep(self, g, keep, new):
        k = self.info[g]
        if g not in keep:
            if k[0] == "sum":
                return self.build(dict(k[1]), keep, new)
            if k[0] == "fn" and k[1] == "sqrt":
                return E.sqrt(self.build(dict(k[3][0]), keep, new))
        return new(g)

    def part(self, n, keep, new):
        c, m = self.monomial(self.canon(n))
        return self.build({m: c} if c else {}, keep, new)

    def atoms_in(self, nodes):
        """all atoms, at any depth"""
        todo = [g for n in nodes for m in self.canon(n) for g, e in m]
        seen = set()
        while todo:
            g = todo.pop()
            if g in seen:
                continue
            seen.add(g)
            k = self.info[g]
            sums = [k[1]] if k[0] == "sum" else list(k[1:]) if k[0] == "div" else list(k[3]) if k[0] == "fn" else []
            todo += [h for s in sums for m, c in s for h, e in m]
        return seen

    def shared(self, nodes, others):
        """factors of the terms of nodes; those that do not occur in the others, by their own factors"""
        there = self.atoms_in(others)
        todo = [g for n in nodes for m in self.canon(n) for g, e in m]
        keep = set()
        while todo:
            g = todo.pop()
            if g in there or self.info[g][0] != "sum":
                keep.add(g)
            else:
                todo += [h for m, c in self.info[g][1] for h, e in m]
        return keep

    def opaque(self, nodes):
        """the factors these (and their terms) are made of"""
        return {g for n in nodes for m in self.canon(n) for g, e in m} | {g for n in nodes for g, e in self.monomial(self.canon(n))[1]}
