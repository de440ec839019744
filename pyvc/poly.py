"""Polynomial normal form of z3 arithmetic terms over canonical atoms.

Atoms are constants, function values (with canonical arguments), alternatives and
inverses of non-constant polynomials.  Two terms with the same normal form are equal;
a * (1/a) = 1 is used only for denominators that the caller shows to be non-zero."""
from fractions import Fraction
import z3


class Norm(object):
    def __init__(self):
        self.cache = {}
        self.inv = {}        # atom key -> (poly of the denominator, z3 term)
        self.used = {}       # denominators whose inverse was cancelled
        self.limit = 4000

    # ---- polynomials: {((atom, exp), ...): Fraction}
    def add(self, a, b, s=1):
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + s * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def mulm(self, m, n):
        d = dict(m)
        for a, e in n:
            d[a] = d.get(a, 0) + e
        return tuple(sorted(d.items()))

    def mul(self, a, b):
        if len(a) * len(b) > self.limit:
            raise OverflowError
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                k = self.mulm(m, n)
                v = r.get(k, 0) + c * d
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        return r

    def const(self, c):
        return {(): c} if c else {}

    def atom(self, key):
        return {((key, 1),): Fraction(1)}

    def key(self, p):
        return '+'.join('%s*%s' % (c, '.'.join('%s^%d' % ae for ae in m)) for m, c in sorted(p.items(), key=lambda x: x[0]))

    def poly(self, t):
        i = t.get_id()
        if i in self.cache and self.cache[i][0].eq(t):
            return self.cache[i][1]
        r = self._poly(t)
        self.cache[i] = (t, r)
        return r

    def _poly(self, t):
        if z3.is_int_value(t):
            return self.const(Fraction(t.as_long()))
        if z3.is_rational_value(t):
            return self.const(Fraction(t.numerator_as_long(), t.denominator_as_long()))
        if not z3.is_app(t):
            return self.atom(t.sexpr())
        if z3.is_const(t):
            return self.atom(t.decl().name())
        if z3.is_add(t):
            r = {}
            for c in t.children():
                r = self.add(r, self.poly(c))
            return r
        if z3.is_sub(t):
            r = self.poly(t.arg(0))
            for c in t.children()[1:]:
                r = self.add(r, self.poly(c), -1)
            return r
        k = t.decl().kind()
        if k == z3.Z3_OP_UMINUS:
            return self.add({}, self.poly(t.arg(0)), -1)
        if z3.is_mul(t):
            r = self.const(Fraction(1))
            for c in t.children():
                r = self.mul(r, self.poly(c))
            return r
        if k == z3.Z3_OP_TO_REAL:
            return self.poly(t.arg(0))
        if k == z3.Z3_OP_POWER and z3.is_int_value(t.arg(1)) and 0 <= t.arg(1).as_long() <= 6:
            r = self.const(Fraction(1))
            for _ in range(t.arg(1).as_long()):
                r = self.mul(r, self.poly(t.arg(0)))
            return r
        if z3.is_div(t):
            r = self.poly(t.arg(0))
            for f in self.factors(t.arg(1)):
                r = self.mul(r, self.inverse(f))
            return r
        if k == z3.Z3_OP_ITE:
            return self.atom('ite(%s,%s,%s)' % (self.bkey(t.arg(0)), self.key(self.poly(t.arg(1))),
                                                self.key(self.poly(t.arg(2)))))
        return self.atom('%s(%s)' % (t.decl().name(), ','.join(self.akey(c) for c in t.children())))

    def factors(self, t):
        if z3.is_mul(t):
            out = []
            for c in t.children():
                out += self.factors(c)
            return out
        return [t]

    def inverse(self, t):
        p = self.poly(t)
        if len(p) == 1 and () in p:
            return self.const(1 / p[()])
        if not p:
            return self.atom('1/0')
        # make the leading coefficient one
        lead = max(p)
        c = p[lead]
        q = {m: v / c for m, v in p.items()}
        k = 'inv[%s]' % self.key(q)
        self.inv.setdefault(k, (q, t))
        return {((k, 1),): 1 / c}

    def akey(self, c):
        return self.bkey(c) if c.sort() == z3.BoolSort() else self.key(self.poly(c))

    def bkey(self, c):
        if z3.is_app(c) and c.num_args():
            k = c.decl().kind()
            if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) and c.arg(0).sort() in (
                    z3.IntSort(), z3.RealSort()):
                a, b = self.poly(c.arg(0)), self.poly(c.arg(1))
                if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
                    a, b = b, a
                op = {z3.Z3_OP_LE: '<=', z3.Z3_OP_GE: '<=', z3.Z3_OP_EQ: '='}.get(k, '<')
                d = self.add(a, b, -1)
                if op == '=' and d:
                    lc = d[max(d)]
                    if lc < 0:
                        d = {m: -v for m, v in d.items()}
                return '(%s%s0)' % (self.key(d), op)
            ks = [self.akey(x) for x in c.children()]
            if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
                ks.sort()
            return '%s(%s)' % (c.decl().name(), ','.join(ks))
        return c.sexpr()

    def cancel(self, p):
        """a * (1/a) = 1 until nothing changes"""
        for _ in range(40):
            out, hit = {}, False
            for m, c in p.items():
                r = self.cancel1(m)
                if r is None:
                    out = self.add(out, {m: c})
                else:
                    hit = True
                    out = self.add(out, {n: v * c for n, v in r.items()})
            p = out
            if not hit or not p:
                return p
            if len(p) > self.limit:
                raise OverflowError
        return p

    def cancel1(self, m):
        d = dict(m)
        for k in d:
            if k not in self.inv:
                continue
            q, term = self.inv[k]
            for qm, qc in sorted(q.items(), reverse=True):
                if not qm:
                    continue
                if all(d.get(a, 0) >= e for a, e in qm):
                    rest = dict(d)
                    for a, e in qm:
                        rest[a] -= e
                    # E * inv = (1 - (D - c E) * inv) / c
                    rest1 = dict(rest)
                    rest1[k] -= 1
                    r1 = {tuple(sorted((a, e) for a, e in rest1.items() if e)): Fraction(1) / qc}
                    Dr = {n: -v / qc for n, v in q.items() if n != qm}
                    r0 = {tuple(sorted((a, e) for a, e in rest.items() if e)): Fraction(1)}
                    self.used[k] = term
                    return self.add(r1, self.mul(r0, Dr))
                break       # only the leading monomial (termination)
        return None


def equal(a, b):
    """-> None (not shown) or list of z3 terms that have to be non-zero"""
    n = Norm()
    try:
        d = n.add(n.poly(a), n.poly(b), -1)
        if d:
            d = n.cancel(d)
    except (OverflowError, RecursionError):
        return None
    if d:
        return None
    return list(n.used.values())
