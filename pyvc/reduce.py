"""Simplification of a goal under the path condition: alternatives that the path
condition excludes are dropped, then equations of reals are compared as polynomials
over their non-polynomial subterms."""
import z3
from .core import C, S, TB, TR, Int, Real

_pure_cache = {}


def pure_int(t):
    """linear-ish integer formula without uninterpreted functions"""
    i = t.get_id()
    if i in _pure_cache and _pure_cache[i][0].eq(t):
        return _pure_cache[i][1]
    ok = True
    if z3.is_quantifier(t) or z3.is_var(t):
        ok = False
    elif z3.is_app(t):
        if t.sort() == Real or (t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            ok = False
        else:
            ok = all(pure_int(c) for c in t.children())
    _pure_cache[i] = (t, ok)
    return ok


class Linear(object):
    """linear relaxation: every non-linear product, division and function value
    becomes an independent variable (only used to show unsatisfiability)"""

    def __init__(self):
        from .poly import Norm
        self.norm = Norm()
        self.vars = {}
        self.cache = {}

    def var(self, t):
        k = self.norm.key(self.norm.poly(t)) if t.sort() in (Int, Real) else self.norm.bkey(t)
        if k not in self.vars:
            self.vars[k] = z3.Const('lin~%d' % len(self.vars), t.sort())
        return self.vars[k]

    def arith(self, t):
        tot = z3.IntVal(0) if t.sort() == Int else z3.RealVal(0)
        real = t.sort() == Real
        for m, c in self.norm.poly(t).items():
            x = z3.RealVal(str(c)) if real else (z3.IntVal(int(c)) if c.denominator == 1 else None)
            if x is None:
                raise OverflowError
            if m:
                k = '.'.join('%s^%d' % ae for ae in m)
                if k not in self.vars:
                    self.vars[k] = z3.Const('lin~%d' % len(self.vars), Int if not real else Real)
                v = self.vars[k]
                if v.sort() != x.sort():
                    v = TR(v) if real else v
                    x = TR(x) if v.sort() == Real else x
                x = x * v
            tot = tot + x if tot.sort() == x.sort() else TR(tot) + TR(x)
        return tot

    def form(self, t):
        return self.form_(t)

    def form_(self, t):
        i = t.get_id()
        if i in self.cache and self.cache[i][0].eq(t):
            return self.cache[i][1]
        r = self._form(t)
        self.cache[i] = (t, r)
        return r

    def _form(self, t):
        if z3.is_and(t):
            return z3.And(*[self.form_(c) for c in t.children()])
        if z3.is_or(t):
            return z3.Or(*[self.form_(c) for c in t.children()])
        if z3.is_not(t):
            return z3.Not(self.form_(t.arg(0)))
        if z3.is_implies(t):
            return z3.Implies(self.form_(t.arg(0)), self.form_(t.arg(1)))
        if z3.is_app(t) and t.num_args() == 2 and t.arg(0).sort() in (Int, Real):
            k = t.decl().kind()
            if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ):
                d = self.arith(t.arg(0) - t.arg(1))
                return {z3.Z3_OP_LE: d <= 0, z3.Z3_OP_LT: d < 0, z3.Z3_OP_GE: d >= 0, z3.Z3_OP_GT: d > 0,
                        z3.Z3_OP_EQ: d == 0}[k]
        if z3.is_true(t) or z3.is_false(t) or z3.is_const(t):
            return t
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            return z3.If(self.form_(t.arg(0)), self.form_(t.arg(1)), self.form_(t.arg(2)))
        return self.var(t)


def index_terms(t, cap=40):
    """integer arguments of uninterpreted functions inside t"""
    out, seen, st = [], set(), [t]
    while st and len(out) < cap:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            for a in x.children():
                if a.sort() == Int and not any(a.eq(o) for o in out) and not has_ite(a):
                    out.append(a)
        st.extend(x.children())
    return out


def instances(ctx, term, extra):
    """instances of the universally quantified facts at the indices that occur"""
    qs = [q for q in ctx.closures if q.nvars == 1]
    if not qs:
        return
    for i in index_terms(term):
        for q in qs:
            try:
                f = z3.simplify(TB(q.body(S(i))))
            except RecursionError:
                continue
            if not z3.is_true(f):
                extra.append(f)


class Reducer(object):
    def __init__(self, ctx, extra=(), term=None):
        extra = list(extra)
        if term is not None:
            instances(ctx, term, extra)
        if ctx.lin is None:
            ctx.lin = Linear()
        self.lin = ctx.lin
        self.facts = list(ctx.pc) + list(extra)
        self.axs = list(ctx.axs)
        self._ints = self._full = None
        self.cache = {}
        self.known = {}
        self.calls = 0

    @property
    def ints(self):
        if self._ints is None:
            s = z3.Solver()
            s.set('timeout', 400)
            s.add(*[f for f in self.facts if pure_int(f)])
            self._ints = s
        return self._ints

    @property
    def full(self):
        if self._full is None:
            s = z3.Solver()
            s.set('timeout', 500)
            s.add(*[self.lin.form(f) for f in self.facts + self.axs])
            self._full = s
        return self._full

    def decide(self, c):
        i = c.get_id()
        if i in self.known and self.known[i][0].eq(c):
            return self.known[i][1]
        r = self._decide(c)
        self.known[i] = (c, r)
        return r

    def _decide(self, c):
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if z3.is_not(c):
            d = self.decide(c.arg(0))
            return None if d is None else not d
        if z3.is_and(c):
            ds = [self.decide(x) for x in c.children()]
            if any(d is False for d in ds):
                return False
            if all(d is True for d in ds):
                return True
            return None
        if z3.is_or(c):
            ds = [self.decide(x) for x in c.children()]
            if any(d is True for d in ds):
                return True
            if all(d is False for d in ds):
                return False
            return None
        if self.calls > 400:
            return None
        self.calls += 1
        s = self.ints
        if not pure_int(c):
            s = self.full
            c = self.lin.form(c)
        s.push()
        s.add(z3.Not(c))
        r = s.check()
        s.pop()
        if r == z3.unsat:
            return True
        s.push()
        s.add(c)
        r = s.check()
        s.pop()
        if r == z3.unsat:
            return False
        return None

    def divmod_(self, x, e, m):
        """(m*q + r) div m = q and mod m = r, when 0 <= r < m"""
        from .sums import monomials
        q, r = z3.IntVal(0), z3.IntVal(0)
        hit = False
        for coef, fs in monomials(e):
            ids = [f.eq(m) for f in fs]
            if any(ids):
                hit = True
                j = ids.index(True)
                t = coef
                for i, f in enumerate(fs):
                    if i != j:
                        t = t * f
                q = q + t
            else:
                t = coef
                for f in fs:
                    t = t * f
                r = r + t
        q, r = z3.simplify(q), z3.simplify(r)
        if not hit and z3.is_int_value(m):
            return None
        if self.decide(z3.simplify(z3.And(r >= 0, r < m))):
            return q if x.decl().kind() == z3.Z3_OP_IDIV else r
        return None

    def go(self, x):
        i = x.get_id()
        if i in self.cache and self.cache[i][0].eq(x):
            return self.cache[i][1]
        r = self._go(x)
        self.cache[i] = (x, r)
        return r

    def _go(self, x):
        if not z3.is_app(x) or not x.num_args():
            return x
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            c, a, b = x.children()
            # innermost conditions may contain alternatives themselves
            c = z3.simplify(self.go(c))
            d = self.decide(c)
            if d is True:
                return self.go(a)
            if d is False:
                return self.go(b)
            return z3.If(c, self.go(a), self.go(b))
        ch = x.children()
        cs = [self.go(y) for y in ch]
        if x.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
            r = self.divmod_(x, cs[0], cs[1])
            if r is not None:
                return r
        if all(a.eq(b) for a, b in zip(cs, ch)):
            return x
        if z3.is_add(x) or z3.is_mul(x):
            r = cs[0]
            for c in cs[1:]:
                r = r + c if z3.is_add(x) else r * c
            return r
        if z3.is_and(x):
            return z3.And(*cs)
        if z3.is_or(x):
            return z3.Or(*cs)
        if x.decl().arity() != len(cs):
            return z3.substitute(x, *list(zip(ch, cs)))
        return x.decl()(*cs)


def has_ite(t):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
            return True
        if z3.is_app(x):
            st.extend(x.children())
    return False


def simplify_deep(t):
    return z3.simplify(t, som=True, som_blowup=2000, sort_sums=True, flat=True, hoist_mul=False)


def ring_valid(t):
    """-> None or the denominators that have to be non-zero"""
    from . import poly
    if z3.is_and(t):
        out = []
        for c in t.children():
            r = ring_valid(c)
            if r is None:
                return None
            out += r
        return out
    if z3.is_eq(t) and t.arg(0).sort() in (Real, Int):
        return poly.equal(t.arg(0), t.arg(1))
    return None


def reduce(ctx, t, extra=()):
    """repeated, because a simplified index may match more facts"""
    extra = list(extra)
    try:
        for _ in range(3):
            if not has_ite(t):
                return t
            n = z3.simplify(Reducer(ctx, extra, t).go(t))
            if n.eq(t):
                return t
            t = n
    except RecursionError:
        pass
    return t
