"""Real functions: uninterpreted with (true) axioms, and their derivatives.

Trusted: the axioms below are theorems of real analysis."""
import z3
from .core import C, Sym, T, TR, TI, TB, S, Real, Int, simp

R1 = {n: z3.Function('f_' + n, Real, Real) for n in
      ('exp', 'tanh', 'log', 'sqrt', 'sin', 'cos', 'tan', 'atan', 'erf')}


def apply(ctx, name, x):
    t = z3.simplify(TR(x))
    f = R1[name]
    app = f(t)
    if name == 'exp':
        ctx.axiom(app > 0)
        ctx.axiom(f(z3.RealVal(0)) == 1)
        nt = z3.simplify(-t)
        ctx.axiom(app * f(nt) == 1)
        ctx.axiom(z3.Implies(t >= 0, app >= 1))
        ctx.axiom(z3.Implies(t <= 0, app <= 1))
        ctx.axiom(z3.Implies(t == 0, app == 1))
    elif name == 'tanh':
        ctx.axiom(z3.And(app > -1, app < 1))
        ctx.axiom(z3.Implies(t == 0, app == 0))
        ctx.axiom(z3.Implies(t > 0, app > 0))
        ctx.axiom(z3.Implies(t < 0, app < 0))
    elif name == 'sqrt':
        ctx.axiom(z3.Implies(t >= 0, z3.And(app >= 0, app * app == t)))
    elif name == 'log':
        ctx.axiom(z3.Implies(t == 1, app == 0))
        ctx.axiom(z3.Implies(t > 1, app > 0))
        ctx.axiom(z3.Implies(z3.And(t > 0, t < 1), app < 0))
    elif name in ('sin', 'cos'):
        ctx.axiom(z3.And(app >= -1, app <= 1))
    return S(app)


def clip(x, lo, hi):
    x = TR(x)
    if lo is not None and hi is not None:
        lo, hi = TR(lo), TR(hi)
        if z3.is_true(z3.simplify(lo <= hi)):
            return z3.If(x < lo, lo, z3.If(x > hi, hi, x))
        # numpy: minimum(hi, maximum(lo, x)), also for an empty range
        return z3.If(lo > hi, hi, z3.If(x < lo, lo, z3.If(x > hi, hi, x)))
    if lo is not None:
        return z3.If(x < TR(lo), TR(lo), x)
    if hi is not None:
        return z3.If(x > TR(hi), TR(hi), x)
    return x


def diff(t, v, memo=None):
    """d t / d v  for a Real term t and a Real *constant or application* v
    (structural; v is matched syntactically).  If-conditions are differentiated
    branch-wise (valid away from the switching points)."""
    if memo is None:
        memo = {}
    k = t.get_id()
    if k in memo:
        return memo[k]
    r = _diff(t, v, memo)
    memo[k] = r
    return r


def _diff(t, v, memo):
    zero = z3.RealVal(0)
    if t.eq(v):
        return z3.RealVal(1)
    if not _occurs(t, v):
        return zero
    ch = t.children()
    if z3.is_add(t):
        r = zero
        for c in ch:
            r = r + diff(c, v, memo)
        return simp(r)
    if z3.is_sub(t):
        r = diff(ch[0], v, memo)
        for c in ch[1:]:
            r = r - diff(c, v, memo)
        return simp(r)
    if z3.is_app_of(t, z3.Z3_OP_UMINUS):
        return simp(-diff(ch[0], v, memo))
    if z3.is_mul(t):
        r = zero
        for i, c in enumerate(ch):
            d = diff(c, v, memo)
            if z3.is_rational_value(d) and d.numerator_as_long() == 0:
                continue
            p = d
            for j, e in enumerate(ch):
                if j != i:
                    p = p * e
            r = r + p
        return r
    if z3.is_div(t):
        a, b = ch
        da, db = diff(a, v, memo), diff(b, v, memo)
        return (da * b - a * db) / (b * b)
    if z3.is_app_of(t, z3.Z3_OP_POWER):
        raise ValueError('power')
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return z3.If(ch[0], diff(ch[1], v, memo), diff(ch[2], v, memo))
    if z3.is_app(t) and t.num_args() == 1:
        n = t.decl().name()
        u = ch[0]
        du = diff(u, v, memo)
        if n == 'f_exp':
            return t * du
        if n == 'f_tanh':
            return (1 - t * t) * du
        if n == 'f_log':
            return du / u
        if n == 'f_sqrt':
            return du / (2 * t)
        if n == 'f_sin':
            return R1['cos'](u) * du
        if n == 'f_cos':
            return -R1['sin'](u) * du
    raise ValueError('cannot differentiate %s' % t.decl().name())


def _occurs(t, v):
    seen = set()
    st = [t]
    vid = v.get_id()
    while st:
        x = st.pop()
        if x.get_id() == vid:
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        st.extend(x.children())
    return False


def touch(t):
    """state the axioms of every real function application inside t"""
    names = {f.name(): n for n, f in R1.items()}
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name() in names and x.num_args() == 1:
            apply(C, names[x.decl().name()], S(x.arg(0)))
        st.extend(x.children())
