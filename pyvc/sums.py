"""Finite sums  sum_{k=0}^{n-1} body(k)  as normalised terms.

A sum is an application  Sum_id(n, args)  of an uninterpreted function whose
identity is the (normalised) body with its free integer constants abstracted.
Facts used: linearity, factoring of constants, the Kronecker delta,
Sum(0)=0, Sum(n+1)=Sum(n)+body(n), pointwise equality of bodies (also in
reversed order), and
monotonicity of sums of non-negative bodies (all standard; listed in the
trusted base)."""
import z3
from .core import C, Sym, T, TR, TI, TB, S, Int, Real, simp

_registry = {}     # key -> (decl, id)
_defs = {}         # decl name -> (k var, params, body)


def reset():
    _registry.clear()
    _defs.clear()


def kvar(depth):
    return z3.Int('k~%d' % depth)


def _contains(t, v, cache=None):
    seen = set()
    st = [t]
    vid = v.get_id()
    while st:
        x = st.pop()
        i = x.get_id()
        if i == vid:
            return True
        if i in seen:
            continue
        seen.add(i)
        st.extend(x.children())
    return False


def _free_ints(t):
    out, seen = [], set()

    def go(x):
        i = x.get_id()
        if i in seen:
            return
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.sort() == Int:
            out.append(x)
            return
        for c in x.children():
            go(c)
    go(t)
    return out


def monomials(t):
    """sum-of-monomials view: list of (numeral term, [factors])"""
    t = z3.simplify(t, som=True, som_blowup=200, hoist_ite=False, flat=True)
    out = []

    def add(x):
        if z3.is_add(x):
            for c in x.children():
                add(c)
            return
        if z3.is_app_of(x, z3.Z3_OP_UMINUS):
            n0 = len(out)
            add(x.arg(0))
            for i in range(n0, len(out)):
                out[i] = (-out[i][0], out[i][1])
            return
        if z3.is_sub(x):
            add(x.arg(0))
            n0 = len(out)
            for c in x.children()[1:]:
                add(c)
            for i in range(n0, len(out)):
                out[i] = (-out[i][0], out[i][1])
            return
        if z3.is_mul(x):
            coef = None
            fs = []

            def mul(y):
                nonlocal coef
                for c in y.children():
                    if z3.is_mul(c):
                        mul(c)
                    elif z3.is_int_value(c) or z3.is_rational_value(c):
                        coef = c if coef is None else coef * c
                    else:
                        fs.append(c)
            mul(x)
            out.append((simp(coef) if coef is not None else _one(x), fs))
            return
        if z3.is_int_value(x) or z3.is_rational_value(x):
            out.append((x, []))
            return
        if z3.is_app_of(x, z3.Z3_OP_TO_REAL) and (z3.is_add(x.arg(0)) or z3.is_mul(x.arg(0))):
            n0 = len(out)
            add(x.arg(0))
            for i in range(n0, len(out)):
                out[i] = (z3.ToReal(out[i][0]) if out[i][0].sort() == Int else out[i][0],
                          [z3.ToReal(f) if f.sort() == Int else f for f in out[i][1]])
            return
        if z3.is_div(x):
            # (a + b)/c  ->  a/c + b/c ; keep 1/c as a factor
            n0 = len(out)
            num, den = x.arg(0), x.arg(1)
            add(num)
            inv = z3.RealVal(1) / den
            for i in range(n0, len(out)):
                out[i] = (out[i][0], out[i][1] + [inv])
            return
        out.append((_one(x), [x]))
    add(t)
    return out


def _one(x):
    return z3.RealVal(1) if x.sort() == Real else z3.IntVal(1)


def _prod(coef, fs):
    r = None
    for f in fs:
        r = f if r is None else r * f
    if r is None:
        return coef
    if z3.is_int_value(coef) and coef.as_long() == 1:
        return r
    if z3.is_rational_value(coef) and coef.numerator_as_long() == coef.denominator_as_long():
        return r
    if coef.sort() != r.sort():
        coef = TR(coef)
        r = TR(r)
    return coef * r


def Sum(n, f, lo=0):
    """sum of f(k), lo <= k < n ;  f: z3 Int term -> z3 term.  Returns a term."""
    if isinstance(lo, (int,)) and lo == 0:
        pass
    else:
        l0 = T(lo)
        return Sum(simp(T(n) - l0), lambda k: f(k + l0))
    n = simp(T(n))
    if z3.is_int_value(n):
        m = n.as_long()
        if m <= 0:
            return z3.RealVal(0)
        if m <= 64:
            tot = None
            for i in range(m):
                x = TI(f(z3.IntVal(i)))
                tot = x if tot is None else _add(tot, x)
            return simp(tot)
    d = C.depth_sum = getattr(C, 'depth_sum', 0) + 1
    k = kvar(d)
    try:
        body = prune(TI(f(k)), k, n)
    finally:
        C.depth_sum -= 1
    body = split_delta(body, k)
    total = None
    points, counts = [], []
    for coef, fs in monomials(body):
        indep = [x for x in fs if not _contains(x, k)]
        dep = [x for x in fs if _contains(x, k)]
        if not dep:
            base = z3.ToReal(n) if coef.sort() == Real or any(x.sort() == Real for x in fs) else n
            # sums over an empty/negative range are 0
            if not C.int_unsat(n < 0):
                base = z3.If(n > 0, base, z3.RealVal(0) if base.sort() == Real else z3.IntVal(0))
        else:
            base = _atom(n, k, dep)
            if base.decl().name() in _defs:
                if _counting(_defs[base.decl().name()][2]):
                    counts.append(base)
            elif body.sort() == Int:
                points += [_delta(x, k)[0] for x in dep if _delta(x, k) is not None]
        term = _mul(coef, indep, base)
        total = term if total is None else _add(total, term)
    for c in counts:
        # a counted set with one element added or removed: say whether it was in
        for e in points:
            note(c.decl()(e, *c.children()[1:]))
    if total is None:
        return z3.RealVal(0)
    return total


def range_facts(k, n):
    """0 <= k < n and the universally quantified facts of the state at k"""
    out = [k >= 0, k < n]
    for q in C.closures:
        if q.nvars == 1:
            out.append(TB(q.body(Sym(k))))
    return out


def _has_ite(t):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
            return True
        st.extend(x.children())
    return False


def prune(t, k, n):
    """drop the alternatives of t that are impossible for 0 <= k < n"""
    t = z3.simplify(t)
    if not _has_ite(t):
        return t
    from . import reduce as R
    return R.reduce(C, t, range_facts(k, n))


def _rebuild(x, cs):
    r = cs[0]
    for c in cs[1:]:
        r = r + c if z3.is_add(x) else r * c
    return r


def _add(a, b):
    if a.sort() != b.sort():
        a, b = TR(a), TR(b)
    return a + b


def _mul(coef, indep, base):
    r = base
    for x in indep:
        if x.sort() != r.sort():
            x, r = TR(x), TR(r)
        r = x * r
    if (z3.is_int_value(coef) and coef.as_long() == 1) or (
            z3.is_rational_value(coef) and coef.numerator_as_long() == 1 and coef.denominator_as_long() == 1):
        return r
    if coef.sort() != r.sort():
        coef, r = TR(coef), TR(r)
    return coef * r


def split_delta(t, k):
    """If(k == e, a, b) -> b + If(k == e, a - b, 0), at the polynomial level of t"""
    if not z3.is_app(t) or not t.num_args():
        return t
    if z3.is_app_of(t, z3.Z3_OP_ITE) and t.sort() in (Int, Real):
        c, a, b = t.children()
        if z3.is_not(c):
            c, a, b = c.arg(0), b, a
        if z3.is_eq(c) and c.arg(0).sort() == Int and _contains(c, k) and not _is0(b):
            e = _solve_for(c, k)
            if e is not None:
                a, b = split_delta(a, k), split_delta(b, k)
                if a.sort() != b.sort():
                    a, b = TR(a), TR(b)
                zero = z3.RealVal(0) if a.sort() == Real else z3.IntVal(0)
                d = simp(z3.substitute(a - b, (k, e)))
                if _is0(d):
                    return b
                return b + z3.If(k == e, d, zero)
        q = _point(c, k)
        if q is not None:
            e = _solve_for(q, k)
            if e is not None:
                off = simp(z3.substitute(t, (q, z3.BoolVal(False))))
                zero = z3.RealVal(0) if t.sort() == Real else z3.IntVal(0)
                d = simp(z3.substitute(t, (q, z3.BoolVal(True)), (k, e)) - z3.substitute(off, (k, e)))
                off = split_delta(off, k)
                return off if _is0(d) else off + z3.If(k == e, d, zero)
        return t
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
        x = split_delta(t.arg(0), k)
        return t if x.eq(t.arg(0)) else TR(x)
    if z3.is_add(t) or z3.is_mul(t):
        return _rebuild(t, [split_delta(c, k) for c in t.children()])
    if z3.is_sub(t):
        cs = [split_delta(c, k) for c in t.children()]
        r = cs[0]
        for c in cs[1:]:
            r = r - c
        return r
    if z3.is_app_of(t, z3.Z3_OP_UMINUS):
        return -split_delta(t.arg(0), k)
    return t


def _point(c, k):
    """an equation for k inside the condition c"""
    if z3.is_eq(c) and c.arg(0).sort() == Int:
        return c if _contains(c, k) else None
    if z3.is_app(c) and c.sort() == z3.BoolSort() and c.decl().kind() in (
            z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_ITE):
        for x in c.children():
            q = _point(x, k)
            if q is not None:
                return q
    return None


def _solve_for(c, k):
    """the only solution of the equation c for k, when k occurs with coefficient +-1"""
    co, rest = None, z3.IntVal(0)
    for coef, fs in monomials(c.arg(0) - c.arg(1)):
        if any(_contains(f, k) for f in fs):
            if len(fs) != 1 or not fs[0].eq(k) or co is not None or not z3.is_int_value(coef):
                return None
            co = coef.as_long()
        else:
            rest = rest + _prod(coef, fs)
    if co not in (1, -1):
        return None
    return simp(-rest if co == 1 else rest)


def _delta(x, k):
    """x = If(k == e, a, 0) -> (e, a)"""
    if z3.is_app_of(x, z3.Z3_OP_TO_REAL):
        d = _delta(x.arg(0), k)
        return None if d is None else (d[0], TR(d[1]))
    if z3.is_app_of(x, z3.Z3_OP_ITE):
        c, a, b = x.children()
        if z3.is_not(c):
            c, a, b = c.arg(0), b, a
        if z3.is_eq(c) and c.arg(0).sort() == Int and _is0(b) and _contains(c, k):
            e = _solve_for(c, k)
            if e is not None:
                return e, a
    return None


def _is0(b):
    return (z3.is_int_value(b) and b.as_long() == 0) or (z3.is_rational_value(b) and b.numerator_as_long() == 0)


def _atom(n, k, dep):
    for i, x in enumerate(dep):
        dl = _delta(x, k)
        if dl is not None:
            e, a = dl
            rest = dep[:i] + dep[i + 1:]
            r = z3.substitute(a, (k, e))
            for y in rest:
                y = z3.substitute(y, (k, e))
                if y.sort() != r.sort():
                    y, r = TR(y), TR(r)
                r = r * y
            zero = z3.RealVal(0) if r.sort() == Real else z3.IntVal(0)
            return z3.If(z3.And(e >= 0, e < n), r, zero)
    dep = sorted(dep, key=lambda x: x.sexpr())
    body = None
    for x in dep:
        if body is None:
            body = x
        else:
            if x.sort() != body.sort():
                x, body = TR(x), TR(body)
            body = body * x
    fi = [v for v in _free_ints(body) if v.get_id() != k.get_id()]
    ph = [z3.Int('p~%d' % i) for i in range(len(fi))]
    K = z3.Int('k~')
    nb = z3.substitute(body, *([(k, K)] + list(zip(fi, ph))))
    key = nb.sexpr()
    if key not in _registry:
        name = 'Sum_%d' % len(_registry)
        decl = z3.Function(name, *([Int] * (1 + len(fi)) + [body.sort()]))
        _registry[key] = decl
        _defs[name] = (K, ph, nb)
    decl = _registry[key]
    app = decl(n, *fi)
    note(app)
    return app


def body_at(app, kterm):
    K, ph, nb = _defs[app.decl().name()]
    args = app.children()
    return z3.substitute(nb, *([(K, kterm)] + list(zip(ph, args[1:]))))


def note(app):
    """register a sum occurrence, generate the unrolling lemmas"""
    if app.get_id() in C.sum_seen:
        return
    C.sum_seen.add(app.get_id())
    n = app.arg(0)
    z = z3.RealVal(0) if app.sort() == Real else z3.IntVal(0)
    C.axiom(z3.Implies(n <= 0, app == z))
    counting = _counting(_defs[app.decl().name()][2])
    if counting:
        C.axiom(z3.And(app >= 0, z3.Implies(n >= 0, app <= n)))
    rest = [a.get_id() for a in app.children()[1:]]
    for other in C.sums:
        if other.decl().eq(app.decl()) and [a.get_id() for a in other.children()[1:]] == rest:
            m = other.arg(0)
            df = simp(n - m)
            if counting:
                for a, x, b, y in ((app, n, other, m), (other, m, app, n)):
                    C.axiom(z3.Implies(z3.And(x >= 0, x <= y), z3.And(a <= b, b <= a + (y - x))))
                    C.axiom(z3.Implies(z3.And(x >= 0, x < y), z3.And(a + body_at(a, x) <= b, b <= a + body_at(a, x) + (y - x - 1))))
            if z3.is_int_value(df):
                dv = df.as_long()
                if dv == 1:
                    C.axiom(z3.Implies(m >= 0, app == other + body_at(app, m)))
                elif dv == -1:
                    C.axiom(z3.Implies(n >= 0, other == app + body_at(app, n)))
            else:
                C.axiom(z3.Implies(n == m, app == other))
                C.axiom(z3.Implies(z3.And(m >= 0, n == m + 1), app == other + body_at(app, m)))
                C.axiom(z3.Implies(z3.And(n >= 0, m == n + 1), other == app + body_at(app, n)))
    C.sums.append(app)


def _counting(body):
    """a 0/1 body: its sum counts iterations"""
    if body.sort() != Int:
        return False
    if z3.is_int_value(body):
        return body.as_long() in (0, 1)
    if z3.is_app_of(body, z3.Z3_OP_ITE):
        return _counting(body.arg(1)) and _counting(body.arg(2))
    return False


def prefix_monotone(app_decl_sums):
    """for sums of non-negative bodies: n<=m -> S(n)<=S(m), and n<m -> S(n)+body(n)<=S(m)"""
    out = []
    for a in app_decl_sums:
        for b in app_decl_sums:
            if a.get_id() == b.get_id() or not a.decl().eq(b.decl()):
                continue
            if [x.get_id() for x in a.children()[1:]] != [x.get_id() for x in b.children()[1:]]:
                continue
            n, m = a.arg(0), b.arg(0)
            out.append(z3.Implies(z3.And(n >= 0, n <= m), a <= b))
            out.append(z3.Implies(z3.And(n >= 0, n < m), a + body_at(a, n) <= b))
    return out


def nonneg_lemmas():
    """monotonicity lemmas for every prefix sum whose body is provably >= 0"""
    groups = {}
    done = C.ghost.setdefault('nonneg_done', set())
    new = False
    for a in C.sums:
        groups.setdefault((a.decl().name(), tuple(x.get_id() for x in a.children()[1:])), []).append(a)
    for g in groups.values():
        a = g[0]
        k = z3.Int(C.fresh_name('mono'))
        mx = None
        for x in g:
            mx = x.arg(0) if mx is None else z3.If(x.arg(0) > mx, x.arg(0), mx)
        b = body_at(a, k)
        if g[0].get_id() in done:
            continue
        done.add(g[0].get_id())
        from . import reals
        reals.touch(b)
        facts = range_facts(k, mx)
        r, _ = C._solve(facts + [b < 0], 1000)
        if r == z3.unsat:
            for x in g:
                C.axiom(x >= 0)
            for f in prefix_monotone(g):
                C.axiom(f)
            new = True
            r, _ = C._solve(facts + [b <= 0], 1000)
            if r == z3.unsat:
                for x in g:
                    C.axiom(z3.Implies(x.arg(0) >= 1, x > 0))
    return new


def _collect_sums(ts):
    out, seen = [], set()
    st = list(ts)
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name() in _defs:
            out.append(x)
        st.extend(x.children())
    return out


def _differ(ctx, facts, x, y, other=None):
    """can two bodies differ (or the other condition hold)?  Sums inside the bodies are
    compared term by term first."""
    facts = list(facts)
    for u in _collect_sums([x]):
        for v in _collect_sums([y]):
            if not u.eq(v) and u.sort() == v.sort() and u.arg(0).eq(v.arg(0)) and not _contains_any(u.arg(0)):
                k = z3.Int(ctx.fresh_name('ext'))
                if _differ(ctx, facts + range_facts(k, u.arg(0)), body_at(u, k), body_at(v, k)) == z3.unsat:
                    facts.append(u == v)
    return ctx._solve(facts + [x != y if other is None else z3.Or(other, x != y)], 1500)[0]


def _contains_any(t):
    return bool(_collect_sums([t]))


def extensionality(ctx, goal):
    """S1 == S2 when the bounds agree and the bodies agree pointwise"""
    apps = _collect_sums(list(goal))
    if not apps:
        return []
    for a in apps:
        note(a)
    out = []
    done = 0
    if any(a.sort() == Int for a in apps):
        # counts: also those the path condition talks about
        have = {a.get_id() for a in apps}
        for a in list(C.sums):
            if a.sort() == Int and a.get_id() not in have and any(
                    b.sort() == Int and a.arg(0).eq(b.arg(0)) and not a.decl().eq(b.decl()) for b in apps) and len(apps) < 12:
                apps.append(a)
    for i, a in enumerate(apps):
        for b in apps[i + 1:]:
            if a.sort() != b.sort() or a.eq(b):
                continue
            if done > 40:
                return out
            done += 1
            k = z3.Int(ctx.fresh_name('ext'))
            if _differ(ctx, range_facts(k, a.arg(0)), body_at(a, k), body_at(b, k), a.arg(0) != b.arg(0)) == z3.unsat:
                r2, _ = ctx._solve([a.arg(0) != b.arg(0)], 1000)
                if r2 == z3.unsat:
                    out.append(a == b)
                    continue
            n = a.arg(0)
            if n.eq(b.arg(0)) and not z3.is_int_value(n) and any(_contains(body_at(x, k), n) for x in (a, b)):
                # the same terms in the opposite order
                y = simp(body_at(b, simp(n - 1 - k)))
                if _differ(ctx, range_facts(k, n), body_at(a, k), y) == z3.unsat:
                    out.append(a == b)
    return out
