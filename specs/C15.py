"""Numerical and collection helpers meet their documented definitions."""
from .common import *
from .C07 import euclid

U, F = 'pybrain.utilities', 'pybrain.tools.functions'
ASSUMPTIONS = ['random() gives any number of [0, 1), choice any element',
               'the exponential function: positive, increasing, exp(0) = 1, exp(a+b) = exp(a) exp(b) (instances)']
BOUNDED_ONLY = ['drawGibbs with a positive temperature, permuteToBlocks, semilinear and expln of arrays, ranking, reachable, flood, crossproduct, avgFoundAfter: bounded harness']


def fn(t, mod, name):
    return t.module(mod).__dict__[name] if hasattr(t, 'module') else t.cls(mod, name)


@task('C15', 'one-of-n coding and back', functions=[U + '.one_to_n', U + '.n_to_one'])
def _(t):
    n = dim('n')
    v = index(n, 'value')
    a = t.call('one_to_n', fn(t, U, 'one_to_n'), v, n)
    k = index(n, 'k')
    t.prove('one of n', sym_and(slen(a) == n, at(a, k) == ite(k == v, 1, 0)))
    t.prove('and back', t.call('n_to_one', fn(t, U, 'n_to_one'), a) == v)
    b = vec('code', n)
    q = z3.Int('q~')
    C.assume(S(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < T(n)), T(at(b, S(q))) == z3.If(q == T(v), z3.RealVal(1), z3.RealVal(0))))))
    w = t.call('n_to_one', fn(t, U, 'n_to_one'), b)
    c = t.call('one_to_n', fn(t, U, 'one_to_n'), w, n)
    t.prove('coding again', at(c, k) == at(b, k))


@task('C15', 'drawIndex', functions=[U + '.drawIndex'])
def _(t):
    n = dim('n')
    p = vec('p', n)
    keep = p.copy()
    q = z3.Int('q~')
    C.assume(S(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < T(n)), T(at(p, S(q))) >= 0))))
    tot = Sum(n, lambda k: at(p, k))
    tolerant = C.choose()
    if tolerant:
        C.assume(tot > 0)
    else:
        C.assume(sym_and(tot <= 1.000001, tot >= 0.999999))
    e = z3.Int('e~')
    induction(t, 'a positive sum has a positive term', lambda m: sym_or(Sum(m, lambda k: at(p, k)) <= 0,
              S(z3.Exists([e], z3.And(e >= 0, e < T(m), T(at(p, S(e))) > 0)))), n)

    def inv(L):
        return [('adds up', L.s == Sum(L.k, lambda j: at(L.probs, j))),
                ('nothing drawn yet', L.s <= L.r), ('the draw', sym_and(L.r >= 0, L.r < 1))]
    C.loop_specs[('drawIndex', 0)] = LoopSpec(inv, sorts={'s': 'real'})
    i = t.call('drawIndex', fn(t, U, 'drawIndex'), p, tolerant)
    t.prove('an index', sym_and(i >= 0, i < n))
    t.prove('of positive probability', at(keep, i) > 0)
    k = index(n, 'k')
    t.prove('the probabilities stay as they are', at(p, k) == at(keep, k))


@task('C15', 'drawIndex: not a distribution', functions=[U + '.drawIndex'])
def _(t):
    n = dim('n')
    p = vec('p', n)
    tot = Sum(n, lambda k: at(p, k))
    C.assume(sym_or(tot > 1.0001, tot < 0.9999))
    t.raises('refused', ValueError, fn(t, U, 'drawIndex'), p)


@task('C15', 'drawGibbs at temperature zero', functions=[U + '.drawGibbs'])
def _(t):
    n = dim('n')
    v = vec('v', n)
    i = t.call('drawGibbs', fn(t, U, 'drawGibbs'), v, 0)
    t.prove('an index', sym_and(i >= 0, i < n))
    k = index(n, 'k')
    t.prove('of a largest value', at(v, i) >= at(v, k))


@task('C15', 'linscale', functions=[U + '.linscale'])
def _(t):
    n = dim('n')
    d = vec('d', n)
    keep = d.copy()
    lo, hi = C.real('lower', show=True), C.real('upper', show=True)
    C.assume(lo <= hi)
    r = t.call('linscale', fn(t, U, 'linscale'), d, (lo, hi))
    i, j = index(n, 'i'), index(n, 'j')
    t.prove('within the limits', sym_and(at(r, i) >= lo, at(r, i) <= hi))
    t.prove('in order', sym_implies(at(d, i) <= at(d, j), at(r, i) <= at(r, j)))
    t.prove('linear', (at(r, i) - lo) * (at(d, j) - d.min()) == (at(r, j) - lo) * (at(d, i) - d.min()))
    t.prove('the smallest is mapped to the lower limit', sym_implies(at(d, i) == d.min(), at(r, i) == lo))
    t.prove('the largest is mapped to the upper limit', sym_implies(sym_and(at(d, i) == d.max(), d.max() > d.min()), at(r, i) == hi))
    t.prove('the data stay as they are', at(d, i) == at(keep, i))


@task('C15', 'permute', functions=[U + '.permute'])
def _(t):
    n = dim('n')
    w = dim('width')
    a = vec('a', n, w)
    m = dim('m')
    p = ivec('p', m)
    q = z3.Int('q~')
    C.assume(S(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < T(m)), z3.And(T(at(p, S(q))) >= 0, T(at(p, S(q))) < T(n))))))
    r = t.call('permute', fn(t, U, 'permute'), a, p)
    i, j = index(m, 'i'), index(w, 'j')
    t.prove('rows in the given order', sym_and(slen(r) == m, at(r, i, j) == at(a, at(p, i), j)))


def triangle(t):
    n = dim('dimension')
    # start(r): position of the first entry of row r
    f = C.input_fun('start', z3.IntSort(), z3.IntSort())
    start = lambda r: S(f(T(r)))
    C.assume(start(0) == 0)
    C.forall(1, lambda r: sym_implies(r >= 0, start(r + 1) == start(r) + n - r))
    generalize(t, 'rows do not overlap', 2, lambda a, b: sym_implies(sym_and(a >= 0, a < b, b <= n), start(a) + n - a <= start(b)),
               by=lambda a, b: (C.assume(sym_and(a >= 0, b <= n)), induction(t, 'later rows start behind', lambda q: sym_implies(a < q, start(a) + n - a <= start(q)), b)))
    induction(t, 'number of entries above a row', lambda q: 2 * start(q) == 2 * n * q - q * (q - 1), n)
    gen = lambda q: sym_implies(sym_and(q >= 0, q <= n), start(q) >= 0)
    generalize(t, 'positions', 1, gen, by=lambda q: (C.assume(q <= n), induction(t, 'positions', lambda r: start(r) >= 0, q)))

    def packed(L):
        return [('position', L.index == start(L.k)),
                ('rows so far', All(2, lambda r, c: sym_implies(sym_and(r >= 0, r < L.k, c >= r, c < n), at(L.res, start(r) + c - r) == at(L.m, r, c))))]
    C.loop_specs[('triu2flat', 0)] = LoopSpec(packed, modifies=lambda L: [L.res])

    def unpacked(L):
        return [('position', L.index == start(L.k)),
                ('rows so far', All(2, lambda r, c: sym_implies(sym_and(r >= 0, r < n, c >= 0, c < n),
                                    at(L.res, r, c) == ite(sym_and(r < L.k, c >= r), at(L.a, start(r) + c - r), 0))))]
    C.loop_specs[('flat2triu', 0)] = LoopSpec(unpacked, modifies=lambda L: [L.res])
    return n, start, index(n, 'i'), index(n, 'j')


@task('C15', 'triangular packing, then unpacking', functions=[U + '.triu2flat', U + '.flat2triu'])
def _(t):
    n, start, i, j = triangle(t)
    m = vec('m', n, n)
    v = t.call('triu2flat', fn(t, U, 'triu2flat'), m)
    t.prove('number of entries', 2 * slen(v) == n * (n + 1))
    t.prove('packed row by row', sym_implies(i <= j, at(v, start(i) + j - i) == at(m, i, j)))
    w = t.call('flat2triu', fn(t, U, 'flat2triu'), v, n)
    t.prove('unpacked again', at(w, i, j) == ite(i <= j, at(m, i, j), 0))


@task('C15', 'triangular unpacking, then packing', functions=[U + '.triu2flat', U + '.flat2triu'])
def _(t):
    n, start, i, j = triangle(t)
    u = vec('u', start(n))
    x = t.call('flat2triu', fn(t, U, 'flat2triu'), u, n)
    t.prove('unpacked row by row', at(x, i, j) == ite(i <= j, at(u, start(i) + j - i), 0))
    y = t.call('triu2flat', fn(t, U, 'triu2flat'), x)
    t.prove('packed row by row', sym_implies(i <= j, at(y, start(i) + j - i) == at(x, i, j)))
    C.assume(sym_implies(i <= j, at(y, start(i) + j - i) == at(x, i, j)))
    t.prove('packed again', sym_implies(i <= j, at(y, start(i) + j - i) == at(u, start(i) + j - i)))


def elementwise():
    n = dim('n')
    x = vec('x', n)
    k = index(n, 'k')
    C.assume(bounded(at(x, k)))
    return x, k


def exp(v):
    return S(C.fn1('exp', TR(v)))


@task('C15', 'safeExp, sigmoid and derivatives', functions=[F + '.' + f for f in ('safeExp', 'sigmoid', 'sigmoidPrime', 'tanhPrime')])
def _(t):
    x, k = elementwise()
    v = at(x, k)
    keep = x.copy()
    e = t.call('safeExp', fn(t, F, 'safeExp'), x)
    t.prove('exponential', at(e, k) == exp(v))
    s = t.call('sigmoid', fn(t, F, 'sigmoid'), x)
    t.prove('logistic', at(s, k) * (1 + exp(-v)) == 1)
    t.prove('between 0 and 1', sym_and(at(s, k) > 0, at(s, k) < 1))
    d = t.call('sigmoidPrime', fn(t, F, 'sigmoidPrime'), x)
    t.prove('derivative of the logistic', at(d, k) == diff_at(lambda z: 1 / (1 + exp(-z)), v))
    h = t.call('tanhPrime', fn(t, F, 'tanhPrime'), x)
    t.prove('derivative of tanh', at(h, k) == diff_at(lambda z: S(C.fn1('tanh', TR(z))), v))
    t.prove('the argument stays as it is', at(x, k) == at(keep, k))
    i = index(slen(x), 'i')
    w = at(x, i)
    t.prove('safeExp of large arguments', at(e, i) == exp(ite(w > 500, 500, ite(w < -500, -500, w))))


@task('C15', 'semilinear', functions=[F + '.semilinear', F + '.semilinearPrime'])
def _(t):
    x, k = elementwise()
    v = at(x, k)
    r = t.call('semilinear', fn(t, F, 'semilinear'), x)
    t.prove('x + 1 for x >= 0, exp(x) below', at(r, k) == ite(v >= 0, v + 1, exp(v)))
    t.prove('positive', at(r, k) > 0)
    d = t.call('semilinearPrime', fn(t, F, 'semilinearPrime'), x)
    t.prove('its derivative', at(d, k) == ite(v >= 0, 1, exp(v)))


@task('C15', 'expln', functions=[F + '.expln', F + '.explnPrime'])
def _(t):
    x, k = elementwise()
    v = at(x, k)
    r = t.call('expln', fn(t, F, 'expln'), x)
    t.prove('ln(x+1)+1 for x >= 0, exp(x) below', at(r, k) == ite(v >= 0, S(C.fn1('log', TR(v + 1))) + 1, exp(v)))
    d = t.call('explnPrime', fn(t, F, 'explnPrime'), x)
    t.prove('its derivative', sym_implies(v >= 0, at(d, k) * (v + 1) == 1))
    t.prove('its derivative below zero', sym_implies(v < 0, at(d, k) == exp(v)))
