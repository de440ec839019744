"""Supervised and classification data sets split and convert without loss."""
from .common import *
import pyvc.runtime as _R

P = 'pybrain.datasets.'
ASSUMPTIONS = ['classes are numbered from 0 to the number of classes minus one',
               'numpy.random.permutation(n) returns some permutation of 0..n-1',
               'numpy.where(condition) lists exactly the indices at which it holds, in increasing order',
               'class histogram: 1 to 4 classes (any number of samples)']
BOUNDED_ONLY = ['the splits of sequential data sets (splitWithProportion, stratifiedSplit), addition of data sets, sequence classes: bounded harness']


def fill(ds, n, old, dims, labels=('input', 'target'), ints=()):
    for l in labels:
        cap = C.int('capacity_' + l)
        C.assume(n <= cap)
        ds.data[l] = (ivec if l in ints else vec)('rows_' + l, cap, dims[l])
        ds.endmarker[l] = n
        old[l] = ds.data[l].copy()


def samples(t, where, ds, n, label, dm, want):
    """the field holds n rows, row i is want(i, j)"""
    r = ds[label]
    t.prove('%s: number of samples' % where, slen(r) == n)
    i, j = index(n, 'row'), index(dm, 'col')
    t.prove('%s: %s of every sample' % (where, label), at(r, i, j) == want(i, j))


@task('C09', 'splitWithProportion', functions=[P + 'supervised.SupervisedDataSet.splitWithProportion', P + 'supervised.SupervisedDataSet.__init__'])
def _(t):
    dims, old = {'input': dim('indim'), 'target': dim('outdim')}, {}
    n = C.int('samples', show=True)
    C.assume(n >= 0)
    p = C.real('proportion', show=True)
    C.assume(sym_and(p >= 0, p <= 1))
    ds = t.cls(P + 'supervised', 'SupervisedDataSet')(dims['input'], dims['target'])
    fill(ds, n, old, dims)
    left, right = t.call('splitWithProportion', ds.splitWithProportion, p)
    pi, inv, size = C.ghost['perms'][-1]
    t.prove('permutes all samples', size == n)
    m = slen(left)
    t.prove('the share is rounded down', sym_and(m <= n * p, n * p < m + 1))
    t.prove('nothing is lost or doubled', m + slen(right) == n)
    for l in ('input', 'target'):
        samples(t, 'first part', left, m, l, dims[l], lambda i, j: at(old[l], S(pi(T(i))), j))
        samples(t, 'second part', right, n - m, l, dims[l], lambda i, j: at(old[l], S(pi(T(m + i))), j))
        samples(t, 'the data set', ds, n, l, dims[l], lambda i, j: at(old[l], i, j))
    t.prove('dimensions', sym_and(left.indim == dims['input'], right.indim == dims['input'], left.outdim == dims['target'], right.outdim == dims['target']))


class Classes(object):
    """a data set of n samples, the classes of the first known of which are assigned"""

    def __init__(self, t, k):
        self.t, self.k = t, k
        self.dims, self.old = {'input': dim('indim'), 'target': 1, 'class': 1}, {}
        self.n = n = C.int('samples', show=True)
        known = C.int('classes_assigned', show=True)
        C.assume(sym_and(n >= 0, known >= 0, known <= n))
        self.ds = ds = t.cls(P + 'classification', 'ClassificationDataSet')(self.dims['input'], 1, k)
        fill(ds, n, self.old, self.dims, ints=('target',))
        tg = self.old['target']
        a = z3.Int('a~')
        C.assume(S(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < T(n)), z3.And(T(at(tg, S(a), 0)) >= 0, T(at(tg, S(a), 0)) < T(k))))))
        cap = C.int('capacity_class')
        C.assume(known <= cap)
        rest = ivec('rest', cap)
        ds.data['class'] = SArr.make((cap, 1), lambda q: z3.If(q[0] < T(known), T(at(tg, S(q[0]), 0)), T(at(rest, S(q[0])))), 'I')
        ds.endmarker['class'] = known

    def cls(self, i):
        return at(self.old['target'], i, 0)

    def inputs_kept(self, where):
        samples(self.t, where, self.ds, self.n, 'input', self.dims['input'], lambda i, j: at(self.old['input'], i, j))


CL = P + 'classification.ClassificationDataSet.'


@task('C09', 'one-of-many and back', functions=[CL + '_convertToOneOfMany', CL + '_convertToClassNb'])
def _(t):
    k = dim('classes')
    s = Classes(t, k)
    lo, hi = C.int('off', show=True), C.int('on', show=True)
    t.call('_convertToOneOfMany', s.ds._convertToOneOfMany, (lo, hi))
    t.prove('one column for every class', s.ds.outdim == k)
    samples(t, 'one-of-many', s.ds, s.n, 'target', k, lambda i, j: ite(s.cls(i) == j, hi, lo))
    samples(t, 'one-of-many', s.ds, s.n, 'class', 1, lambda i, j: s.cls(i))
    s.inputs_kept('one-of-many')
    if k > 1:
        t.call('converting twice', s.ds._convertToOneOfMany, (hi, lo))
        samples(t, 'converted twice', s.ds, s.n, 'target', k, lambda i, j: ite(s.cls(i) == j, hi, lo))
    t.call('_convertToClassNb', s.ds._convertToClassNb)
    samples(t, 'converted back', s.ds, s.n, 'target', 1, lambda i, j: s.cls(i))
    s.inputs_kept('converted back')
    t.prove('one target', s.ds.outdim == 1)


def histogram(k):
    @task('C09', 'class histogram, %d classes' % k, functions=[CL + 'calculateStatistics', CL + 'assignClasses'])
    def _(t):
        s = Classes(t, k)
        h = t.call('calculateStatistics', s.ds.calculateStatistics)
        t.prove('one entry for every class', len(h) == k)
        for c in range(k):
            t.prove('samples of a class', h[c] == Sum(s.n, lambda i: ite(s.cls(i) == c, 1, 0)))
        tot = lambda m: [Sum(m, lambda i: ite(s.cls(i) == c, 1, 0)) for c in range(k)]
        induction(t, 'every sample counts once', lambda m: sum(tot(m)) == m, s.n)
        t.prove('the counts add up to the number of samples', sum([h[c] for c in range(k)]) == s.n)
        samples(t, 'the classes', s.ds, s.n, 'class', 1, lambda i, j: s.cls(i))
        samples(t, 'the targets', s.ds, s.n, 'target', 1, lambda i, j: s.cls(i))
        s.inputs_kept('the inputs')


for k in (1, 2, 3, 4):
    histogram(k)


@task('C09', 'splitByClass', functions=[CL + 'splitByClass', CL + 'clear', CL + 'assignClasses'])
def _(t):
    k = dim('classes')
    s = Classes(t, k)
    c = C.int('selected', show=True)
    C.assume(sym_and(c >= 0, c < k))
    left, right = t.call('splitByClass', s.ds.splitByClass, c)
    induction(t, 'selected or not', lambda m: Sum(m, lambda q: ite(s.cls(q) == c, 1, 0)) + Sum(m, lambda q: ite(s.cls(q) != c, 1, 0)) == m, s.n)
    t.prove('nothing is lost or doubled', slen(left) + slen(right) == s.n)
    i = index(slen(left), 'i')
    t.prove('the first part has the selected class only', sym_and(at(left['class'], i, 0) == c, at(left['target'], i, 0) == c))
    i = index(slen(right), 'i')
    t.prove('the second part has no sample of it', sym_and(at(right['class'], i, 0) != c, at(right['target'], i, 0) == at(right['class'], i, 0)))
    # where the samples went
    w = C.ghost['where']
    for part, sel in ((left, w[0]), (right, w[1])):
        f = sel[0]
        i = index(slen(part), 'i')
        j = index(s.dims['input'], 'j')
        t.prove('a sample of the data set', sym_and(S(f(T(i))) >= 0, S(f(T(i))) < s.n))
        t.prove('input and class still belong together', sym_and(at(part['input'], i, j) == at(s.old['input'], S(f(T(i))), j), at(part['class'], i, 0) == s.cls(S(f(T(i))))))
        i2 = index(slen(part), 'i2')
        t.prove('no sample twice', sym_implies(i != i2, S(f(T(i))) != S(f(T(i2)))))
    samples(t, 'the data set', s.ds, s.n, 'target', 1, lambda i, j: s.cls(i))
    s.inputs_kept('the data set')
    t.prove('number of classes', sym_and(left.nClasses == k, right.nClasses == k))


@task('C09', 'castToRegression', functions=[CL + 'castToRegression'])
def _(t):
    k = dim('classes')
    s = Classes(t, k)
    values = vec('values', k)
    r = t.call('castToRegression', s.ds.castToRegression, values)
    samples(t, 'regression', r, s.n, 'target', 1, lambda i, j: at(values, s.cls(i)))
    samples(t, 'regression', r, s.n, 'input', s.dims['input'], lambda i, j: at(s.old['input'], i, j))
    samples(t, 'the data set', s.ds, s.n, 'target', 1, lambda i, j: s.cls(i))


@task('C09', 'importance weights', functions=[P + 'importance.ImportanceDataSet.addSample'])
def _(t):
    dims, old = {'input': dim('indim'), 'target': dim('targetdim')}, {}
    dims['importance'] = dims['target']
    n = C.int('samples', show=True)
    C.assume(n >= 0)
    ds = t.cls(P + 'importance', 'ImportanceDataSet')(dims['input'], dims['target'])
    fill(ds, n, old, dims, ('input', 'target', 'importance'))
    x, y, w = vec('x', dims['input']), vec('y', dims['target']), vec('w', dims['target'])
    given = C.choose()
    t.call('addSample', ds.addSample, x, y, w if given else None)
    new = {'input': x, 'target': y, 'importance': w}
    for l in new:
        samples(t, 'addSample', ds, n + 1, l, dims[l], lambda i, j: ite(i < n, at(old[l], i, j), at(new[l], j) if l != 'importance' or given else 1))


def episodes(t):
    dims, old = {'state': dim('statedim'), 'action': dim('actiondim'), 'reward': 1}, {}
    n = C.int('samples', show=True)
    C.assume(n >= 0)
    ds = t.cls(P + 'reinforcement', 'ReinforcementDataSet')(dims['state'], dims['action'])
    fill(ds, n, old, dims, ('state', 'action', 'reward'))
    return ds, n, dims, old


def returns(field):
    @task('C09', 'sums over the episodes: %s' % field, functions=[P + 'reinforcement.ReinforcementDataSet.getSumOverSequences'])
    def _(t):
        ds, n, dims, old = episodes(t)
        ns = dim('episodes')
        f = C.input_fun('start', z3.IntSort(), z3.IntSort())
        a, b = z3.Ints('a~ b~')
        C.assume(S(f(z3.IntVal(0))) == 0)
        C.assume(S(z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < b, b < T(ns)), f(a) < f(b)))))
        C.assume(S(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < T(ns)), z3.And(f(a) >= a, f(a) <= T(n))))))
        ds.data['sequence_index'] = SArr.make((ns, 1), lambda k: z3.ToReal(f(k[0])), 'R')
        ds.endmarker['sequence_index'] = ns
        st = lambda i: S(f(T(i)))
        r = t.call('getSumOverSequences', ds.getSumOverSequences, field)
        i, j = index(ns, 'episode'), index(dims[field], 'column')
        t.prove('one return for every episode', slen(r) == ns)
        size = (n if i == ns - 1 else st(i + 1)) - st(i)
        t.prove('the sum over the samples of the episode', at(r, i, j) == Sum(size, lambda q: at(old[field], st(i) + q, j)))


returns('reward')
returns('state')


@task('C09', 'samples of an episode', functions=[P + 'reinforcement.ReinforcementDataSet.addSample'])
def _(t):
    ds, n, dims, old = episodes(t)
    new = {'state': vec('s', dims['state']), 'action': vec('a', dims['action']), 'reward': vec('r', 1)}
    t.call('addSample', ds.addSample, new['state'], new['action'], new['reward'])
    for l in new:
        samples(t, 'addSample', ds, n + 1, l, dims[l], lambda i, j: ite(i < n, at(old[l], i, j), at(new[l], j)))
