"""Sequential data sets partition their samples into the added sequences.

Representation invariant: the field sequence_index holds st(0) = 0 < st(1) < ... <= length,
whole numbers. Sequence i is the samples st(i) .. st(i+1)-1 (the last one ends with the data
set). Every operation is verified from an arbitrary state satisfying the invariant."""
from .common import *

M = 'pybrain.datasets.sequential'
D = M + '.SequentialDataSet.'
LINKED = ['input', 'target']
ASSUMPTIONS = ['the marker and sequence numbers are non-negative',
               'the generator __iter__ is run to its end when it is called']
BOUNDED_ONLY = ['splitWithProportion, evaluateModuleMSE and histories of mixed operations: bounded harness']


class State(object):
    def __init__(self, t, make=None, linked=LINKED):
        self.t, self.linked = t, linked
        i, o = dim('indim'), dim('targetdim')
        self.ds = ds = (make or t.cls(M, 'SequentialDataSet'))(i, o)
        self.n, self.ns = n, ns = C.int('length', show=True), C.int('sequences', show=True)
        C.assume(sym_and(n >= 0, ns >= 1))
        self.f = f = C.input_fun('start', z3.IntSort(), z3.IntSort())
        a, b = z3.Ints('a~ b~')
        N, NS = T(n), T(ns)
        C.assume(S(f(z3.IntVal(0))) == 0)
        C.assume(S(z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < b, b < NS), f(a) < f(b)))))
        C.assume(S(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < NS), z3.And(f(a) >= a, f(a) <= N)))))
        self.dims, self.old = dict(zip(linked, (i, o, 1))), {}
        for l in linked:
            cap = C.int('capacity_' + l)
            C.assume(n <= cap)
            ds.data[l] = vec('rows_' + l, cap, self.dims[l])
            ds.endmarker[l] = n
            self.old[l] = ds.data[l].copy()
        cap = C.int('capacity_starts')
        C.assume(ns <= cap)
        rest = vec('rest', cap)
        ds.data['sequence_index'] = SArr.make((cap, 1), lambda k: z3.If(k[0] < NS, z3.ToReal(f(k[0])), T(rest.at(S(k[0])))), 'R')
        ds.endmarker['sequence_index'] = ns

    def st(self, i):
        return S(self.f(T(i)))

    def end(self, i):
        return ite(i == self.ns - 1, self.n, self.st(i + 1))

    def invariant(self, where, n, ns):
        """of the state after an operation"""
        ds, t = self.ds, self.t
        f = ds.data['sequence_index']
        t.prove('%s: number of sequences' % where, sym_and(ds.getNumSequences() == ns, ds.endmarker['sequence_index'] <= slen(f)))
        t.prove('%s: number of samples' % where, sym_and(slen(ds) == n, *[sym_and(ds.endmarker[l] == n, n <= slen(ds.data[l])) for l in self.linked]))
        t.prove('%s: the first sequence starts at the first sample' % where, at(f, 0, 0) == 0)
        a = C.int('inv_a')
        C.assume(sym_and(a >= 0, a < ns - 1))
        t.prove('%s: sequences start one after the other' % where, sym_and(at(f, a, 0) < at(f, a + 1, 0), at(f, a + 1, 0) <= n))

    def boundaries(self, where, n, ns, start):
        """starts are start(i)"""
        f = self.ds.data['sequence_index']
        i = index(ns, 'seq')
        self.t.prove('%s: starts of the sequences' % where, at(f, i, 0) == start(i))

    def unchanged(self, where):
        t, ds = self.t, self.ds
        t.prove('%s: nothing added or removed' % where, sym_and(slen(ds) == self.n, ds.getNumSequences() == self.ns))
        self.boundaries(where, self.n, self.ns, self.st)
        for l in self.linked:
            i, j = index(self.n, 'row'), index(self.dims[l], 'col')
            t.prove('%s: samples are kept' % where, at(ds.data[l], i, j) == at(self.old[l], i, j))


@task('C08', 'construction', functions=[D + '__init__'])
def _(t):
    i, o = dim('indim'), dim('targetdim')
    ds = t.call('SequentialDataSet', t.cls(M, 'SequentialDataSet'), i, o)
    t.prove('one empty sequence', sym_and(ds.getNumSequences() == 1, slen(ds) == 0, at(ds['sequence_index'], 0, 0) == 0,
                                          ds.getSequenceLength(0) == 0))


@task('C08', 'newSequence', functions=[D + 'newSequence'])
def _(t):
    s = State(t)
    Empty = t.cls(M, 'EmptySequenceError')
    last = s.st(s.ns - 1)
    try:
        s.ds.newSequence()
    except Empty:
        t.prove('refused only while the current sequence is empty', last == s.n)
        s.unchanged('refused')
        return
    if s.n == 0:
        s.unchanged('at the very start')
        return
    t.prove('an empty sequence is not left behind', last < s.n)
    s.invariant('newSequence', s.n, s.ns + 1)
    s.boundaries('newSequence', s.n, s.ns + 1, lambda i: ite(i == s.ns, s.n, s.st(i)))
    t.prove('the new sequence is empty', s.ds.getSequenceLength(s.ns) == 0)
    for l in LINKED:
        i, j = index(s.n, 'row'), index(s.dims[l], 'col')
        t.prove('samples are kept', at(s.ds.data[l], i, j) == at(s.old[l], i, j))


@task('C08', 'addSample', functions=['pybrain.datasets.supervised.SupervisedDataSet.addSample'])
def _(t):
    s = State(t)
    x, y = vec('x', s.dims['input']), vec('y', s.dims['target'])
    t.call('addSample', s.ds.addSample, x, y)
    s.invariant('addSample', s.n + 1, s.ns)
    s.boundaries('addSample', s.n + 1, s.ns, s.st)
    last = s.ns - 1
    t.prove('the last sequence gains the sample', s.ds.getSequenceLength(last) == s.n + 1 - s.st(last))
    for l, v in (('input', x), ('target', y)):
        r = s.ds._getSequenceField(last, l)
        j = index(s.dims[l], 'col')
        t.prove('as its last sample', at(r, s.n - s.st(last), j) == at(v, j))
        i = index(s.n, 'row')
        t.prove('samples are kept', at(s.ds.data[l], i, j) == at(s.old[l], i, j))


@task('C08', 'reading a sequence', functions=[D + '_getSequenceField', D + 'getSequence', D + 'getSequenceIterator', D + 'getSequenceLength', D + 'getNumSequences'])
def _(t):
    s = State(t)
    i = index(s.ns, 'number')
    size = s.end(i) - s.st(i)
    t.prove('length of a sequence', t.call('getSequenceLength', s.ds.getSequenceLength, i) == size)
    t.prove('number of sequences', s.ds.getNumSequences() == s.ns)
    r = t.call('getSequence', s.ds.getSequence, i)
    it = t.call('getSequenceIterator', s.ds.getSequenceIterator, i)
    t.prove('one array per linked field', len(r) == 2)
    t.prove('as many samples as the sequence is long', slen(it) == size)
    k = C.int('k', show=True)
    C.assume(sym_and(k >= 0, k < size))
    smp = it[k]
    for p, l in enumerate(LINKED):
        j = index(s.dims[l], 'col')
        want = at(s.old[l], s.st(i) + k, j)
        f = s.ds._getSequenceField(i, l)
        t.prove('size of the field of a sequence', sym_and(slen(r[p]) == size, slen(f) == size))
        t.prove('the samples of the sequence in order', sym_and(at(r[p], k, j) == want, at(f, k, j) == want, at(smp[p], j) == want))
    s.unchanged('reading')


@task('C08', 'no such sequence', functions=[D + '_getSequenceField', D + 'getSequenceLength', D + 'gotoSequence', D + 'endOfSequence', D + 'removeSequence'])
def _(t):
    s = State(t)
    b = C.int('beyond', show=True)
    C.assume(b >= s.ns)
    for name in ('getSequenceLength', 'getSequence', 'gotoSequence', 'endOfSequence', 'removeSequence'):
        t.raises(name, IndexError, getattr(s.ds, name), b)
    s.unchanged('refused')


@task('C08', 'marker', functions=[D + 'gotoSequence', D + 'endOfSequence', D + 'getCurrentSequence'])
def _(t):
    s = State(t)
    i = index(s.ns, 'number')
    t.call('gotoSequence', s.ds.gotoSequence, i)
    t.prove('the marker is at the first sample of the sequence', s.ds.index == s.st(i))
    m = C.int('marker', show=True)
    C.assume(sym_and(m >= s.st(i), m <= s.end(i)))
    s.ds.index = m
    t.prove('the end of the sequence is behind its last sample', sym_and(S(TB(s.ds.endOfSequence(i))) == (m == s.end(i))))
    C.assume(m < s.end(i))
    # sequences that start behind the marker: those after i
    induction(t, 'sequences behind the marker', lambda q: Sum(q, lambda a: ite(s.st(a) > m, 1, 0)) == ite(q <= i + 1, 0, q - i - 1), s.ns)
    t.prove('the current sequence holds the marker', s.ds.getCurrentSequence() == i)
    s.unchanged('moving the marker')


@task('C08', 'removeSequence', functions=[D + 'removeSequence', D + 'clear'])
def _(t):
    s = State(t)
    i = index(s.ns, 'number')
    a, b = s.st(i), s.end(i)
    size = b - a
    t.call('removeSequence', s.ds.removeSequence, i)
    left = s.n - size
    if s.ns == 1:
        t.prove('removing the only sequence empties the data set', sym_and(slen(s.ds) == 0, s.ds.getNumSequences() == 1, at(s.ds['sequence_index'], 0, 0) == 0))
        return
    s.invariant('removeSequence', left, s.ns - 1)
    s.boundaries('removeSequence', left, s.ns - 1, lambda q: ite(q < i, s.st(q), s.st(q + 1) - size))
    for l in LINKED:
        r, j = index(left, 'row'), index(s.dims[l], 'col')
        t.prove('the other samples are kept in order', at(s.ds.data[l], r, j) == ite(r < a, at(s.old[l], r, j), at(s.old[l], r + size, j)))
    t.prove('the marker is at the sample after the removed sequence', s.ds.index == ite(i == s.ns - 1, left, a))


@task('C08', 'clear', functions=[D + 'clear'])
def _(t):
    s = State(t)
    t.call('clear', s.ds.clear)
    t.prove('one empty sequence', sym_and(slen(s.ds) == 0, s.ds.getNumSequences() == 1, at(s.ds['sequence_index'], 0, 0) == 0, s.ds.getSequenceLength(0) == 0))
    for l in LINKED:
        t.prove('dimensions are kept', s.ds.getDimension(l) == s.dims[l])


def walk(how):
    @task('C08', 'iteration: %s' % how, functions=[D + '__iter__', D + '_provideSequences'])
    def _(t):
        C.eager = {'SequentialDataSet.__iter__'}
        s = State(t)
        out = t.call('iteration', lambda: s.ds.__iter__() if how == 'iter' else s.ds._provideSequences())
        t.prove('every sequence once', slen(out) == s.ns)
        i = index(s.ns, 'number')
        q = out[i]
        t.prove('every sample of the sequence', slen(q) == s.end(i) - s.st(i))
        k = C.int('k', show=True)
        C.assume(sym_and(k >= 0, k < s.end(i) - s.st(i)))
        for p, l in enumerate(LINKED):
            j = index(s.dims[l], 'col')
            t.prove('in order', at(q[k][p], j) == at(s.old[l], s.st(i) + k, j))
        s.unchanged('iteration')


walk('iter')
walk('_provideSequences')


@task('C08', 'the sequences partition the samples', functions=[])
def _(t):
    """lemma over the invariant"""
    s = State(t)
    p = index(s.n, 'p')
    i, j = index(s.ns, 'i'), index(s.ns, 'j')
    own = lambda q: sym_and(s.st(q) <= p, p < s.end(q))
    t.prove('no sample is in two sequences', sym_implies(sym_and(own(i), own(j)), i == j))
    # walking up: some sequence among the first m holds p, or p lies behind them
    found = lambda m: S(z3.Or(T(p) >= (s.f(T(m))), z3.Exists([z3.Int('e~')], z3.And(z3.Int('e~') >= 0, z3.Int('e~') < T(m), s.f(z3.Int('e~')) <= T(p), T(p) < s.f(z3.Int('e~') + 1)))))
    induction(t, 'some sequence holds it or it lies further on', found, s.ns - 1)
    e = z3.Int('e~')
    t.prove('every sample is in a sequence', S(z3.Exists([e], z3.And(e >= 0, e < T(s.ns), s.f(e) <= T(p), T(p) < z3.If(e == T(s.ns) - 1, T(s.n), s.f(e + 1))))))
