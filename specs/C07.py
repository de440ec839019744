"""Data set fields stay equally long and keep what was appended, in order.

Representation invariant of a field: 0 <= endmarker <= number of stored rows; linked fields
have equal endmarkers. Content of a field = its first endmarker rows. Every operation is
verified from an arbitrary state satisfying the invariant (capacities, lengths and
dimensions unbounded), so the property follows by induction over histories."""
from .common import *

M = 'pybrain.datasets.dataset'
D = M + '.DataSet.'
LINKED = ['input', 'target']
ASSUMPTIONS = ['two linked fields and one unlinked field (lengths, capacities and dimensions arbitrary)',
               'numpy.resize repeats rows cyclically; a row of another length is refused by numpy (a single value is spread)',
               'batches is run to its end when it is called']
BOUNDED_ONLY = ['pickling, the list and 2d formats, integer fields and fields of more than two dimensions: bounded harness']


class State(object):
    def __init__(self, t, linked=LINKED, index=None, cls='DataSet', mod=M):
        self.t = t
        self.ds = ds = t.cls(mod, cls)()
        self.n = n = C.int('length', show=True)
        C.assume(n >= 0)
        self.old, self.dims, self.ends = {}, {}, {}
        for l in LINKED + ['extra']:
            dm, cap = dim('dim_' + l), C.int('capacity_' + l, show=True)
            e = n if l in linked else C.int('length_' + l, show=True)
            C.assume(sym_and(e >= 0, e <= cap))
            ds.addField(l, dm)
            ds.data[l] = vec('rows_' + l, cap, dm)
            ds.endmarker[l] = e
            self.old[l], self.dims[l], self.ends[l] = ds.data[l].copy(), dm, e
        ds.link = SList(list(linked))
        self.linked = list(linked)
        ds.index = C.int('marker') if index is None else index

    def invariant(self, where, linked=None):
        ds = self.ds
        for l in ds.data:
            self.t.prove('%s: the storage of %s holds its rows' % (where, l),
                         sym_and(ds.endmarker[l] >= 0, ds.endmarker[l] <= slen(ds.data[l])))
            self.t.prove('%s: dimension of %s is kept' % (where, l), slen(ds.data[l][0:1].T) == self.dims[l] if False else S(T(ds.data[l]._shape[1])) == self.dims[l])
        ls = self.linked if linked is None else linked
        for l in ls:
            self.t.prove('%s: linked fields are equally long' % where, ds.endmarker[l] == ds.endmarker[ls[0]])

    def same(self, where, *labels):
        for l in labels or LINKED + ['extra']:
            i, j = index(self.ends[l], 'i'), index(self.dims[l], 'j')
            self.t.prove('%s: %s keeps its rows' % (where, l),
                         sym_and(self.ds.endmarker[l] >= self.ends[l], at(self.ds.data[l], i, j) == at(self.old[l], i, j)))

    def rows(self, where, l, r):
        """r is exactly the content of the field"""
        self.t.prove('%s: as many rows as appended' % where, slen(r) == self.ends[l])
        i, j = index(self.ends[l], 'i'), index(self.dims[l], 'j')
        self.t.prove('%s: the rows appended, in order' % where, at(r, i, j) == at(self.old[l], i, j))


@task('C07', 'append to an unlinked field', functions=[D + 'append', D + '_appendUnlinked', D + '_resize', D + '_resizeArray'])
def _(t):
    s = State(t)
    row = vec('row', s.dims['extra'])
    r0 = row.copy()
    t.call('append', s.ds.append, 'extra', row)
    s.invariant('append')
    s.same('append')
    j = index(s.dims['extra'], 'j')
    t.prove('the row comes last', sym_and(s.ds.endmarker['extra'] == s.ends['extra'] + 1,
                                           at(s.ds.data['extra'], s.ends['extra'], j) == at(r0, j), at(row, j) == at(r0, j)))
    t.prove('other fields keep their length', sym_and(*[s.ds.endmarker[l] == s.n for l in LINKED]))
    oos = t.cls(M, 'OutOfSyncError')
    t.raises('append to one linked field', oos, s.ds.append, 'input', row)
    t.prove('a refused append changes nothing', s.ds.endmarker['input'] == s.n)


@task('C07', 'append a value spread over the row', functions=[D + 'append'])
def _(t):
    s = State(t)
    v = C.real('v')
    t.call('append', s.ds.append, 'extra', v)
    j = index(s.dims['extra'], 'j')
    s.same('append')
    t.prove('the value fills the row', at(s.ds.data['extra'], s.ends['extra'], j) == v)


@task('C07', 'appendLinked', functions=[D + 'appendLinked', D + '_appendUnlinked'])
def _(t):
    s = State(t)
    rows = [vec('row_' + l, s.dims[l]) for l in LINKED]
    t.call('appendLinked', s.ds.appendLinked, *rows)
    s.invariant('appendLinked')
    s.same('appendLinked')
    for l, r in zip(LINKED, rows):
        j = index(s.dims[l], 'j')
        t.prove('one row more in %s' % l, sym_and(s.ds.endmarker[l] == s.n + 1, at(s.ds.data[l], s.n, j) == at(r, j)))
    t.prove('length is the length of the linked fields', sym_and(s.ds.getLength() == s.n + 1, slen(s.ds) == s.n + 1))
    t.prove('unlinked fields keep their length', s.ds.endmarker['extra'] == s.ends['extra'])


@task('C07', 'appendLinked: the wrong number of rows', functions=[D + 'appendLinked'])
def _(t):
    s = State(t)
    t.raises('one row for two fields', AssertionError, s.ds.appendLinked, vec('row', s.dims['input']))
    s.invariant('refused')
    t.prove('nothing is appended', sym_and(*[s.ds.endmarker[l] == s.n for l in LINKED]))


def refuse(bad):
    @task('C07', 'appendLinked: wrong size of %s' % LINKED[bad], functions=[D + 'appendLinked'])
    def _(t):
        s = State(t)
        sizes = [s.dims[l] for l in LINKED]
        w = C.int('wrongsize', show=True)
        C.assume(sym_and(w >= 0, w != 1, w != sizes[bad]))
        sizes[bad] = w
        t.raises('a vector of the wrong size', ValueError, s.ds.appendLinked, *[vec('row_' + l, k) for l, k in zip(LINKED, sizes)])
        s.invariant('refused')
        s.same('refused')
        for l in LINKED:
            t.prove('a refused sample leaves %s as long as it was' % l, s.ds.endmarker[l] == s.n)


refuse(0)
refuse(1)


@task('C07', 'append: wrong size', functions=[D + 'append'])
def _(t):
    s = State(t)
    w = C.int('wrongsize', show=True)
    C.assume(sym_and(w >= 0, w != 1, w != s.dims['extra']))
    t.raises('a vector of the wrong size', ValueError, s.ds.append, 'extra', vec('row', w))
    s.invariant('refused')
    s.same('refused')
    t.prove('nothing is appended', s.ds.endmarker['extra'] == s.ends['extra'])


@task('C07', 'reading fields', functions=[D + 'getField', D + '__getitem__', D + 'getDimension', D + 'hasField', D + 'getFieldNames', D + 'getLength'])
def _(t):
    s = State(t)
    for l in LINKED + ['extra']:
        s.rows('getField of %s' % l, l, t.call('getField', s.ds.getField, l))
        s.rows('ds[%s]' % l, l, t.call('getitem', lambda: s.ds[l]))
        t.prove('dimension of %s' % l, s.ds.getDimension(l) == s.dims[l])
        t.prove('has %s' % l, s.ds.hasField(l))
    t.prove('field names', sorted(s.ds.getFieldNames()) == sorted(LINKED + ['extra']) and not s.ds.hasField('other'))
    t.prove('length', sym_and(slen(s.ds) == s.n, s.ds.getLength() == s.n))
    s.invariant('reading')


@task('C07', 'getLinked', functions=[D + 'getLinked'])
def _(t):
    s = State(t)
    k = index(s.n, 'k')
    for how in ('index', 'marker'):
        if how == 'marker':
            s.ds.index = k
            r = t.call('getLinked', s.ds.getLinked)
        else:
            r = t.call('getLinked', s.ds.getLinked, k)
        t.prove('one vector per linked field', len(r) == 2)
        for l, x in zip(LINKED, r):
            j = index(s.dims[l], 'j')
            t.prove('the %s at the %s' % (l, how), sym_and(slen(x) == s.dims[l], at(x, j) == at(s.old[l], k, j)))
        t.prove('the marker moves to the next row', s.ds.index == k + 1)
        s.same('getLinked')
    b = C.int('beyond', show=True)
    C.assume(b >= s.n)
    t.raises('a row beyond the end', IndexError, s.ds.getLinked, b)
    t.raises('no linked fields', t.cls(M, 'NoLinkedFieldsError'), State(t, linked=[]).ds.getLinked, 0)


def formats(vf):
    @task('C07', 'getLinked as %s' % vf, functions=[D + 'setVectorFormat', D + 'getLinked', D + '_convertArray1d', D + '_convertArray2d', D + '_convertList'])
    def _(t):
        s = State(t)
        s.ds.vectorformat = vf
        t.prove('the format is remembered', s.ds.vectorformat == vf)
        k = index(s.n, 'k')
        r = t.call('getLinked', s.ds.getLinked, k)
        for l, x in zip(LINKED, r):
            j = index(s.dims[l], 'j')
            if vf == '2d':
                t.prove('one row', sym_and(slen(x) == 1, at(x, 0, j) == at(s.old[l], k, j)))
            else:
                t.prove('the values of the row', sym_and(slen(x) == s.dims[l], (x[j] if vf == 'list' else at(x, j)) == at(s.old[l], k, j)))
        t.raises('unknown format', t.cls(M, 'VectorFormatError'), s.ds.setVectorFormat, '3d')
        t.prove('an unknown format is not remembered', s.ds.vectorformat == vf)


for vf in ('none', '1d', '2d', 'list'):
    formats(vf)


@task('C07', 'iteration', functions=[D + '__iter__', D + 'reset', D + 'endOfData'])
def _(t):
    s = State(t)
    g = s.ds.__iter__()

    def step(k, where):
        """resume the generator with the marker at k (its only state besides the data set)"""
        try:
            r = next(g)
        except StopIteration:
            t.prove('%s: iteration ends after the last sample' % where, k == s.n)
            return False
        t.prove('%s: no sample beyond the end' % where, k < s.n)
        for l, x in zip(LINKED, r):
            j = index(s.dims[l], 'j')
            t.prove('%s: the sample at the marker, %s' % (where, l), at(x, j) == at(s.old[l], k, j))
        t.prove('%s: the marker moves on' % where, s.ds.index == k + 1)
        return True
    if step(S(z3.IntVal(0)), 'first'):
        if set(g.gi_frame.f_locals) - {'self'}:
            raise Unsupported('the iterator has state of its own')
        k = C.int('k', show=True)
        C.assume(sym_and(k >= 1, k <= s.n))
        s.ds.index = k
        step(k, 'next')
    s.same('iteration')
    t.prove('length is kept', slen(s.ds) == s.n)


def clear(unlinked):
    @task('C07', 'clear(%s)' % unlinked, functions=[D + 'clear'])
    def _(t):
        s = State(t)
        t.call('clear', s.ds.clear, unlinked)
        for l in LINKED:
            t.prove('clearing empties %s' % l, sym_and(s.ds.endmarker[l] == 0, slen(s.ds[l]) == 0))
        if unlinked:
            t.prove('clearing empties extra', slen(s.ds['extra']) == 0)
        else:
            s.same('clear', 'extra')
            t.prove('extra keeps its length', s.ds.endmarker['extra'] == s.ends['extra'])
        s.invariant('clear')
        t.prove('cleared', sym_and(slen(s.ds) == 0, s.ds.index == 0))


clear(False)
clear(True)


@task('C07', 'linking', functions=[D + 'linkFields', D + 'unlinkFields', D + 'getLength'])
def _(t):
    s = State(t, linked=[])
    e = s.ds.endmarker
    longest = ite(sym_and(e['input'] >= e['target'], e['input'] >= e['extra']), e['input'], ite(e['target'] >= e['extra'], e['target'], e['extra']))
    t.prove('without links the length is that of the longest field', slen(s.ds) == longest)
    ok = True
    try:
        s.ds.linkFields(SList(list(LINKED)))
    except t.cls(M, 'OutOfSyncError'):
        ok = False
    t.prove('only fields of equal length are linked', (e['input'] == e['target']) if ok else (e['input'] != e['target']))
    if ok:
        s.invariant('linked', LINKED)
        t.prove('linked', list(s.ds.link) == LINKED)
        s.ds.unlinkFields(['target'])
        t.prove('unlinked one', list(s.ds.link) == ['input'])
    s.same('linking')


@task('C07', 'setField', functions=[D + 'setField'])
def _(t):
    s = State(t)
    n, d = C.int('rows'), dim('columns')
    C.assume(n >= 0)
    a = vec('given', n, d)
    a0 = a.copy()
    t.call('setField', s.ds.setField, 'extra', a)
    s.dims['extra'], s.ends['extra'], s.old['extra'] = d, n, a0
    s.rows('setField', 'extra', s.ds['extra'])
    s.invariant('setField')
    # appending afterwards leaves the rows alone
    t.call('append', s.ds.append, 'extra', vec('row', d))
    s.same('append after setField')


@task('C07', 'convertField', functions=[D + 'convertField', D + 'setField'])
def _(t):
    for l in ('input', 'extra'):
        s = State(t)
        t.call('convertField', s.ds.convertField, l, float)
        s.invariant('convertField')
        t.prove('the other fields keep their lengths', sym_and(*[s.ds.endmarker[k] == s.ends[k] for k in LINKED + ['extra']]))
        s.rows('convertField of %s' % l, l, s.ds[l])
        s.same('convertField')
    try:
        s.ds.convertField('nothing', float)
        ok = False
    except KeyError:
        ok = True
    t.prove('an unknown field is refused', ok)


@task('C07', 'copy', functions=[D + 'copy', D + '__reduce__'])
def _(t):
    s = State(t)
    c = t.call('copy', s.ds.copy)
    t.prove('links are copied', list(c.link) == LINKED and c.link is not s.ds.link)
    t.prove('length', slen(c) == s.n)
    for l in LINKED + ['extra']:
        s.rows('copy of %s' % l, l, c[l])
    # independent: write to the copy, then to the original
    for a, b, w in ((c, s.ds, 'copy'), (s.ds, c, 'original')):
        for l in LINKED + ['extra']:
            i, j = index(s.ends[l], 'i'), index(s.dims[l], 'j')
            keep = at(b.data[l], i, j)
            a.data[l][i, j] = C.real('other')
            t.prove('writing to the %s leaves the other one alone' % w, at(b.data[l], i, j) == keep)
        a.appendLinked(*[vec('more', s.dims[l]) for l in LINKED])
        a.link.append('extra')
        t.prove('appending to the %s leaves the other one alone' % w, len(b.link) == (2 if w == 'copy' else 3))
    t.prove('lengths are independent', sym_and(slen(c) == s.n + 1, slen(s.ds) == s.n + 1))


def euclid(a, b):
    """quotient and remainder of a >= 0 by b >= 1 (and the facts that define them)"""
    q, r = a // b, a % b
    C.assume(sym_and(a == q * b + r, q >= 0, r >= 0, r < b))
    return q, r


def batches(permuted):
    @task('C07', 'batches' + (': permuted' if permuted else ''), functions=[D + 'batches'] + ([] if permuted else [D + 'randomBatches']))
    def _(t):
        C.eager = {'DataSet.batches'}
        s = State(t)
        m = dim('batchsize')
        full, rest = euclid(s.n, m)
        nb = full + ite(rest == 0, 0, 1)
        if permuted:
            C.assume(s.n >= 1)
            f = C.input_fun('order', z3.IntSort(), z3.IntSort())
            perm = Seq(nb, lambda i: S(f(T(i))))
            q = z3.Int('q~')
            C.assume(S(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < T(nb)), z3.And(f(q) >= 0, f(q) < T(nb))))))
            r = t.call('batches', s.ds.batches, 'input', m, perm)
        else:
            r = t.call('batches', s.ds.batches, 'input', m)
        t.prove('number of batches', slen(r) == nb)
        if slen(r) == 0:
            t.prove('no batches for no samples only', s.n == 0)
            return
        b = index(nb, 'b')
        o = S(f(T(b))) if permuted else b
        x = r[b]
        last = ite(o == nb - 1, s.n, (o + 1) * m)
        t.prove('size of a batch', slen(x) == last - o * m)
        i, j = C.int('i'), index(s.dims['input'], 'j')
        C.assume(sym_and(i >= 0, i < last - o * m))
        t.prove('a batch is the next samples in order', at(x, i, j) == at(s.old['input'], o * m + i, j))
        # the batches cover every sample exactly once: sample p is in batch q iff q*m <= p < end(q)
        p = index(s.n, 'p')
        w, _r = euclid(p, m)
        t.prove('every sample is in a batch', sym_and(w >= 0, w < nb, w * m <= p, p < ite(w == nb - 1, s.n, (w + 1) * m)))
        u = index(nb, 'u')
        t.prove('and in no other', sym_implies(sym_and(u * m <= p, p < ite(u == nb - 1, s.n, (u + 1) * m)), u == w))
        if not permuted:
            r = t.call('randomBatches', s.ds.randomBatches, 'input', m)
            t.prove('number of random batches', slen(r) == nb)
        s.same('batches')


batches(False)
batches(True)
