"""Bounded contract checks for C07: DataSet under random histories against a list model."""
from lib import *
import copy
import os
import tempfile
import numpy as np
from pybrain.datasets.dataset import DataSet, OutOfSyncError, VectorFormatError, NoLinkedFieldsError
from pybrain.datasets import SupervisedDataSet, UnsupervisedDataSet, SequentialDataSet


def num(rng):
    return rng.choice([0., 1., -1., rng.uniform(-5, 5), float(rng.randint(-9, 9))])


class Model(object):
    """lists of rows"""

    def __init__(self, rng):
        self.ds, self.rows, self.dims, self.link = DataSet(), {}, {}, []
        for l in ['a', 'b', 'c', 'd'][:rng.randint(2, 4)]:
            self.dims[l] = rng.randint(1, 4)
            self.rows[l] = []
            self.ds.addField(l, self.dims[l])
        self.link = sorted(rng.sample(sorted(self.dims), rng.randint(1, len(self.dims) - 1)))
        self.ds.linkFields(list(self.link))

    def length(self):
        if self.link:
            return len(self.rows[self.link[0]])
        return max(len(r) for r in self.rows.values())

    def consistent(self, where):
        ds = self.ds
        expect(len(ds) == self.length() == ds.getLength(), '%s: length' % where, got=len(ds), expected=self.length())
        expect(sorted(ds.getFieldNames()) == sorted(self.rows), '%s: field names' % where)
        for l, r in self.rows.items():
            for got in (ds[l], ds.getField(l)):
                expect(len(got) == len(r), '%s: length of field' % where, field=l, got=len(got), expected=len(r))
                expect_same(np.array(got).reshape(len(r), self.dims[l]), np.array(r).reshape(len(r), self.dims[l]),
                            '%s: contents of field' % where, field=l)
            expect(ds.getDimension(l) == self.dims[l], '%s: dimension' % where)

    def row(self, rng, l, size=None):
        r = [num(rng) for _ in range(size or self.dims[l])]
        return r, rng.choice([list, tuple, np.array])(r)


@check('history of a data set', n=250)
def _(rng, it):
    m = Model(rng)
    ds = m.ds
    for step in range(rng.choice([1, 3, 8, 20, 40])):
        op = rng.choice(['linked'] * 5 + ['unlinked', 'refused', 'partly', 'get', 'iter', 'clear', 'copy', 'link'])
        if op == 'linked' and m.link:
            rs = [m.row(rng, l) for l in m.link]
            ds.appendLinked(*[x for _, x in rs])
            for l, (r, _) in zip(m.link, rs):
                m.rows[l].append(r)
        elif op == 'unlinked':
            l = rng.choice(sorted(m.dims))
            r, x = m.row(rng, l)
            if l in m.link:
                expect_raises(OutOfSyncError, ds.append, 'append to a linked field is refused', l, x)
            else:
                ds.append(l, x)
                m.rows[l].append(r)
        elif op == 'refused' and m.link:
            expect_raises(AssertionError, ds.appendLinked, 'the wrong number of vectors is refused',
                          *[m.row(rng, l)[1] for l in m.link + m.link[:1]])
        elif op == 'partly' and m.link:
            bad = rng.choice(m.link)
            expect_raises(ValueError, ds.appendLinked, 'a vector of the wrong size is refused',
                          *[m.row(rng, l, m.dims[l] + 1 if l == bad and m.dims[l] > 1 else m.dims[l] + (2 if l == bad else 0))[1] for l in m.link])
        elif op == 'get' and m.link and m.length():
            k = rng.randrange(m.length())
            for got in (ds.getLinked(k),):
                for l, x in zip(m.link, got):
                    expect_same(np.ravel(x), m.rows[l][k], 'the sample at an index')
            if k + 1 < m.length():
                for l, x in zip(m.link, ds.getLinked()):
                    expect_same(np.ravel(x), m.rows[l][k + 1], 'the sample after an index')
            expect_raises(IndexError, ds.getLinked, 'a sample beyond the end is refused', m.length())
        elif op == 'iter' and m.link:
            for _ in range(2):
                got = [[np.array(x) for x in s] for s in ds]
                expect(len(got) == m.length(), 'iteration visits every sample once')
                for k, s in enumerate(got):
                    for l, x in zip(m.link, s):
                        expect_same(np.ravel(x), m.rows[l][k], 'iteration in order')
            for l in m.link:
                n = rng.randint(1, 7)
                for bs in (list(ds.batches(l, n)), list(ds.randomBatches(l, n))):
                    expect(all(len(b) == n for b in bs[:-1]), 'full batches')
                    flat = [list(r) for b in bs for r in b]
                    expect(sorted(flat) == sorted(m.rows[l]), 'batches visit every sample exactly once', got=flat, expected=m.rows[l])
                nb = -(-m.length() // n)
                perm = list(range(nb))
                rng.shuffle(perm)
                bs = list(ds.batches(l, n, perm))
                for p, b in zip(perm, bs):
                    expect_same(np.array(b), np.array(m.rows[l][p * n:(p + 1) * n]), 'a permuted batch')
                expect(len(bs) == nb, 'all batches of the permutation')
        elif op == 'clear' and rng.random() < .4:
            un = rng.random() < .5
            ds.clear(un)
            for l in m.rows:
                if un or not m.link or l in m.link:
                    m.rows[l] = []
            if m.link:
                rs = [m.row(rng, l) for l in m.link]
                ds.appendLinked(*[x for _, x in rs])
                for l, (r, _) in zip(m.link, rs):
                    m.rows[l].append(r)
                for l, x in zip(m.link, ds.getLinked()):
                    expect_same(np.ravel(x), m.rows[l][0], 'the first sample after clearing')
        elif op == 'copy':
            c = rng.choice([ds.copy, lambda: copy.deepcopy(ds)])()
            old = copy.deepcopy(m.rows)
            keep = m.ds
            m.ds = c
            m.consistent('copy')
            expect(list(c.link) == list(ds.link) and c.link is not ds.link, 'links of the copy')
            for l in m.rows:
                if len(c[l]):
                    c[l][rng.randrange(len(c[l]))] = 77.
            if m.link:
                c.appendLinked(*[[5.] * m.dims[l] for l in m.link])
            m.ds, m.rows = keep, old
            m.consistent('after writing to a copy')
        elif op == 'link':
            ls = sorted(rng.sample(sorted(m.dims), rng.randint(1, len(m.dims))))
            if rng.random() < .2:
                ds.unlinkFields()
                m.link = []
            elif rng.random() < .2:
                ds.unlinkFields(list(ls))
                m.link = [l for l in m.link if l not in ls]
            elif rng.random() < .2:
                l = rng.choice(sorted(m.dims))
                ds.convertField(l, rng.choice([float, complex]))
            elif len(set(len(m.rows[l]) for l in ls)) > 1:
                expect_raises(OutOfSyncError, ds.linkFields, 'fields of unequal length are not linked', list(ls))
            else:
                ds.linkFields(list(ls))
                m.link = ls
            if not m.link:
                expect_raises(NoLinkedFieldsError, ds.getLinked, 'no linked fields', 0)
        m.consistent('after %s' % op)


@check('vector formats', n=60)
def _(rng, it):
    m = Model(rng)
    for _ in range(rng.randint(1, 5)):
        rs = [m.row(rng, l) for l in m.link]
        m.ds.appendLinked(*[x for _, x in rs])
        for l, (r, _) in zip(m.link, rs):
            m.rows[l].append(r)
    vf = rng.choice(['1d', '2d', 'list', 'none'])
    m.ds.vectorformat = vf
    expect_raises(VectorFormatError, m.ds.setVectorFormat, 'unknown format', 'row')
    expect(m.ds.vectorformat == vf, 'format is remembered')
    k = rng.randrange(m.length())
    for l, x in zip(m.link, m.ds.getLinked(k)):
        expect(type(x) == (list if vf == 'list' else np.ndarray), 'type of the vectors')
        expect(np.shape(x) == ((1, m.dims[l]) if vf == '2d' else (m.dims[l],)), 'shape of the vectors', got=np.shape(x))
        expect_same(np.ravel(x), m.rows[l][k], 'values of the vectors')
    for l in m.link:
        for x in (m.ds[l], m.ds.getField(l)):
            expect(type(x) == (list if vf == 'list' else np.ndarray), 'type of a field')
    c = m.ds.copy()
    expect(c.vectorformat == vf, 'format of the copy')
    m.consistent('formats')


@check('supervised data sets keep their samples', n=60)
def _(rng, it):
    i, o = rng.randint(1, 3), rng.randint(1, 3)
    n = rng.randint(0, 12)
    X = [[num(rng) for _ in range(i)] for _ in range(n)]
    Y = [[num(rng) for _ in range(o)] for _ in range(n)]
    if rng.random() < .4 and n:
        k = rng.randint(1, n)
        ds = SupervisedDataSet(np.array(X[:k]), np.array(Y[:k]))
    else:
        k = 0
        ds = SupervisedDataSet(i, o)
    for x, y in zip(X[k:], Y[k:]):
        ds.addSample(x, y)
    if n:
        expect_raises(ValueError, ds.addSample, 'wrong target size', X[0], Y[0] * 2 if o > 1 else [1., 2.])
        expect_raises(ValueError, ds.addSample, 'wrong input size', X[0] * 2 if i > 1 else [1., 2.], Y[0])
    d = tempfile.mkdtemp(dir=os.environ.get('VERIF_TMP'))
    try:
        sets = [ds, ds.copy()]
        f = os.path.join(d, 'x.pickle')
        ds.saveToFile(f)
        sets.append(SupervisedDataSet.loadFromFile(f))
        ds.saveToFile(f, compact=True)
        sets.append(SupervisedDataSet.loadFromFile(f))
    finally:
        for q in os.listdir(d):
            os.unlink(os.path.join(d, q))
        os.rmdir(d)
    for s in sets:
        expect(len(s) == n and len(s['input']) == n and len(s['target']) == n, 'fields are equally long')
        expect(s.indim == i and s.outdim == o, 'dimensions')
        got = [[list(np.ravel(v)) for v in smp] for smp in s]
        expect(got == [[x, y] for x, y in zip(X, Y)], 'samples in order', got=got)
        if n:
            k = rng.randrange(n)
            a, b = s.getSample(k)
            expect(list(a) == X[k] and list(b) == Y[k], 'a sample by index')
    ds.clear()
    expect(len(ds) == 0 and len(list(ds)) == 0 and len(sets[1]) == n, 'cleared')
    ds.addSample([1.] * i, [2.] * o)
    expect_same(ds['input'], [[1.] * i], 'append after clearing')


@check('unsupervised data sets', n=20)
def _(rng, it):
    d = rng.randint(1, 4)
    ds = UnsupervisedDataSet(d)
    X = [[num(rng) for _ in range(d)] for _ in range(rng.randint(1, 9))]
    for x in X:
        ds.addSample(x)
    expect([list(s[0]) for s in ds] == X, 'samples in order')
    expect(len(ds) == len(X), 'length')


if __name__ == '__main__':
    main()
