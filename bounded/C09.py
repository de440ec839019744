"""Bounded contract checks for C09: splits, conversions and counts of data sets."""
from lib import *
import numpy as np
from collections import Counter
from pybrain.datasets import SupervisedDataSet, SequentialDataSet, ImportanceDataSet, ReinforcementDataSet
from pybrain.datasets.classification import ClassificationDataSet, SequenceClassificationDataSet


def row(*v):
    return tuple(tuple(float(a) for a in np.ravel(x)) for x in v)


def rows(ds, *fields):
    return [row(*v) for v in zip(*[ds[f] for f in fields])]


@check('splitWithProportion', n=120)
def _(rng, it):
    i, o, n = rng.randint(1, 3), rng.randint(1, 3), rng.choice([0, 1, 2, 3, 7, 20])
    ds = SupervisedDataSet(i, o)
    for k in range(n):
        ds.addSample([k] * i, [k + .5] * o)
    p = rng.choice([0, 1, .5, .25, .1, rng.random()])
    a, b = ds.splitWithProportion(p)
    expect(len(a) == int(n * p) and len(a) + len(b) == n, 'sizes of the parts', n=n, p=p, got=(len(a), len(b)))
    want = rows(ds, 'input', 'target')
    got = rows(a, 'input', 'target') + rows(b, 'input', 'target')
    expect(Counter(got) == Counter(want), 'every sample in one of the parts', got=got, expected=want)
    expect(want == [row([k] * i, [k + .5] * o) for k in range(n)], 'the data set is unchanged')
    expect((a.indim, a.outdim, b.indim, b.outdim) == (i, o, i, o), 'dimensions of the parts')
    if len(a):
        a.data['input'][0] = -7
        expect(rows(ds, 'input', 'target') == want, 'the parts have their own storage')


@check('splitWithProportion of sequences', n=80)
def _(rng, it):
    cls = rng.choice([SequentialDataSet, ImportanceDataSet, ReinforcementDataSet, SequenceClassificationDataSet])
    ds = SequenceClassificationDataSet(2, 1, nb_classes=3) if cls is SequenceClassificationDataSet else cls(2, 1)
    m = rng.choice([1, 2, 3, 8])
    seqs = []
    for k in range(m):
        ds.newSequence()
        c = rng.randrange(3)
        s = []
        for j in range(rng.randint(1, 4)):
            smp = ([k, j], [c]) if cls is not ImportanceDataSet else ([k, j], [k + .5], [j + 1.])
            if cls is ReinforcementDataSet:
                smp = ([k, j], [k + .5], [j])
            ds.addSample(*smp)
            s.append(row(*smp))
        seqs.append(tuple(s))
    p = rng.choice([0, 1, .5, .3, rng.random()])
    a, b = ds.splitWithProportion(p)
    get = lambda d: [tuple(row(*v) for v in s) for s in d] if len(d) else []
    na = int(m * p)
    ga, gb = get(a), get(b)
    expect(len(ga) == na and len(ga) + len(gb) == m, 'number of sequences of the parts', kind=cls.__name__, got=(len(ga), len(gb)), expected=(na, m - na))
    expect(Counter(ga + gb) == Counter(seqs), 'every sequence in one of the parts', kind=cls.__name__, got=ga + gb, expected=seqs)
    expect(get(ds) == seqs, 'the data set is unchanged', kind=cls.__name__)


def classes(rng, n=None, k=None, known=True):
    k = k or rng.randint(1, 4)
    i = rng.randint(1, 3)
    n = rng.choice([0, 1, 2, 5, 12]) if n is None else n
    cs = [rng.randrange(k) for _ in range(n)]
    ds = ClassificationDataSet(i, 1, nb_classes=k)
    for q, c in enumerate(cs):
        ds.addSample([q + .25] * i, [c])
        if rng.random() < .15:
            ds.calculateStatistics()
    if known and rng.random() < .5:
        ds.calculateStatistics()
    return ds, cs, k, i


def expect_samples(ds, cs, i, what):
    expect(rows(ds, 'input', 'target') == [row([q + .25] * i, [c]) for q, c in enumerate(cs)], what + ': samples', got=rows(ds, 'input', 'target'))


@check('one-of-many and back', n=120)
def _(rng, it):
    ds, cs, k, i = classes(rng)
    lo, hi = rng.choice([(0, 1), (-1, 1), (1, 0), (2, 7)])
    for rep in range(rng.randint(1, 2)):
        ds._convertToOneOfMany((lo, hi))
        want = [[hi if c == j else lo for j in range(k)] for c in cs]
        expect(ds.outdim == k and ds['target'].tolist() == want, 'one-of-many targets', got=ds['target'].tolist(), expected=want)
        if k > 1:
            ds._convertToOneOfMany((hi, lo))
            expect(ds['target'].tolist() == want, 'converting twice changes nothing')
        expect(np.ravel(ds['class']).tolist() == cs, 'the classes are retained')
        ds._convertToClassNb()
        expect_samples(ds, cs, i, 'converted back')


@check('histogram', n=120)
def _(rng, it):
    ds, cs, k, i = classes(rng)
    if rng.random() < .3 and len(set(cs)) == max(cs + [-1]) + 1 and cs:
        x = ClassificationDataSet(i, 1)
        for q, c in enumerate(cs):
            x.addSample([q + .25] * i, [c])
        ds, k = x, len(set(cs))
    h = ds.calculateStatistics()
    expect(dict(h) == {c: cs.count(c) for c in range(k)} and sum(h.values()) == len(cs), 'class histogram', got=h, classes=cs)
    expect(ds.nClasses == k, 'number of classes', got=ds.nClasses, expected=k)
    expect_samples(ds, cs, i, 'statistics')
    if rng.random() < .5:
        ds.clear()
        c = rng.randrange(k)
        ds.addSample([1] * i, [c])
        expect(dict(ds.calculateStatistics()) == {q: int(q == c) for q in range(k)}, 'histogram after clear', got=ds.classHist)


@check('construction from samples', n=40)
def _(rng, it):
    k, i = rng.randint(1, 4), rng.randint(1, 3)
    cs = list(range(k)) + [rng.randrange(k) for _ in range(rng.choice([0, 1, 5]))]
    rng.shuffle(cs)
    names = rng.choice([None, ['c%d' % j for j in range(k)]])
    ds = ClassificationDataSet(np.array([[q + .25] * i for q in range(len(cs))]), np.array(cs).reshape(-1, 1), class_labels=names)
    expect(len(ds) == len(cs) and ds.indim == i and ds.outdim == 1, 'size of the data set')
    expect(ds.nClasses == k and dict(ds.classHist) == {c: cs.count(c) for c in range(k)}, 'counted at construction', got=ds.classHist, classes=cs)
    if names:
        expect(list(ds.class_labels) == names and [ds.getClass(j) for j in range(k)] == names, 'labels of the classes', got=ds.class_labels)
    else:
        expect(sorted(ds.class_labels) == list(range(k)), 'labels of the classes', got=ds.class_labels)
    expect_samples(ds, cs, i, 'construction')
    expect(np.ravel(ds['class']).tolist() == cs, 'classes')


@check('splitByClass', n=120)
def _(rng, it):
    ds, cs, k, i = classes(rng)
    c = rng.randrange(k)
    many = rng.random() < .3 and k > 1
    if many:
        ds._convertToOneOfMany()
    want = rows(ds, 'input', 'target')
    a, b = ds.splitByClass(c)
    expect(rows(a, 'input', 'target') == [w for w, q in zip(want, cs) if q == c], 'samples of the class', got=rows(a, 'input', 'target'), classes=cs, selected=c)
    expect(rows(b, 'input', 'target') == [w for w, q in zip(want, cs) if q != c], 'samples of the other classes', got=rows(b, 'input', 'target'), classes=cs, selected=c)
    expect(np.ravel(a['class']).tolist() == [c] * cs.count(c), 'classes of the first part')
    expect(np.ravel(b['class']).tolist() == [q for q in cs if q != c], 'classes of the second part')
    expect(rows(ds, 'input', 'target') == want, 'the data set is unchanged')
    expect(len(a) == cs.count(c) and len(b) == len(cs) - cs.count(c), 'sizes of the parts')
    expect(a.nClasses == b.nClasses == k, 'number of classes of the parts')


@check('castToRegression', n=40)
def _(rng, it):
    ds, cs, k, i = classes(rng)
    if rng.random() < .3 and k > 1:
        ds._convertToOneOfMany()
    values = np.array([rng.uniform(-3, 3) for _ in range(k)])
    r = ds.castToRegression(values)
    expect(r['input'].tolist() == [[q + .25] * i for q in range(len(cs))], 'inputs of the regression data set')
    expect(np.ravel(r['target']).tolist() == [values[c] for c in cs], 'targets of the regression data set', got=r['target'].tolist())


@check('addition', n=60)
def _(rng, it):
    a, ca, k, i = classes(rng)
    b = ClassificationDataSet(i, 1, nb_classes=k)
    cb = [rng.randrange(k) for _ in range(rng.randint(0, 4))]
    for q, c in enumerate(cb):
        b.addSample([len(ca) + q + .25] * i, [c])
    s = a + b
    expect_samples(s, ca + cb, i, 'sum')
    expect(np.ravel(s['class']).tolist() == ca + cb, 'classes of the sum', got=s['class'])
    expect_samples(a, ca, i, 'summand')
    expect(dict(s.calculateStatistics()) == {c: (ca + cb).count(c) for c in range(k)}, 'histogram of the sum')


@check('sequence classification', n=100)
def _(rng, it):
    k, m = rng.randint(1, 3), rng.randint(1, 9)
    ds = SequenceClassificationDataSet(2, 1, nb_classes=k)
    seqs, cs = [], []
    for q in range(m):
        ds.newSequence()
        c = rng.randrange(k)
        s = [[q, j] for j in range(rng.randint(1, 3))]
        for x in s:
            ds.addSample(x, [c])
        seqs.append(s)
        cs.append(c)
        if rng.random() < .2:
            ds.assignClasses()
    expect(np.ravel(ds.getSequenceClass()).tolist() == cs, 'class of every sequence', got=ds.getSequenceClass(), expected=cs)
    for q in range(m):
        expect(ds.getSequenceClass(q) == cs[q], 'class of a sequence', number=q)
    expect_raises(IndexError, ds.getSequenceClass, 'class of a sequence that does not exist', m)
    tf, vf = rng.choice([0, .15, .3, .5]), rng.choice([0, 0, .2, .5])
    parts = ds.stratifiedSplit(tf, vf)
    get = lambda d: [row(*[v for smp in s for v in smp]) for s in d] if len(d) else []
    want = Counter(row(*[v for x in s for v in (x, [c])]) for s, c in zip(seqs, cs))
    got = [get(p) for p in parts]
    expect(Counter(sum(got, [])) == want, 'every sequence in one part of the stratified split', got=got, expected=want)
    nt = sum(int(tf * cs.count(c)) for c in range(k))
    nv = sum(int(vf * cs.count(c)) for c in range(k))
    expect([len(g) for g in got] == [m - nt - nv, nt] + ([nv] if nv else []), 'sizes of the stratified split', got=[len(g) for g in got])
    r = rng.randrange(m)
    ds.removeSequence(r)
    if m > 1:
        expect(np.ravel(ds.getSequenceClass()).tolist() == cs[:r] + cs[r + 1:], 'classes after removing a sequence')
        expect(len(ds['class']) == len(ds), 'classes and samples are equally many')


@check('importance', n=60)
def _(rng, it):
    i, o = rng.randint(1, 3), rng.randint(1, 3)
    ds = ImportanceDataSet(i, o)
    want = []
    for q in range(rng.randint(1, 12)):
        if q and rng.random() < .3:
            ds.newSequence()
        w = None if rng.random() < .4 else [rng.choice([0., .5, 2.]) for _ in range(o)]
        ds.addSample([q] * i, [q + .5] * o, w if w is None or rng.random() < .5 else np.array(w))
        want.append(row([q] * i, [q + .5] * o, w or [1.] * o))
    expect(rows(ds, 'input', 'target', 'importance') == want, 'importance of every sample', got=rows(ds, 'input', 'target', 'importance'), expected=want)
    got = [row(*smp) for s in ds for smp in s]
    expect(got == want, 'importance in the sequences')
    net = lambda x: np.ones(o) * .25
    e = p = 0.
    for x, y, w in want:
        e += .5 * sum(b * (a - .25) ** 2 for a, b in zip(y, w))
        p += sum(w)
    if p > 0:
        expect_close(ds.evaluateMSE(net), e / p, 'importance weighted error')


@check('returns of episodes', n=60)
def _(rng, it):
    ds = ReinforcementDataSet(2, 1)
    want, acts, states = [], [], []
    for e in range(rng.randint(1, 6)):
        ds.newSequence()
        rs = [rng.uniform(-2, 2) for _ in range(rng.randint(1, 5))]
        us = [rng.uniform(-2, 2) for _ in rs]
        for r, u in zip(rs, us):
            ds.addSample([e, r], [u], r if rng.random() < .5 else [r])
        want.append(sum(rs))
        acts.append(sum(us))
        states.append([e * len(rs), sum(rs)])
    got = ds.getSumOverSequences('reward')
    expect(got.shape == (len(want), 1), 'one return per episode', got=got.shape)
    expect_close(np.ravel(got), want, 'return of every episode')
    expect_close(np.ravel(ds.getSumOverSequences('action')), acts, 'sum of another field')
    expect_close(ds.getSumOverSequences('state'), states, 'sum of a field with two columns')
    expect(got.shape[0] == ds.getNumSequences(), 'number of episodes')


if __name__ == '__main__':
    main()
