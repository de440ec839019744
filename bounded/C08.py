"""Bounded contract checks for C08: SequentialDataSet under random histories against a list of lists."""
from lib import *
import numpy as np
from pybrain.datasets import SequentialDataSet, ImportanceDataSet, ReinforcementDataSet, SequenceClassificationDataSet
from pybrain.datasets.sequential import EmptySequenceError


class Model(object):
    def __init__(self, rng):
        self.i, self.o = rng.randint(1, 3), rng.randint(1, 3)
        self.ds = SequentialDataSet(self.i, self.o)
        self.seqs = [[]]
        self.k = 0

    def sample(self, rng):
        self.k += 1
        return [float(self.k)] * self.i, [rng.uniform(-1, 1) for _ in range(self.o)]

    def n(self):
        return sum(map(len, self.seqs))

    def consistent(self, where):
        ds, seqs = self.ds, self.seqs
        ns = len(seqs)
        expect(ds.getNumSequences() == ns, '%s: number of sequences' % where, got=ds.getNumSequences(), expected=ns)
        expect(len(ds) == self.n(), '%s: number of samples' % where, got=len(ds), expected=self.n())
        lengths = [ds.getSequenceLength(k) for k in range(ns)]
        expect(lengths == list(map(len, seqs)), '%s: lengths' % where, got=lengths, expected=list(map(len, seqs)))
        want = [[(list(x), list(y)) for x, y in s] for s in seqs]
        plain = lambda s: [(list(a), list(b)) for a, b in s]
        got = [plain(s) for s in ds]
        expect(got == want, '%s: iteration over the sequences' % where, got=got, expected=want)
        got = [plain(s) for s in ds._provideSequences()]
        expect(got == want, '%s: provided sequences' % where, got=got, expected=want)
        for k in range(ns):
            expect(plain(ds.getSequenceIterator(k)) == want[k], '%s: samples of a sequence' % where, number=k)
            a, b = ds.getSequence(k)
            expect(len(a) == len(b) and plain(zip(a, b)) == want[k], '%s: getSequence' % where, number=k)
            for p, l in enumerate(('input', 'target')):
                expect([list(r) for r in ds._getSequenceField(k, l)] == [s[p] for s in want[k]], '%s: a field of a sequence' % where)
        flat = [s for q in want for s in q]
        expect([list(r) for r in ds['input']] == [s[0] for s in flat], '%s: all samples' % where)
        for f in (ds.getSequence, ds.getSequenceLength, ds.gotoSequence, ds.endOfSequence):
            expect_raises(IndexError, f, '%s: a sequence that does not exist' % where, ns)

    def walk(self):
        ds = self.ds
        for k, s in enumerate(self.seqs):
            ds.gotoSequence(k)
            got = []
            while not ds.endOfSequence(k):
                expect(ds.getCurrentSequence() == k, 'the sequence of the marker', got=ds.getCurrentSequence(), expected=k)
                got.append(tuple(list(v) for v in ds.getSample()))
                expect(len(got) <= len(s), 'end of a sequence')
            expect(got == [(list(x), list(y)) for x, y in s], 'walking through a sequence')


@check('history of a sequential data set', n=250)
def _(rng, it):
    m = Model(rng)
    ds = m.ds
    m.consistent('construction')
    for step in range(rng.choice([1, 4, 10, 25])):
        op = rng.choice(['add'] * 5 + ['new'] * 3 + ['remove', 'remove', 'clear', 'walk', 'copy'])
        if op == 'add':
            x, y = m.sample(rng)
            (ds.addSample if rng.random() < .7 else ds.appendLinked)(x, y)
            m.seqs[-1].append((x, y))
        elif op == 'new':
            if not m.n():
                ds.newSequence()
            elif not m.seqs[-1]:
                try:
                    ds.newSequence()
                except EmptySequenceError:
                    pass
            else:
                ds.newSequence()
                m.seqs.append([])
        elif op == 'remove':
            k = rng.randrange(len(m.seqs))
            expect_raises(IndexError, ds.removeSequence, 'removing a sequence that does not exist', len(m.seqs))
            ds.removeSequence(k)
            last = k == len(m.seqs) - 1
            before = sum(map(len, m.seqs[:k]))
            del m.seqs[k]
            if not m.seqs:
                m.seqs = [[]]
            elif last:
                expect(ds.index == len(ds), 'the marker is at the end', got=ds.index)
            else:
                expect(ds.index == before, 'the marker is behind the removed sequence', got=ds.index, expected=before)
        elif op == 'clear' and rng.random() < .3:
            ds.clear()
            m.seqs = [[]]
        elif op == 'walk':
            m.walk()
        elif op == 'copy':
            keep, seqs = m.ds, [list(s) for s in m.seqs]
            m.ds = keep.copy()
            m.consistent('copy')
            x, y = m.sample(rng)
            m.ds.addSample(x, y)
            m.seqs[-1].append((x, y))
            m.ds.newSequence()
            m.seqs.append([])
            m.consistent('a copy that goes on')
            m.ds, m.seqs = keep, seqs
        m.consistent('after %s' % op)


class Net(object):
    """records what it is given, output depends on the state since the last reset"""

    def __init__(self):
        self.log = []

    def reset(self):
        self.log.append([])

    def activate(self, x):
        self.log[-1].append(list(x))
        return np.array([sum(map(sum, self.log[-1]))])


@check('evaluation goes through the sequences', n=40)
def _(rng, it):
    ds = SequentialDataSet(1, 1)
    seqs = [[(rng.uniform(-1, 1), rng.uniform(-1, 1)) for _ in range(rng.randint(1, 4))] for _ in range(rng.randint(1, 4))]
    for s in seqs:
        ds.newSequence()
        for x, y in s:
            ds.addSample([x], [y])
    net = Net()
    e = 0.
    for s in seqs:
        acc = 0.
        for x, y in s:
            acc += x
            e += .5 * (acc - y) ** 2
    avg = rng.randint(1, 3)
    expect_close(ds.evaluateModuleMSE(net, averageOver=avg), e / sum(map(len, seqs)), 'mean squared error over all sequences')
    expect([l for l in net.log if l] == [[[x] for x, y in s] for s in seqs] * avg, 'the module sees every sequence from a reset')


@check('sequences of the other sequential data sets', n=40)
def _(rng, it):
    which = rng.choice(['importance', 'reinforcement', 'classification'])
    seqs = [[None] * rng.randint(1, 4) for _ in range(rng.randint(1, 4))]
    if which == 'importance':
        ds = ImportanceDataSet(2, 1)
        mk = lambda k: ([k, -k], [k + .5], [k + .25])
    elif which == 'reinforcement':
        ds = ReinforcementDataSet(2, 1)
        mk = lambda k: ([k, -k], [k + .5], [k + .25])
    else:
        ds = SequenceClassificationDataSet(2, 1)
        mk = lambda k: ([k, -k], [k % 3])
    k = 0.
    want = []
    for s in seqs:
        ds.newSequence()
        w = []
        for _ in s:
            k += 1
            ds.addSample(*mk(k))
            w.append([list(map(float, v)) for v in mk(k)])
        want.append(w)
    got = [[[list(map(float, v)) for v in smp] for smp in s] for s in ds]
    expect(got == want, 'samples of every sequence', kind=which, got=got, expected=want)
    r = rng.randrange(len(want))
    ds.removeSequence(r)
    del want[r]
    got = [[[list(map(float, v)) for v in smp] for smp in s] for s in ds]
    expect(got == (want or [[]]), 'samples after removing a sequence', kind=which, got=got, expected=want)


@check('splitting by a proportion', n=80)
def _(rng, it):
    m = Model(rng)
    for k in range(rng.choice([0, 1, 2, 3, 7])):
        m.ds.newSequence()
        if m.seqs[-1]:
            m.seqs.append([])
        for _ in range(rng.randint(1, 4)):
            s = m.sample(rng)
            m.ds.addSample(*s)
            m.seqs[-1].append(s)
    p = rng.choice([0, 1, .5, .3, rng.random()])
    a, b = m.ds.splitWithProportion(p)
    plain = lambda d: [[(list(x), list(y)) for x, y in s] for s in d] if len(d) else []
    want = [[(list(x), list(y)) for x, y in s] for s in m.seqs if s]
    ga, gb = plain(a), plain(b)
    expect(sorted(ga + gb) == want, 'every sequence is in one of the parts', got=(ga, gb), expected=want)
    expect(sorted(ga) == ga and sorted(gb) == gb, 'the sequences of the parts are in order', got=(ga, gb))
    if want:
        expect(len(ga) == int(len(want) * p), 'share of the sequences', got=len(ga), of=len(want), share=p)
    m.consistent('after splitting')


if __name__ == '__main__':
    main()
