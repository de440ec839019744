"""Bounded contract checks for C16: validation measures against their definitions."""
from lib import *
import numpy as np
from pybrain.datasets import SupervisedDataSet, SequentialDataSet, ImportanceDataSet, ClassificationDataSet, SequenceClassificationDataSet
from pybrain.structure.modules.module import Module
from pybrain.supervised.trainers import BackpropTrainer
from pybrain.tools.shortcuts import buildNetwork
from pybrain.tools import validation as V
from pybrain.tools.validation import Validator, ModuleValidator, CrossValidator, SequenceHelper, ClassificationHelper


class Recorder(object):
    """a module with memory: answers with a function of everything seen since its reset"""

    def __init__(self, nin, nout):
        self.nin, self.nout = nin, nout
        self.outdim, self.indim = nout, nin
        self.reset()
        self.resets = 0
        self.out = np.zeros(nout)

    def reset(self):
        self.state, self.resets = 0., getattr(self, 'resets', 0) + 1

    def activate(self, x):
        expect(len(x) == self.nin, 'the module is given one input vector')
        self.state = .5 * self.state + float(np.dot(x, np.arange(1, self.nin + 1)))
        self.out[:] = [np.sin(self.state * (k + 1)) for k in range(self.nout)]
        return self.out.copy()


def answers(nin, nout, seqs):
    m, out = Recorder(nin, nout), []
    for s in seqs:
        m.reset()
        out.extend(m.activate(x) for x in s)
    return np.array(out).reshape(len(out), nout)


@check('classification performance', n=150)
def _(rng, it):
    n = rng.randint(1, 9)
    mk = rng.choice([list, np.array, lambda x: np.array(x).reshape(n, 1)])
    k = rng.randint(1, 3)
    a = [rng.randint(0, k) for _ in range(n)]
    b = [rng.randint(0, k) for _ in range(n)]
    x, y = mk(a), mk(b)
    expect_close(Validator.classificationPerformance(x, y), sum(p == q for p, q in zip(a, b)) / float(n), 'fraction of equal labels', output=a, target=b)
    expect(np.ravel(x).tolist() == a and np.ravel(y).tolist() == b, 'the arguments stay as they are')
    c = b + [0] * rng.randint(1, 3)
    expect_raises(AssertionError, Validator.classificationPerformance, 'label lists of different length', a, c)
    expect_raises(AssertionError, Validator.classificationPerformance, 'label lists of different length', c, a)


@check('squared errors', n=150)
def _(rng, it):
    shape = tuple(rng.randint(1, 4) for _ in range(rng.randint(1, 3)))
    mk = lambda: np.array([rng.uniform(-2, 2) for _ in range(int(np.prod(shape)))]).reshape(shape)
    a, b, w = mk(), mk(), np.abs(mk()) + .01
    if rng.random() < .3:
        w[rng.randrange(shape[0])] = 0.
        w.flat[rng.randrange(w.size)] = 2.
    keep = a.copy(), b.copy(), w.copy()
    fa, fb, fw = a.ravel().tolist(), b.ravel().tolist(), w.ravel().tolist()
    d = [(p - q) ** 2 for p, q in zip(fa, fb)]
    expect_close(Validator.MSE(a, b), sum(d) / len(d), 'mean squared error', shape=shape)
    expect_close(Validator.MSE(a.tolist(), b.tolist()), sum(d) / len(d), 'mean squared error of lists', shape=shape)
    expect_close(Validator.MSE(a, b, w), sum(p * q for p, q in zip(d, fw)) / sum(fw), 'weighted mean squared error', shape=shape, weights=w)
    if len(shape) == 1:
        expect_close(Validator.ESS(a, b), sum(d), 'explained sum of squares')
    else:
        expect_close(np.sum(Validator.ESS(a, b)), sum(d), 'explained sum of squares, columns added')
    for x, y in zip((a, b, w), keep):
        expect_same(x, y, 'the arguments stay as they are')
    other = np.zeros(shape[:-1] + (shape[-1] + 1,))
    expect_raises(AssertionError, Validator.MSE, 'different shapes', a, other)
    expect_raises(AssertionError, Validator.MSE, 'different shapes', other, a)
    expect_raises(AssertionError, Validator.MSE, 'weights of another shape', a, b, other)
    if len(shape) > 1:
        expect_raises(AssertionError, Validator.MSE, 'flat against table', a, b.ravel())


def dataset(rng, kind, i, o):
    v = lambda k: [rng.uniform(-1, 1) for _ in range(k)]
    seqs, tar, imp = [], [], []
    if kind == 'flat':
        ds = SupervisedDataSet(i, o)
        n = rng.randint(1, 6)
        xs = [v(i) for _ in range(n)]
        for x in xs:
            tar.append(v(o))
            ds.addSample(x, tar[-1])
        return ds, [xs], np.array(tar), None
    ds = (SequentialDataSet if kind == 'seq' else ImportanceDataSet)(i, o)
    for _ in range(rng.randint(1, 4)):
        ds.newSequence()
        s = []
        for _ in range(rng.randint(1, 4)):
            s.append(v(i))
            tar.append(v(o))
            if kind == 'imp' and rng.random() < .7:
                imp.append([rng.choice([0., .5, 1., 3.]) + .01 for _ in range(o)])
                ds.addSample(s[-1], tar[-1], imp[-1])
            else:
                imp.append([1.] * o)
                ds.addSample(s[-1], tar[-1])
        seqs.append(s)
    return ds, seqs, np.array(tar), np.array(imp)


@check('module output', n=150)
def _(rng, it):
    i, o = rng.randint(1, 3), rng.randint(1, 3)
    kind = rng.choice(['flat', 'seq', 'imp'])
    ds, seqs, tar, imp = dataset(rng, kind, i, o)
    m = Recorder(i, o)
    m.activate([1.] * i)
    want = answers(i, o, seqs)
    keep = dict((l, ds[l].copy()) for l in ('input', 'target'))
    expect_close(ModuleValidator.calculateModuleOutput(m, ds), want, 'module output', kind=kind, sequences=seqs)
    d = (want - tar) ** 2
    e = d.mean() if kind != 'imp' else (d * imp).sum() / imp.sum()
    expect_close(ModuleValidator.MSE(m, ds), e, 'mean squared error of a module', kind=kind, sequences=seqs)
    got = []

    def val(*a):
        got.append(a)
        return 17.
    expect(ModuleValidator.validate(val, m, ds) == 17., 'the judgement is returned')
    expect(len(got) == 1 and len(got[0]) == (3 if kind == 'imp' else 2), 'judged once', got=got)
    expect_close(got[0][0], want, 'output is judged')
    expect_close(got[0][1], tar, 'against the target')
    if kind == 'imp':
        expect_close(got[0][2], imp, 'with the importance')
    for l in keep:
        expect_same(ds[l], keep[l], 'the data set is kept')


class Rounder(Module):
    """a classifier: the rounded sum of the inputs"""

    def _forwardImplementation(self, inbuf, outbuf):
        outbuf[:] = round(float(sum(inbuf)))


@check('performance of a classifier', n=60)
def _(rng, it):
    i, n = rng.randint(1, 3), rng.randint(3, 9)
    ds = SupervisedDataSet(i, 1)
    hits = []
    for _ in range(n):
        x = [rng.uniform(0, 2. / i) for _ in range(i)]
        y = rng.randint(0, 2)
        hits.append(round(sum(x)) == y)
        ds.addSample(x, [y])
    m = Rounder(i, 1)
    expect_close(ModuleValidator.classificationPerformance(m, ds), sum(hits) / float(n), 'fraction of correctly classified samples', hits=hits)
    # the measure used by default
    tr = Trainer(m)
    folds = rng.randint(2, n - 1)
    tests = []

    def val(module, d):
        tests.append(ModuleValidator.classificationPerformance(module, d))
        return tests[-1]
    np.random.seed(it)
    a = CrossValidator(tr, ds, n_folds=folds).validate()
    np.random.seed(it)
    b = CrossValidator(tr, ds, n_folds=folds, valfunc=val).validate()
    expect_close(a, sum(tests) / folds, 'cross-validated performance', folds=folds, scores=tests)
    expect_close(b, a, 'cross-validated performance')


@check('sequences', n=100)
def _(rng, it):
    i, o = rng.randint(1, 3), rng.randint(1, 3)
    ds, seqs, tar, _ = dataset(rng, 'seq', i, o)
    b = np.cumsum([len(s) for s in seqs]).tolist()
    expect([int(x) for x in SequenceHelper.getSequenceEnds(ds)] == [x - 1 for x in b], 'ends of the sequences')
    expect([int(np.ravel(x)[0]) for x in SequenceHelper.getSequenceStarts(ds)] == [0] + b[:-1], 'starts of the sequences')
    w = [float(k + 1 in b) for k in range(b[-1])]
    expect(list(SequenceHelper.getSequenceEndsImportance(ds)) == w, 'weights of the ends')
    # every sequence is judged once, by the largest sum of its outputs
    m = Recorder(i, o)
    out = answers(i, o, seqs)
    hits = []
    for s, e in zip([0] + b, b):
        hits.append(int(np.argmax(out[s:e].sum(0))) == int(np.argmax(tar[e - 1])))
    expect_close(V.testOnSequenceData(m, ds), sum(hits) / float(len(hits)), 'sequence classification', sequences=seqs, targets=tar)
    expect_same(ds['target'], tar, 'the data set is kept')
    expect(ClassificationHelper.oneOfManyToClasses(tar).tolist() == [int(np.argmax(r)) for r in tar], 'classes of one-of-many data')


class Trainer(object):
    log = []

    def __init__(self, module):
        self.module, self.data = module, None

    def setData(self, d):
        self.data = d

    def train(self):
        self.log.append((self, self.data, 1))

    def trainEpochs(self, k):
        self.log.append((self, self.data, k))


@check('cross-validation', n=100)
def _(rng, it):
    i, o, folds = rng.randint(1, 3), rng.randint(1, 3), rng.randint(2, 6)
    n = folds + rng.randint(1, 8)
    ds = SupervisedDataSet(i, o)
    for k in range(n):
        ds.addSample([k] * i, [k + .5] * o)
    tr = Trainer(object())
    del Trainer.log[:]
    tests, scores = [], []

    def val(module, d):
        tests.append((module, [int(x[0]) for x in d['input']]))
        expect((d['target'] == d['input'][:, :1] + .5).all(), 'inputs and targets stay paired')
        scores.append(rng.random())
        return scores[-1]
    epochs = rng.choice([None, 3])
    kw = {} if epochs is None else dict(max_epochs=epochs)
    r = CrossValidator(tr, ds, n_folds=folds, valfunc=val, **kw).validate()
    expect(len(tests) == folds == len(Trainer.log), 'every fold is trained and tested once', tests=len(tests))
    expect_close(r, sum(scores) / folds, 'average of the folds', scores=scores)
    seen = []
    for (module, rows), (t, d, k) in zip(tests, Trainer.log):
        own = [int(x[0]) for x in d['input']]
        expect((d['target'] == d['input'][:, :1] + .5).all(), 'inputs and targets stay paired')
        expect(t is not tr and module is t.module, 'a trainer of its own')
        expect(k == (epochs or 1), 'trained as long as asked')
        expect(sorted(own + rows) == list(range(n)), 'training and test data together are the data', training=own, test=rows)
        expect(n // folds <= len(rows) <= n // folds + 1, 'folds of equal size', sizes=len(rows))
        seen += rows
    expect(sorted(seen) == list(range(n)), 'every sample is tested once', tested=seen)
    expect(tr.data is None, 'the trainer itself is left alone')
    expect([int(x[0]) for x in ds['input']] == list(range(n)) and len(ds) == n, 'the data set is kept')
    expect_raises(AssertionError, CrossValidator(tr, ds, n_folds=n, valfunc=val).validate, 'too many folds')


@check('cross-validation of a network', n=8)
def _(rng, it):
    ds = ClassificationDataSet(2, 1, nb_classes=2)
    for k in range(rng.randint(6, 9)):
        ds.addSample([rng.random(), rng.random()], [k % 2])
    ds._convertToOneOfMany()
    net = buildNetwork(2, 3, 2)
    p = net.params.copy()
    tr = BackpropTrainer(net, ds)
    r = CrossValidator(tr, ds, n_folds=3, valfunc=ModuleValidator.MSE, max_epochs=2).validate()
    expect(np.isfinite(r) and r >= 0, 'an error', got=r)
    expect_same(net.params, p, 'the network itself is not trained')


if __name__ == '__main__':
    main()
