"""Bounded contract checks for C20: training steps against numeric gradients of the documented error."""
from lib import *
import numpy as np
from pybrain.datasets import SupervisedDataSet, SequentialDataSet, ImportanceDataSet
from pybrain.supervised.trainers import BackpropTrainer, RPropMinusTrainer
from pybrain.structure import LinearLayer, SigmoidLayer, TanhLayer, BiasUnit, LSTMLayer, FullConnection
from pybrain.structure.networks import FeedForwardNetwork, RecurrentNetwork


def network(rng, recurrent):
    n = (RecurrentNetwork if recurrent else FeedForwardNetwork)()
    i, o = rng.randint(1, 3), rng.randint(1, 3)
    a, z = LinearLayer(i, name='a'), rng.choice([LinearLayer, SigmoidLayer, TanhLayer])(o, name='z')
    h = rng.choice([SigmoidLayer, TanhLayer, LinearLayer] + ([LSTMLayer] if recurrent else []))(rng.randint(1, 3), name='h')
    n.addInputModule(a)
    n.addModule(h)
    n.addOutputModule(z)
    n.addConnection(FullConnection(a, h, name='ah'))
    n.addConnection(FullConnection(h, z, name='hz'))
    if rng.random() < .5:
        b = BiasUnit(name='b')
        n.addModule(b)
        n.addConnection(FullConnection(b, z, name='bz'))
    if recurrent:
        n.addRecurrentConnection(FullConnection(h, h, name='hh'))
    n.sortModules()
    n._setParameters(np.array([rng.uniform(-1, 1) for _ in range(n.paramdim)]))
    return n


def data(rng, n, kind):
    """-> data set, list of sequences of (input, target, weight)"""
    i, o = n.indim, n.outdim
    v = lambda k: [rng.uniform(-1, 1) for _ in range(k)]
    seqs = []
    if kind == 'flat':
        ds = SupervisedDataSet(i, o)
        for _ in range(rng.randint(1, 6)):
            x, y = v(i), v(o)
            ds.addSample(x, y)
            seqs.append([(x, y, [1.] * o)])
        return ds, seqs
    ds = (SequentialDataSet if kind == 'seq' else ImportanceDataSet)(i, o)
    for _ in range(rng.randint(1, 4)):
        ds.newSequence()
        s = []
        for _ in range(rng.randint(1, 4)):
            x, y, w = v(i), v(o), [1.] * o
            if kind == 'imp' and rng.random() < .7:
                w = [rng.choice([0., .5, 1., 3.]) + .01 for _ in range(o)]
                ds.addSample(x, y, w)
            else:
                ds.addSample(x, y)
            s.append((x, y, w))
        seqs.append(s)
    return ds, seqs


def error(n, seqs):
    e = w = 0.
    for s in seqs:
        n.reset()
        for x, y, g in s:
            o = n.activate(x)
            e += .5 * sum(g[j] * (y[j] - o[j]) ** 2 for j in range(len(y)))
            w += sum(g)
    return e, w


def gradient(n, seqs):
    """numeric derivative of minus the error"""
    p0 = np.array(n.params)
    r = []
    for k in range(len(p0)):
        es = []
        for d in (1e-5, -1e-5):
            p = p0.copy()
            p[k] += d
            n._setParameters(p)
            es.append(error(n, seqs)[0])
        r.append((es[1] - es[0]) / 2e-5)
    n._setParameters(p0.copy())
    n.reset()
    return np.array(r)


def contents(ds):
    return [(f, np.array(ds[f])) for f in sorted(ds.getFieldNames())]


def unchanged(ds, was):
    for (f, a), (g, b) in zip(contents(ds), was):
        expect(f == g and same(a, b), 'training leaves the data set unchanged', field=f, now=a, before=b)


def case(rng):
    kind = rng.choice(['flat', 'seq', 'imp'])
    n = network(rng, kind != 'flat')
    if rng.random() < .5:
        n.derivs[:] = [rng.uniform(-1, 1) for _ in range(n.paramdim)]       # left over from elsewhere
        n.reset()
        n.activate([0.] * n.indim)
    return (n, kind) + data(rng, n, kind)


@check('accumulated derivatives are the gradient', n=20)
def _(rng, it):
    n, kind, ds, seqs = case(rng)
    tr = BackpropTrainer(n, ds)
    was = contents(ds)
    n.resetDerivatives()
    tot = [0., 0.]
    for k, seq in enumerate(ds._provideSequences()):
        before = np.array(n.derivs)
        e, p = tr._calcDerivs(seq)
        expect_close([e, p], error(n, [seqs[k]]), 'error and weight of a sequence')
        expect_close(np.array(n.derivs) - before, gradient(n, [seqs[k]]), 'a sequence adds its gradient', tol=1e-5)
    unchanged(ds, was)


@check('a batch epoch is one step along the summed gradient', n=20)
def _(rng, it):
    n, kind, ds, seqs = case(rng)
    lr, mom, dec = rng.uniform(.001, .1), rng.choice([0., .5]), rng.choice([1., .9])
    tr = BackpropTrainer(n, ds, learningrate=lr, momentum=mom, lrdecay=dec, batchlearning=True)
    was = contents(ds)
    vel = 0.
    for ep in range(rng.randint(1, 3)):
        p0, g = np.array(n.params), gradient(n, seqs)
        e, w = error(n, seqs)
        r = tr.train()
        vel = mom * vel + lr * g
        expect_close(n.params, p0 + vel, 'parameters after a batch epoch', tol=1e-5)
        expect_close(r, e / w, 'reported error of a batch epoch')
        lr *= dec
    expect(tr.totalepochs == ep + 1, 'epochs are counted')
    unchanged(ds, was)


@check('an online epoch is one step per sequence', n=20)
def _(rng, it):
    n, kind, ds, seqs = case(rng)
    lr, wd, mom, dec = rng.uniform(.001, .1), rng.choice([0., .1]), rng.choice([0., .5]), rng.choice([1., .9])
    tr = BackpropTrainer(n, ds, learningrate=lr, weightdecay=wd, momentum=mom, lrdecay=dec)
    was = contents(ds)
    log = []
    real = tr._calcDerivs

    def spy(seq):
        log.append([tuple(map(tuple, (s[0], s[1]))) for s in seq])
        return real(seq)
    tr._calcDerivs = spy
    p0 = np.array(n.params)
    r = tr.train()
    key = lambda s: tuple(tuple(map(tuple, x[:2])) for x in s)
    given = dict((key(s), s) for s in seqs)
    expect(sorted(map(tuple, log)) == sorted(map(key, seqs)), 'every sequence is presented exactly once',
           presented=log, data=list(map(key, seqs)))
    got = np.array(n.params)
    n._setParameters(p0.copy())
    e = w = vel = 0.
    for s in log:
        s = given[tuple(s)]
        p = np.array(n.params)
        a, b = error(n, [s])
        e, w = e + a, w + b
        g = gradient(n, [s])
        vel = mom * vel + lr * (g - wd * p)
        lr *= dec
        n._setParameters(p + vel)
    expect_close(got, n.params, 'parameters after an online epoch', tol=1e-4)
    expect_close(r, e / w, 'reported error of an online epoch', tol=1e-4)
    unchanged(ds, was)


@check('resilient propagation steps along the sign of the gradient', n=15)
def _(rng, it):
    n, kind, ds, seqs = case(rng)
    wd = rng.choice([0., .1])
    tr = RPropMinusTrainer(n, dataset=ds, delta0=.05, deltamin=.01, deltamax=.08, weightdecay=wd)
    was = contents(ds)
    step, last = np.zeros(n.paramdim) + .05, np.zeros(n.paramdim)
    for ep in range(3):
        p0 = np.array(n.params)
        g = gradient(n, seqs) - wd * p0
        if (abs(g) < 1e-6).any() or (kind == 'imp' and (abs(g) < 1e-4).any()):
            raise Skip()
        e, w = error(n, seqs)
        r = tr.train()
        moved = p0 + np.sign(g) * step
        for k in range(len(g)):
            c = g[k] * last[k]
            if c > 0:
                step[k] = min(step[k] * 1.2, .08)
            elif c < 0:
                step[k] = max(step[k] * .5, .01)
                g[k] = 0.
        expect_close(n.params, moved, 'parameters after a resilient epoch')
        expect_close(r, e / w, 'reported error of a resilient epoch')
        last = g
    unchanged(ds, was)


@check('testing reports the weighted average and trains nothing', n=20)
def _(rng, it):
    n, kind, ds, seqs = case(rng)
    tr = BackpropTrainer(n, ds)
    p0 = np.array(n.params)
    was = contents(ds)
    e, w = error(n, seqs)
    for r in (tr.testOnData(), tr.testOnData(ds)):
        expect_close(r, e / w, 'tested error is the weighted average of half the squared errors')
    expect_same(n.params, p0, 'testing leaves the parameters alone')
    unchanged(ds, was)


@check('training until convergence keeps the best weights and the data', n=16)
def _(rng, it):
    n = network(rng, False)
    ds, seqs = data(rng, n, 'flat')
    while len(seqs) < 5:
        d2, s2 = data(rng, n, 'flat')
        for s in s2:
            ds.addSample(s[0][0], s[0][1])
        seqs += s2
    half = len(seqs) // 2
    tds, vds = SupervisedDataSet(n.indim, n.outdim), SupervisedDataSet(n.indim, n.outdim)
    for k, s in enumerate(seqs):
        (tds if k < half else vds).addSample(s[0][0], s[0][1])
    tr = BackpropTrainer(n, ds, learningrate=rng.choice([.05, .5, 1.5]))
    was = contents(ds)
    m = rng.randint(0, 12)
    kw = {} if rng.random() < .5 else dict(continueEpochs=rng.choice([1, 2, 3]))
    try:
        a, b = tr.trainUntilConvergence(dataset=rng.choice([ds, None]), maxEpochs=m, trainingData=tds, validationData=vds, **kw)
    except Exception as x:
        if 'NaN' in str(x):
            raise Skip()
        raise
    expect(1 <= len(tr.trainingErrors) == tr.totalepochs <= max(m, 1), 'no more epochs than asked for (one is always done)', epochs=tr.totalepochs, limit=m)
    if not np.isfinite(tr.validationErrors).all() or max(tr.validationErrors) > 1e6:
        raise Skip()
    best = min(tr.validationErrors[1:])
    expect(list(a) == list(tr.trainingErrors[:len(a)]) and list(b) == list(tr.validationErrors[:len(a) + 1]), 'returned errors are those of the first epochs', got=(list(a), list(b)))
    expect_close(error(n, seqs[half:])[0] / error(n, seqs[half:])[1], best, 'parameters with the smallest validation error are kept')
    expect(tr.ds is ds, 'the data set is restored')
    unchanged(ds, was)


@check('training until convergence splits the data and stops', n=10)
def _(rng, it):
    n = network(rng, False)
    ds = SupervisedDataSet(n.indim, n.outdim)
    k = rng.randint(4, 12)
    for _ in range(k):
        ds.addSample([rng.uniform(-1, 1) for _ in range(n.indim)], [rng.uniform(-1, 1) for _ in range(n.outdim)])
    tr = BackpropTrainer(n, ds, learningrate=0.)
    was, p0 = contents(ds), np.array(n.params)
    prop = rng.choice([.25, .5, .75])
    sizes = []
    real, test = tr.train, tr.testOnData
    tr.train = lambda: (sizes.append(len(tr.ds)), real())[1]
    tr.testOnData = lambda d=None: (sizes.append(-len(d)), test(d))[1]
    tr.trainUntilConvergence(maxEpochs=200, validationProportion=prop)
    train, valid = set(x for x in sizes if x > 0), set(-x for x in sizes if x < 0)
    expect(len(train) == len(valid) == 1 and sum(train | valid) in (k, k // 2) and min(train) + min(valid) == k and abs(min(valid) - prop * k) < 1.0001, 'the data is split in proportion', training=train, validation=valid, samples=k, proportion=prop)
    expect(tr.totalepochs < 200, 'training stops when the errors do not change any more', epochs=tr.totalepochs)
    expect_same(n.params, p0, 'no step without learning rate')
    expect(tr.ds is ds, 'the data set is restored')
    unchanged(ds, was)
    small = SupervisedDataSet(n.indim, n.outdim)
    small.addSample([0.] * n.indim, [0.] * n.outdim)
    expect_raises(ValueError, lambda: BackpropTrainer(n, small).trainUntilConvergence(maxEpochs=2), 'data that cannot be split')


@check('training for some epochs', n=12)
def _(rng, it):
    n, kind, ds, seqs = case(rng)
    tr = BackpropTrainer(n, learningrate=.01, batchlearning=True)
    calls = []
    real = tr.train
    tr.train = lambda: (calls.append(tr.ds), real())[1]
    k = rng.choice([None, 0, 1, 3])
    args = [] if k is None else [k]
    tr.trainOnDataset(ds, *args)
    expect(calls == [ds] * (1 if k is None else k) and tr.totalepochs == len(calls), 'as many epochs as wanted on the given data', wanted=k, trained=len(calls))
    tr.trainEpochs(2)
    expect(calls == [ds] * (2 + (1 if k is None else k)), 'further epochs on the same data')
    wrong = SupervisedDataSet(n.indim + rng.choice([0, 1]), n.outdim + 1)
    wrong.addSample([0.] * wrong.indim, [0.] * wrong.outdim)
    expect_raises(AssertionError, lambda: tr.setData(wrong), 'data of other dimensions is refused')


@check('winning classes of the test data', n=12)
def _(rng, it):
    n, kind, ds, seqs = case(rng)
    if kind == 'imp':
        raise Skip()
    tr = BackpropTrainer(n, ds)
    p0, was = np.array(n.params), contents(ds)
    out, targ = tr.testOnClassData(*rng.choice([[], [ds]]), return_targets=True)
    only = tr.testOnClassData()
    wanted, classes = [], []
    for s in seqs:
        n.reset()
        for x, y, _ in s:
            wanted.append(int(np.argmax(n.activate(x))))
            classes.append(int(np.argmax(y)))
    expect(list(out) == wanted == list(only), 'the winning output of every sample', out=out, expected=wanted)
    expect(list(targ) == classes, 'the class of every sample', targets=targ, expected=classes)
    expect_same(n.params, p0, 'testing leaves the parameters alone')
    unchanged(ds, was)


@check('the gradient check compares the gradient of every sequence', n=6)
def _(rng, it):
    n, kind, ds, seqs = case(rng)
    tr = BackpropTrainer(n, ds)
    p0, was = np.array(n.params), contents(ds)
    res = tr._checkGradient(*rng.choice([[], [ds]]), silent=True)
    expect(len(res) == len(seqs), 'one result per sequence')
    for r, s in zip(res, seqs):
        g = gradient(n, [s])
        expect_close([a for a, _ in r], g, 'the computed gradient', tol=1e-5)
        expect_close([b for _, b in r], -g, 'the numeric derivative of the error', tol=1e-4)
    expect_same(n.params, p0, 'the parameters are restored')
    unchanged(ds, was)


if __name__ == '__main__':
    main()
