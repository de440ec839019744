"""Bounded contract checks for C04: layers through the public interface, derivatives
against central differences of an independent implementation."""
from lib import *
import numpy as np
from math import exp, tanh
from pybrain.structure import (LinearLayer, SigmoidLayer, TanhLayer, SoftmaxLayer, BiasUnit, GateLayer, DoubleGateLayer,
                               MultiplicationLayer, SwitchLayer, LSTMLayer, MDLSTMLayer, RecurrentNetwork, IdentityConnection)
from pybrain.structure.modules.relulayer import ReluLayer
from pybrain.structure.modules.softsign import SoftSignLayer
from pybrain.structure.modules.softmax import PartialSoftmaxLayer


def sig(v):
    v = np.asarray(v, dtype=float)
    return np.array([1 / (1 + exp(-a)) if a > -700 else 0. for a in v])


def tanhv(v):
    return np.array([tanh(a) for a in v])


def softmax(v):
    v = np.asarray(v)
    z = np.array([exp(a - max(v)) for a in v])
    return z / z.sum()


SIMPLE = {
    'linear': (LinearLayer, lambda d: d, lambda v, d: v, lambda v, d, e: e),
    'sigmoid': (SigmoidLayer, lambda d: d, lambda v, d: sig(v), lambda v, d, e: sig(v) * (1 - sig(v)) * e),
    'tanh': (TanhLayer, lambda d: d, lambda v, d: tanhv(v), lambda v, d, e: (1 - tanhv(v) ** 2) * e),
    'relu': (ReluLayer, lambda d: d, lambda v, d: np.array([max(a, 0) for a in v]),
             lambda v, d, e: np.array([b if a > 0 else 0. for a, b in zip(v, e)])),
    'softsign': (SoftSignLayer, lambda d: d, lambda v, d: np.array([a / (1 + abs(a)) for a in v]),
                 lambda v, d, e: np.array([b / (1 + abs(a)) ** 2 for a, b in zip(v, e)])),
    'softmax': (SoftmaxLayer, lambda d: d, lambda v, d: softmax(v), lambda v, d, e: e),
    'mult': (MultiplicationLayer, lambda d: 2 * d, lambda v, d: v[:d] * v[d:],
             lambda v, d, e: np.concatenate([v[d:] * e, v[:d] * e])),
    'gate': (GateLayer, lambda d: 2 * d, lambda v, d: sig(v[:d]) * v[d:],
             lambda v, d, e: np.concatenate([sig(v[:d]) * (1 - sig(v[:d])) * v[d:] * e, sig(v[:d]) * e])),
    'doublegate': (DoubleGateLayer, lambda d: 2 * d,
                   lambda v, d: np.concatenate([sig(v[:d]) * v[d:], (1 - sig(v[:d])) * v[d:]]),
                   lambda v, d, e: np.concatenate([sig(v[:d]) * (1 - sig(v[:d])) * v[d:] * (e[:d] - e[d:]),
                                                   sig(v[:d]) * e[:d] + (1 - sig(v[:d])) * e[d:]])),
    'switch': (SwitchLayer, lambda d: d, lambda v, d: np.concatenate([sig(v), 1 - sig(v)]),
               lambda v, d, e: sig(v) * (1 - sig(v)) * (e[:d] - e[d:])),
}


def draw(rng, n, big=True):
    c = rng.random()
    s = 3. if c < .6 or not big else (30. if c < .8 else 499.)
    r = np.array([rng.uniform(-s, s) for _ in range(n)])
    if n and rng.random() < .15:
        r[rng.randrange(n)] = 0.
    if n > 1 and rng.random() < .1:
        r[:] = r[0]
    return r


@check('simple layers', n=260)
def _(rng, it):
    name = sorted(SIMPLE)[it % len(SIMPLE)]
    cls, indim, f, b = SIMPLE[name]
    d = rng.choice([1, 2, 3, 4, 7])
    m = cls(d)
    expect(m.indim == indim(d), name + ': input size')
    for step in range(3):
        x = draw(rng, m.indim)
        x0 = x.copy()
        y = m.activate(x)
        want = f(x0, d)
        expect_close(y, want, name + ': activation', x=x0)
        expect_same(x, x0, name + ': input is not written')
        if name in ('softmax',):
            expect(abs(sum(y) - 1) < 1e-9 and (np.asarray(y) >= 0).all(), name + ': a distribution', y=y)
        if name == 'sigmoid':
            expect(((np.asarray(y) >= 0) & (np.asarray(y) <= 1)).all(), name + ': range')
        e = draw(rng, m.outdim, False)
        e0 = e.copy()
        if name == 'relu' and (x0 == 0).any():
            continue
        r = m.backActivate(e)
        expect_close(r, b(x0, d, e0), name + ': propagated error', x=x0, e=e0)
        expect_same(e, e0, name + ': error is not written')
        if rng.random() < .4:
            m.reset()


@check('partial softmax', n=40)
def _(rng, it):
    s = rng.choice([1, 2, 3, 4])
    q = rng.choice([1, 2, 3])
    m = PartialSoftmaxLayer(s * q, s)
    for step in range(2):
        x = draw(rng, s * q, False)
        y = m.activate(x)
        for i in range(q):
            expect_close(y[i * s:(i + 1) * s], softmax(x[i * s:(i + 1) * s]), 'partial softmax: slice', x=x, y=y)
        e = draw(rng, s * q, False)
        expect_close(m.backActivate(e), e, 'partial softmax: error passed on')


@check('bias unit', n=8)
def _(rng, it):
    b = BiasUnit()
    for _ in range(2):
        expect_close(b.activate([]), [1.], 'bias')


def lstm_ref(xs, d, p):
    """independent forward pass -> outputs"""
    s = np.zeros(d)
    out = []
    for t, x in enumerate(xs):
        i, f, c, o = x[:d], x[d:2 * d], x[2 * d:3 * d], x[3 * d:]
        if p is not None:
            i = i + p[:d] * s
            f = f + p[d:2 * d] * s
        s = sig(i) * tanhv(c) + sig(f) * s
        if p is not None:
            o = o + p[2 * d:] * s
        out.append(sig(o) * tanhv(s))
    return np.array(out)


def numgrad(fn, v, h=1e-5):
    g = np.zeros(len(v))
    for i in range(len(v)):
        a, b = v.copy(), v.copy()
        a[i] += h
        b[i] -= h
        g[i] = (fn(a) - fn(b)) / (2 * h)
    return g


@check('lstm through time', n=40)
def _(rng, it):
    d = rng.choice([1, 2, 3])
    peep = it % 2 == 0
    lstm = LSTMLayer(d, peepholes=peep)
    a = LinearLayer(4 * d)
    m = RecurrentNetwork()
    m.addInputModule(a)
    m.addOutputModule(lstm)
    m.addConnection(IdentityConnection(a, lstm))
    m.sortModules()
    p = None
    for rep in range(2):
        if peep:
            p = draw(rng, 3 * d, False)
            m._setParameters(p.copy())
            m.resetDerivatives()
        m.reset()
        T = rng.choice([1, 2, 3, 5, 9])
        xs = np.array([draw(rng, 4 * d, False) for _ in range(T)])
        es = np.array([draw(rng, d, False) for _ in range(T)])
        ys = [m.activate(x) for x in xs]
        expect_close(np.array(ys), lstm_ref(xs, d, p), 'lstm: outputs', xs=xs, p=p)
        loss = lambda flat, pp: float((lstm_ref(flat.reshape(T, 4 * d), d, pp) * es).sum())
        ies = [None] * T
        for t in reversed(range(T)):
            ies[t] = m.backActivate(es[t].copy())
        want = numgrad(lambda v: loss(v, p), xs.flatten()).reshape(T, 4 * d)
        expect_close(np.array(ies), want, 'lstm: errors through time', 1e-4, xs=xs, es=es, p=p)
        if peep:
            g = numgrad(lambda v: loss(xs.flatten(), v), p)
            expect_close(m.derivs, g, 'lstm: peephole gradient', 1e-4, xs=xs, es=es, p=p)
            expect_same(m.params, p, 'lstm: parameters are not written')


def mdlstm_ref(x, d, D, p):
    i = x[:d]
    f = x[d:d * (1 + D)].copy()
    c = x[d * (1 + D):d * (2 + D)]
    o = x[d * (2 + D):d * (3 + D)]
    last = x[d * (3 + D):]
    if p is not None:
        for k in range(D):
            i = i + p[:d] * last[k * d:(k + 1) * d]
        f = f + p[d:d * (1 + D)] * last
    s = sig(i) * tanhv(c)
    for k in range(D):
        s = s + sig(f[k * d:(k + 1) * d]) * last[k * d:(k + 1) * d]
    if p is not None:
        o = o + p[d * (1 + D):] * s
    return np.concatenate([sig(o) * tanhv(s), s])


@check('mdlstm', n=40)
def _(rng, it):
    d = rng.choice([1, 2, 3])
    D = rng.choice([1, 2, 3])
    peep = it % 2 == 0
    m = MDLSTMLayer(d, dimensions=D, peepholes=peep)
    for rep in range(2):
        p = None
        if peep:
            p = draw(rng, (2 + D) * d, False)
            m._setParameters(p.copy())
            m.resetDerivatives()
        x = draw(rng, (3 + 2 * D) * d, False)
        e = draw(rng, 2 * d, False)
        y = m.activate(x)
        expect_close(y, mdlstm_ref(x, d, D, p), 'mdlstm: output and state', x=x, p=p)
        g = m.backActivate(e.copy())
        want = numgrad(lambda v: float((mdlstm_ref(v, d, D, p) * e).sum()), x)
        expect_close(g, want, 'mdlstm: propagated error', 1e-4, x=x, e=e, p=p)
        if peep:
            want = numgrad(lambda v: float((mdlstm_ref(x, d, D, v) * e).sum()), p)
            expect_close(m.derivs, want, 'mdlstm: peephole gradient', 1e-4, x=x, e=e, p=p)


if __name__ == '__main__':
    main()
