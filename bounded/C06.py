"""Bounded contract checks for C06: buffers, copies and reset of real modules."""
from lib import *
import numpy as np
from pybrain.structure import (LinearLayer, SigmoidLayer, TanhLayer, SoftmaxLayer, LSTMLayer, GateLayer, BiasUnit,
                               FullConnection, IdentityConnection, FeedForwardNetwork, RecurrentNetwork)
from pybrain.structure.modules.gate import DoubleGateLayer, MultiplicationLayer, SwitchLayer
from pybrain.structure.modules.mdlstm import MDLSTMLayer
from pybrain.structure.modules.relulayer import ReluLayer
from pybrain.structure.modules.softsign import SoftSignLayer
from pybrain.structure.modules.statedependentlayer import StateDependentLayer
from pybrain.datasets import SupervisedDataSet, SequentialDataSet
BUFS = ('inputbuffer', 'inputerror', 'outputbuffer', 'outputerror')


def rv(rng, n):
    return np.array([rng.uniform(-2, 2) for _ in range(n)])


def layer(rng, seq=False):
    d = rng.randint(1, 4)
    kinds = [LinearLayer, SigmoidLayer, TanhLayer, GateLayer, MultiplicationLayer, DoubleGateLayer, SwitchLayer,
             ReluLayer, SoftSignLayer]
    if seq:
        kinds += [lambda n: LSTMLayer(n, True), lambda n: LSTMLayer(n), lambda n: LSTMLayer(n, True)]
    return rng.choice(kinds)(d)


def rnet(rng, forget=False):
    a = LinearLayer(rng.randint(1, 3), name='a')
    h = layer(rng, not forget)
    h.name = 'h'
    o = rng.choice([LinearLayer, TanhLayer])(rng.randint(1, 3), name='o')
    n = RecurrentNetwork(forget=forget)
    n.addInputModule(a)
    n.addModule(h)
    n.addOutputModule(o)
    n.addConnection(FullConnection(a, h, name='ah'))
    n.addConnection(FullConnection(h, o, name='ho'))
    n.addRecurrentConnection(FullConnection(h, h, name='hh'))
    if rng.random() < .5:
        n.addRecurrentConnection(FullConnection(o, h, name='oh'))
    n.sortModules()
    return n


def ffnet(rng):
    a, h, o = LinearLayer(rng.randint(1, 3)), layer(rng), SigmoidLayer(rng.randint(1, 3))
    n = FeedForwardNetwork()
    n.addInputModule(a)
    n.addModule(h)
    n.addOutputModule(o)
    n.addConnection(FullConnection(a, h))
    n.addConnection(FullConnection(h, o))
    n.sortModules()
    return n


def roll(m, xs, es):
    """activate on xs, back-activate on es (last first) -> outputs, input errors"""
    out = [m.activate(x) for x in xs]
    return out, [m.backActivate(e) for e in reversed(es)]


@check('a recurrent network keeps every step', n=80)
def _(rng, it):
    n = rnet(rng)
    for life in range(2):
        T = rng.choice([1, 2, 3, 4, 5, 9, rng.randint(1, 20)])
        xs = [rv(rng, n.indim) for _ in range(T)]
        outs, keep = [], []
        for s, x in enumerate(xs):
            y = x.copy()
            r = n.activate(y)
            expect_same(y, x, 'the input handed in is not modified')
            outs.append(r)
            keep.append(r.copy())
            if rng.random() < .5:
                y[:] = 99.
            expect(n.offset == s + 1, 'one step per activation')
        for s in range(T):
            expect_same(outs[s], keep[s], 'an earlier result is not changed by later steps', step=s)
            expect_same(n.inputbuffer[s], xs[s], 'the input of every step is stored', step=s)
            expect_same(n.outputbuffer[s], keep[s], 'the output of every step is stored', step=s)
            mods = sorted(n.modules, key=lambda m: m.name)
            a, o = [m for m in mods if m.name == 'a'][0], [m for m in mods if m.name == 'o'][0]
            expect_same(a.inputbuffer[s], xs[s], 'the input module stores the input of every step', step=s)
            expect_same(o.outputbuffer[s], keep[s], 'the output module stores the output of every step', step=s)
        st = n.outputbuffer.copy()
        outs[-1][:] = 55.
        expect_same(n.outputbuffer, st, 'writing to a returned array changes nothing stored')
        n.reset()
        for s in range(T - 1):
            expect_same(outs[s], keep[s], 'reset does not change what was returned', step=s)
        for b in BUFS:
            expect(not getattr(n, b).any(), 'reset clears the %s' % b)
        expect(n.offset == 0 and all(m.offset == 0 for m in n.modules), 'reset returns to the first step')


@check('reset gives back a fresh module', n=100)
def _(rng, it):
    n = rnet(rng) if it % 3 else ffnet(rng)
    c = n.copy()
    rec = it % 3 != 0
    T = rng.randint(1, 9) if rec else 1
    xs, es = [rv(rng, n.indim) for _ in range(T)], [rv(rng, n.outdim) for _ in range(T)]
    roll(n, xs, es)
    if rec and rng.random() < .5:
        for x in xs[:2]:
            n.activate(x)
    n.reset()
    n.resetDerivatives()
    c.resetDerivatives()
    T2 = rng.randint(1, 9) if rec else 1
    xs, es = [rv(rng, n.indim) for _ in range(T2)], [rv(rng, n.outdim) for _ in range(T2)]
    o1, e1 = roll(n, xs, es)
    o2, e2 = roll(c, xs, es)
    for s in range(T2):
        expect_close(o1[s], o2[s], 'outputs after a reset equal those of a fresh copy', step=s)
        expect_close(e1[s], e2[s], 'errors after a reset equal those of a fresh copy', step=s)
    expect_close(n.derivs, c.derivs, 'derivatives after a reset equal those of a fresh copy')


@check('layers return copies and store each step', n=120)
def _(rng, it):
    m = layer(rng) if it % 4 else StateDependentLayer(3, LinearLayer(3))
    x, x2 = rv(rng, m.indim), rv(rng, m.indim)
    y = x.copy()
    r = m.activate(y)
    keep = r.copy()
    expect_same(y, x, 'the input handed in is not modified')
    expect_same(m.inputbuffer[0], x, 'the input is stored')
    expect_same(m.outputbuffer[0], r, 'the output is stored')
    e = rv(rng, m.outdim)
    if it % 4:
        o, ie = np.zeros(m.outdim), np.zeros(m.indim)
        m._forwardImplementation(x.copy(), o)
        expect_close(r, o, 'the output is what the layer computes from the input')
        f = e.copy()
        g = m.backActivate(f)
        gk = g.copy()
        m._backwardImplementation(e.copy(), ie, o, x.copy())
        expect_close(g, ie, 'the input error is what the layer computes from the output error')
        expect_same(f, e, 'the error handed in is not modified')
        expect_same(m.inputerror[0], g, 'the input error is stored')
        expect_same(m.outputerror[0], e, 'the output error is stored')
        expect_same(m.inputbuffer[0], x, 'back-activation keeps the input')
        expect_same(m.outputbuffer[0], keep, 'back-activation keeps the output')
        g[:] = 7
        expect_same(m.inputerror[0], gk, 'writing to the returned error changes nothing stored')
    y[:] = 5
    expect_same(m.inputbuffer[0], x, 'writing to the input vector changes nothing stored')
    r[:] = 6
    expect_same(m.outputbuffer[0], keep, 'writing to the result changes nothing stored')
    r = m.activate(x)
    expect_close(r, keep, 'the same input gives the same output')
    m.activate(x2)
    expect_close(r, keep, 'an earlier result is not changed by later steps')
    m.reset()
    for b in BUFS:
        expect(not getattr(m, b).any(), 'reset clears the %s' % b)
    expect_close(m.activate(x), keep, 'a reset layer computes the same function')


@check('wrong lengths are refused', n=60)
def _(rng, it):
    m = [layer, ffnet, rnet][it % 3](rng)
    if it % 3 == 2:
        m.activate(rv(rng, m.indim))
        m.activate(rv(rng, m.indim))
    else:
        m.activate(rv(rng, m.indim))
    k = rng.randint(2, 9)
    if k not in (m.indim,):
        st = [getattr(m, b).copy() for b in BUFS]
        if not (it % 3 == 1):
            expect_raises(Exception, m.activate, 'an input of the wrong length is accepted', rv(rng, k))
            for b, s in zip(BUFS, st):
                expect_same(getattr(m, b), s, 'a refused input changes the stored buffers')
        else:
            expect_raises(Exception, m.activate, 'an input of the wrong length is accepted', rv(rng, k))
    if k not in (m.outdim,):
        st = [getattr(m, b).copy() for b in BUFS]
        expect_raises(Exception, m.backActivate, 'an error of the wrong length is accepted', rv(rng, k))
        for b, s in zip(BUFS, st):
            expect_same(getattr(m, b), s, 'a refused error changes the stored buffers')


@check('growing and shifting buffers', n=60)
def _(rng, it):
    m = layer(rng, True)
    for _ in range(rng.randint(0, 3)):
        m._growBuffers()
    L = len(m.inputbuffer)
    for b in BUFS:
        getattr(m, b)[:] = np.array([[rng.uniform(-1, 1) for _ in range(getattr(m, b).shape[1])] for _ in range(L)])
    old = {b: getattr(m, b).copy() for b in BUFS}
    if it % 2:
        m._growBuffers()
        for b in BUFS:
            expect(len(getattr(m, b)) >= 2 * L, 'growing doubles the buffers')
            expect_same(getattr(m, b)[:L], old[b], 'growing keeps the history')
            expect(not getattr(m, b)[L:].any(), 'new rows are zero')
    else:
        k = rng.randint(-L, L)
        m.offset = rng.randrange(L)
        o = m.offset
        m.shift(k)
        expect(m.offset == o + k, 'shift moves the offset')
        for b in BUFS:
            want = np.zeros_like(old[b])
            for r in range(L):
                if 0 <= r - k < L:
                    want[r] = old[b][r - k]
            expect_same(getattr(m, b), want, 'shift moves every row', items=k)


@check('forgetful networks compute the same', n=30)
def _(rng, it):
    n = rnet(rng, forget=True)
    c = n.copy()
    c.forget = False
    c.reset()
    n.reset()
    T = rng.randint(2, 12)
    xs = [rv(rng, n.indim) for _ in range(T)]
    a = [n.activate(x) for x in xs]
    n.reset()
    b = [n.activate(x) for x in xs]
    for s in range(T):
        expect_close(a[s], b[s], 'a forgetful network computes the same after a reset', step=s)
    d = [c.activate(x) for x in xs]
    for s in range(T):
        expect_close(a[s], d[s], 'a forgetful network computes what one that remembers everything does', step=s)


@check('activateOnDataset', n=40)
def _(rng, it):
    n = rnet(rng) if it % 2 else ffnet(rng)
    ds = SupervisedDataSet(n.indim, 1)
    T = rng.randint(1, 9)
    xs = [rv(rng, n.indim) for _ in range(T)]
    for x in xs:
        ds.addSample(x, [0.])
    if rng.random() < .5:
        n.activate(xs[0])
    r = n.activateOnDataset(ds)
    n.reset()
    want = [n.activate(x) for x in xs]
    expect_close(r, np.array(want), 'activateOnDataset returns the outputs in order')
    expect(len(ds) == T and close(ds['input'], np.array(xs)), 'the data set is unchanged')


if __name__ == '__main__':
    main()
