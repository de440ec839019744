"""Bounded contract checks for C01: parameter storage of random networks."""
from lib import *
import numpy as np
from pybrain.structure import (LinearLayer, SigmoidLayer, LSTMLayer, BiasUnit, FullConnection, IdentityConnection,
                               FeedForwardNetwork, RecurrentNetwork)
from pybrain.structure.connections.linear import LinearConnection
from pybrain.structure.connections.shared import MotherConnection, SharedFullConnection
from pybrain.structure.modules.mdlstm import MDLSTMLayer
from pybrain.structure.parametercontainer import ParameterContainer
from pybrain.tools.shortcuts import buildNetwork


def rv(rng, n):
    return np.array([rng.uniform(-2, 2) for _ in range(n)])


def random_net(rng, depth=0):
    rec = rng.random() < .5
    n = RecurrentNetwork() if rec else FeedForwardNetwork()
    k = rng.randint(2, 4)
    mods = []
    for i in range(k):
        c = rng.random()
        if depth < 1 and c < .2:
            m = random_net(rng, depth + 1)
            if m.sequential and not rec:
                m = LinearLayer(rng.randint(1, 3))
        elif rec and c < .5 and 0 < i:
            m = LSTMLayer(rng.randint(1, 2), peepholes=True)
        else:
            m = LinearLayer(rng.randint(1, 3))
        mods.append(m)
    n.addInputModule(mods[0])
    for m in mods[1:-1]:
        n.addModule(m)
    n.addOutputModule(mods[-1])
    if rng.random() < .4:
        b = BiasUnit()
        n.addModule(b)
        mods = [b] + mods
    conns = []
    mothers = {}
    for i in range(len(mods)):
        for j in range(i + 1, len(mods)):
            if rng.random() < .7:
                a, b = mods[i], mods[j]
                z = rng.random()
                if z < .2 and a.outdim == b.indim:
                    c = LinearConnection(a, b)
                elif z < .6:
                    key = a.outdim * b.indim
                    if key not in mothers:
                        mothers[key] = MotherConnection(key)
                    c = SharedFullConnection(mothers[key], a, b)
                else:
                    c = FullConnection(a, b)
                n.addConnection(c)
                conns.append(c)
    if rec:
        for _ in range(rng.randint(0, 2)):
            a, b = rng.choice(mods[-2:]), rng.choice(mods[-2:])
            if getattr(b, 'indim', 0) > 0:
                c = FullConnection(a, b)
                n.addRecurrentConnection(c)
                conns.append(c)
    own = [m for m in mods if m.paramdim] + [c for c in conns if c.paramdim and not isinstance(c, SharedFullConnection)]
    own += [mothers[q] for q in sorted(mothers) if any(isinstance(c, SharedFullConnection) and c.mother is mothers[q]
                                                        for c in conns)]
    n.test_own, n.test_conns = own, conns
    for _ in range(rng.choice([1, 1, 2])):
        before = [c.params.copy() for c in own]
        if rng.random() < .5:
            for c in own:
                c.derivs[:] = rv(rng, c.paramdim)
        slopes = [c.derivs.copy() for c in own]
        n.sortModules()
        for c, v, d in zip(own, before, slopes):
            expect_same(c.params, v, 'sorting keeps the parameter values of a component')
            expect_same(c.derivs, d, 'sorting keeps the derivatives of a component')
        n.sorted = False
    n.sorted = True
    return n


def layout(n, own):
    """positions of the components, found by aliasing only"""
    expect(len(n.params) == n.paramdim == sum(c.paramdim for c in own) == len(n.derivs), 'total number of parameters',
           paramdim=n.paramdim, parts=[c.paramdim for c in own])
    used = {}
    for what in ('params', 'derivs'):
        flat = getattr(n, what)
        keep = flat.copy()
        flat[:] = np.arange(1, n.paramdim + 1)
        pos = []
        for c in own:
            a = getattr(c, what)
            expect(len(a) == c.paramdim, 'length of the %s of a component' % what)
            p = [int(x) for x in a]
            expect(p == list(range(p[0], p[0] + len(p))), 'a component holds a contiguous part of the flat %s' % what, got=p)
            pos.append((p[0] - 1, p[-1]))
        last = 0
        for a, b in sorted(pos):
            expect(a == last, 'the parts have no gaps and no overlaps (%s)' % what, parts=pos)
            last = b
        expect(last == n.paramdim, 'the parts cover the flat %s' % what)
        used[what] = pos
        flat[:] = keep
        for c, (a, b) in zip(own, pos):
            arr = getattr(c, what)
            k = len(arr) - 1
            arr[k] = 77.
            expect(flat[b - 1] == 77., 'a value written through the component is reported by the network (%s)' % what)
            arr[k] = keep[b - 1]
    expect(used['params'] == used['derivs'], 'parameters and derivatives are laid out the same way', **used)
    return used['params']


@check('random networks', n=120)
def _(rng, it):
    n = random_net(rng)
    if not n.paramdim:
        raise Skip()
    own = n.test_own
    pos = layout(n, own)
    st = n.params
    v = rv(rng, n.paramdim)
    if it % 3 == 0:
        n.params[:] = v
        expect(n.params is st, 'same storage')
    else:
        n._setParameters(list(v) if it % 3 == 1 else v.copy())
    expect_same(n.params, v, 'the network reports the values assigned')
    for c, (a, b) in zip(own, pos):
        expect_same(c.params, v[a:b], 'a component computes with the values assigned')
    expect(layout(n, own) == pos, 'the layout is fixed')
    for c in own:
        for m in ([c] if not isinstance(c, (FeedForwardNetwork, RecurrentNetwork)) else []):
            old = c.params
            expect_raises(Exception, c._setParameters, 'a component owned by the network accepts other storage',
                          rv(rng, c.paramdim))
            expect(c.params is old and same(n.params, v), 'a refused assignment changes nothing')
    n.derivs[:] = rv(rng, n.paramdim)
    n.resetDerivatives()
    expect(not n.derivs.any() and not any(c.derivs.any() for c in own), 'resetting zeroes all derivatives')
    expect_same(n.params, v, 'resetting derivatives touches no parameter')
    n.derivs[:] = 1.
    n.randomize()
    expect(not n.derivs.any(), 'randomizing resets the derivatives')
    layout(n, own)
    n.mutate()
    layout(n, own)


@check('copies', n=80)
def _(rng, it):
    n = random_net(rng)
    if not n.paramdim:
        raise Skip()
    v = n.params.copy()
    c = n.copy()
    expect(type(c) is type(n) and c.paramdim == n.paramdim, 'the copy is of the same kind')
    expect_same(c.params, v, 'the copy starts with equal parameters')
    if n.paramdim:
        d = n.derivs.copy()
        c.derivs[:] += 2.5
        expect_same(n.derivs, d, 'writing to the derivatives of the copy leaves the original alone')
        n.resetDerivatives()
        expect_same(c.derivs, d + 2.5, 'resetting the derivatives of the original leaves the copy alone')
    layout(c, c.test_own)
    c.params[:] = 5.
    c.derivs[:] = 6.
    expect_same(n.params, v, 'writing to the copy leaves the original alone')
    for x, y in zip(n.test_own, c.test_own):
        expect(x is not y, 'the copy has its own components')
    n._setParameters(v + 1)
    expect(same(c.params, np.zeros(len(v)) + 5.), 'writing to the original leaves the copy alone')
    layout(n, n.test_own)
    layout(c, c.test_own)
    n.reset()
    c._setParameters(n.params.copy())
    xs = [rv(rng, n.indim) for _ in range(3)]
    for x in xs:
        expect_close(n.activate(x), c.activate(x), 'copy and original compute the same function')
    d = n.newSimilarInstance()
    layout(d, d.test_own)


@check('computing with the flat vector', n=60)
def _(rng, it):
    i, h, o = rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 3)
    n = buildNetwork(i, h, o, bias=rng.random() < .5, recurrent=False)
    x = rv(rng, i)
    y = n.activate(x)
    for c in [c for cs in n.connections.values() for c in cs if c.paramdim]:
        keep = c.params.copy()
        flat = n.params.copy()
        c.params[:] = 0
        z = n.activate(x)
        n.params[:] = flat
        expect_close(n.activate(x), y, 'restoring the flat vector restores the function')
        expect_same(c.params, keep, 'the component sees the values written through the network')
    n._setParameters(np.zeros(n.paramdim))
    expect_close(n.activate(x), n.activate(x * 0), 'all weights zero')


@check('parameter containers', n=80)
def _(rng, it):
    k = rng.randint(1, 6)
    c = ParameterContainer(k)
    expect(len(c) == k == len(c.params), 'size')
    v = rv(rng, k + rng.randint(0, 2))
    c._setParameters(v if it % 2 else list(v))
    expect_same(c.params, v, 'values set')
    expect(len(c) == len(v), 'size follows')
    if it % 2:
        v[0] = 9.
        expect(c.params[0] == 9., 'an unowned container shares the array')
    c.owner = c
    st = c.params
    w = rv(rng, len(v))
    c._setParameters(w)
    expect(c.params is st, 'a container that owns itself keeps its storage')
    expect_same(st, w, 'a container that owns itself takes the values')
    w[0] += 1
    expect(st[0] != w[0], 'a container that owns itself copies the values')
    c.owner = object()
    expect_raises(Exception, c._setParameters, 'a foreign container accepts new storage', w)
    expect(c.params is st, 'refused: same storage')
    c._setParameters(w, c.owner)
    expect(c.params is w, 'the owner may replace the storage')
    m = LSTMLayer(rng.randint(1, 3), peepholes=True)
    p = rv(rng, m.paramdim)
    m._setParameters(p)
    d = rv(rng, m.paramdim)
    m._setDerivatives(d)
    q = m.dim
    for s, a, b in ((0, m.ingatePeepWeights, m.ingatePeepDerivs), (1, m.forgetgatePeepWeights, m.forgetgatePeepDerivs),
                    (2, m.outgatePeepWeights, m.outgatePeepDerivs)):
        expect_same(a, p[s * q:(s + 1) * q], 'LSTM peephole weights')
        expect_same(b, d[s * q:(s + 1) * q], 'LSTM peephole derivatives')
        a[0] = 3.
        b[0] = 4.
        expect(p[s * q] == 3. and d[s * q] == 4., 'LSTM peepholes share storage')
    expect_raises(Exception, m._setDerivatives, 'a derivative vector of the wrong size is accepted', rv(rng, m.paramdim + 1))


@check('growing a sorted network', n=40)
def _(rng, it):
    n = random_net(rng)
    m = LinearLayer(rng.randint(1, 3))
    n.addOutputModule(m)
    c = FullConnection(n.inmodules[0], m)
    keep = [x.params.copy() for x in n.test_own]
    n.addConnection(c)
    n.sortModules()
    for x, v in zip(n.test_own, keep):
        expect_same(x.params, v, 'growing a network keeps the parameter values')
    layout(n, n.test_own + [c])


if __name__ == '__main__':
    main()
