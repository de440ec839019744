"""Networks against an oracle that knows only their graph: composition, gradient by complex
steps, histories."""
from lib import *
import numpy as np
from pybrain.structure import (LinearLayer, SigmoidLayer, TanhLayer, SoftmaxLayer, GateLayer, LSTMLayer, BiasUnit, FullConnection,
                               IdentityConnection, FeedForwardNetwork, RecurrentNetwork)
from pybrain.structure.modules.relulayer import ReluLayer
from pybrain.structure.modules.softsign import SoftSignLayer
from pybrain.structure.modules.gate import MultiplicationLayer, DoubleGateLayer, SwitchLayer
from pybrain.structure.moduleslice import ModuleSlice
from pybrain.structure.connections.linear import LinearConnection
from pybrain.structure.connections.shared import MotherConnection, SharedFullConnection
from pybrain.structure.connections.permutation import PermutationConnection
from pybrain.tools.shortcuts import buildNetwork
from pybrain.tools.shortcuts import _buildNetwork


def sig(x):
    return 1. / (1. + np.exp(-x))


def softmax(x):
    e = np.exp(x - x.real.max())
    return e / e.sum()


def absc(x):
    return np.where(x.real < 0, -x, x)


SIMPLE = {LinearLayer: lambda x: x, SigmoidLayer: sig, TanhLayer: np.tanh, SoftmaxLayer: softmax,
          ReluLayer: lambda x: np.where(x.real > 0, x, 0 * x), SoftSignLayer: lambda x: x / (1. + absc(x)),
          GateLayer: lambda x: sig(x[:len(x) // 2]) * x[len(x) // 2:],
          MultiplicationLayer: lambda x: x[:len(x) // 2] * x[len(x) // 2:],
          DoubleGateLayer: lambda x: np.concatenate([sig(x[:len(x) // 2]) * x[len(x) // 2:], (1 - sig(x[:len(x) // 2])) * x[len(x) // 2:]]),
          SwitchLayer: lambda x: np.concatenate([sig(x), 1 - sig(x)]),
          BiasUnit: lambda x: np.ones(1, complex)}


def rv(rng, n, s=1.):
    return np.array([rng.uniform(-s, s) for _ in range(n)])


class Plan(object):
    """a network and what it was made of"""

    def __init__(self, net):
        self.net, self.mods, self.ins, self.outs, self.conns, self.rec, self.plans = net, [], [], [], [], [], {}

    def add(self, m, kind='', plan=None):
        self.mods.append(m)
        if plan:
            self.plans[m] = plan
        if 'i' in kind:
            self.net.addInputModule(m)
            self.ins.append(m)
        if 'o' in kind:
            self.net.addOutputModule(m)
            self.outs.append(m)
        if not kind:
            self.net.addModule(m)
        return m

    def containers(self):
        r = []
        for m in self.mods:
            if m in self.plans:
                r += self.plans[m].containers()
            elif m.paramdim:
                r.append(m)
        for c in self.conns + self.rec:
            if isinstance(c, SharedFullConnection):
                if c.mother not in r:
                    r.append(c.mother)
            elif c.paramdim:
                r.append(c)
        return r

    def run(self, xs, P):
        """outputs for the inputs of one sequence; P: container -> parameters"""
        return [self.step(t, x, P, h)[0] for h in [{}] for t, x in enumerate(xs)]

    def step(self, t, x, P, h):
        """h: what happened before"""
        out, k = {}, 0
        ext = {}
        for m in self.ins:
            ext[m] = x[k:k + m.indim]
            k += m.indim
        assert k == len(x)

        def value(m):
            if m not in out:
                v = np.zeros(m.indim, complex)
                if m in ext:
                    v = v + ext[m]
                for c in self.conns:
                    if c.outmod is m:
                        self.deliver(c, value(c.inmod), v, P)
                for c in self.rec:
                    if c.outmod is m and t > 0:
                        self.deliver(c, h['last'][c.inmod], v, P)
                if len(v) and abs(v).max() > 60.:
                    raise Skip()        # near the ends of the floating-point range of exp, and of chaotic growth
                out[m] = self.module(m, t, v, P, h)
            return out[m]
        for m in self.mods:
            value(m)
        h['last'] = out
        return np.concatenate([out[m] for m in self.outs]), out

    def deliver(self, c, v, into, P):
        v = v[c.inSliceFrom:c.inSliceTo]
        if isinstance(c, SharedFullConnection):
            r = np.dot(P[c.mother].reshape(c.outdim, c.indim), v)
        elif type(c) is FullConnection:
            r = np.dot(P[c].reshape(c.outdim, c.indim), v)
        elif type(c) is LinearConnection:
            r = P[c] * v
        elif type(c) is PermutationConnection:
            r = v.reshape(-1, c.blocksize)[c.permutation].flatten()
        else:
            assert type(c) is IdentityConnection
            r = v
        into[c.outSliceFrom:c.outSliceTo] += r

    def module(self, m, t, v, P, h):
        if m in self.plans:
            return self.plans[m].step(t, v, P, h.setdefault(m, {}))[0]
        if type(m) is LSTMLayer:
            d = m.dim
            s = h.get(m, np.zeros(d, complex))
            i, f, c, o = v[:d], v[d:2 * d], v[2 * d:3 * d], v[3 * d:]
            if m.peepholes:
                i, f = i + P[m][:d] * s, f + P[m][d:2 * d] * s
            s = sig(i) * np.tanh(c) + (sig(f) * s if t else 0)
            if m.peepholes:
                o = o + P[m][2 * d:] * s
            h[m] = s
            return sig(o) * np.tanh(s)
        if type(m) is SoftmaxLayer and self.through:
            # its error is taken at its input (as for the cross entropy), so the derivative is that of the identity
            y = softmax(v.real)
            return y + 1j * v.imag
        return SIMPLE[type(m)](v)

    through = True

    def params(self):
        return dict((c, c.params.astype(complex)) for c in self.containers())

    def along(self, xs, es, dP, dxs):
        """derivative of the sum of the products of errors and outputs along a direction"""
        P = self.params()
        for c in dP:
            P[c] = P[c] + 1e-30j * dP[c]
        xs = [x + 1e-30j * d for x, d in zip(xs, dxs)]
        return sum(np.dot(e, y) for e, y in zip(es, self.run(xs, P))).imag / 1e-30


def random_plan(rng, rec, depth=0, seq=True):
    p = Plan(RecurrentNetwork() if rec else FeedForwardNetwork())
    k = rng.randint(2, 5)
    many_in, many_out = rng.random() < .3, rng.random() < .3
    for i in range(k):
        z = rng.random()
        d = rng.randint(1, 3)
        plan = None
        if depth < 1 and z < .12:
            plan = random_plan(rng, rec and rng.random() < .6, depth + 1, seq)
            m = plan.net
        elif rec and seq and z < .3:
            m = LSTMLayer(d, peepholes=rng.random() < .5)
        else:
            m = rng.choice([LinearLayer, SigmoidLayer, TanhLayer, SoftmaxLayer, ReluLayer, SoftSignLayer, GateLayer, MultiplicationLayer,
                            DoubleGateLayer, SwitchLayer, LinearLayer, TanhLayer])(d)
        m.name = 'm%d' % rng.randint(100, 999) + str(i)
        kind = ('i' if i == 0 or (many_in and rng.random() < .4) else '') + ('o' if i == k - 1 or (many_out and rng.random() < .4) else '')
        p.add(m, kind, plan)
    order = list(p.mods)
    if rng.random() < .5:
        order = [p.add(BiasUnit('bias'))] + order
    mothers = {}

    def connect(a, b):
        ai, ao = 0, a.outdim
        bi, bo = 0, b.indim
        kw = {}
        if rng.random() < .3:
            ai = rng.randint(0, ao - 1)
            ao = rng.randint(ai + 1, ao)
            kw.update(inSliceFrom=ai, inSliceTo=ao)
        if rng.random() < .3:
            bi = rng.randint(0, bo - 1)
            bo = rng.randint(bi + 1, bo)
            kw.update(outSliceFrom=bi, outSliceTo=bo)
        n, m = ao - ai, bo - bi
        z = rng.random()
        if n == m and z < .2:
            return IdentityConnection(a, b, **kw)
        if n == m and z < .4:
            return LinearConnection(a, b, **kw)
        if n == m and z < .5 and not kw:
            perm = list(range(n))
            rng.shuffle(perm)
            return PermutationConnection(a, b, perm, 1)
        if z < .7:
            key = n * m
            if key not in mothers or rng.random() < .3:
                mothers[key] = MotherConnection(key)
            return SharedFullConnection(mothers[key], a, b, **kw)
        return FullConnection(a, b, **kw)
    pairs = [(i, j) for i in range(len(order)) for j in range(i + 1, len(order))]
    rng.shuffle(pairs)
    for i, j in pairs:
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            a, b = order[i], order[j]
            if b.indim == 0:
                continue
            c = connect(a, b)
            p.net.addConnection(c)
            p.conns.append(c)
    if rec:
        for _ in range(rng.randint(0, 3)):
            a, b = rng.choice(p.mods), rng.choice(p.mods)
            if b.indim:
                c = connect(a, b)
                p.net.addRecurrentConnection(c)
                p.rec.append(c)
    p.net.sortModules()
    return p


def compare(rng, p, steps, what):
    """one sequence after a reset"""
    net = p.net
    xs = [rv(rng, net.indim, 2.) for _ in range(steps)]
    es = [rv(rng, net.outdim, 2.) for _ in range(steps)]
    rec = isinstance(net, RecurrentNetwork)
    keep = net.params.copy() if net.paramdim else None
    net.reset()
    if net.paramdim:
        net.resetDerivatives()
    P = p.params()
    want = [y.real for y in p.run(xs, P)] if rec else [p.run([x], P)[0].real for x in xs]
    parts = [(xs, es)] if rec else [([x], [e]) for x, e in zip(xs, es)]
    ies = []
    for a, b in parts:
        ys = [net.activate(x.copy()) for x in a]
        for t, y in enumerate(ys):
            expect_close(y, want[len(ies) + t], '%s: output' % what, step=t)
        ies += [net.backActivate(e.copy()) for e in reversed(b)][::-1]

    def along(dP, dxs):
        return sum(p.along(a, b, dP, dxs[k * len(a):(k + 1) * len(a)]) for k, (a, b) in enumerate(parts))
    none = [np.zeros(net.indim)] * steps
    for t in range(steps):
        d = rv(rng, net.indim)
        expect_close(np.dot(d, ies[t]), along({}, none[:t] + [d] + none[t + 1:]), '%s: error at the inputs' % what, 1e-6, step=t)
    for c in p.containers():
        d = rv(rng, c.paramdim)
        if rng.random() < .4:
            i = rng.randint(0, c.paramdim - 1)
            d = np.array([float(k == i) for k in range(c.paramdim)])
        expect_close(np.dot(d, c.derivs), along({c: d}, none), '%s: derivatives' % what, 1e-6, container=c.name)
    if net.paramdim:
        expect_same(net.params, keep, '%s: the parameters stay' % what)
    held = ies + [net.activate(rv(rng, net.indim))]
    values = [np.array(h) for h in held]
    for again in range(2):
        net.reset()
        for _ in range(steps):
            net.activate(rv(rng, net.indim))
        for _ in range(steps if rec else 1):
            net.backActivate(rv(rng, net.outdim))
    for h, v in zip(held, values):
        expect_same(h, v, '%s: what was returned stays as it was' % what)
    net.reset()
    if net.paramdim:
        net.resetDerivatives()
    return xs, want


@check('feed-forward networks', n=130)
def _(rng, it):
    p = random_plan(rng, False)
    compare(rng, p, rng.randint(1, 3), 'network')
    if p.net.paramdim:
        p.net._setParameters(rv(rng, p.net.paramdim))
    compare(rng, p, 2, 'after new parameters')


@check('recurrent networks', n=130)
def _(rng, it):
    p = random_plan(rng, True)
    compare(rng, p, rng.choice([1, 2, 3, 5, 9]), 'network')
    if p.net.paramdim:
        p.net._setParameters(rv(rng, p.net.paramdim))
    compare(rng, p, rng.choice([1, 2, 4]), 'after a reset')
    if rng.random() < .5:
        # a longer history that is never followed by errors
        p.net.reset()
        for _ in range(rng.choice([1, 3, 6, 17])):
            p.net.activate(rv(rng, p.net.indim, 2.))
        compare(rng, p, rng.choice([1, 2, 4]), 'after a reset')


@check('long sequences', n=12)
def _(rng, it):
    p = random_plan(rng, True)
    net = p.net
    xs = [rv(rng, net.indim) for _ in range(rng.choice([17, 40, 70]))]
    want = [y.real for y in p.run(xs, p.params())]
    net.reset()
    for t, x in enumerate(xs):
        expect_close(net.activate(x), want[t], 'output', step=t)


@check('forgetful networks', n=60)
def _(rng, it):
    p = random_plan(rng, True)
    net = p.net
    net.forget = True
    for _ in range(2):
        xs = [rv(rng, net.indim) for _ in range(rng.choice([1, 3, 9, 20]))]
        want = [y.real for y in p.run(xs, p.params())]
        net.reset()
        for t, x in enumerate(xs):
            expect_close(net.activate(x), want[t], 'output', step=t)


@check('histories', n=80)
def _(rng, it):
    p = random_plan(rng, rng.random() < .5)
    net = p.net
    xs = [rv(rng, net.indim) for _ in range(3)]
    es = [rv(rng, net.outdim) for _ in range(3)]

    def go(n):
        n.reset()
        if n.paramdim:
            n.resetDerivatives()
        ys = [n.activate(x.copy()) for x in xs]
        if isinstance(n, RecurrentNetwork):
            ie = [n.backActivate(e.copy()) for e in reversed(es)]
        else:
            ie = [n.backActivate(es[-1].copy())]
        return np.concatenate(ys + ie + ([n.derivs.copy()] if n.paramdim else []))
    first = go(net)
    for _ in range(rng.randint(1, 4)):
        z = rng.random()
        if z < .3:
            net.activate(rv(rng, net.indim))
        elif z < .5:
            net.reset()
            net.activate(rv(rng, net.indim))
            net.backActivate(rv(rng, net.outdim))
        elif z < .7:
            net.copy()
        elif z < .85:
            net.sortModules()
        elif net.paramdim:
            net._setParameters(net.params.copy())
    expect_close(go(net), first, 'the same results after another history', 1e-12)
    expect_close(go(net.copy()), first, 'a copy computes the same', 1e-12)


def by_graph(net):
    """the plan of a network, read from its structure"""
    p = Plan(net)
    p.mods = list(net.modules)
    p.ins, p.outs = list(net.inmodules), list(net.outmodules)
    p.conns = [c for m in net.connections for c in net.connections[m]]
    p.rec = list(getattr(net, 'recurrentConns', []))
    return p


@check('buildNetwork', n=70)
def _(rng, it):
    layers = [rng.randint(1, 4) for _ in range(rng.randint(2, 5))]
    kw = {}
    rec = rng.random() < .4
    hidden = rng.choice([SigmoidLayer, TanhLayer, LinearLayer, SoftmaxLayer])
    if rec and len(layers) <= 3 and rng.random() < .5:
        hidden = LSTMLayer
        kw['peepholes'] = rng.random() < .5
    out = rng.choice([LinearLayer, SigmoidLayer, SoftmaxLayer, TanhLayer])
    if rng.random() < .8:
        kw.update(hiddenclass=hidden)
    else:
        hidden = SigmoidLayer
    if rng.random() < .8:
        kw.update(outclass=out)
    else:
        out = LinearLayer
    bias, outbias = rng.random() < .6, rng.random() < .6
    if rng.random() < .3:
        bias = outbias = True
    else:
        kw.update(bias=bias, outputbias=outbias)
    if hidden is LSTMLayer and len(layers) == 2:
        raise Skip()
    if rec:
        kw.update(recurrent=True)
    net = buildNetwork(*layers, **kw)
    expect(isinstance(net, RecurrentNetwork if rec else FeedForwardNetwork), 'kind of the network')
    names = ['in'] + ['hidden%d' % i for i in range(len(layers) - 2)] + ['out']
    expect(sorted(m.name for m in net.modules) == sorted(names + (['bias'] if bias else [])), 'modules', names=[m.name for m in net.modules])
    for i, (n, d) in enumerate(zip(names, layers)):
        expect(net[n].outdim == d and type(net[n]) is (LinearLayer if i == 0 else out if i == len(layers) - 1 else hidden), 'layer %s' % n)
    expect(net.inmodules == [net['in']] and net.outmodules == [net['out']], 'input and output layer')
    pairs = [(names[i], names[i + 1]) for i in range(len(names) - 1)]
    if bias:
        pairs += [('bias', n) for n in names[1:-1]] + ([('bias', 'out')] if outbias else [])
    got = [(c.inmod.name, c.outmod.name) for m in net.connections for c in net.connections[m]]
    expect(sorted(got) == sorted(pairs), 'connections', got=sorted(got), want=sorted(pairs))
    p = by_graph(net)
    compare(rng, p, rng.randint(1, 3), 'network')


@check('networks of parts', n=20)
def _(rng, it):
    a, b, c = [rng.randint(1, 3) for _ in range(3)]
    for bias in (False, True):
        net = _buildNetwork((LinearLayer(a),), (SigmoidLayer(b), TanhLayer(b)), (LinearLayer(c),), bias=bias)
        net.sortModules()
        expect(net.indim == a and net.outdim == c, 'dimensions')
        compare(rng, by_graph(net), 2, 'network')


@check('networks with shared weights', n=14)
def _(rng, it):
    from pybrain.structure.networks import BidirectionalNetwork, SwipingNetwork, BorderSwipingNetwork
    from pybrain.structure.networks.multidimensional import MultiDimensionalRNN
    from pybrain.structure.networks.convolutional import SimpleConvolutionalNetwork
    from pybrain.structure.networks.custom.convboard import ConvolutionalBoardNetwork
    from pybrain.structure.networks.custom.capturegame import CaptureGameNetwork
    k = it % 5
    if k == 0:
        net = BidirectionalNetwork(seqlen=rng.randint(2, 4), inputsize=rng.randint(1, 2), hiddensize=2, symmetric=rng.random() < .5)
    elif k == 1:
        net = MultiDimensionalRNN((2, rng.randint(2, 3)), hsize=2, symmetricdirections=rng.random() < .5, symmetricdimensions=rng.random() < .5)
    elif k == 2:
        net = SimpleConvolutionalNetwork(rng.randint(1, 2), 3, 2, rng.randint(1, 2))
    elif k == 3:
        net = ConvolutionalBoardNetwork(3, rng.choice([2, 3]), 2)
    else:
        net = CaptureGameNetwork(size=rng.choice([2, 3]), hsize=1)
    p = by_graph(net)
    if net.paramdim:
        net._setParameters(rv(rng, net.paramdim))
    x = rv(rng, net.indim)
    expect_close(net.activate(x), p.run([x], p.params())[0].real, 'output of %s' % type(net).__name__)
    e = rv(rng, net.outdim)
    net.resetDerivatives()
    ie = net.backActivate(e)
    d = rv(rng, net.paramdim)
    P = p.params()
    k = 0
    g = 0.
    for c in P:
        v = rv(rng, len(P[c]))
        P[c] = P[c] + 1e-30j * v
        g += np.dot(v, c.derivs)
    v = rv(rng, net.indim)
    want = np.dot(e, p.run([x + 1e-30j * v], P)[0]).imag / 1e-30
    expect_close(g + np.dot(v, ie), want, 'gradient along a direction', 1e-6)


@check('activateOnDataset', n=20)
def _(rng, it):
    from pybrain.datasets import SupervisedDataSet
    p = random_plan(rng, rng.random() < .5)
    net = p.net
    ds = SupervisedDataSet(net.indim, 1)
    xs = [rv(rng, net.indim) for _ in range(rng.randint(1, 5))]
    for x in xs:
        ds.addSample(x, [0.])
    got = net.activateOnDataset(ds)
    P = p.params()
    want = p.run(xs, P) if isinstance(net, RecurrentNetwork) else [p.run([x], P)[0] for x in xs]
    expect_close(got, np.array(want).real, 'outputs of a data set')


if __name__ == '__main__':
    main()
