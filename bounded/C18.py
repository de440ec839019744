"""Bounded contract checks for C18: MaskedParameters and CheaplyCopiable under random histories."""
from lib import *
import numpy as np
from pybrain.structure.parametercontainer import ParameterContainer
from pybrain.structure.evolvables.maskedparameters import MaskedParameters
from pybrain.structure.evolvables.cheaplycopiable import CheaplyCopiable
from pybrain.structure.modules.linearlayer import LinearLayer
from pybrain.structure.connections.full import FullConnection
from pybrain.structure.networks.feedforward import FeedForwardNetwork


def container(rng):
    if rng.random() < .3:
        a, b = LinearLayer(rng.randint(1, 3)), LinearLayer(rng.randint(1, 3))
        n = FeedForwardNetwork()
        n.addInputModule(a)
        n.addOutputModule(b)
        n.addConnection(FullConnection(a, b))
        n.sortModules()
        n.randomize()
        return n
    pc = ParameterContainer(rng.choice([1, 2, 3, 5, 8]))
    pc._setParameters(np.array([rng.uniform(-3, 3) for _ in range(pc.paramdim)]))
    return pc


def consistent(m, pc, what):
    mask = np.array(m.mask, dtype=bool)
    expect_close(np.array(pc.params), np.where(mask, m.maskableParams, 0.), '%s: container holds the remembered values where on, zero where off' % what)
    was = m.returnZeros
    m.returnZeros = False
    expect(int(m.paramdim) == int(mask.sum()), '%s: visible dimension is the number of bits on' % what)
    expect_close(np.array(m.params), np.array(m.maskableParams)[mask], '%s: visible values are the unmasked ones in order' % what)
    m.returnZeros = True
    expect(int(m.paramdim) == len(mask), '%s: dimension with zeros' % what)
    expect_close(np.array(m.params), np.where(mask, m.maskableParams, 0.), '%s: visible values with zeros' % what)
    m.returnZeros = was


def snap(m):
    return (list(m.mask), list(m.maskableParams), list(m.params))


@check('history of a masked container', n=250)
def _(rng, it):
    pc = container(rng)
    kw = {}
    n = pc.paramdim
    if rng.random() < .6:
        kw['maxComplexity'] = rng.randint(1, n)
    if rng.random() < .4:
        kw['maskOnProbability'] = rng.choice([0., .1, .9, 1.])
    if rng.random() < .5:
        kw['maskFlipProbability'] = rng.choice([0., .3, .9, 1.])
    m = MaskedParameters(pc, **kw)
    mx = kw.get('maxComplexity', n)
    consistent(m, pc, 'construction')
    def random_mask():
        expect(1 <= sum(m.mask) <= mx, 'a random mask is not empty and does not exceed the maximal complexity', mask=list(m.mask), max=mx)
        p = m.maskOnProbability
        if p in (0, 1):
            expect(sum(m.mask) == (mx if p else 1), 'number of bits on when they are on with probability %s' % p, mask=list(m.mask), max=mx)
    random_mask()
    for s in range(rng.randint(1, 8)):
        mask0, vals0 = list(m.mask), list(m.maskableParams)
        op = rng.randrange(6)
        if op == 0:
            m.randomize()
            random_mask()
        elif op == 1:
            m.topologyMutate()
            expect(1 <= sum(m.mask) <= mx, 'a mutated mask is not empty and does not exceed the maximal complexity', mask=list(m.mask), max=mx)
            expect(list(m.maskableParams) == vals0, 'topology mutation keeps all remembered values')
            if m.maskFlipProbability == 0 and 1 <= sum(mask0) <= mx:
                expect(list(m.mask) == mask0, 'no bit is flipped with probability 0', before=mask0, after=list(m.mask))
            if m.maskFlipProbability == 1 and 1 <= n - sum(mask0) <= mx:
                expect(list(m.mask) == [not b for b in mask0], 'all bits are flipped with probability 1', before=mask0, after=list(m.mask))
        elif op == 2:
            m.mutationStdev = rng.choice([0., .1, .1, 2.])
            m.mutate()
            expect(list(m.mask) == mask0, 'mutation changes no mask')
            d = np.array(m.maskableParams) - vals0
            expect((abs(d) <= 8 * m.mutationStdev + 1e-12).all() and (m.mutationStdev == 0 or (d != 0).all()), 'mutation adds noise of the given deviation to all values', noise=list(d), deviation=m.mutationStdev)
        elif op == 3:
            x = [rng.uniform(-5, 5) for _ in range(int(sum(mask0)))]
            m._setParameters(rng.choice([list, np.array])(x))
            expect(list(m.mask) == mask0, 'setting parameters changes no mask')
            j = 0
            for i in range(n):
                if mask0[i]:
                    expect(m.maskableParams[i] == x[j], 'unmasked values are replaced in order')
                    j += 1
                else:
                    expect(m.maskableParams[i] == vals0[i], 'masked values are kept', i=i)
        elif op == 4:
            c = rng.choice([m.copy, m.newSimilarInstance])()
            before = snap(m)
            for _ in range(rng.randint(1, 3)):
                rng.choice([c.mutate, c.topologyMutate, c.randomize])()
                for x, name in ((m, 'original'), (c, 'copy')):
                    expect_same(x.params, np.array(x.maskableParams)[np.array(x.mask, dtype=bool)], 'visible values of the %s are its own' % name)
            expect(list(m.mask) == before[0] and list(m.maskableParams) == before[1], 'a copy has its own mask and values')
            m._applyMask()
        else:
            c = m.copy()
            expect(list(c.mask) == mask0 and list(c.maskableParams) == vals0, 'a copy equals the original')
            if rng.random() < .5:
                m, old = c, m
                before = (list(old.mask), list(old.maskableParams))
                m.topologyMutate()
                m.mutate()
                expect((list(old.mask), list(old.maskableParams)) == before, 'mutating the copy leaves the original alone')
                pc = m.pcontainer
        consistent(m, pc, 'after operation %d' % op)


def FRESH(net, values):
    c = net.copy()
    c._setParameters(np.array(values))
    c.reset()
    return c


@check('cheap copies', n=80)
def _(rng, it):
    base = container(rng)
    while not hasattr(base, 'indim'):
        base = container(rng)
    p0 = list(base.params)
    a = CheaplyCopiable(base)
    expect(list(a.params) == p0, 'starts with the values of the module')
    pool = [(a, p0)]
    for s in range(rng.randint(1, 6)):
        i = rng.randrange(len(pool))
        x, v = pool[i]
        op = rng.randrange(4)
        if op == 0:
            c = x.copy()
            pool.append((c, list(v)))
        elif op == 1:
            x.mutate()
            expect(base.paramdim == 0 or all(p != q for p, q in zip(x.params, v)), 'mutation changes the values', before=v, after=list(x.params))
            pool[i] = (x, list(x.params))
        elif op == 2:
            x.randomize()
            expect(base.paramdim == 0 or all(p != q for p, q in zip(x.params, v)), 'randomization changes the values', before=v, after=list(x.params))
            pool[i] = (x, list(x.params))
        else:
            b = x.getBase()
            expect(b is base and list(b.params) == v, 'the base gets the values of the one that asks')
        x, v = pool[i]
        if rng.random() < .6:
            inp = [rng.gauss(0, 1) for _ in range(base.indim)]
            out = x.activate(inp)
            x.reset()
            expect(list(base.params) == v, 'the module runs with the values of the copy that is activated')
            expect_close(out, FRESH(base, v).activate(inp), 'activation of a copy')
        if rng.random() < .5:
            # a step back, on the values of the copy that makes it
            expect((x.indim, x.outdim, x.paramdim) == (base.indim, base.outdim, base.paramdim), 'sizes of the copy')
            inp, err = [rng.gauss(0, 1) for _ in range(base.indim)], [rng.gauss(0, 1) for _ in range(base.outdim)]
            x.reset()
            x.resetDerivatives()
            expect_close(x.derivs, np.zeros(base.paramdim), 'derivatives are reset')
            y = FRESH(base, v)
            y.resetDerivatives()
            if rng.random() < .5:
                x.activate(inp)
                expect_close(y.activate(inp), x.outputbuffer[0], 'output of the copy')
                other = rng.choice(pool)[0]
                other.getBase()
                expect_close(x.backActivate(err), y.backActivate(err), 'error at the inputs')
            else:
                y.activate(inp)
                base.inputbuffer[0] = inp
                rng.choice(pool)[0].getBase()
                x.forward()
                expect_close(x.outputbuffer[0], y.outputbuffer[0], 'a step forward')
                base.outputerror[0] = y.outputerror[0] = err
                rng.choice(pool)[0].getBase()
                x.backward()
                y.backward()
                expect_close(x.inputerror[0], y.inputerror[0], 'a step backward')
            expect_close(x.derivs, y.derivs, 'derivatives of the copy')
            expect(list(base.params) == v, 'the module runs with the values of the copy that is activated')
            x.reset()
        for y, w in pool:
            expect(list(y.params) == w, 'every copy keeps its own values', op=op)


if __name__ == '__main__':
    main()
