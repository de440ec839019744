"""Masked parameters stay zero where masked and survive unmasking.

All methods of MaskedParameters are under contract for a symbolic number of parameters,
arbitrary masks, values and random draws. The representation invariant (container value =
remembered value where the mask is on, zero elsewhere) is established by the constructor
and preserved by every operation."""
from .common import *

MP = 'pybrain.structure.evolvables.maskedparameters.MaskedParameters.'
TE = 'pybrain.structure.evolvables.topology.TopologyEvolvable.'
CC = 'pybrain.structure.evolvables.cheaplycopiable.CheaplyCopiable.'
ASSUMPTIONS = ['random sampling loops that retry until a bit is found are proved partially correct (they may not terminate '
               'with probability zero)', 'the maximal complexity is at least one']


def b2i(b):
    return S(ite(b, 1, 0))


def on(m, i):
    """is bit i of the mask on"""
    return S(TB(S(m.at(i))))


def count(m, upto):
    return S(Sum(upto, lambda i: b2i(on(m, i))))


def fresh(t, n, maxc=None, **kw):
    pc = t.call('container', t.cls('pybrain.structure.parametercontainer', 'ParameterContainer'), n)
    v = vec('initial', n)
    t.call('initial values', pc._setParameters, v)
    m = t.call('construction', t.cls('pybrain.structure.evolvables.maskedparameters', 'MaskedParameters'), pc, **kw)
    return m, pc


def consistent(t, name, m, pc, n):
    k = index(n, 'kc')
    t.prove('%s: container holds the remembered values where on, zero where off' % name,
            at(pc.params, k) == S(ite(on(m.mask, k), at(m.maskableParams, k), 0)))


def arbitrary(t, m, pc, n):
    """any state that satisfies the invariant"""
    m.mask = SArr.fresh('mask', (n,), 'B')
    m.maskableParams = vec('remembered', n)
    k = z3.Int('k~')
    f, g, h = m.mask.snap(), m.maskableParams.snap(), SArr.fresh('held', (n,))
    pc._params = SArr.make((n,), lambda i: z3.If(f(i), g(i), z3.RealVal(0)), 'R')


def counts_fit(t, m, n):
    """lemma: a prefix of the mask has between 0 and its length bits on"""
    induction(t, 'at most all bits are on', lambda q: sym_and(count(m.mask, q) >= 0, count(m.mask, q) <= q), n)


@task('C18', 'construction', functions=[MP + '__init__', MP + '_applyMask', MP + 'randomize', TE + '__init__'])
def _(t):
    n = dim('n')
    m, pc = fresh(t, n)
    consistent(t, 'construction', m, pc, n)
    t.prove('sizes', sym_and(slen(m.mask) == n, slen(m.maskableParams) == n, m.pcontainer is pc))
    t.prove('no limit means all parameters', m.maxComplexity == n)


@task('C18', 'visible parameters', functions=[MP + 'params', MP + 'paramdim'])
def _(t):
    n = dim('n')
    m, pc = fresh(t, n)
    arbitrary(t, m, pc, n)
    t.prove('length is the number of bits that are on', m.paramdim == count(m.mask, n))
    counts_fit(t, m, n)
    k = index(n, 'k')
    counts_fit(t, m, k)
    induction(t, 'an on bit is counted', lambda q: sym_implies(sym_and(q > k, on(m.mask, k)), count(m.mask, q) >= count(m.mask, k) + 1), n)
    held = pc._params
    # whatever another copy has written to the container that they share
    pc._params = vec('foreign', n)
    v = t.call('params', lambda: m.params)
    pc._params = held
    t.prove('length of the visible vector', slen(v) == count(m.mask, n))
    t.prove('visible values are the unmasked ones in order',
            sym_implies(on(m.mask, k), at(v, count(m.mask, k)) == at(m.maskableParams, k)))
    consistent(t, 'reading', m, pc, n)
    m.returnZeros = True
    w = t.call('params', lambda: m.params)
    t.prove('with zeros: all parameters of the container',
            sym_and(slen(w) == n, m.paramdim == n, at(w, k) == S(ite(on(m.mask, k), at(m.maskableParams, k), 0))))


@task('C18', 'setting parameters', functions=[MP + '_setParameters', MP + '_applyMask'])
def _(t):
    n = dim('n')
    m, pc = fresh(t, n)
    arbitrary(t, m, pc, n)
    old, mask0 = m.maskableParams.copy(), m.mask.copy()
    counts_fit(t, m, n)
    k = index(n, 'k')
    counts_fit(t, m, k)
    induction(t, 'an on bit is counted', lambda q: sym_implies(sym_and(q > k, on(m.mask, k)), count(m.mask, q) >= count(m.mask, k) + 1), n)
    x = vec('x', count(m.mask, n))
    t.call('set', m._setParameters, x)
    t.prove('unmasked values are replaced in order, masked ones are kept',
            at(m.maskableParams, k) == S(ite(on(mask0, k), at(x, count(mask0, k)), at(old, k))))
    t.prove('mask unchanged', on(m.mask, k) == on(mask0, k))
    consistent(t, 'set', m, pc, n)


@task('C18', 'mutation of the values', functions=[MP + 'mutate'])
def _(t):
    n = dim('n')
    m, pc = fresh(t, n)
    arbitrary(t, m, pc, n)
    mask0 = m.mask.copy()
    t.call('mutate', m.mutate)
    k = index(n, 'k')
    t.prove('mutation changes no mask', on(m.mask, k) == on(mask0, k))
    consistent(t, 'mutate', m, pc, n)


@task('C18', 'random masks', functions=[MP + 'randomize'])
def _(t):
    n = dim('n')
    m, pc = fresh(t, n)
    mx = dim('maxComplexity')
    m.maxComplexity = mx
    arbitrary(t, m, pc, n)
    C.loop_specs[('MaskedParameters.randomize', 1)] = LoopSpec(lambda L: [
        ('the bits still to be turned off are on', All(1, lambda j: sym_implies(sym_and(j >= L.k, j < L.n), on(m.mask, L.get(j))))),
        ('they are valid positions', All(1, lambda j: sym_implies(sym_and(j >= 0, j < L.n), sym_and(L.get(j) >= 0, L.get(j) < n)))),
        ('one bit less each time', count(m.mask, n) == mx + L.n - L.k)], modifies=lambda L: [m.mask])
    t.call('randomize', m.randomize)
    consistent(t, 'randomize', m, pc, n)
    t.prove('a random mask does not exceed the maximal complexity', count(m.mask, n) <= mx)
    t.prove('a random mask is not empty', count(m.mask, n) >= 1)


@task('C18', 'probability of bits', functions=[MP + 'randomize'])
def _(t):
    n = dim('n')
    m, pc = fresh(t, n)
    m.maxComplexity = n
    arbitrary(t, m, pc, n)
    k = index(n, 'k')
    m.maskOnProbability = 1
    t.call('randomize', m.randomize)
    t.prove('probability one: all bits are on', on(m.mask, k))


@task('C18', 'probability zero', functions=[MP + 'randomize'])
def _(t):
    n = dim('n')
    m, pc = fresh(t, n)
    m.maxComplexity = n
    arbitrary(t, m, pc, n)
    k, l = index(n, 'k'), index(n, 'l')
    m.maskOnProbability = 0
    t.call('randomize', m.randomize)
    t.prove('probability zero: no more than the one bit that needs to be', sym_implies(sym_and(on(m.mask, k), on(m.mask, l)), k == l))


@task('C18', 'topology mutation', functions=[MP + 'topologyMutate'])
def _(t):
    n = dim('n')
    m, pc = fresh(t, n)
    mx = dim('maxComplexity')
    m.maxComplexity = mx
    arbitrary(t, m, pc, n)
    old = m.maskableParams.copy()

    def inv(L):
        return [('one bit less each time', count(m.mask, n) == mx + L.n - L.k)]
    C.loop_specs[('MaskedParameters.topologyMutate', 1)] = LoopSpec(inv, modifies=lambda L: [m.mask])
    C.loop_specs[('MaskedParameters.topologyMutate', 2)] = LoopSpec(lambda L: [], modifies=lambda L: [])
    t.call('topologyMutate', m.topologyMutate)
    k = index(n, 'k')
    consistent(t, 'topologyMutate', m, pc, n)
    t.prove('remembered values survive', at(m.maskableParams, k) == at(old, k))
    t.prove('a mutated mask does not exceed the maximal complexity', count(m.mask, n) <= mx)
    t.prove('a mutated mask is not empty', count(m.mask, n) >= 1)


@task('C18', 'flip probability', functions=[MP + 'topologyMutate'])
def _(t):
    n = dim('n')
    m, pc = fresh(t, n)
    m.maxComplexity = n
    arbitrary(t, m, pc, n)
    mask0 = m.mask.copy()
    counts_fit(t, m, n)
    C.assume(count(m.mask, n) >= 1)
    m.maskFlipProbability = 0
    k = index(n, 'k')
    t.call('topologyMutate', m.topologyMutate)
    t.prove('probability zero: a mask that is not empty stays', on(m.mask, k) == on(mask0, k))


@task('C18', 'copies', functions=[TE + 'copy', TE + 'newSimilarInstance', 'pybrain.structure.evolvables.evolvable.Evolvable.copy'])
def _(t):
    n = dim('n')
    m, pc = fresh(t, n)
    arbitrary(t, m, pc, n)
    mask0, old = m.mask.copy(), m.maskableParams.copy()
    c = t.call('copy', m.copy)
    k = index(n, 'k')
    t.prove('copy equals the original', sym_and(on(c.mask, k) == on(mask0, k), at(c.maskableParams, k) == at(old, k)))
    t.prove('original keeps its container', m.pcontainer is pc)
    c.mask[k] = sym_not(on(c.mask, k))
    c.maskableParams[k] = at(c.maskableParams, k) + 1
    t.prove('copy has its own mask and values', sym_and(on(m.mask, k) == on(mask0, k), at(m.maskableParams, k) == at(old, k)))
    c2 = t.call('newSimilarInstance', m.newSimilarInstance)
    t.prove('a similar instance leaves the original alone',
            sym_and(on(m.mask, k) == on(mask0, k), at(m.maskableParams, k) == at(old, k)))


@task('C18', 'cheap copies', functions=[CC + f for f in ('__init__', 'copy', 'mutate', 'randomize', 'getBase', 'forward', 'backward', 'activate', 'backActivate', 'reset', '_resetBuffers',
                                                            'resetDerivatives', 'derivs', '_derivs', 'outputbuffer', 'inputerror', 'convertToFastNetwork')])
def _(t):
    n = dim('n')
    base = t.cls('pybrain.structure.parametercontainer', 'ParameterContainer')

    class Mod(base):
        name, indim, outdim = 'm', 1, 1
        outputbuffer, inputerror, derivs = object(), object(), object()

        def activate(self, x):
            return 'activate', self.params.copy(), x

        def backActivate(self, x):
            return 'backActivate', self.params.copy(), x

        def forward(self):
            return 'forward', self.params.copy(), None

        def backward(self):
            return 'backward', self.params.copy(), None

        def reset(self):
            self.done = 'reset'

        def _resetBuffers(self):
            self.done = '_resetBuffers'

        def resetDerivatives(self):
            self.done = 'resetDerivatives'

        def convertToFastNetwork(self):
            r = Mod(n)
            r._setParameters(self.params)
            return r
    mod = t.call('module', Mod, n)
    v = vec('values', n)
    t.call('values', mod._setParameters, v)
    v0 = v.copy()
    K = t.cls('pybrain.structure.evolvables.cheaplycopiable', 'CheaplyCopiable')
    a = t.call('wrap', K, mod)
    k = index(n, 'k')
    t.prove('starts with the values of the module', at(a.params, k) == at(v0, k))
    b = t.call('copy', a.copy)
    t.prove('copy has equal values', at(b.params, k) == at(v0, k))
    t.call('mutate', b.mutate)
    t.prove('mutating a copy leaves the original alone', at(a.params, k) == at(v0, k))
    w = b.params.copy()
    t.prove('the base gets the values of the one that asks', sym_and(t.call('base', a.getBase) is mod, at(mod.params, k) == at(v0, k)))
    t.call('base', b.getBase)
    t.prove('the base gets the values of the one that asks (copy)', at(mod.params, k) == at(w, k))
    t.prove('values of both are kept', sym_and(at(a.params, k) == at(v0, k), at(b.params, k) == at(w, k)))
    tok = object()
    for x, u in [(a, v0), (b, w), (a, v0)]:
        for f in ('activate', 'backActivate', 'forward', 'backward'):
            what, p, arg = t.call(f, getattr(x, f), *([tok] if 'ctivate' in f else []))
            t.prove('%s is that of the module with the own values' % f, sym_and(what == f, at(p, k) == at(u, k), arg is (tok if 'ctivate' in f else None)))
        for f in ('reset', '_resetBuffers', 'resetDerivatives'):
            t.call(f, getattr(x, f))
            t.prove('%s is passed on' % f, mod.done == f)
        t.prove('buffers are those of the module', sym_and(x.outputbuffer is mod.outputbuffer, x.inputerror is mod.inputerror, x.derivs is mod.derivs, x._derivs is mod.derivs))
        z = t.call('fast', x.convertToFastNetwork)
        t.prove('a fast version has the own values', at(z.params, k) == at(u, k))
        t.prove('values of all are kept', sym_and(at(a.params, k) == at(v0, k), at(b.params, k) == at(w, k)))
