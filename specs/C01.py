"""Flat parameter and derivative vectors alias the components' own.

ParameterContainer and the parameter handling of Network are under contract: for symbolic
parameter dimensions and values, for every ownership situation, and (distribution of a
vector over the components) for a symbolic number of components. sortModules and copy are
verified on whole networks (feed-forward, recurrent, shared weights, LSTM with peepholes)
with symbolic layer sizes."""
from .common import *

P = 'pybrain.structure.parametercontainer.ParameterContainer.'
N = 'pybrain.structure.networks.network.Network.'
R = 'pybrain.structure.networks.recurrent.RecurrentNetworkComponent.'
BOUNDED_ONLY = ['sortModules and copy: the numbers of modules and connections of a network are those of the listed '
                'topologies (layer sizes and values are symbolic); other topologies only in the bounded harness']


def container(t, n):
    c = t.call('construction', t.cls('pybrain.structure.parametercontainer', 'ParameterContainer'), n)
    return c


@task('C01', 'ParameterContainer', functions=[P + f for f in ('__init__', '_setParameters', 'params', '__len__')])
def _(t):
    n = dim('n')
    c = container(t, n)
    t.prove('number of parameters', sym_and(c.paramdim == n, slen(c.params) == n))
    k = index(n, 'k')
    # no owner: adopts the array
    v = vec('values', n)
    t.call('set', c._setParameters, v)
    t.prove('reports the values set', at(c.params, k) == at(v, k))
    v[k] = at(v, k) + 1
    t.prove('the array handed in is shared', at(c.params, k) == at(v, k))
    c.params[k] = 5
    t.prove('writing through the container is shared', at(v, k) == 5)
    m = dim('m')
    w = vec('others', m)
    t.call('set another size', c._setParameters, w)
    t.prove('dimension follows the array', c.paramdim == m)
    j = index(m, 'j')
    t.prove('reports the new values', at(c.params, j) == at(w, j))
    # somebody else owns it
    own = object()
    c.owner = own
    x = vec('foreign', m)
    before = c.params
    w0 = w.copy()
    t.raises('not the owner', Exception, c._setParameters, x)
    t.raises('another owner', Exception, c._setParameters, x, object())
    t.prove('refused: same storage', c.params is before)
    t.prove('refused: same values', at(c.params, j) == at(w0, j))
    t.call('by the owner', c._setParameters, x, own)
    t.prove('the owner replaces the storage', c.params is x)
    # it owns itself: only values are replaced
    c.owner = c
    st = c.params
    y = vec('update', m)
    t.call('own storage', c._setParameters, y)
    t.prove('own storage is kept', c.params is st)
    t.prove('own storage takes the values', at(st, j) == at(y, j))
    y[j] = at(y, j) + 1
    t.prove('own storage does not alias the values', at(st, j) != at(y, j))


@task('C01', 'ParameterContainer: lists', functions=[P + '_setParameters'])
def _(t):
    c = container(t, 3)
    a, b, d = C.real('a'), C.real('b'), C.real('d')
    t.call('set a list', c._setParameters, [a, b, d])
    t.prove('values of a list', sym_and(at(c.params, 0) == a, at(c.params, 1) == b, at(c.params, 2) == d))
    t.prove('length of a list', sym_and(slen(c.params) == 3, c.paramdim == 3))


@task('C01', 'derivatives', functions=[P + f for f in ('_setDerivatives', 'derivs', 'resetDerivatives', 'randomize', 'mutate')])
def _(t):
    n = dim('n')
    base = t.cls('pybrain.structure.parametercontainer', 'ParameterContainer')

    class WithDerivs(base):
        hasDerivatives = True
    c = t.call('construction', WithDerivs, n)
    k = index(n, 'k')
    t.prove('derivatives start at zero', sym_and(at(c.derivs, k) == 0, slen(c.derivs) == n))
    v, d = vec('values', n), vec('d', n)
    t.call('set', c._setParameters, v)
    t.call('set derivatives', c._setDerivatives, d)
    v0, d0 = v.copy(), d.copy()
    t.prove('the array handed in is shared', c.derivs is d)
    t.call('reset', c.resetDerivatives)
    t.prove('derivatives are zero', at(c.derivs, k) == 0)
    t.prove('storage of the derivatives is kept', c.derivs is d)
    t.prove('parameters are not touched', sym_and(at(c.params, k) == at(v0, k), at(v, k) == at(v0, k)))
    d[k] = 3
    t.call('randomize', c.randomize)
    t.prove('randomize clears the derivatives', at(c.derivs, k) == 0)
    t.prove('randomize keeps the storage', c.params is v and c.derivs is d)
    d[k] = 3
    t.call('mutate', c.mutate)
    t.prove('mutate keeps the storage', c.params is v and c.derivs is d)
    t.prove('mutate does not touch the derivatives', at(c.derivs, k) == 3)
    m = dim('m')
    C.assume(m != n)
    t.raises('wrong number of derivatives', AssertionError, c._setDerivatives, vec('bad', m))
    c.owner = object()
    t.raises('derivatives: not the owner', AssertionError, c._setDerivatives, vec('bad', n))
    t.prove('refused: same storage', c.derivs is d)


def distribution(which):
    setter = '_setParameters' if which == 'params' else '_setDerivatives'

    @task('C01', 'Network.%s over any number of components' % setter, functions=[N + setter, P + setter])
    def _(t):
        net = t.cls('pybrain.structure.networks.feedforward', 'FeedForwardNetwork')
        k = dim('components')
        dims = ivec('paramdim', k)
        starts, lens, right = ivec('starts', k), ivec('lens', k), ivec('right', k)
        whole = {}

        class Component(object):
            def __init__(self, i):
                self.i = i
                self.paramdim = at(dims, i)

        def put(self, p, owner=None):
            starts[self.i] = S(p.fwd([T(0)])[0])
            lens[self.i] = p.shape[0]
            right[self.i] = 1 if (p.buf is whole['v'].buf and owner is whole['n']) else 0
        setattr(Component, setter, put)

        class Net(net):
            def _containerIterator(self):
                return Seq(k, lambda i: Component(i))
        n = t.call('construction', Net)
        total = Sum(k, lambda i: at(dims, i))
        q = z3.Int('q~')
        C.assume(S(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < T(k)), T(at(dims, S(q))) >= 1))))
        induction(t, 'the total is positive', lambda m: S(Sum(m, lambda j: at(dims, j))) >= m, k)
        n.paramdim = total
        i = index(k, 'i')
        pre = S(Sum(i, lambda j: at(dims, j)))
        pr = lambda m: S(Sum(m, lambda j: at(dims, j)))
        induction(t, 'prefix sums are not negative', lambda m: pr(m) >= 0, i)
        induction(t, 'prefix sums grow', lambda m: sym_implies(m > i, pr(m) >= pre + at(dims, i)), k)
        v = vec('v', total)
        whole['v'], whole['n'] = v, n
        t.call(setter, getattr(n, setter), v)
        t.prove('storage is shared', getattr(n, which) is v)
        t.prove('component i starts where the ones before end', at(starts, i) == pre)
        t.prove('component i gets as many values as it has', at(lens, i) == at(dims, i))
        t.prove('component i gets a part of the shared storage from its owner', at(right, i) == 1)


distribution('params')
distribution('derivs')


def link(t, name, n, cs):
    """cs: the components in layout order; checks layout and aliasing"""
    off = 0
    for q, c in enumerate(cs):
        d = c.paramdim
        k = index(d, 'k%d' % q)
        for what in ('params', 'derivs'):
            flat, own = getattr(n, what), getattr(c, what)
            t.prove('%s: %s of component %d are at their place' % (name, what, q), at(flat, off + k) == at(own, k))
            x = C.real('x')
            flat[off + k] = x
            t.prove('%s: writing %s through the network reaches component %d' % (name, what, q), at(own, k) == x)
            y = C.real('y')
            own[k] = y
            t.prove('%s: writing %s through component %d reaches the network' % (name, what, q), at(flat, off + k) == y)
            t.prove('%s: component %d has all its %s' % (name, q, what), slen(own) == d)
        off = off + d
    t.prove('%s: no gaps and no overlaps' % name,
            sym_and(n.paramdim == off, slen(n.params) == off, slen(n.derivs) == off))
    for q, c in enumerate(cs):
        t.raises('%s: component %d cannot be given other storage' % (name, q), Exception, c._setParameters,
                 vec('other', c.paramdim))
    # complete replacement and reset
    v = vec('v', off)
    p_before = [c.params for c in cs]
    t.call(name + ': set all parameters', n._setParameters, v)
    off2 = 0
    for q, c in enumerate(cs):
        k = index(c.paramdim, 'kk%d' % q)
        t.prove('%s: component %d has the values assigned' % (name, q), at(c.params, k) == at(v, off2 + k))
        off2 = off2 + c.paramdim
    v0 = v.copy()
    t.call(name + ': reset derivatives', n.resetDerivatives)
    k = index(off, 'ka')
    t.prove('%s: reset zeroes all derivatives' % name, at(n.derivs, k) == 0)
    t.prove('%s: reset touches no parameter' % name, sym_and(at(n.params, k) == at(v0, k), at(v, k) == at(v0, k)))
    for q, c in enumerate(cs):
        kq = index(c.paramdim, 'kr%d' % q)
        t.prove('%s: reset zeroes the derivatives of component %d' % (name, q), at(c.derivs, kq) == 0)


def set_all(t, cs):
    """give the unsorted components arbitrary values -> copies"""
    old = []
    for q, c in enumerate(cs):
        v = vec('init%d' % q, c.paramdim)
        t.call('initial values', c._setParameters, v, c.owner)
        old.append(v.copy())
    return old


def net(t, kind):
    S_ = 'pybrain.structure.'
    L = t.cls(MOD + 'linearlayer', 'LinearLayer')
    F = t.cls(CON + 'full', 'FullConnection')
    a, b = t.call('a', L, dim('na'), 'a'), t.call('b', L, dim('nb'), 'b')
    rec = kind in ('recurrent', 'lstm')
    n = t.call('net', t.cls(S_ + 'networks.' + ('recurrent' if rec else 'feedforward'),
                            'RecurrentNetwork' if rec else 'FeedForwardNetwork'))
    if kind == 'shared':
        mo = t.call('mother', t.cls(CON + 'shared', 'MotherConnection'), a.indim * b.indim, name='mo')
        SF = t.cls(CON + 'shared', 'SharedFullConnection')
        h = t.call('h', L, b.indim, 'h')
        g = t.call('g', L, a.indim, 'g')
        t.call('in', n.addInputModule, a)
        t.call('in', n.addInputModule, g)
        t.call('out', n.addOutputModule, b)
        t.call('out', n.addOutputModule, h)
        c1 = t.call('c1', SF, mo, a, b, name='c1')
        c2 = t.call('c2', SF, mo, g, h, name='c2')
        c3 = t.call('c3', F, a, h, name='c3')
        for c in (c1, c2, c3):
            t.call('add', n.addConnection, c)
        return n, [c3, mo], [(c1, mo), (c2, mo)]
    if kind == 'lstm':
        h = t.call('h', t.cls(MOD + 'lstm', 'LSTMLayer'), dim('nh'), True, 'h')
    else:
        h = t.call('h', L, dim('nh'), 'h')
    t.call('in', n.addInputModule, a)
    t.call('out', n.addOutputModule, b)
    t.call('hidden', n.addModule, h)
    hb, ah, ab = t.call('hb', F, h, b, name='hb'), t.call('ah', F, a, h, name='ah'), t.call('ab', F, a, b, name='ab')
    for c in (hb, ah, ab):
        t.call('add', n.addConnection, c)
    if kind == 'ff':
        return n, [ab, ah, hb], []
    hh, bh = t.call('hh', F, h, h, name='hh'), t.call('bh', F, b, h, name='bh')
    t.call('add recurrent', n.addRecurrentConnection, hh)
    t.call('add recurrent', n.addRecurrentConnection, bh)
    if kind == 'lstm':
        return n, [ab, ah, h, hb, bh, hh], []
    return n, [ab, ah, hb, bh, hh], []


def whole(kind):
    @task('C01', 'sortModules: %s network' % kind, functions=[N + 'sortModules', N + '_containerIterator', N + '_setParameters',
                                                            N + '_setDerivatives', N + 'addModule', N + 'addConnection',
                                                            P + '_setParameters', P + '_setDerivatives']
          + ([R + '_containerIterator', R + 'addRecurrentConnection'] if kind in ('recurrent', 'lstm') else []), limit=100)
    def _(t):
        n, cs, shared = net(t, kind)
        old = set_all(t, cs)
        t.call('sort', n.sortModules)
        for q, c in enumerate(cs):
            k = index(c.paramdim, 'ki%d' % q)
            t.prove('sorting keeps the values of component %d' % q, at(c.params, k) == at(old[q], k))
        link(t, kind, n, cs)
        for q, (c, mo) in enumerate(shared):
            t.prove('shared connection %d uses its mother\'s storage' % q, c.params is mo.params and c.derivs is mo.derivs)
        if kind == 'lstm':
            h = cs[2]
            d = h.dim
            k = index(d, 'kp')
            t.prove('the peephole weights of the LSTM layer are its parameters',
                    sym_and(at(h.ingatePeepWeights, k) == at(h.params, k),
                            at(h.forgetgatePeepWeights, k) == at(h.params, d + k),
                            at(h.outgatePeepWeights, k) == at(h.params, 2 * d + k)))
            h.params[d + k] = 7
            t.prove('they share storage', at(h.forgetgatePeepWeights, k) == 7)
        # sorting again
        t.call('sort again', n.sortModules)
        link(t, kind + ' again', n, cs)


for kind_ in ('ff', 'recurrent', 'shared', 'lstm'):
    whole(kind_)


def copied(kind):
    @task('C01', 'copy: %s network' % kind, functions=[N + 'copy', 'pybrain.structure.evolvables.evolvable.Evolvable.copy'],
          limit=100)
    def _(t):
        n, cs, shared = net(t, kind)
        set_all(t, cs)
        t.call('sort', n.sortModules)
        cp = t.call('copy', n.copy)
        tot = n.paramdim
        k = index(tot, 'k')
        t.prove('copy has as many parameters', cp.paramdim == tot)
        t.prove('copy has equal parameters', at(cp.params, k) == at(n.params, k))
        p0 = n.params.copy()
        cp.params[k] = at(cp.params, k) + 1
        t.prove('copy shares no parameter', at(n.params, k) == at(p0, k))
        ccs = list(cp._containerIterator())
        t.prove('copy has its own components', len(ccs) == len(cs) and not any(x is y for x in ccs for y in cs))
        link(t, 'copy', cp, ccs)
        t.prove('changing the copy leaves the original alone', at(n.params, k) == at(p0, k))


for kind_ in ('ff', 'recurrent', 'shared'):
    copied(kind_)


@task('C01', 'sortModules: nested network', functions=[N + 'sortModules', N + '_setParameters', N + '_setDerivatives'])
def _(t):
    L = t.cls(MOD + 'linearlayer', 'LinearLayer')
    F = t.cls(CON + 'full', 'FullConnection')
    FF = t.cls('pybrain.structure.networks.feedforward', 'FeedForwardNetwork')
    x, y = t.call('x', L, dim('nx'), 'x'), t.call('y', L, dim('ny'), 'y')
    inner = t.call('inner', FF, 'inner')
    t.call('in', inner.addInputModule, x)
    t.call('out', inner.addOutputModule, y)
    xy = t.call('xy', F, x, y, name='xy')
    t.call('add', inner.addConnection, xy)
    t.call('sort inner', inner.sortModules)
    n = t.call('outer', FF, 'outer')
    a = t.call('a', L, dim('na'), 'a')
    t.call('in', n.addInputModule, a)
    t.call('out', n.addOutputModule, inner)
    ai = t.call('ai', F, a, inner, name='ai')
    t.call('add', n.addConnection, ai)
    old = set_all(t, [ai])
    v = vec('inner values', inner.paramdim)
    t.call('inner values', inner._setParameters, v, n)
    v0 = v.copy()
    t.call('sort', n.sortModules)
    k = index(inner.paramdim, 'kn')
    t.prove('sorting keeps the values of the inner network', at(inner.params, k) == at(v0, k))
    t.prove('the inner connection has them', at(xy.params, k) == at(v0, k))
    link(t, 'nested', n, [ai, inner])
    off = ai.paramdim
    for what in ('params', 'derivs'):
        flat, own = getattr(n, what), getattr(xy, what)
        x_, y_ = C.real('x'), C.real('y')
        flat[off + k] = x_
        t.prove('writing %s through the outer network reaches the inner connection' % what, at(own, k) == x_)
        own[k] = y_
        t.prove('writing %s through the inner connection reaches the outer network' % what, at(flat, off + k) == y_)
