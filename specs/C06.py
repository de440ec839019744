"""Module buffers keep the history of activations and are cleared by reset.

Module.__init__, activate, forward, backActivate, backward, reset, _growBuffers,
_resetBuffers, shift, and the recurrent network's activate, forward, backActivate and
backward are under contract for symbolic sizes, buffer lengths, offsets and buffer
contents. The computation inside a module is abstracted by its contract (it writes an
arbitrary function of the input to the output row, and nothing else)."""
from .common import *

M = MOD + 'module.Module.'
R = 'pybrain.structure.networks.recurrent.RecurrentNetworkComponent.'
N = 'pybrain.structure.networks.network.Network.'
BUFS = ('inputbuffer', 'inputerror', 'outputbuffer', 'outputerror')
ASSUMPTIONS = ['_forwardImplementation / _backwardImplementation of a module write only the rows they are handed']


def any_module(t):
    """a module with an arbitrary computation that respects its contract"""
    base = t.cls(MOD + 'module', 'Module')

    class AnyModule(base):
        def _forwardImplementation(self, inbuf, outbuf):
            v = vec('computed', self.outdim)
            self.fwd = v.copy()
            self.seen = inbuf.copy()
            outbuf[:] = v

        def _backwardImplementation(self, outerr, inerr, outbuf, inbuf):
            v = vec('propagated', self.indim)
            self.bwd = v.copy()
            self.bseen = (outerr.copy(), outbuf.copy(), inbuf.copy())
            inerr[:] = v
    return AnyModule


def width(m, b):
    return m.indim if b.startswith('input') else m.outdim


def scramble(m, length):
    """arbitrary contents and length of all buffers"""
    for b in BUFS:
        setattr(m, b, vec(b, length, width(m, b)))


def snap(m):
    return {b: getattr(m, b).copy() for b in BUFS}


def same(t, name, m, old, length, but=None, row=None):
    """every buffer is unchanged, except the given row of the buffers in but"""
    for b in BUFS:
        r, j = index(length, 'r'), index(width(m, b), 'j')
        eq = at(getattr(m, b), r, j) == at(old[b], r, j)
        if but and b in but:
            eq = sym_or(r == row, eq)
        t.prove('%s: %s keeps the other rows' % (name, b), eq)


@task('C06', 'construction', functions=[M + '__init__', M + '_resetBuffers'])
def _(t):
    i, o = dim('indim'), dim('outdim')
    m = t.call('construction', any_module(t), i, o)
    t.prove('sizes', sym_and(m.indim == i, m.outdim == o))
    for b in BUFS:
        buf = getattr(m, b)
        t.prove('%s has one row' % b, sym_and(buf.shape[0] == 1, buf.shape[1] == width(m, b)))
        t.prove('%s is zero' % b, at(buf, 0, index(width(m, b), 'j')) == 0)
    t.prove('offset starts at zero', m.offset == 0)
    # two modules share no buffer
    m2 = t.call('construction', any_module(t), i, o)
    j, k = index(i, 'j1'), index(o, 'k1')
    m2.inputbuffer[0, j] = 1
    m2.outputbuffer[0, k] = 1
    t.prove('modules have their own buffers', sym_and(at(m.inputbuffer, 0, j) == 0, at(m.outputbuffer, 0, k) == 0))


@task('C06', 'activate', functions=[M + 'activate', M + 'forward'])
def _(t):
    i, o, L = dim('indim'), dim('outdim'), dim('steps')
    m = t.call('construction', any_module(t), i, o)
    scramble(m, L)
    m.offset = index(L, 'offset')
    old = snap(m)
    x = vec('x', i)
    x0 = x.copy()
    off = m.offset
    r = t.call('activate', m.activate, x)
    j, k = index(i, 'j'), index(o, 'k')
    t.prove('input is stored', at(m.inputbuffer, off, j) == at(x0, j))
    t.prove('the computation saw the input', at(m.seen, j) == at(x0, j))
    t.prove('result is the computed output', at(r, k) == at(m.fwd, k))
    t.prove('length of the result', slen(r) == o)
    t.prove('output is stored', at(m.outputbuffer, off, k) == at(m.fwd, k))
    t.prove('input handed in is not modified', at(x, j) == at(x0, j))
    t.prove('offset unchanged', m.offset == off)
    same(t, 'activate', m, old, L, ('inputbuffer', 'outputbuffer'), off)
    # independence of the stored rows from caller's arrays
    r[k] = at(r, k) + 1
    t.prove('writing to the result does not touch the stored output', at(m.outputbuffer, off, k) == at(m.fwd, k))
    x[j] = at(x, j) + 1
    t.prove('writing to the input vector does not touch the stored input', at(m.inputbuffer, off, j) == at(x0, j))
    r2 = r.copy()
    t.call('reset', m.reset)
    t.prove('reset does not touch an earlier result', at(r, k) == at(r2, k))


@task('C06', 'backActivate', functions=[M + 'backActivate', M + 'backward'])
def _(t):
    i, o, L = dim('indim'), dim('outdim'), dim('steps')
    m = t.call('construction', any_module(t), i, o)
    scramble(m, L)
    m.offset = off = index(L, 'offset')
    old = snap(m)
    e = vec('e', o)
    e0 = e.copy()
    r = t.call('backActivate', m.backActivate, e)
    j, k = index(i, 'j'), index(o, 'k')
    t.prove('error is stored', at(m.outputerror, off, k) == at(e0, k))
    t.prove('the computation saw error, output and input of this step',
            sym_and(at(m.bseen[0], k) == at(e0, k), at(m.bseen[1], k) == at(old['outputbuffer'], off, k),
                    at(m.bseen[2], j) == at(old['inputbuffer'], off, j)))
    t.prove('result is the propagated error', sym_and(at(r, j) == at(m.bwd, j), slen(r) == i))
    t.prove('propagated error is stored', at(m.inputerror, off, j) == at(m.bwd, j))
    t.prove('error handed in is not modified', at(e, k) == at(e0, k))
    t.prove('offset unchanged', m.offset == off)
    same(t, 'backActivate', m, old, L, ('inputerror', 'outputerror'), off)
    r[j] = at(r, j) + 1
    t.prove('writing to the result does not touch the stored error', at(m.inputerror, off, j) == at(m.bwd, j))


@task('C06', 'wrong lengths', functions=[M + 'activate', M + 'backActivate'])
def _(t):
    i, o, L, n = dim('indim'), dim('outdim'), dim('steps'), dim('given')
    m = t.call('construction', any_module(t), i, o)
    scramble(m, L)
    m.offset = index(L, 'offset')
    old = snap(m)
    C.assume(sym_and(n != i, n != o, n != 1))
    t.raises('activate with a wrong length', AssertionError, m.activate, vec('x', n))
    same(t, 'refused activate', m, old, L)
    t.raises('backActivate with a wrong length', ValueError, m.backActivate, vec('e', n))
    same(t, 'refused backActivate', m, old, L)


@task('C06', 'reset', functions=[M + 'reset'])
def _(t):
    i, o, L = dim('indim'), dim('outdim'), dim('steps')
    m = t.call('construction', any_module(t), i, o)
    scramble(m, L)
    m.offset = index(L, 'offset')
    t.call('reset', m.reset)
    t.prove('offset is zero', m.offset == 0)
    for b in BUFS:
        t.prove('%s is zero everywhere' % b, at(getattr(m, b), index(L, 'r'), index(width(m, b), 'j')) == 0)
        t.prove('%s keeps its shape' % b, sym_and(getattr(m, b).shape[0] == L, getattr(m, b).shape[1] == width(m, b)))


@task('C06', 'growing buffers', functions=[M + '_growBuffers', M + '_resetBuffers'])
def _(t):
    i, o, L = dim('indim'), dim('outdim'), dim('steps')
    m = t.call('construction', any_module(t), i, o)
    scramble(m, L)
    m.offset = off = index(L, 'offset')
    old = snap(m)
    t.call('grow', m._growBuffers)
    t.prove('offset unchanged', m.offset == off)
    same(t, 'grow', m, old, L)
    for b in BUFS:
        buf = getattr(m, b)
        t.prove('%s has twice the rows' % b, sym_and(buf.shape[0] == 2 * L, buf.shape[1] == width(m, b)))
        t.prove('%s: new rows are zero' % b, at(buf, index(2 * L, 'r', lo=L), index(width(m, b), 'j')) == 0)


@task('C06', 'shift', functions=[M + 'shift'])
def _(t):
    i, o, L = dim('indim'), dim('outdim'), dim('steps')
    m = t.call('construction', any_module(t), i, o)
    scramble(m, L)
    m.offset = off = index(L, 'offset')
    old = snap(m)
    s = C.int('items', show=True)
    C.assume(sym_and(s >= -L, s <= L))
    t.call('shift', m.shift, s)
    t.prove('offset moves along', m.offset == off + s)
    for b in BUFS:
        r, j = index(L, 'r'), index(width(m, b), 'j')
        inside = sym_and(r - s >= 0, r - s < L)
        t.prove('%s is shifted and filled with zeros' % b,
                at(getattr(m, b), r, j) == S(ite(inside, at(old[b], r - s, j), 0)))
    x = C.int('too far')
    C.assume(sym_or(x > L, x < -L))
    t.raises('shift beyond the buffer', AssertionError, m.shift, x)


def recurrent(t, k):
    """a sorted recurrent network with k component modules; the computation of the network
    is abstracted by its contract"""
    net = t.cls('pybrain.structure.networks.recurrent', 'RecurrentNetwork')

    class AnyNet(net):
        def _forwardImplementation(self, inbuf, outbuf):
            v = vec('computed', self.outdim)
            self.fwd = v.copy()
            self.at_offset = self.offset
            outbuf[:] = v

        def _backwardImplementation(self, outerr, inerr, outbuf, inbuf):
            v = vec('propagated', self.indim)
            self.bwd = v.copy()
            self.at_offset = self.offset
            self.bseen = (outerr.copy(), outbuf.copy(), inbuf.copy())
            inerr[:] = v
    n = t.call('construction', AnyNet)
    kls = any_module(t)
    ms = []
    for q in range(k):
        m = t.call('component', kls, dim('ci%d' % q), dim('co%d' % q), 'c%d' % q)
        m.sequential = True
        t.call('add', (n.addInputModule if q == 0 else n.addOutputModule), m)
        ms.append(m)
    t.call('sort', n.sortModules)
    return n, ms


@task('C06', 'recurrent network: activate', functions=[R + 'activate', R + 'forward', N + '_growBuffers', M + '_growBuffers',
                                                       N + 'offset'])
def _(t):
    n, ms = recurrent(t, 2)
    i, o, L = n.indim, n.outdim, dim('steps')
    t.prove('sizes of the network', sym_and(i == ms[0].indim, o == ms[1].outdim))
    for m in [n] + ms:
        scramble(m, L)
    off = index(L, 'offset')
    n.offset = off
    for m in ms:
        t.prove('offset of the components follows', m.offset == off)
    n.maxoffset = mx = C.int('maxoffset', show=True)
    C.assume(mx >= off)
    olds = [(m, snap(m)) for m in ms]
    old = snap(n)
    x = vec('x', i)
    r = t.call('activate', n.activate, x)
    j, k = index(i, 'j'), index(o, 'k')
    t.prove('one step per activation', n.offset == off + 1)
    for m in ms:
        t.prove('components move along', m.offset == off + 1)
    t.prove('longest history is remembered', n.maxoffset == S(ite(off + 1 > mx, off + 1, mx)))
    t.prove('computed in the slot of this step', n.at_offset == off)
    t.prove('input is stored in the slot of this step', at(n.inputbuffer, off, j) == at(x, j))
    t.prove('output is stored in the slot of this step', at(n.outputbuffer, off, k) == at(n.fwd, k))
    t.prove('result is the computed output', sym_and(at(r, k) == at(n.fwd, k), slen(r) == o))
    same(t, 'activate', n, old, L, ('inputbuffer', 'outputbuffer'), off)
    for m, s in olds:
        same(t, 'activate: component', m, s, L)
    for m in [n] + ms:
        t.prove('there is room for the next step', m.inputbuffer.shape[0] >= off + 2)
        t.prove('all buffers are equally long', sym_and(*[getattr(m, b).shape[0] == n.inputbuffer.shape[0] for b in BUFS]))
    r[k] = at(r, k) + 1
    t.prove('writing to the result does not touch the stored output', at(n.outputbuffer, off, k) == at(n.fwd, k))


@task('C06', 'recurrent network: backActivate', functions=[R + 'backActivate', R + 'backward'])
def _(t):
    n, ms = recurrent(t, 2)
    i, o, L = n.indim, n.outdim, dim('steps')
    for m in [n] + ms:
        scramble(m, L)
    off = index(L, 'offset', lo=1)
    n.offset = off
    old = snap(n)
    e = vec('e', o)
    r = t.call('backActivate', n.backActivate, e)
    j, k = index(i, 'j'), index(o, 'k')
    t.prove('one step back', n.offset == off - 1)
    t.prove('computed in the slot of that step', n.at_offset == off - 1)
    t.prove('error is stored in the slot of that step', at(n.outputerror, off - 1, k) == at(e, k))
    t.prove('the computation saw that step', sym_and(at(n.bseen[0], k) == at(e, k),
                                                     at(n.bseen[1], k) == at(old['outputbuffer'], off - 1, k),
                                                     at(n.bseen[2], j) == at(old['inputbuffer'], off - 1, j)))
    t.prove('result is the propagated error', sym_and(at(r, j) == at(n.bwd, j), slen(r) == i))
    same(t, 'backActivate', n, old, L, ('inputerror', 'outputerror'), off - 1)


@task('C06', 'recurrent network: reset', functions=[N + 'reset', M + 'reset'])
def _(t):
    n, ms = recurrent(t, 2)
    L = dim('steps')
    for m in [n] + ms:
        scramble(m, L)
    n.offset = index(L, 'offset')
    t.call('reset', n.reset)
    for m in [n] + ms:
        t.prove('offset is zero', m.offset == 0)
        for b in BUFS:
            t.prove('%s is zero everywhere' % b, at(getattr(m, b), index(L, 'r'), index(width(m, b), 'j')) == 0)


@task('C06', 'StateDependentLayer', functions=[MOD + 'statedependentlayer.StateDependentLayer.' + f for f in
                                              ('__init__', 'setState', '_forwardImplementation')])
def _(t):
    base = t.cls(MOD + 'module', 'Module')
    n, sdim = dim('dim'), dim('statedim')

    class Explorer(base):
        paramdim = 3

        def _forwardImplementation(self, inbuf, outbuf):
            v = vec('expl', self.outdim)
            self.fwd = v.copy()
            outbuf[:] = v
    ex = t.call('explorer', Explorer, sdim, n)
    l = t.call('construction', t.cls(MOD + 'statedependentlayer', 'StateDependentLayer'), n, ex)
    s = vec('state', sdim)
    t.call('setState', l.setState, s)
    x = vec('x', n)
    r = t.call('activate', l.activate, x)
    k = index(n, 'k')
    t.prove('output is the input plus the exploration of the state', at(r, k) == at(x, k) + at(ex.fwd, k))
    t.prove('output is stored', at(l.outputbuffer, 0, k) == at(r, k))
    r2 = t.call('activate again', l.activate, x)
    t.prove('the exploration is used once', at(r2, k) == at(x, k))
    t.call('setState', l.setState, s)
    l.enabled = False
    r3 = t.call('activate', l.activate, x)
    t.prove('disabled: output is the input', at(r3, k) == at(x, k))


@task('C06', 'StateDependentLayer: mismatch', functions=[MOD + 'statedependentlayer.StateDependentLayer.__init__'])
def _(t):
    base = t.cls(MOD + 'module', 'Module')
    n, q, sdim = dim('dim'), dim('outdim'), dim('statedim')
    C.assume(n != q)
    ex = t.call('explorer', base, sdim, q)
    t.raises('explorer of another size', AssertionError, t.cls(MOD + 'statedependentlayer', 'StateDependentLayer'), n, ex)
