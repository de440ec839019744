"""Connections apply their linear map, its transpose and its gradient.

Connection.forward/backward and every _forwardImplementation/_backwardImplementation
are under contract for symbolic module sizes, slice bounds, time offsets, buffer
lengths and weights: an arbitrary cell of the receiving buffer is increased by the
weighted sum of the configured slice of the sender, every other cell is unchanged, and
the same for the transposed map and the weight derivatives (outer product)."""
from .common import *

ASSUMPTIONS = ['the two modules of a connection are distinct objects or the accessed buffers are distinct arrays '
               '(a recurrent self connection reads outputbuffer and writes inputbuffer, which are distinct)']


class FakeModule(object):
    """any module: sizes and buffers (what Connection may touch)"""
    def __init__(self, tag, indim, outdim, steps):
        self.name = tag
        self.indim, self.outdim = indim, outdim
        self.inputbuffer = vec(tag + '_in', steps, indim)
        self.outputbuffer = vec(tag + '_out', steps, outdim)
        self.inputerror = vec(tag + '_ie', steps, indim)
        self.outputerror = vec(tag + '_oe', steps, outdim)

    def snap(self):
        return {k: getattr(self, k).copy() for k in ('inputbuffer', 'outputbuffer', 'inputerror', 'outputerror')}


def two_modules():
    A_, B_, Ts = dim('senderdim'), dim('receiverdim'), dim('steps')
    return FakeModule('a', dim('a_in'), A_, Ts), FakeModule('b', B_, dim('b_out'), Ts), Ts


def slices(a, b):
    i0, i1, o0, o1 = [C.int(x, show=True) for x in ('inFrom', 'inTo', 'outFrom', 'outTo')]
    C.assume(sym_and(i0 >= 0, i0 < i1, i1 <= a.outdim, o0 >= 0, o0 < o1, o1 <= b.indim))
    return i0, i1, o0, o1


def frame(t, name, m, before, Ts, skip=()):
    for buf in ('inputbuffer', 'outputbuffer', 'inputerror', 'outputerror'):
        if buf in skip:
            continue
        r, j = index(Ts, 'fr'), index(m.indim if buf.startswith('input') else m.outdim, 'fj')
        t.prove('%s: %s of %s is not written' % (name, buf, m.name), at(getattr(m, buf), r, j) == at(before[buf], r, j))


def run(t, c, a, b, Ts, sl, W, dW, pure=False):
    """W(u, v): weight from the v-th connected input to the u-th connected output;
    dW(p, u, v): is p the parameter of that weight"""
    i0, i1, o0, o1 = sl
    ni, no = i1 - i0, o1 - o0
    ti, to = index(Ts, 'ti'), index(Ts, 'to')
    a0, b0 = a.snap(), b.snap()
    r = index(Ts, 'r')
    t.call('forward', c.forward, ti, to)
    u = index(no, 'u')
    want = Sum(ni, lambda v: W(u, v) * at(a0['outputbuffer'], ti, i0 + v))
    t.prove('forward adds the weighted sum', at(b.inputbuffer, to, o0 + u) == at(b0['inputbuffer'], to, o0 + u) + want)
    j = index(b.indim, 'j')
    t.prove('forward: rest of the receiving buffer',
            sym_implies(sym_or(r != to, j < o0, j >= o1), at(b.inputbuffer, r, j) == at(b0['inputbuffer'], r, j)))
    frame(t, 'forward', a, a0, Ts)
    frame(t, 'forward', b, b0, Ts, ('inputbuffer',))
    a1, b1 = a.snap(), b.snap()
    t.call('backward', c.backward, ti, to)
    v = index(ni, 'v')
    want = Sum(no, lambda u: W(u, v) * at(b1['inputerror'], to, o0 + u))
    t.prove('backward adds the transposed sum', at(a.outputerror, ti, i0 + v) == at(a1['outputerror'], ti, i0 + v) + want)
    j = index(a.outdim, 'j2')
    t.prove('backward: rest of the error buffer',
            sym_implies(sym_or(r != ti, j < i0, j >= i1), at(a.outputerror, r, j) == at(a1['outputerror'], r, j)))
    frame(t, 'backward', b, b1, Ts)
    frame(t, 'backward', a, a1, Ts, ('outputerror',))
    return ti, to, a0, b1


def setup_params(t, c, n):
    P, D_ = vec('w', n), vec('d', n)
    t.call('set parameters', c._setParameters, P)
    t.call('set derivatives', c._setDerivatives, D_)
    return P, P.copy(), D_, D_.copy()


def unchanged(t, name, x, y, n):
    k = index(n, 'pk')
    t.prove(name, at(x, k) == at(y, k))


def mat(mod, cls, shared=False):
    names = [CON + 'connection.Connection.' + f for f in ('__init__', 'forward', 'backward')] + \
            [CON + mod + '.' + cls + '.' + f for f in ('__init__', '_forwardImplementation', '_backwardImplementation')]
    notself = cls == 'FullNotSelfConnection'

    @task('C05', cls, functions=names + ([CON + 'full.FullConnection._forwardImplementation',
                                          CON + 'full.FullConnection._backwardImplementation'] if shared else []))
    def _(t):
        k = t.cls(CON + mod, cls)
        a, b, Ts = two_modules()
        sl = slices(a, b)
        i0, i1, o0, o1 = sl
        ni, no = i1 - i0, o1 - o0
        n = ni * no
        C.assume(n >= 1)
        if notself:
            C.assume(ni == no)
        if shared:
            mother = t.call('mother', t.cls(CON + 'shared', 'MotherConnection'), n)
            P, D_ = vec('w', n), vec('d', n)
            t.call('mother parameters', mother._setParameters, P)
            t.call('mother derivatives', mother._setDerivatives, D_)
            P0, D0 = P.copy(), D_.copy()
            c = t.call('init', k, mother, a, b, inSliceFrom=i0, inSliceTo=i1, outSliceFrom=o0, outSliceTo=o1)
            t.prove('parameters are the mother\'s', c.params is mother.params and c.derivs is mother.derivs)
        else:
            c = t.call('init', k, a, b, inSliceFrom=i0, inSliceTo=i1, outSliceFrom=o0, outSliceTo=o1)
            t.prove('one weight per pair', c.paramdim == n)
            P, P0, D_, D0 = setup_params(t, c, n)
        t.prove('sizes', sym_and(c.indim == ni, c.outdim == no))

        def W(u, v):
            w = at(P0, u * ni + v)
            return ite(u == v, 0, w) if notself else w
        ti, to, a0, b1 = run(t, c, a, b, Ts, sl, W, None)
        u, v = index(no, 'gu'), index(ni, 'gv')
        C.assume(sym_and(u * ni + v >= 0, u * ni + v < n))
        g = at(b1['inputerror'], to, o0 + u) * at(a0['outputbuffer'], ti, i0 + v)
        if notself:
            g = ite(u == v, 0, g)
        t.prove('derivative of every weight grows by error times sent output', at(D_, u * ni + v) == at(D0, u * ni + v) + g)
        unchanged(t, 'weights are not written', P, P0, n)
        if not shared and not notself:
            wi, wo = t.call('whichBuffers', c.whichBuffers, u * ni + v)
            t.prove('buffers of a weight', sym_and(wi == i0 + v, wo == o0 + u))
        if notself:
            # sizes that do not fit
            C.assume(sym_and(a.outdim != b.indim))
            t.raises('mismatching sizes', AssertionError, k, a, b)


mat('full', 'FullConnection')
mat('fullnotself', 'FullNotSelfConnection')
mat('shared', 'SharedFullConnection', True)


@task('C05', 'SharedFullConnection: two users of one mother',
      functions=[CON + 'shared.SharedConnection._replaceParamsByMother', CON + 'shared.SharedConnection.params',
                 CON + 'shared.SharedConnection.derivs', CON + 'shared.SharedConnection.initParams'])
def _(t):
    a, b, Ts = two_modules()
    n = a.outdim * b.indim
    C.assume(n >= 1)
    mother = t.call('mother', t.cls(CON + 'shared', 'MotherConnection'), n)
    k = t.cls(CON + 'shared', 'SharedFullConnection')
    P, D_ = vec('w', n), vec('d', n)
    t.call('p', mother._setParameters, P)
    t.call('d', mother._setDerivatives, D_)
    D0 = D_.copy()
    c1 = t.call('init', k, mother, a, b)
    c2 = t.call('init', k, mother, a, b)
    t1, t2, o1, o2 = index(Ts, 't1'), index(Ts, 't2'), index(Ts, 'o1'), index(Ts, 'o2')
    t.call('backward', c1.backward, t1, o1)
    t.call('backward', c2.backward, t2, o2)
    u, v = index(b.indim, 'u'), index(a.outdim, 'v')
    p = u * a.outdim + v
    C.assume(sym_and(p >= 0, p < n))
    t.prove('derivatives of all users are summed in the mother',
            at(mother.derivs, p) == at(D0, p) + at(b.inputerror, o1, u) * at(a.outputbuffer, t1, v)
            + at(b.inputerror, o2, u) * at(a.outputbuffer, t2, v))
    t.raises('initParams', t.cls(CON + 'shared', 'OwnershipViolation'), c1.initParams)


@task('C05', 'IdentityConnection', functions=[CON + 'identity.IdentityConnection.' + f for f in
                                              ('__init__', '_forwardImplementation', '_backwardImplementation')])
def _(t):
    k = t.cls(CON + 'identity', 'IdentityConnection')
    a, b, Ts = two_modules()
    sl = slices(a, b)
    i0, i1, o0, o1 = sl
    C.assume(i1 - i0 == o1 - o0)
    c = t.call('init', k, a, b, inSliceFrom=i0, inSliceTo=i1, outSliceFrom=o0, outSliceTo=o1)
    run(t, c, a, b, Ts, sl, lambda u, v: ite(u == v, 1, 0), None)


@task('C05', 'IdentityConnection: mismatch', functions=[CON + 'identity.IdentityConnection.__init__'])
def _(t):
    k = t.cls(CON + 'identity', 'IdentityConnection')
    a, b, Ts = two_modules()
    sl = slices(a, b)
    i0, i1, o0, o1 = sl
    C.assume(i1 - i0 != o1 - o0)
    t.raises('mismatching sizes', AssertionError, k, a, b, inSliceFrom=i0, inSliceTo=i1, outSliceFrom=o0, outSliceTo=o1)


@task('C05', 'LinearConnection', functions=[CON + 'linear.LinearConnection.' + f for f in
                                            ('__init__', '_forwardImplementation', '_backwardImplementation')])
def _(t):
    k = t.cls(CON + 'linear', 'LinearConnection')
    a, b, Ts = two_modules()
    sl = slices(a, b)
    i0, i1, o0, o1 = sl
    n = i1 - i0
    C.assume(n == o1 - o0)
    c = t.call('init', k, a, b, inSliceFrom=i0, inSliceTo=i1, outSliceFrom=o0, outSliceTo=o1)
    t.prove('one weight per element', c.paramdim == n)
    P, P0, D_, D0 = setup_params(t, c, n)
    ti, to, a0, b1 = run(t, c, a, b, Ts, sl, lambda u, v: ite(u == v, at(P0, u), 0), None)
    u = index(n, 'gu')
    t.prove('derivative of every weight grows by error times sent output',
            at(D_, u) == at(D0, u) + at(b1['inputerror'], to, o0 + u) * at(a0['outputbuffer'], ti, i0 + u))
    unchanged(t, 'weights are not written', P, P0, n)


@task('C05', 'LinearConnection: mismatch', functions=[CON + 'linear.LinearConnection.__init__'])
def _(t):
    k = t.cls(CON + 'linear', 'LinearConnection')
    a, b, Ts = two_modules()
    C.assume(a.outdim != b.indim)
    t.raises('mismatching sizes', AssertionError, k, a, b)


@task('C05', 'PermutationConnection', functions=[CON + 'permutation.PermutationConnection.' + f for f in
                                                 ('__init__', '_forwardImplementation', '_backwardImplementation')]
      + ['pybrain.utilities.permute'])
def _(t):
    k = t.cls(CON + 'permutation', 'PermutationConnection')
    q, s, Ts = dim('blocks'), dim('blocksize'), dim('steps')
    n = q * s
    a, b = FakeModule('a', dim('a_in'), n, Ts), FakeModule('b', n, dim('b_out'), Ts)
    from pyvc.loader import fresh_perm
    pf, qf = fresh_perm(q)
    C.ghost.setdefault('index_perms', []).append((pf, qf, q))
    perm = SArr.make((q,), lambda i: pf(T(i[0])), 'I')
    inv_ = SArr.make((q,), lambda i: qf(T(i[0])), 'I')
    c = t.call('init', k, a, b, perm, s)
    ti, to = index(Ts, 'ti'), index(Ts, 'to')
    a0, b0 = a.snap(), b.snap()
    bi, e = index(q, 'block'), index(s, 'e')
    for i in (bi, at(perm, bi), at(inv_, bi)):
        C.assume(sym_and(i * s + e >= 0, i * s + e < n))
    pb = at(perm, bi)
    C.assume(sym_and(pb >= 0, pb < q, at(inv_, pb) == bi))
    t.call('forward', c.forward, ti, to)
    t.prove('forward adds block perm[i] to block i',
            at(b.inputbuffer, to, bi * s + e) == at(b0['inputbuffer'], to, bi * s + e)
            + at(a0['outputbuffer'], ti, pb * s + e))
    frame(t, 'forward', a, a0, Ts)
    frame(t, 'forward', b, b0, Ts, ('inputbuffer',))
    a1, b1 = a.snap(), b.snap()
    t.call('backward', c.backward, ti, to)
    t.prove('backward adds block i to block perm[i]',
            at(a.outputerror, ti, pb * s + e) == at(a1['outputerror'], ti, pb * s + e)
            + at(b1['inputerror'], to, bi * s + e))
    frame(t, 'backward', b, b1, Ts)
    frame(t, 'backward', a, a1, Ts, ('outputerror',))


@task('C05', 'PermutationConnection: mismatch', functions=[CON + 'permutation.PermutationConnection.__init__'])
def _(t):
    k = t.cls(CON + 'permutation', 'PermutationConnection')
    q, s = dim('blocks'), dim('blocksize')
    a, b, Ts = two_modules()
    C.assume(sym_or(a.outdim != b.indim, a.outdim != q * s))
    t.raises('mismatching sizes', ValueError, k, a, b, ivec('perm', q), s)


@task('C05', 'SubsamplingConnection', functions=[CON + 'subsampling.SubsamplingConnection.' + f for f in
                                                 ('__init__', '_forwardImplementation')])
def _(t):
    k = t.cls(CON + 'subsampling', 'SubsamplingConnection')
    a, b, Ts = two_modules()
    sl = slices(a, b)
    i0, i1, o0, o1 = sl
    c = t.call('init', k, a, b, inSliceFrom=i0, inSliceTo=i1, outSliceFrom=o0, outSliceTo=o1)
    n = o1 - o0
    P, P0, D_, D0 = setup_params(t, c, n)
    ti, to = index(Ts, 'ti'), index(Ts, 'to')
    a0, b0 = a.snap(), b.snap()
    t.call('forward', c.forward, ti, to)
    u = index(n, 'u')
    t.prove('forward adds the weighted mean', (at(b.inputbuffer, to, o0 + u) - at(b0['inputbuffer'], to, o0 + u)) * (i1 - i0)
            == S(Sum(i1 - i0, lambda v: at(a0['outputbuffer'], ti, i0 + v))) * at(P0, u))
    frame(t, 'forward', a, a0, Ts)
    frame(t, 'forward', b, b0, Ts, ('inputbuffer',))


@task('C05', 'ModuleSlice', functions=['pybrain.structure.moduleslice.ModuleSlice.__init__',
                                       CON + 'connection.Connection.__init__'])
def _(t):
    a, b, Ts = two_modules()
    MS = t.cls('pybrain.structure.moduleslice', 'ModuleSlice')
    i0, i1, o0, o1 = slices(a, b)
    C.assume(sym_or(i1 - i0 < a.outdim))
    C.assume(o1 - o0 < b.indim)
    sa = t.call('slice of the sender', MS, a, 0, a.indim, i0, i1)
    sb = t.call('slice of the receiver', MS, b, o0, o1, 0, b.outdim)
    t.prove('sizes of the slices', sym_and(sa.outdim == i1 - i0, sb.indim == o1 - o0))
    k = t.cls(CON + 'full', 'FullConnection')
    C.assume((i1 - i0) * (o1 - o0) >= 1)
    c = t.call('init', k, sa, sb)
    t.prove('connection works on the base modules', c.inmod is a and c.outmod is b)
    t.prove('connection uses exactly the slices', sym_and(c.inSliceFrom == i0, c.inSliceTo == i1, c.outSliceFrom == o0,
                                                          c.outSliceTo == o1))
    # a slice of a slice
    x0, x1 = C.int('x0'), C.int('x1')
    C.assume(sym_and(x0 >= 0, x0 < x1, x1 <= i1 - i0, x1 - x0 < i1 - i0))
    ss = t.call('slice of a slice', MS, sa, 0, a.indim, x0, x1)
    C.assume((x1 - x0) * (o1 - o0) >= 1)
    c = t.call('init', k, ss, sb)
    t.prove('slice of a slice: base', c.inmod is a)
    t.prove('slice of a slice: bounds', sym_and(c.inSliceFrom == i0 + x0, c.inSliceTo == i0 + x1))


@task('C05', 'ModuleSlice with slice bounds of the connection', functions=['pybrain.structure.moduleslice.ModuleSlice.__init__',
                                                                          CON + 'connection.Connection.__init__'])
def _(t):
    a, b, Ts = two_modules()
    MS = t.cls('pybrain.structure.moduleslice', 'ModuleSlice')
    i0, i1, o0, o1 = slices(a, b)
    C.assume(i1 - i0 < a.outdim)
    C.assume(o1 - o0 < b.indim)
    sa = t.call('slice of the sender', MS, a, 0, a.indim, i0, i1)
    sb = t.call('slice of the receiver', MS, b, o0, o1, 0, b.outdim)
    x0, x1, y0, y1 = [C.int(x, show=True) for x in ('x0', 'x1', 'y0', 'y1')]
    C.assume(sym_and(x0 >= 0, x0 < x1, x1 <= i1 - i0, y0 >= 0, y0 < y1, y1 <= o1 - o0))
    k = t.cls(CON + 'full', 'FullConnection')
    C.assume((x1 - x0) * (y1 - y0) >= 1)
    for lo, hi in ((False, False), (True, False), (False, True), (True, True)):
        kw = {}
        u0, u1, v0, v1 = 0, i1 - i0, 0, o1 - o0
        if lo:
            kw.update(inSliceFrom=x0, outSliceFrom=y0)
            u0, v0 = x0, y0
        if hi:
            kw.update(inSliceTo=x1, outSliceTo=y1)
            u1, v1 = x1, y1
        C.assume((u1 - u0) * (v1 - v0) >= 1)
        c = t.call('init', k, sa, sb, **kw)
        n = 'bounds from=%s to=%s: ' % (lo, hi)
        t.prove(n + 'sender', sym_and(c.inmod is a, c.inSliceFrom == i0 + u0, c.inSliceTo == i0 + u1, c.indim == u1 - u0))
        t.prove(n + 'receiver', sym_and(c.outmod is b, c.outSliceFrom == o0 + v0, c.outSliceTo == o0 + v1,
                                        c.outdim == v1 - v0))
