"""Bounded contract checks for C05: every connection against its dense matrix."""
from lib import *
import numpy as np
from pybrain.structure import LinearLayer, GateLayer, LSTMLayer, FullConnection, IdentityConnection
from pybrain.structure.connections.linear import LinearConnection
from pybrain.structure.connections.fullnotself import FullNotSelfConnection
from pybrain.structure.connections.permutation import PermutationConnection
from pybrain.structure.connections.shared import MotherConnection, SharedFullConnection, SharedSubsamplingConnection
from pybrain.structure.connections.subsampling import SubsamplingConnection
from pybrain.structure.moduleslice import ModuleSlice


def rnd(rng, *sh):
    a = np.zeros(sh)
    for i in np.ndindex(*sh):
        a[i] = rng.uniform(-3, 3)
    return a


def fill(rng, m, steps):
    for _ in range(3):
        m._growBuffers()
    for b in ('inputbuffer', 'outputbuffer', 'inputerror', 'outputerror'):
        buf = getattr(m, b)
        buf[:] = rnd(rng, *buf.shape)


def snap(m):
    return {b: getattr(m, b).copy() for b in ('inputbuffer', 'outputbuffer', 'inputerror', 'outputerror')}


@check('connections against their matrix', n=320)
def _(rng, it):
    kind = ['full', 'identity', 'linear', 'notself', 'perm', 'shared'][it % 6]
    da, db = rng.randint(1, 6), rng.randint(1, 6)
    i0 = rng.randrange(da)
    i1 = rng.randint(i0 + 1, da)
    o0 = rng.randrange(db)
    o1 = rng.randint(o0 + 1, db)
    if kind != 'full' and kind != 'shared':
        if rng.random() < .5:
            da = db = rng.randint(1, 6)
            i0 = o0 = 0
            i1 = o1 = da
        else:
            n = min(i1 - i0, o1 - o0)
            i1, o1 = i0 + n, o0 + n
    ni, no = i1 - i0, o1 - o0
    a, b = LinearLayer(da), LinearLayer(db)
    fill(rng, a, 8)
    fill(rng, b, 8)
    mode = rng.choice(['kw', 'slice', 'nested', 'both'])
    kw = dict(inSliceFrom=i0, inSliceTo=i1, outSliceFrom=o0, outSliceTo=o1)
    A, B = a, b
    if mode != 'kw' and ni < da and no < db:
        A = ModuleSlice(a, 0, da, i0, i1)
        B = ModuleSlice(b, o0, o1, 0, db)
        if mode == 'nested' and ni >= 2:
            x0 = rng.randrange(ni)
            x1 = rng.randint(x0 + 1, ni)
            if x1 - x0 < ni and kind in ('full', 'shared'):
                A = ModuleSlice(A, 0, da, x0, x1)
                i0, i1 = i0 + x0, i0 + x1
                ni = i1 - i0
        kw = {}
        if mode == 'both' and kind in ('full', 'shared'):
            x0, y0 = rng.randrange(ni), rng.randrange(no)
            x1, y1 = rng.randint(x0 + 1, ni), rng.randint(y0 + 1, no)
            for k_, v_, drop in (('inSliceFrom', x0, 0), ('inSliceTo', x1, ni), ('outSliceFrom', y0, 0), ('outSliceTo', y1, no)):
                if v_ != drop or rng.random() < .5:
                    kw[k_] = v_
            i0, i1, o0, o1 = i0 + x0, i0 + x1, o0 + y0, o0 + y1
            ni, no = i1 - i0, o1 - o0
    perm = list(range(ni))
    bs = 1
    mothers = None
    if kind == 'full':
        c = FullConnection(A, B, **kw)
    elif kind == 'identity':
        c = IdentityConnection(A, B, **kw)
    elif kind == 'linear':
        c = LinearConnection(A, B, **kw)
    elif kind == 'notself':
        c = FullNotSelfConnection(A, B, **kw)
    elif kind == 'perm':
        bs = rng.choice([k for k in range(1, ni + 1) if ni % k == 0])
        perm = list(range(ni // bs))
        rng.shuffle(perm)
        c = PermutationConnection(A, B, perm, bs, **kw)
    else:
        mother = MotherConnection(ni * no)
        c = SharedFullConnection(mother, A, B, **kw)
    w = None
    if kind in ('full', 'notself'):
        w = rnd(rng, ni * no)
        c._setParameters(w.copy())
        expect(len(c.params) == ni * no, kind + ': number of weights')
    elif kind == 'linear':
        w = rnd(rng, ni)
        c._setParameters(w.copy())
    elif kind == 'shared':
        w = rnd(rng, ni * no)
        mother._setParameters(w.copy())
    M = np.zeros((no, ni))
    for u in range(no):
        for v in range(ni):
            if kind in ('full', 'shared'):
                M[u, v] = w[u * ni + v]
            elif kind == 'notself':
                M[u, v] = w[u * ni + v] if u != v else 0
            elif kind == 'identity':
                M[u, v] = float(u == v)
            elif kind == 'linear':
                M[u, v] = w[u] if u == v else 0
            else:
                M[u, v] = float(perm[u // bs] * bs + u % bs == v)
    if w is not None:
        d0 = c.derivs.copy()
        expect_close(d0, np.zeros(len(w)), kind + ': derivatives start at zero')
    total = np.zeros((no, ni))
    for rep in range(2):
        s, r = rng.randrange(8), rng.randrange(8)
        sa, sb = snap(a), snap(b)
        c.forward(s, r)
        want = sb['inputbuffer'].copy()
        want[r, o0:o1] += M.dot(sa['outputbuffer'][s, i0:i1])
        expect_close(b.inputbuffer, want, kind + ': forward adds the mapped slice', matrix=M)
        for k in sa:
            expect_same(getattr(a, k), sa[k], kind + ': forward does not write the sender')
        for k in ('outputbuffer', 'inputerror', 'outputerror'):
            expect_same(getattr(b, k), sb[k], kind + ': forward writes only the input buffer')
        sb = snap(b)
        c.backward(s, r)
        want = sa['outputerror'].copy()
        want[s, i0:i1] += M.T.dot(sb['inputerror'][r, o0:o1])
        expect_close(a.outputerror, want, kind + ': backward adds the transposed map', matrix=M)
        for k in sb:
            expect_same(getattr(b, k), sb[k], kind + ': backward does not write the receiver')
        for k in ('inputbuffer', 'outputbuffer', 'inputerror'):
            expect_same(getattr(a, k), sa[k], kind + ': backward writes only the output error')
        total += np.outer(sb['inputerror'][r, o0:o1], sa['outputbuffer'][s, i0:i1])
        if w is not None:
            g = {'full': total.flatten(), 'shared': total.flatten(),
                 'notself': (total * (1 - np.eye(no, ni))).flatten(),
                 'linear': np.array([total[i, i] for i in range(min(no, ni))])}[kind]
            expect_close(c.derivs, g, kind + ': derivatives accumulate the outer product')
            expect_same(c.params, w, kind + ': weights are not written')
    if kind == 'full':
        for p in range(ni * no):
            x, y = c.whichBuffers(p)
            expect((x, y) == (i0 + p % ni, o0 + p // ni), 'full: buffers of a weight')


@check('shared weights', n=40)
def _(rng, it):
    n, m, k = rng.randint(1, 4), rng.randint(1, 4), rng.randint(2, 4)
    mother = MotherConnection(n * m)
    pairs = [(LinearLayer(n), LinearLayer(m)) for _ in range(k)]
    cs = [SharedFullConnection(mother, a, b) for a, b in pairs]
    w = rnd(rng, n * m)
    mother._setParameters(w.copy())
    g = np.zeros((m, n))
    for (a, b), c in zip(pairs, cs):
        a.outputbuffer[:] = rnd(rng, 1, n)
        b.inputerror[:] = rnd(rng, 1, m)
        c.forward()
        expect_close(b.inputbuffer[0], w.reshape(m, n).dot(a.outputbuffer[0]), 'shared: forward')
        c.backward()
        g += np.outer(b.inputerror[0], a.outputbuffer[0])
    expect_close(mother.derivs, g.flatten(), 'shared: derivatives of all users are summed')
    for c in cs:
        expect(c.paramdim == n * m and close(c.params, w), 'shared: parameters of the mother')


@check('subsampling', n=30)
def _(rng, it):
    n, m = rng.randint(1, 5), rng.randint(1, 4)
    a, b = LinearLayer(n), LinearLayer(m)
    i0 = rng.randrange(n)
    i1 = rng.randint(i0 + 1, n)
    o0 = rng.randrange(m)
    o1 = rng.randint(o0 + 1, m)
    w = rnd(rng, o1 - o0)
    if it % 2:
        mother = MotherConnection(o1 - o0)
        c = SharedSubsamplingConnection(mother, a, b, inSliceFrom=i0, inSliceTo=i1, outSliceFrom=o0, outSliceTo=o1)
        mother._setParameters(w)
    else:
        c = SubsamplingConnection(a, b, inSliceFrom=i0, inSliceTo=i1, outSliceFrom=o0, outSliceTo=o1)
        c._setParameters(w)
    a.outputbuffer[:] = rnd(rng, 1, n)
    b.inputbuffer[:] = rnd(rng, 1, m)
    want = b.inputbuffer[0].copy()
    want[o0:o1] += w * (sum(a.outputbuffer[0, i0:i1]) / (i1 - i0))
    c.forward()
    expect_close(b.inputbuffer[0], want, 'subsampling: forward adds the weighted mean')


@check('slices', n=120)
def _(rng, it):
    m = rng.choice([LinearLayer(rng.randint(2, 6)), GateLayer(rng.randint(1, 3)), LSTMLayer(rng.randint(1, 3))])
    s, ins, outs = m, list(range(m.indim)), list(range(m.outdim))
    for depth in range(rng.choice([1, 1, 2, 3])):
        kw = {}

        def cut(which, have):
            a, b = 0, len(have)
            if rng.random() < .5:
                a = rng.randrange(len(have))
                kw[which + 'From'] = a
            if rng.random() < .5:
                b = rng.randint(a + 1, len(have))
                kw[which + 'To'] = b
            return have[a:b]
        i2, o2 = cut('inSlice', ins), cut('outSlice', outs)
        if len(i2) + len(o2) == len(ins) + len(outs):
            break
        s, ins, outs = ModuleSlice(s, **kw), i2, o2
    if s is m:
        raise Skip()
    expect(s.base is m, 'a slice of a slice refers to the module itself')
    expect((s.indim, s.outdim, s.inOffset, s.outOffset) == (len(ins), len(outs), ins[0], outs[0]), 'extent of a slice',
           got=(s.indim, s.outdim, s.inOffset, s.outOffset), want=(len(ins), len(outs), ins[0], outs[0]))
    other = LinearLayer(rng.randint(1, 3))
    for c, send in ((FullConnection(s, other), True), (FullConnection(other, s), False)):
        fill(rng, m, 8)
        fill(rng, other, 8)
        want = (other if send else m).inputbuffer.copy()
        if send:
            want[1] += c.params.reshape(other.indim, len(outs)).dot(m.outputbuffer[1, outs])
        else:
            want[1, ins] += c.params.reshape(len(ins), other.outdim).dot(other.outputbuffer[1])
        c.forward(1, 1)
        expect_close((other if send else m).inputbuffer, want, 'a connection with a slice')
        want = (m if send else other).outputerror.copy()
        if send:
            want[1, outs] += c.params.reshape(other.indim, len(outs)).T.dot(other.inputerror[1])
        else:
            want[1] += c.params.reshape(len(ins), other.outdim).T.dot(m.inputerror[1, ins])
        c.backward(1, 1)
        expect_close((m if send else other).outputerror, want, 'errors through a slice')


@check('size mismatches are refused', n=60)
def _(rng, it):
    n, m = rng.randint(1, 5), rng.randint(1, 5)
    if n == m:
        raise Skip()
    a, b = LinearLayer(n), LinearLayer(m)
    for cls in (IdentityConnection, FullNotSelfConnection, LinearConnection):
        expect_raises(Exception, cls, cls.__name__ + ' accepts different sizes', a, b)
    expect_raises(Exception, PermutationConnection, 'PermutationConnection accepts different sizes', a, b, list(range(n)), 1)
    c, d = LinearLayer(n), LinearLayer(n)
    expect_raises(Exception, PermutationConnection, 'PermutationConnection accepts a permutation of the wrong size',
                  c, d, list(range(m)), 1)


if __name__ == '__main__':
    main()
