"""Layers compute their defined functions and the matching derivatives.

Every layer's _forwardImplementation / _backwardImplementation is under contract for
a symbolic layer size, symbolic input, symbolic output error: the k-th output is the
defined function; the propagated error is the derivative (computed by the symbolic
differentiator from the proved output term) times the output error; inputs, errors
and parameters are not written (frame)."""
from .common import *

ASSUMPTIONS = ['layer inputs lie strictly between -500 and 500 (outside, the exponential is clipped by design)',
               'the symbolic differentiator pyvc/reals.py implements the rules of differentiation',
               'the softmax layer propagates its error unchanged by design (not a Jacobian)']


def same_vec(t, name, a, snap, n):
    k = index(n, 'f')
    t.prove(name + ' is not written', at(a, k) == at(snap, k))


def simple(cls, mod, f, fprime=None, extra=None):
    @task('C04', cls, functions=[MOD + mod + '.' + cls + '._forwardImplementation',
                                 MOD + mod + '.' + cls + '._backwardImplementation'])
    def _(t):
        c = t.cls(MOD + mod, cls)
        n = dim()
        m = t.call('init', c, n)
        t.prove('sizes', sym_and(m.indim == n, m.outdim == n))
        x, y, e, ie = vec('x', n), vec('y0', n), vec('e', n), vec('ie0', n)
        x0, e0 = x.copy(), e.copy()
        k = index(n)
        C.assume(bounded(at(x, k)))
        t.call('forward', m._forwardImplementation, x, y)
        o, i = at(y, k), at(x, k)
        t.prove('output is the defined function', f(o, i))
        if extra:
            for nm, c in extra(o, i):
                t.prove(nm, c)
        same_vec(t, 'forward: input', x, x0, n)
        y1 = y.copy()
        t.call('backward', m._backwardImplementation, e, ie, y, x)
        if fprime:
            # away from kinks
            t.prove('propagated error is the derivative times the error', at(ie, k) == at(e, k) * fprime(o, i))
        else:
            t.prove('propagated error is the derivative times the error', at(ie, k) == at(e, k) * diff(o, i))
        same_vec(t, 'backward: input', x, x0, n)
        same_vec(t, 'backward: output', y, y1, n)
        same_vec(t, 'backward: output error', e, e0, n)


def exp(x):
    return C.fn1('exp', x)


def tanh(x):
    return C.fn1('tanh', x)


def sig(x):
    return inv(1 + exp(-x))


simple('LinearLayer', 'linearlayer', lambda o, i: o == i)
simple('SigmoidLayer', 'sigmoidlayer', lambda o, i: o * (1 + exp(-i)) == 1,
       extra=lambda o, i: [('output in (0,1)', sym_and(o > 0, o < 1))])
simple('TanhLayer', 'tanhlayer', lambda o, i: o == tanh(i), extra=lambda o, i: [('output in (-1,1)', sym_and(o > -1, o < 1))])
simple('ReluLayer', 'relulayer', lambda o, i: o == ite(i > 0, i, 0), lambda o, i: ite(i > 0, 1, 0))
simple('SoftSignLayer', 'softsign', lambda o, i: o * (1 + abs(i)) == i,
       lambda o, i: 1 / ((1 + abs(i)) * (1 + abs(i))), extra=lambda o, i: [('output in (-1,1)', sym_and(o > -1, o < 1))])


@task('C04', 'BiasUnit', functions=[MOD + 'biasunit.BiasUnit._forwardImplementation'])
def _(t):
    m = t.call('init', t.cls(MOD + 'biasunit', 'BiasUnit'))
    y = vec('y0', 1)
    t.prove('sizes', m.indim == 0 and m.outdim == 1)
    t.call('forward', m._forwardImplementation, vec('x', 0), y)
    t.prove('output is one', at(y, 0) == 1)


@task('C04', 'SoftmaxLayer', functions=[MOD + 'softmax.SoftmaxLayer._forwardImplementation',
                                        MOD + 'softmax.SoftmaxLayer._backwardImplementation'])
def _(t):
    c = t.cls(MOD + 'softmax', 'SoftmaxLayer')
    n = dim()
    m = t.call('init', c, n)
    x, y, e, ie = vec('x', n), vec('y0', n), vec('e', n), vec('ie0', n)
    k = index(n)
    C.forall(1, lambda j: sym_and(at(x, j) > -500, at(x, j) < 500))
    C.assume(bounded(at(x, k)))
    t.call('forward', m._forwardImplementation, x, y)
    z = S(Sum(n, lambda j: exp(at(x, j))))
    t.prove('normaliser is positive', z > 0, kind='aux')
    t.prove('proportional to the exponentials', at(y, k) * z == exp(at(x, k)))
    t.prove('output positive', at(y, k) > 0)
    t.prove('outputs sum to one', S(Sum(n, lambda j: at(y, j))) == 1)
    t.call('backward', m._backwardImplementation, e, ie, y, x)
    t.prove('error passed on', at(ie, k) == at(e, k))


def gate(cls, indim, outdim, outs):
    """outs(k, x, n) -> list of (output index, expected output term)"""
    @task('C04', cls, functions=[MOD + 'gate.' + cls + '._forwardImplementation',
                                 MOD + 'gate.' + cls + '._backwardImplementation'])
    def _(t):
        c = t.cls(MOD + 'gate', cls)
        n = dim()
        m = t.call('init', c, n)
        ni, no = indim(n), outdim(n)
        t.prove('sizes', sym_and(m.indim == ni, m.outdim == no))
        x = vec('x', ni)
        k = index(n)
        ins = [k + n * q for q in range(0, 2)] if simp(T(ni)).eq(simp(T(2 * n))) else [k]
        C.forall(1, lambda j: bounded(at(x, j)))
        for i in ins:
            C.assume(bounded(at(x, i)))
        # buffers as the framework provides them: zero before the pass
        y, ie = A.zeros((no,)), A.zeros((ni,))
        e = vec('e', no)
        x0, e0 = x.copy(), e.copy()
        t.call('forward', m._forwardImplementation, x, y)
        for j, (oi, want) in enumerate(outs(k, x, n)):
            t.prove('output %d is the defined function' % j, at(y, oi) == want)
        t.call('backward', m._backwardImplementation, e, ie, y, x)
        for q, i in enumerate(ins):
            want = 0
            for oi, w in outs(k, x, n):
                want = want + diff(w, at(x, i)) * at(e, oi)
            t.prove('propagated error %d is the transposed Jacobian times the error' % q, at(ie, i) == want)
        same_vec(t, 'input', x, x0, ni)
        same_vec(t, 'output error', e, e0, no)
        # a second pass over used buffers
        x2 = vec('x2', ni)
        C.forall(1, lambda j: bounded(at(x2, j)))
        for i in ins:
            C.assume(bounded(at(x2, i)))
        t.call('second forward', m._forwardImplementation, x2, y)
        for j, (oi, want) in enumerate(outs(k, x2, n)):
            t.prove('output %d of a second activation depends on its own input only' % j, at(y, oi) == want)


two = lambda n: 2 * n
one = lambda n: n
gate('MultiplicationLayer', two, one, lambda k, x, n: [(k, at(x, k) * at(x, k + n))])
gate('GateLayer', two, one, lambda k, x, n: [(k, sig(at(x, k)) * at(x, k + n))])
gate('DoubleGateLayer', two, two, lambda k, x, n: [(k, sig(at(x, k)) * at(x, k + n)),
                                                   (k + n, (1 - sig(at(x, k))) * at(x, k + n))])
gate('SwitchLayer', one, two, lambda k, x, n: [(k, sig(at(x, k))), (k + n, 1 - sig(at(x, k)))])


@task('C04', 'PartialSoftmaxLayer', functions=[MOD + 'softmax.PartialSoftmaxLayer._forwardImplementation'])
def _(t):
    c = t.cls(MOD + 'softmax', 'PartialSoftmaxLayer')
    q, s = dim('slices'), dim('slicelength')
    n = q * s
    m = t.call('init', c, n, s)
    x, y, e, ie = vec('x', n), vec('y0', n), vec('e', n), vec('ie0', n)
    a, b = index(q, 'a'), index(s, 'b')
    C.forall(1, lambda j: bounded(at(x, j)))
    k = a * s + b
    C.assume(sym_and(k >= 0, k < n, bounded(at(x, k))))
    t.call('forward', m._forwardImplementation, x, y)
    z = S(Sum(s, lambda j: exp(at(x, a * s + j))))
    C.assume(z > 0)       # a sum of exponentials
    t.prove('proportional to the exponentials of its slice', at(y, k) * z == exp(at(x, k)))
    t.call('backward', m._backwardImplementation, e, ie, y, x)
    t.prove('error passed on', at(ie, k) == at(e, k))


LSTM_BUFS = ['ingate', 'outgate', 'forgetgate', 'ingatex', 'outgatex', 'forgetgatex', 'state',
             'ingateError', 'outgateError', 'forgetgateError', 'stateError']


def lstm(peep, first):
    @task('C04', 'LSTMLayer%s%s' % (' with peepholes' if peep else '', ', first step' if first else ', later step'),
          functions=[MOD + 'lstm.LSTMLayer.' + f for f in ('_forwardImplementation', '_backwardImplementation',
                                                           '_setParameters', '_setDerivatives', '_isLastTimestep')],
          timeout=12000, limit=120)
    def _(t):
        c = t.cls(MOD + 'lstm', 'LSTMLayer')
        n = dim()
        m = t.call('init', c, n, peep)
        t.prove('sizes', sym_and(m.indim == 4 * n, m.outdim == n))
        if first:
            st = 0
            L = dim('L', 2)
        else:
            st = dim('t', 1)
            L = C.int('L')
            C.assume(L >= st + 2)
        for nm in LSTM_BUFS:
            setattr(m, nm, vec(nm, L, n))
        m.offset = st
        mo = C.int('maxoffset')
        C.assume(mo >= 0)
        m.maxoffset = mo
        k = index(n)
        x, y, e, ie = vec('x', 4 * n), vec('y0', n), vec('e', n), vec('ie0', 4 * n)
        C.forall(1, lambda j: bounded(at(x, j)))
        xi, xf, xc, xo = [at(x, k + n * q) for q in range(4)]
        prev = 0 if first else at(m.state, st - 1, k)
        pi = pf = po = 0
        if peep:
            P = vec('p', 3 * n)
            D = vec('d', 3 * n)
            t.call('set parameters', m._setParameters, P)
            t.call('set derivatives', m._setDerivatives, D)
            pi, pf, po = [at(P, k + n * q) for q in range(3)]
            D0 = D.copy()
            P0 = P.copy()
        ri, rf = xi + pi * prev, xf + pf * prev
        C.assume(sym_and(bounded(ri), bounded(rf)))
        s = sig(ri) * tanh(xc) + sig(rf) * prev
        C.assume(bounded(xo + po * s))
        x0, e0, state0 = x.copy(), e.copy(), m.state.copy()
        r = index(L, 'r')
        t.call('forward', m._forwardImplementation, x, y)
        t.prove('cell state', at(m.state, st, k) == s)
        out = lambda s_: sig(xo + po * s_) * tanh(s_)
        t.prove('cell output', at(y, k) == out(s))
        t.prove('other rows of the state are kept', sym_implies(r != st, at(m.state, r, k) == at(state0, r, k)))
        last = m.maxoffset == st + 1
        nxt = (at(m.stateError, st + 1, k) * at(m.forgetgate, st + 1, k)
               + at(m.ingateError, st + 1, k) * pi + at(m.forgetgateError, st + 1, k) * pf)
        nxt = ite(last, 0, nxt)
        fe0 = 0 if not first else at(m.forgetgateError, 0, k)
        t.call('backward', m._backwardImplementation, e, ie, y, x)
        # the chain rule, with the derivatives taken from the forward equations
        E = at(e, k)
        ds = E * diff_at(out, s) + nxt
        t.prove('state error', at(m.stateError, st, k) == ds)
        t.prove('error of the output gate', at(ie, k + 3 * n) == E * diff(out(s), xo))
        t.prove('error of the cell input', at(ie, k + 2 * n) == ds * diff(s, xc))
        t.prove('error of the input gate', at(ie, k) == ds * diff(s, xi))
        t.prove('error of the forget gate', at(ie, k + n) == (fe0 if first else ds * diff(s, xf)))
        if not first:
            t.prove('error handed to the previous step is the derivative by the previous state',
                    at(m.stateError, st, k) * at(m.forgetgate, st, k) + at(m.ingateError, st, k) * pi
                    + at(m.forgetgateError, st, k) * pf == ds * diff(s, prev))
        if peep:
            t.prove('gradient of the output gate peephole', at(D, k + 2 * n) == at(D0, k + 2 * n) + E * diff(out(s), po))
            gi = 0 if first else ds * diff(s, pi)
            gf = 0 if first else ds * diff(s, pf)
            t.prove('gradient of the input gate peephole', at(D, k) == at(D0, k) + gi)
            t.prove('gradient of the forget gate peephole', at(D, k + n) == at(D0, k + n) + gf)
            j = index(3 * n, 'pj')
            t.prove('weights are not written', at(P, j) == at(P0, j))
        same_vec(t, 'input', x, x0, 4 * n)
        same_vec(t, 'output error', e, e0, n)


for _p in (False, True):
    for _f in (True, False):
        lstm(_p, _f)


def mdlstm(peep, D):
    @task('C04', 'MDLSTMLayer %d-dimensional%s' % (D, ' with peepholes' if peep else ''),
          functions=[MOD + 'mdlstm.MDLSTMLayer.' + f for f in ('_forwardImplementation', '_backwardImplementation',
                                                               '_setParameters', '_setDerivatives')],
          timeout=12000, limit=120)
    def _(t):
        c = t.cls(MOD + 'mdlstm', 'MDLSTMLayer')
        n = dim()
        m = t.call('init', c, n, D, peep)
        t.prove('sizes', sym_and(m.indim == (3 + 2 * D) * n, m.outdim == 2 * n))
        L = dim('L', 1)
        st = index(L, 't')
        for nm in LSTM_BUFS:
            setattr(m, nm, vec(nm, L, n * D if nm.startswith('forgetgate') else n))
        m.offset = st
        k = index(n)
        x, y, e, ie = vec('x', (3 + 2 * D) * n), vec('y0', 2 * n), vec('e', 2 * n), vec('ie0', (3 + 2 * D) * n)
        C.forall(1, lambda j: bounded(at(x, j)))
        xi, xc, xo = at(x, k), at(x, k + n * (1 + D)), at(x, k + n * (2 + D))
        xf = [at(x, k + n * (1 + q)) for q in range(D)]
        prev = [at(x, k + n * (3 + D + q)) for q in range(D)]
        pi = po = 0
        pf = [0] * D
        if peep:
            P, Q = vec('p', (2 + D) * n), vec('d', (2 + D) * n)
            t.call('set parameters', m._setParameters, P)
            t.call('set derivatives', m._setDerivatives, Q)
            pi, po = at(P, k), at(P, k + n * (1 + D))
            pf = [at(P, k + n * (1 + q)) for q in range(D)]
            Q0, P0 = Q.copy(), P.copy()
        ri = xi
        for q in range(D):
            ri = ri + pi * prev[q]
        rf = [xf[q] + pf[q] * prev[q] for q in range(D)]
        C.assume(sym_and(bounded(ri), *[bounded(r) for r in rf]))
        s = sig(ri) * tanh(xc)
        for q in range(D):
            s = s + sig(rf[q]) * prev[q]
        C.assume(bounded(xo + po * s))
        x0, e0 = x.copy(), e.copy()
        t.call('forward', m._forwardImplementation, x, y)
        out = lambda s_: sig(xo + po * s_) * tanh(s_)
        t.prove('cell output', at(y, k) == out(s))
        t.prove('state handed on', at(y, k + n) == s)
        t.call('backward', m._backwardImplementation, e, ie, y, x)
        E = at(e, k)
        ds = E * diff_at(out, s) + at(e, k + n)
        t.prove('error of the input gate', at(ie, k) == ds * diff(s, xi))
        t.prove('error of the cell input', at(ie, k + n * (1 + D)) == ds * diff(s, xc))
        t.prove('error of the output gate', at(ie, k + n * (2 + D)) == E * diff(out(s), xo))
        for q in range(D):
            t.prove('error of forget gate %d' % q, at(ie, k + n * (1 + q)) == ds * diff(s, xf[q]))
            t.prove('error of previous state %d' % q, at(ie, k + n * (3 + D + q)) == ds * diff(s, prev[q]))
        if peep:
            t.prove('gradient of the output gate peephole', at(Q, k + n * (1 + D)) == at(Q0, k + n * (1 + D)) + E * diff(out(s), po))
            t.prove('gradient of the input gate peephole', at(Q, k) == at(Q0, k) + ds * diff(s, pi))
            for q in range(D):
                t.prove('gradient of forget gate peephole %d' % q,
                        at(Q, k + n * (1 + q)) == at(Q0, k + n * (1 + q)) + ds * diff(s, pf[q]))
            j = index((2 + D) * n, 'pj')
            t.prove('weights are not written', at(P, j) == at(P0, j))
        same_vec(t, 'input', x, x0, (3 + 2 * D) * n)
        same_vec(t, 'output error', e, e0, 2 * n)


for _p in (False, True):
    for _d in (1, 2):
        mdlstm(_p, _d)
