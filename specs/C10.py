"""Gradient descent applies exactly the documented update rule.

GradientDescent.__init__, init and __call__ are under contract for a symbolic number of
parameters and an arbitrary state: an arbitrary coordinate of the returned values, of the
remembered step / step size and of the remembered gradient is compared with the update
rule. The state invariant (lengths; step sizes within the configured bounds) is assumed
before and proved after every call, so the clauses hold for every history of calls."""
from .common import *

G = 'pybrain.auxiliary.gradientdescent.GradientDescent.'
FN = [G + '__init__', G + 'init', G + '__call__']


def sgn(x):
    return ite(x > 0, 1, ite(x < 0, -1, 0))


def fresh_gd(t, n, rprop):
    g = t.call('construction', t.cls('pybrain.auxiliary.gradientdescent', 'GradientDescent'))
    v = vec('values', n)
    v0 = v.copy()
    g.rprop = rprop
    t.call('init', g.init, v)
    k = index(n, 'ik')
    t.prove('init copies the values', at(g.values, k) == at(v0, k))
    t.prove('init does not modify the values handed in', at(v, k) == at(v0, k))
    g.values[k] = at(v0, k) + 1
    t.prove('init keeps its own copy', at(v, k) == at(v0, k))
    return g


@task('C10', 'first call after init', functions=FN)
def _(t):
    n = dim('n')
    for rprop in (False, True):
        g = fresh_gd(t, n, rprop)
        g.alpha, g.alphadecay, g.momentum = C.real('alpha'), C.real('decay'), C.real('momentum')
        k = index(n, 'k')
        grad = vec('gradient', n)
        g0, a0, v0 = grad.copy(), g.alpha, g.values.copy()
        r = t.call('step', g, grad)
        x = at(g0, k)
        if rprop:
            t.prove('rprop: first step moves by the initial step size', at(r, k) == at(v0, k) + S(sgn(x)) * g.deltanull)
        else:
            t.prove('plain: first step adds rate times gradient', at(r, k) == at(v0, k) + a0 * x)
        # re-initialising forgets everything
        g.alpha, g.deltanull = a0, C.real('deltanull')
        w = vec('new values', n)
        t.call('init again', g.init, w)
        w0 = w.copy()
        r = t.call('step again', g, grad)
        x = at(g0, k)
        if rprop:
            t.prove('rprop: initialising again forgets the earlier steps', at(r, k) == at(w0, k) + S(sgn(x)) * g.deltanull)
        else:
            t.prove('plain: initialising again forgets the earlier steps', at(r, k) == at(w0, k) + a0 * x)


@task('C10', 'plain step from any state', functions=FN)
def _(t):
    n = dim('n')
    g = fresh_gd(t, n, False)
    g.alpha, g.alphadecay, g.momentum = C.real('alpha', show=True), C.real('decay', show=True), C.real('momentum', show=True)
    g.values, g.momentumvector = vec('values', n), vec('laststep', n)
    v0, m0, a0 = g.values.copy(), g.momentumvector.copy(), g.alpha
    grad = vec('gradient', n)
    g0 = grad.copy()
    r = t.call('step', g, grad)
    k = index(n, 'k')
    step = g.momentum * at(m0, k) + a0 * at(g0, k)
    t.prove('values grow by rate times gradient plus momentum times last step', at(r, k) == at(v0, k) + step)
    t.prove('number of values', slen(r) == n)
    t.prove('values are kept', at(g.values, k) == at(r, k))
    t.prove('last step is remembered', at(g.momentumvector, k) == step)
    t.prove('learning rate decays', g.alpha == a0 * g.alphadecay)
    t.prove('gradient handed in is not modified', at(grad, k) == at(g0, k))
    # the remembered state is not the gradient itself
    grad[k] = at(grad, k) + 1
    t.prove('remembered step is independent of the gradient handed in', at(g.momentumvector, k) == step)


@task('C10', 'resilient step from any state', functions=FN)
def _(t):
    n = dim('n')
    g = fresh_gd(t, n, True)
    for a in ('deltamax', 'deltamin', 'etaplus', 'etaminus'):
        setattr(g, a, C.real(a, show=True))
    C.assume(sym_and(g.deltamin > 0, g.deltamin <= g.deltamax, g.etaplus > 1, g.etaminus > 0, g.etaminus < 1))
    g.values, g.lastgradient, g.rprop_theta = vec('values', n), vec('lastgradient', n), vec('stepsize', n)
    v0, l0, s0 = g.values.copy(), g.lastgradient.copy(), g.rprop_theta.copy()
    grad = vec('gradient', n)
    g0 = grad.copy()
    k = index(n, 'k')
    C.assume(sym_and(at(s0, k) >= g.deltamin, at(s0, k) <= g.deltamax))
    r = t.call('step', g, grad)
    x, l, s = at(g0, k), at(l0, k), at(s0, k)
    t.prove('moves by the step size in the direction of the sign', at(r, k) == at(v0, k) + S(sgn(x)) * s)
    t.prove('number of values', slen(r) == n)
    t.prove('values are kept', at(g.values, k) == at(r, k))
    kept = sym_or(sym_and(x > 0, l > 0), sym_and(x < 0, l < 0))
    flip = sym_or(sym_and(x > 0, l < 0), sym_and(x < 0, l > 0))
    f = S(ite(kept, S(ite(s * g.etaplus > g.deltamax, g.deltamax, s * g.etaplus)),
              S(ite(flip, S(ite(s * g.etaminus < g.deltamin, g.deltamin, s * g.etaminus)), s))))
    t.prove('step size grows if the sign is kept, shrinks if it flipped, else stays', at(g.rprop_theta, k) == f)
    t.prove('step size stays within the bounds',
            sym_and(at(g.rprop_theta, k) >= g.deltamin, at(g.rprop_theta, k) <= g.deltamax))
    t.prove('remembered gradient is this one, or zero after a flip', at(g.lastgradient, k) == S(ite(flip, 0, x)))
    t.prove('gradient handed in is not modified', at(grad, k) == at(g0, k))
    grad[k] = at(grad, k) + 1
    t.prove('remembered gradient is independent of the one handed in', at(g.lastgradient, k) == S(ite(flip, 0, x)))


@task('C10', 'wrong length', functions=FN)
def _(t):
    n, m = dim('n'), dim('m')
    C.assume(n != m)
    for rprop in (False, True):
        g = fresh_gd(t, n, rprop)
        t.raises('gradient of another length', AssertionError, g, vec('gradient', m))
