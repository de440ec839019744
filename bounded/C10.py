"""Bounded contract checks for C10: GradientDescent against an independent simulation."""
from lib import *
import numpy as np
from pybrain.auxiliary.gradientdescent import GradientDescent


def vals(rng, n, zero=.25):
    return np.array([0. if rng.random() < zero else rng.uniform(-4, 4) for _ in range(n)])


def give(rng, g):
    """the gradient, in one of the accepted forms"""
    m = rng.randrange(3)
    return g if m == 0 else (list(g) if m == 1 else g.copy())


@check('plain descent', n=150)
def _(rng, it):
    n = rng.randint(1, 5)
    gd = GradientDescent()
    # the documented defaults
    a, dec, mom = .1, 1., 0.
    if rng.random() < .9:
        gd.alpha = a = rng.choice([.1, 1., rng.uniform(0, 3)])
        gd.alphadecay = dec = rng.choice([1., .9, rng.uniform(.1, 1)])
        gd.momentum = mom = rng.choice([0., .5, rng.uniform(0, 1)])
    for life in range(2):
        v = vals(rng, n)
        v0 = v.copy()
        gd.init(v)
        x, m = v0.copy(), np.zeros(n)
        grads = []
        for s in range(rng.randint(1, 6)):
            g = vals(rng, n)
            h = give(rng, g)
            h0 = np.array(h).copy()
            r = gd(h) if rng.random() < .5 else gd.descent(h, rng.random())
            m = m * mom + a * g
            a = a * dec
            x = x + m
            expect_close(r, x, 'plain: values after a step', step=s, life=life)
            expect_same(np.array(h), h0, 'plain: the gradient handed in is not modified')
            expect_close(gd.alpha, a, 'plain: learning rate decays after every step')
            if isinstance(h, np.ndarray):
                h[:] = 77.      # the caller reuses its buffer
        expect_same(v, v0, 'plain: the initial values are not modified')


@check('resilient descent', n=200)
def _(rng, it):
    n = rng.randint(1, 5)
    gd = GradientDescent()
    gd.rprop = True
    if rng.random() < .6:
        gd.etaplus, gd.etaminus = rng.uniform(1.05, 3), rng.uniform(.1, .95)
        gd.deltamin, gd.deltamax = sorted([rng.uniform(.001, 2), rng.uniform(.001, 2)])
        gd.deltanull = rng.uniform(gd.deltamin, gd.deltamax)
    else:
        expect((gd.etaplus, gd.etaminus) == (1.2, .5) and 0 < gd.deltamin <= gd.deltanull <= gd.deltamax, 'default factors and bounds')
    for life in range(2):
        v = vals(rng, n)
        v0 = v.copy()
        gd.init(v)
        x, d, last = v0.copy(), np.zeros(n) + gd.deltanull, np.zeros(n)
        for s in range(rng.randint(1, 9)):
            g = vals(rng, n)
            if rng.random() < .5:
                g = abs(g)
            if rng.random() < .2:
                g = np.array([float(int(q)) for q in g])
            h = give(rng, g)
            if rng.random() < .2 and not isinstance(h, list):
                h = np.array([int(q) for q in g])
                g = h.astype(float)
            h0 = np.array(h).copy()
            r = gd(h)
            for i in range(n):
                x[i] += d[i] * (1 if g[i] > 0 else -1 if g[i] < 0 else 0)
                p = last[i] * g[i]
                last[i] = g[i]
                if p > 0:
                    d[i] = d[i] * gd.etaplus
                elif p < 0:
                    d[i] = d[i] * gd.etaminus
                    last[i] = 0.
                d[i] = min(max(d[i], gd.deltamin), gd.deltamax)
            expect_close(r, x, 'rprop: values after a step', step=s, life=life)
            expect_same(np.array(h), h0, 'rprop: the gradient handed in is not modified')
            if isinstance(h, np.ndarray):
                h[:] = -h
        expect_same(v, v0, 'rprop: the initial values are not modified')


@check('lengths', n=10)
def _(rng, it):
    n = rng.randint(1, 5)
    gd = GradientDescent()
    gd.rprop = bool(it % 2)
    gd.init(vals(rng, n))
    expect_raises(Exception, gd, 'a gradient of another length is accepted', vals(rng, n + 1))


if __name__ == '__main__':
    main()
