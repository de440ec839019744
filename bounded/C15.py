"""Bounded contract checks for C15: helper functions against their definitions."""
from lib import *
import math
import itertools
import numpy as np
from pybrain.utilities import *
from pybrain import utilities as U
from pybrain.tools import functions as F


class fixed_random(object):
    """a fixed draw of random()"""

    def __init__(self, r):
        self.r = r

    def __enter__(self):
        self.old = U.random
        U.random = lambda: self.r

    def __exit__(self, *a):
        U.random = self.old


@check('one-of-n and Gray coding', n=60)
def _(rng, it):
    n = rng.randint(1, 9)
    v = rng.randrange(n)
    a = one_to_n(v, n)
    expect(a.tolist() == [float(k == v) for k in range(n)], 'one-of-n', got=a)
    expect(n_to_one(a) == v, 'back from one-of-n', got=n_to_one(a))
    size = rng.choice([rng.randint(1, 12), rng.randint(13, 70)])
    i = rng.randrange(2 ** size)
    g = int2gray(i)
    expect(gray2int(g, size) == i, 'back from Gray coding', got=gray2int(g, size), expected=i)
    if i:
        expect(bin(int2gray(i - 1) ^ g).count('1') == 1, 'Gray codes of neighbours differ in one bit', number=i)
    expect(asBinary(i) == bin(i)[2:], 'binary representation', got=asBinary(i))


@check('drawIndex', n=250)
def _(rng, it):
    n = rng.randint(1, 6)
    p = np.array([rng.choice([0., rng.random()]) for _ in range(n)])
    if p.sum() <= 0:
        p[rng.randrange(n)] = 1.
    p /= p.sum()
    tol = rng.random() < .4
    if tol:
        p = p * rng.choice([1, 3., .2])
        if rng.random() < .3:
            p = np.array([int(x * 10) for x in p])
            if not p.sum():
                p[0] = 1
    elif rng.random() < .5:
        p *= 1 - 5e-6
    keep = p.copy()
    q = p / float(p.sum()) if tol and abs(p.sum() - 1) > 1e-5 else p
    r = rng.choice([0., rng.random(), .9999999, .999996])
    if rng.random() < .3:
        r = min(max(sum(q[:rng.randint(0, n)]), 0), .9999999)      # exactly at a boundary
    with fixed_random(r):
        i = drawIndex(p, tolerant=tol)
    expect(0 <= i < n and q[i] > 0, 'an index of positive probability', p=q, draw=r, got=i)
    c = np.cumsum(q)
    if r < c[-1] - 1e-12 and abs(c - r).min() > 1e-12:
        expect(i == int(np.argmax(c > r)), 'the index whose interval holds the draw', p=q, draw=r, got=i)
    expect_same(p, keep, 'the probabilities stay as they are')
    if not tol:
        bad = p * rng.choice([.5, 1.5])
        expect_raises(ValueError, drawIndex, 'not a distribution', bad)


@check('drawGibbs', n=100)
def _(rng, it):
    n = rng.randint(1, 6)
    v = np.array([rng.choice([rng.uniform(-3, 3), 1., 2., 2. - 1e-13, 1e-300]) for _ in range(n)])
    keep = v.copy()
    got = set(drawGibbs(v, 0) for _ in range(30))
    best = set(k for k in range(n) if v[k] == max(v))
    expect(got <= best, 'at temperature zero one of a largest value', got=got, values=v)
    t = rng.choice([.001, .1, 1., 100.])
    i = drawGibbs(v, t)
    expect(0 <= i < n, 'an index')
    x = v / t
    x = np.maximum(x + 20 - x.max(), -20)
    pr = np.exp(x) / np.exp(x).sum()
    r = rng.random()
    c = np.cumsum(pr)
    if abs(c - r).min() > 1e-9:
        with fixed_random(r):
            expect(drawGibbs(v, t) == int(np.argmax(c > r)), 'softmax probabilities', values=v, temperature=t, draw=r)
    expect_same(v, keep, 'the values stay as they are')


@check('triangular packing', n=60)
def _(rng, it):
    n = rng.randint(1, 6)
    m = np.array([[rng.uniform(-1, 1) for _ in range(n)] for _ in range(n)])
    keep = m.copy()
    f = triu2flat(m)
    expect(list(f) == [m[i, j] for i in range(n) for j in range(i, n)], 'packed row by row', got=f)
    expect_same(flat2triu(f, n), np.triu(m), 'unpacked again')
    u = np.array([rng.uniform(-1, 1) for _ in range(n * (n + 1) // 2)])
    expect_same(triu2flat(flat2triu(u, n)), u, 'packed again')
    expect_same(m, keep, 'the matrix stays as it is')


@check('permutations and blocks', n=80)
def _(rng, it):
    bd, bh, bw = rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 3)
    nd, nh, nw = rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 3)
    a = np.arange(nh * bh * nw * bw).reshape(nh * bh, nw * bw)
    want = [a[y * bh + i, x * bw + j] for y in range(nh) for x in range(nw) for i in range(bh) for j in range(bw)]
    expect(list(permuteToBlocks(a, (bh, bw))) == want, 'blocks of two dimensions', got=permuteToBlocks(a, (bh, bw)), expected=want)
    a = np.arange(nd * bd * nh * bh * nw * bw).reshape(nd * bd, nh * bh, nw * bw)
    want = [a[z * bd + k, y * bh + i, x * bw + j] for z in range(nd) for y in range(nh) for x in range(nw)
            for k in range(bd) for i in range(bh) for j in range(bw)]
    keep = a.copy()
    expect(list(permuteToBlocks(a, (bd, bh, bw))) == want, 'blocks of three dimensions', shape=a.shape, block=(bd, bh, bw))
    expect_same(a, keep, 'the array stays as it is')
    p = list(range(len(a)))
    rng.shuffle(p)
    expect_same(permute(a, p), a[p], 'permute')
    ms = [np.array([[rng.random() for _ in range(d)] for _ in range(d)]) for d in [rng.randint(1, 3) for _ in range(rng.randint(1, 3))]]
    b = blockList2Matrix(ms)
    want = np.zeros((sum(map(len, ms)),) * 2)
    k = 0
    for m in ms:
        want[k:k + len(m), k:k + len(m)] = m
        k += len(m)
    expect_same(b, want, 'block diagonal matrix')
    hs, vs = [rng.randint(1, 3) for _ in range(rng.randint(1, 3))], [rng.randint(1, 3) for _ in range(rng.randint(1, 3))]
    l = [[np.array([[rng.random() for _ in range(h)] for _ in range(v)]) for h in hs] for v in vs]
    expect_same(blockCombine(l), np.vstack([np.hstack(r) for r in l]), 'combined blocks')


@check('scaling and counting', n=80)
def _(rng, it):
    n = rng.randint(1, 6)
    d = np.array([rng.choice([rng.uniform(-9, 9), 1., 2]) for _ in range(n)])
    keep = d.copy()
    lo, hi = sorted([rng.uniform(-3, 3), rng.uniform(-3, 3)])
    r = linscale(d, (lo, hi))
    w = float(d.max() - d.min())
    expect_close(r, lo + (d - d.min()) * ((hi - lo) / w if w else 0), 'linear scaling')
    expect_same(d, keep, 'the data stay as they are')
    a, b = [rng.randrange(3) for _ in range(n)], [rng.randrange(3) for _ in range(n)]
    want = 100. * sum(x != y for x, y in zip(a, b)) / n
    expect_close(percentError(rng.choice([list, np.array])(a), b), want, 'percentage of differing entries')
    k = F.ranking(rng.choice([list, np.array])(d))
    want = [sum(1 for j in range(n) if d[j] < d[i] or (d[j] == d[i] and j < i)) for i in range(n)]
    expect(list(k) == want, 'rank of every value', got=k, expected=want, values=d)
    t = tuple(rng.randint(1, 4) for _ in range(rng.randint(1, 3)))
    expect(list(iterCombinations(t)) == list(itertools.product(*map(range, t))), 'all index tuples', dims=t)
    ss = [[rng.randint(0, 9) for _ in range(q)] for q in t]
    expect(crossproduct(ss) == [list(x) for x in itertools.product(*ss)], 'cross product', sets=ss)
    c = rng.randrange(len(t))
    expect(tupleRemoveItem(t, c) == t[:c] + t[c + 1:], 'removing an item of a tuple')
    z = tuple(q - 1 for q in t)
    expect(sorted(decrementAny(z)) == sorted(z[:i] + (z[i] - 1,) + z[i + 1:] for i in range(len(z)) if z[i] > 0), 'one step down')


@check('graphs', n=80)
def _(rng, it):
    n = rng.randint(1, 8)
    g = dict((k, [j for j in range(n) if rng.random() < .25]) for k in range(n))
    und = dict((k, [j for j in range(n) if j in g[k] or k in g[j]]) for k in range(n))
    init = rng.sample(range(n), rng.randint(1, n))
    seen = set(init)
    todo = list(init)
    while todo:
        for j in und[todo.pop()]:
            if j not in seen:
                seen.add(j)
                todo.append(j)
    expect(set(flood(lambda k: und[k], range(n), init)) == seen and set(flood(lambda k: und[k], None, init)) == seen, 'flooded set', graph=und, start=init)
    # destinations stop the search
    start = rng.sample(range(n), rng.randint(1, min(3, n)))
    dest = rng.sample(range(n), rng.randint(1, n))
    dist = dict((s, 0) for s in start)
    level, front = 0, [s for s in start if s not in dest]
    while front:
        level += 1
        nxt = set(j for k in front for j in g[k] if j not in dist)
        for j in nxt:
            dist[j] = level
        front = [j for j in nxt if j not in dest]
    want = dict((k, v) for k, v in dist.items() if k in dest)
    for mk in (list, set):
        s0 = mk(start)
        got = reachable(lambda k: g[k], s0, list(dest))
        expect(got == want, 'reachable destinations and their distances', graph=g, start=start, destinations=dest, got=got, expected=want)
        expect(s0 == mk(start), 'the start positions stay as they are')


@check('elementary functions', n=120)
def _(rng, it):
    xs = [rng.choice([0., rng.uniform(-5, 5), rng.uniform(-400, 400), 1e-9, -1e-9]) for _ in range(rng.randint(1, 5))]
    x = np.array(xs)
    keep = x.copy()
    e = [math.exp(v) for v in xs]
    sg = [1 / (1 + math.exp(-v)) for v in xs]
    expect_close(F.safeExp(x), e, 'safe exponential')
    expect_close(F.sigmoid(x), sg, 'logistic function')
    expect_close(F.sigmoidPrime(x), [s * (1 - s) for s in sg], 'derivative of the logistic function')
    expect_close(F.tanhPrime(x), [1 - math.tanh(v) ** 2 for v in xs], 'derivative of tanh')
    for w in (rng.uniform(-499, -20), rng.uniform(20, 499)):
        expect(abs(F.safeExp(w) / math.exp(w) - 1) < 1e-9, 'safe exponential far from zero', argument=w, got=F.safeExp(w))
        expect_close(F.sigmoid(w), 1 / (1 + math.exp(-w)), 'logistic function far from zero')
        expect_close(F.sigmoidPrime(w), math.exp(-abs(w)) / (1 + math.exp(-abs(w))) ** 2, 'its derivative far from zero')
    for big in (1e5, -1e5):
        expect(np.isfinite(F.safeExp(big)) and np.isfinite(F.sigmoid(big)), 'no overflow')
    sl = [v + 1 if v >= 0 else math.exp(v) for v in xs]
    slp = [1 if v >= 0 else math.exp(v) for v in xs]
    expect_close(F.semilinear(x), sl, 'semilinear function')
    expect_close(F.semilinearPrime(x), slp, 'derivative of the semilinear function')
    expect_close(F.semilinear(xs), [sl], 'semilinear function of a list')
    m = np.array([xs, xs])
    expect_close(F.semilinear(m), [sl, sl], 'semilinear function of a matrix')
    expect_close(F.semilinearPrime(m), [slp, slp], 'derivative of the semilinear function of a matrix')
    expect_close(F.expln(x), [math.log(v + 1) + 1 if v >= 0 else math.exp(v) for v in xs], 'expln')
    expect_close(F.explnPrime(x), [1 / (v + 1) if v >= 0 else math.exp(v) for v in xs], 'derivative of expln')
    expect_close(F.expln(xs[0]), math.log(xs[0] + 1) + 1 if xs[0] >= 0 else math.exp(xs[0]), 'expln of a number')
    expect_same(x, keep, 'the argument stays as it is')


@check('matrices and densities', n=40)
def _(rng, it):
    n = rng.randint(1, 4)
    a = np.array([[rng.uniform(-1, 1) for _ in range(n)] for _ in range(n)])
    m = np.dot(a, a.T) + np.eye(n) * .5
    s = F.sqrtm(m)
    expect_close(s, s.T, 'square root is symmetric', tol=1e-6)
    expect_close(np.dot(s, s), m, 'square root of a matrix', tol=1e-5)
    z, x = np.array([rng.uniform(-1, 1) for _ in range(n)]), np.array([rng.uniform(-1, 1) for _ in range(n)])
    d = z - x
    want = math.exp(-.5 * np.dot(d, np.linalg.solve(m, d))) / math.sqrt((2 * math.pi) ** n * np.linalg.det(m))
    expect_close(F.multivariateNormalPdf(z, x, m), want, 'normal density', tol=1e-6)
    f = np.linalg.cholesky(m)
    expect_close(F.simpleMultivariateNormalPdf(np.linalg.solve(f, d), np.linalg.det(f)), want, 'transformed normal density', tol=1e-6)


@check('decorators', n=40)
def _(rng, it):
    calls = []

    def f(*a, **k):
        calls.append(a)
        return (sum(a), tuple(sorted(k.items())), len(calls))
    g = memoize(f)
    seen = {}
    for _ in range(12):
        a, k = tuple(rng.randint(0, 2) for _ in range(rng.randint(0, 2))), ({'z': rng.randint(0, 1)} if rng.random() < .5 else {})
        r = g(*a, **k)
        key = a, tuple(k.items())
        expect(r[:2] == (sum(a), tuple(k.items())), 'memoized result')
        expect(r == seen.setdefault(key, r), 'one evaluation per argument list')
    expect(len(calls) == len(seen), 'evaluates once for every argument list')
    vals = [rng.uniform(-1, 1) for _ in range(rng.randint(1, 5))]
    q = iter(vals)
    expect_close(multiEvaluate(len(vals))(lambda: next(q))(), sum(vals) / len(vals), 'average of repeated evaluations')


@check('first encounters', n=60)
def _(rng, it):
    lists = [[rng.randint(0, 9) for _ in range(rng.randint(1, 8))] for _ in range(rng.randint(1, 4))]
    targets = sorted([rng.randint(0, 9) for _ in range(rng.randint(1, 4))], reverse=True)
    longest = max(map(len, lists))
    b = rng.randint(1, 3)
    first = [[next((i for i, v in enumerate(l) if v <= t), longest) for l in lists] for t in targets]
    expect_close(avgFoundAfter(targets, lists, b), [b * sum(r) / float(len(r)) for r in first], 'average first encounter', targets=targets, lists=lists)
    expect_close(avgFoundAfter(targets, lists, b, useMedian=True), [b * float(np.median(r)) for r in first], 'median first encounter', targets=targets, lists=lists)


@check('maxima and dictionaries', n=80)
def _(rng, it):
    n = rng.randint(1, 6)
    v = rng.choice([list, np.array])([rng.choice([rng.uniform(-1, 1), .5, 2.]) for _ in range(n)])
    best = [i for i in range(n) if all(v[i] >= x for x in v)]
    expect(all_argmax(v) == best, 'all largest ones', values=v, got=all_argmax(v))
    got = set(r_argmax(v) for _ in range(100))
    expect(got == set(best), 'any of the largest ones', values=v, got=got)
    d = dict((rng.choice('abcd'), rng.randint(0, 3)) for _ in range(rng.randint(0, 4)))
    sel = dict((rng.choice('abcd'), rng.choice([rng.randint(0, 3), [rng.randint(0, 3) for _ in range(2)]])) for _ in range(rng.randint(0, 3)))
    strict = rng.random() < .5
    fits = lambda k, w: (d[k] in w if isinstance(w, list) else d[k] == w) if k in d else not strict
    keep = dict(d), dict(sel)
    expect(matchingDict(d, sel, strict) == all(fits(k, w) for k, w in sel.items()), 'matching dictionary', d=d, selection=sel, strict=strict)
    keys = [k for k in 'abcd' if rng.random() < .5]
    expect(subDict(d, keys) == dict((k, w) for k, w in d.items() if k in keys), 'part of a dictionary', d=d, keys=keys)
    expect(subDict(d, keys, flip=True) == dict((k, w) for k, w in d.items() if k not in keys), 'the other part of a dictionary', d=d, keys=keys)
    opts = dict((k, rng.choice([[rng.randint(0, 3) for _ in range(rng.randint(1, 3))], 7, (1, 2)])) for k in 'abc' if rng.random() < .6)
    same_opts = dict(opts)
    got = list(dictCombinations(opts))
    lists = [sorted(set(w)) if isinstance(w, (list, tuple)) else [w] for w in opts.values()]
    want = [dict(zip(opts, c)) for c in itertools.product(*lists)]
    o = lambda l: sorted(tuple(sorted(x.items())) for x in l)
    expect(o(got) == o(want), 'all combinations', options=opts, got=got)
    expect((d, sel) == keep and opts == same_opts, 'the dictionaries stay as they are')
    arrs = [np.array([rng.randint(0, 1), rng.randint(0, 1)], float) for _ in range(rng.randint(0, 6))]
    got = uniqueArrays(arrs)
    expect(sorted(map(tuple, got)) == sorted(set(map(tuple, arrs))), 'different arrays', arrays=arrs, got=got)
    bits = [rng.randint(0, 1) for _ in range(8 * rng.randint(1, 10))]
    expect(int(binArr2int(np.array(bits))) == int(''.join(map(str, bits)), 2) if len(bits) <= 56 else True, 'number of a bit array', bits=bits)
    for ext, kind in known_extensions.items():
        expect(formatFromExtension('some/file.%s' % ext) == kind, 'format of a file name')
    expect(formatFromExtension('some/file') is None and formatFromExtension('some/file.zzz') is None, 'unknown format of a file name')


@check('orthogonal matrices and tests', n=40)
def _(rng, it):
    n = rng.randint(1, 7)
    m = dense_orth(n)
    expect(m.shape == (n, n), 'size of an orthogonal matrix')
    expect_close(np.dot(m, m.T), np.eye(n), 'orthogonal matrix', tol=1e-6)
    m = np.asarray(sparse_orth(n).todense())
    expect_close(np.dot(m, m.T), np.eye(n), 'sparse orthogonal matrix', tol=1e-6)
    expect(n == 1 or (abs(m) > 1e-12).sum() >= 2 * n, 'mixes all coordinates', matrix=m)
    expect(F.multivariateCauchy(np.ones(n), np.eye(n) * 2).shape == (n,), 'Cauchy sample')
    expect_close(F.multivariateCauchy(np.ones(n), np.eye(n) * 0, rng.random() < .5), np.ones(n), 'Cauchy sample without deviation')
    expect_close(F.approxChiFunction(n), math.sqrt(2) * math.gamma((n + 1) / 2.) / math.gamma(n / 2.), 'expected length', tol=2e-2)
    a = [rng.uniform(0, 1) for _ in range(rng.randint(2, 6))]
    b = [rng.choice([rng.uniform(0, 1), a[0]]) for _ in range(rng.randint(2, 6))]
    wa, wb = [rng.uniform(.5, 3) for _ in a], [rng.uniform(.5, 3) for _ in b]
    c = weightedUtest(a, wa, b, wb)
    expect(0 <= c <= 1, 'a confidence level')
    expect_close(weightedUtest(b, wb, a, wa), 1 - c, 'the opposite assertion')
    expect_close(weightedUtest(a + a[:1], [wa[0] / 2] + wa[1:] + [wa[0] / 2], b, wb), c, 'one entry or two with half the weight')
    expect_close(weightedUtest(a, wa, a, wa), .5, 'equal groups')
    n1, n2 = sum(wa), sum(wb)
    u = sum(x * y * (.5 if p == q else float(p < q)) for p, x in zip(a, wa) for q, y in zip(b, wb))
    z = (u - n1 * n2 / 2) / math.sqrt(n1 * n2 * (n1 + n2 + 1) / 12)
    expect_close(c, (1 + math.erf(z / math.sqrt(2))) / 2, 'confidence that the second group is higher', first=a, second=b, weights=(wa, wb))


if __name__ == '__main__':
    main()
