"""Bounded contract checks for C17: fitness shaping, Pareto fronts, selection."""
from lib import *
import numpy as np
from pybrain.tools import rankingfunctions as RF
from pybrain.tools import nondominated as ND
from pybrain.optimization import GA, ES
from pybrain.optimization.populationbased.multiobjective import nsga2
from pybrain.optimization.populationbased.multiobjective import constnsga2
from pybrain.optimization.populationbased.coevolution.coevolution import Coevolution

SHAPES = ['RankingFunction', 'SmoothGiniRanking', 'ExponentialRanking', 'HansenRanking', 'TopSelection', 'TopLinearRanking', 'BilinearRanking']


def fitnesses(rng, n):
    if rng.random() < .5:
        R = [rng.choice([0., 1., -3.5, 2., rng.gauss(0, 1)]) for _ in range(n)]
    else:
        R = [rng.gauss(0, 10) for _ in range(n)]
    return R


@check('ranks', n=120)
def _(rng, it):
    n = rng.randint(1, 30)
    R = fitnesses(rng, n)
    if rng.random() < .3:
        R = [int(x) for x in R]
    keep = list(R)
    r = RF.rankedFitness(R if rng.random() < .5 else np.array(R))
    expect(sorted(r) == list(range(n)), 'every rank is given once', ranks=r, fitnesses=R)
    for i in range(n):
        below = sum(1 for x in R if x < R[i])
        same = sum(1 for x in R if x == R[i])
        expect(below <= r[i] < below + same, 'the number of individuals ordered before', ranks=r, fitnesses=R, individual=i)
    expect(R == keep, 'the fitnesses stay as they are')


@check('fitness shaping', n=250)
def _(rng, it):
    name = SHAPES[it % len(SHAPES)]
    n = rng.randint(2, 30)
    f = getattr(RF, name)()
    if rng.random() < .5:
        for a, lo, hi in [('gini', .05, 1.9), ('linearComponent', 0, 1), ('topFraction', 0, 1), ('bilinearFactor', 0, 50), ('temperature', 0, 20)]:
            if hasattr(f, a):
                setattr(f, a, rng.uniform(lo, hi))
    if name == 'TopLinearRanking':
        f.topFraction = max(f.topFraction, min(1., 1.5 / n))
    R = fitnesses(rng, n)
    keep = list(R)
    w = f(R if rng.random() < .5 else np.array(R))
    expect(len(w) == n and np.isfinite(w).all(), '%s: one weight each' % name, weights=w)
    for i in range(n):
        for j in range(n):
            if R[i] < R[j]:
                expect(w[i] <= w[j] + 1e-12 * abs(w[j]), '%s: no worse individual above a better one' % name, weights=w, fitnesses=R, pair=(i, j))
    best = [i for i in range(n) if R[i] == max(R)]
    if name != 'TopSelection' or f.topFraction * n >= 1.001:
        expect(max(w) > 0 and max(w[i] for i in best) == max(w), '%s: the best one has the largest weight' % name, weights=w, fitnesses=R)
    if name == 'TopSelection' and len(set(R)) == n and 0 <= f.topFraction <= 1:
        top = n * f.topFraction
        if rng.random() < .6:
            f.topFraction = rng.randint(0, 8) / 8.
            top = n * f.topFraction
            w = f(R)
            expect(sum(1 for x in w if x > 0) == int(top), 'TopSelection: as many as the fraction says', weights=w, fraction=f.topFraction)
        expect(abs(sum(1 for x in w if x > 0) - top) < 1 + 1e-9 and all(x in (0, 1) for x in w), 'TopSelection: the top fraction is selected', weights=w, fraction=f.topFraction)
    if name in ('RankingFunction', 'SmoothGiniRanking', 'TopLinearRanking', 'BilinearRanking'):
        expect(min(w) >= 0 and abs(max(w) - 1) < 1e-9, '%s: scaled to at most 1' % name, weights=w)
    expect(R == keep, 'the fitnesses stay as they are')
    if name == 'RankingFunction' and len(set(R)) > 1:
        v = RF.normalizedFitness(np.array(R))
        expect(all(v[i] < v[j] for i in range(n) for j in range(n) if R[j] - R[i] > 1e-6), 'normalized fitnesses keep the order', weights=v, fitnesses=R)
        expect(abs(v.mean()) < 1e-6 and abs(v.var() - 1) < 1e-6, 'normalized fitnesses', weights=v)


@check('tournaments', n=40)
def _(rng, it):
    n = rng.randint(2, 12)
    R = [float(x) for x in rng.sample(range(-20, 20), n)]
    w = RF.TournamentSelection()(R)
    expect(sum(w) == n and min(w) >= 0, 'one winner per tournament', weights=w)
    expect(w[R.index(max(R))] >= 1 and w[R.index(min(R))] == 0, 'the best one wins its own tournament, the worst one none', weights=w, fitnesses=R)


def vectors(rng, n):
    m = rng.choice([1, 2, 2, 3, 4])
    few = rng.random() < .5
    if m > 1 and rng.random() < .4:
        # close to one front: large fronts, ties across the halves
        w = rng.choice([n // 3 + 1, n])
        return [(lambda a: tuple([float(a), float(rng.choice([0, 0, 0, 1]) - a)] + [0.] * (m - 2)))(rng.randint(0, w)) for _ in range(n)]
    return [tuple(float(rng.randint(0, 3)) if few else rng.gauss(0, 1) for _ in range(m)) for _ in range(n)]


def dominates(a, b, strict):
    """a is below b (these functions take smaller for better)"""
    return all(x < y for x, y in zip(a, b)) if strict else all(x <= y for x, y in zip(a, b))


def check_front(front, items, key, strict, what):
    front = set(front)
    expect(front <= set(items), '%s: members of the given individuals' % what)
    for x in items:
        beaten = [y for y in items if y != x and dominates(key(y), key(x), strict)]
        if strict:
            expect((x in front) == (not beaten), '%s: exactly those that nobody dominates' % what, individual=(x, key(x)), by=beaten[:1])
        elif x in front:
            expect(not any(y in front for y in beaten) and all(key(y) == key(x) for y in beaten), '%s: members are not dominated' % what, individual=(x, key(x)), by=beaten[:1])
        else:
            expect(any(y in front for y in beaten), '%s: others are dominated by a member' % what, individual=(x, key(x)))


@check('fronts', n=200)
def _(rng, it):
    big = rng.random() < .25
    n = rng.randint(101, 230) if big else rng.randint(1, 25)
    F = vectors(rng, n)
    items = list(range(n))
    rng.shuffle(items)
    arr = rng.random() < .3
    key = lambda i: np.array(F[i]) if arr else F[i]
    strict = rng.random() < .6
    names = ['non_dominated_front', '_non_dominated_front_merge', '_non_dominated_front_arr', '_non_dominated_front_merge_arr'] + ([] if big else ['_non_dominated_front_fast', '_non_dominated_front_old'])
    name = rng.choice(names)
    if not hasattr(ND, name):
        raise Skip()
    front = getattr(ND, name)(items, key, strict)
    check_front(front, items, lambda i: F[i], strict, name)


@check('default keys', n=20)
def _(rng, it):
    items = list(set(vectors(rng, rng.randint(1, 20))))
    strict = rng.random() < .5
    check_front(ND.non_dominated_front(items, allowequality=strict), items, lambda x: x, strict, 'fitnesses themselves')


@check('sorting', n=100)
def _(rng, it):
    n = rng.randint(1, 25) if rng.random() < .93 else rng.randint(101, 150)
    F = vectors(rng, n)
    items = list(range(n))
    rng.shuffle(items)
    strict = rng.random() < .6
    fronts = ND.non_dominated_sort(items, lambda i: F[i], strict)
    expect(sorted(x for f in fronts for x in f) == list(range(n)), 'everyone is in exactly one front', fronts=fronts)
    left = set(items)
    for f in fronts:
        expect(len(f) > 0, 'no front is empty')
        check_front(f, sorted(left), lambda i: F[i], strict, 'a front of those left')
        left -= set(f)


def spread(F, members):
    """crowding distance: sum over the objectives of the distance between both neighbours, relative to the range; boundary points first (None)"""
    res = dict((i, 0.) for i in members)
    for k in range(len(F[members[0]])):
        order = sorted(members, key=lambda i: F[i][k])
        for e in (order[0], order[-1]):
            res[e] = None
        width = F[order[-1]][k] - F[order[0]][k]
        for a, b, c in zip(order, order[1:], order[2:]):
            if res[b] is not None:
                res[b] += (F[c][k] - F[a][k]) / width
    return res


def check_spread(F, members, dist, what):
    for i, d in spread(F, members).items():
        if d is None:
            expect(dist[i] >= 1e99, '%s: boundary points are always selected' % what, individual=(i, F[i]), distance=dist[i])
        else:
            expect(abs(dist[i] - d) < 1e-9 * (1 + d), '%s: distance of the neighbours' % what, individual=(i, F[i]), distance=dist[i], expected=d)


@check('crowding distance', n=60)
def _(rng, it):
    n, m = rng.randint(1, 15), rng.randint(1, 4)
    F = [tuple(rng.gauss(0, 3) for _ in range(m)) for _ in range(n)]
    members = list(range(n))
    rng.shuffle(members)
    check_spread(F, members, ND.crowding_distance(set(members), dict((i, np.array(F[i]) if it % 2 else F[i]) for i in members)), 'crowding')
    C = dict((i, (np.array(F[i]), rng.random() < .5, np.array([-1., 0.]))) for i in members)
    check_spread(F, members, ND.const_crowding_distance(members, C), 'constrained crowding')


@check('selection within a front', n=60)
def _(rng, it):
    # distinct values that nobody dominates
    n = rng.randint(2, 15)
    xs = [rng.gauss(0, 3) for _ in range(n)]
    F = [(x, -x + 0., np.sinh(x / 5))[:rng.choice([2, 3])] for x in xs]
    m = min(len(f) for f in F)
    F = [f[:m] for f in F]
    k = rng.randint(0, n)
    strict = rng.random() < .5
    if rng.random() < .5:
        s = nsga2.nsga2select(list(range(n)), dict((i, F[i]) for i in range(n)), k, strict)
    else:
        s = constnsga2.nsga2select(list(range(n)), dict((i, (np.array(F[i]), True, np.array([0., 0.]))) for i in range(n)), k, strict)
    expect(len(s) == len(set(s)) == k, 'as many as wanted', selected=s, wanted=k)
    d = spread(F, list(range(n)))
    val = lambda i: 1e99 if d[i] is None else d[i]
    for x in s:
        for y in set(range(n)) - set(s):
            expect(val(x) >= val(y) - 1e-9, 'the least crowded ones of a front are kept', kept=(x, F[x], d[x]), discarded=(y, F[y], d[y]))


@check('NSGA-II selection', n=120)
def _(rng, it):
    n = rng.randint(1, 20)
    F = vectors(rng, n)
    pop = list(range(n))
    strict = rng.random() < .6
    fits = dict((i, np.array(F[i]) if rng.random() < 1 else F[i]) for i in pop)
    if rng.random() < .5:
        fits = dict((i, F[i]) for i in pop)
    k = rng.randint(0, n)
    s = nsga2.nsga2select(pop, fits, k, strict)
    expect(len(s) == len(set(s)) == k and set(s) <= set(pop), 'as many as wanted', selected=s, wanted=k)
    for y in set(pop) - set(s):
        for x in s:
            expect(not (dominates(F[y], F[x], strict) and not dominates(F[x], F[y], strict)), 'no discarded one dominates a kept one', kept=(x, F[x]), discarded=(y, F[y]))


def beats(a, b, strict):
    """constrained: feasible ones by their objectives, before infeasible ones by their violation"""
    if a[1] and b[1]:
        return dominates(a[0], b[0], strict)
    if a[1] != b[1]:
        return bool(a[1])
    return abs(sum(a[2])) < abs(sum(b[2]))


@check('constrained fronts', n=80)
def _(rng, it):
    n = rng.randint(1, 20) if rng.random() < .9 else rng.randint(101, 140)
    F = vectors(rng, n)
    width = rng.choice([1, 2, 3])

    def violations():
        return np.array([-rng.choice([.25, .5, rng.uniform(.01, 1)]) for _ in range(width)])
    C = [(F[i], rng.random() < .6, violations()) for i in range(n)]
    items = list(range(n))
    strict = rng.random() < .6
    front = ND.const_non_dominated_front(items, lambda i: C[i], strict)
    for x in items:
        b = [y for y in items if y != x and beats(C[y], C[x], strict)]
        mutual = [y for y in b if beats(C[x], C[y], strict)]
        tied = [y for y in items if y != x and not C[x][1] and not C[y][1] and abs(sum(C[x][2])) == abs(sum(C[y][2]))]
        if tied:
            expect(bool(b) <= (x not in front) and len(set(front) & set(tied + [x])) == (0 if b else 1), 'constrained front: one representative of those with equal violation', individual=(x, C[x]), by=b[:1])
        elif not mutual:
            expect((x in front) == (not b), 'constrained front: exactly those that nobody beats', individual=(x, C[x]), by=b[:1])
    fronts = ND.const_non_dominated_sort(items, lambda i: C[i], strict)
    expect(sorted(x for f in fronts for x in f) == items, 'everyone is in exactly one front')
    for a, f in enumerate(fronts):
        for g in fronts[a:]:
            expect(not any(beats(C[y], C[x], strict) and not beats(C[x], C[y], strict) for x in f for y in g if x != y), 'not beaten by an own or later front')
    k = rng.randint(0, n)
    s = constnsga2.nsga2select(items, dict((i, C[i]) for i in items), k, strict)
    expect(len(set(s)) == len(s) == k, 'as many as wanted', selected=s)
    for y in set(items) - set(s):
        expect(not any(beats(C[y], C[x], strict) and not beats(C[x], C[y], strict) for x in s), 'no discarded one beats a kept one', discarded=C[y])


@check('selection of a genetic algorithm', n=60)
def _(rng, it):
    n, d = rng.randint(2, 14), rng.randint(1, 3)
    g = GA(lambda x: 0., np.zeros(d), populationSize=n, topProportion=rng.choice([.2, .5, rng.uniform(.1, 1)]), maxLearningSteps=0)
    g.currentpop = [np.array([float(i)] * d) for i in range(n)]
    g.fitnesses = fitnesses(rng, n)
    s = [int(x[0]) for x in g.select()]
    expect(len(s) == len(set(s)) == int(n * g.topProportion), 'the top proportion', selected=s)
    for y in set(range(n)) - set(s):
        expect(all(g.fitnesses[x] >= g.fitnesses[y] for x in s), 'nobody discarded is better than a kept one', selected=s, fitnesses=g.fitnesses)
    if len(s) < 2:
        return
    g.elitism = True
    g._eliteSize = rng.choice([None, 1, 2])
    fits = dict((i, f) for i, f in enumerate(g.fitnesses))
    g.produceOffspring()
    es = min(g.eliteSize, len(s))
    expect(len(g.currentpop) == n, 'the size of the population stays', size=len(g.currentpop))
    elite = [int(x[0]) for x in g.currentpop[:es]]
    expect(sorted((fits[i] for i in elite), reverse=True) == sorted(fits.values(), reverse=True)[:es] and len(set(elite)) == es, 'the elite are the best ones', elite=elite, fitnesses=fits)


@check('evolution strategies', n=40)
def _(rng, it):
    mu = rng.randint(1, 4)
    lam = mu * rng.randint(1, 3)
    vals = {}

    def f(x):
        return vals.setdefault(tuple(x), rng.choice([0., 1., 2., rng.gauss(0, 1)]))
    e = ES(f, np.zeros(2), mu=mu, lambada=lam, elitism=rng.random() < .5, maxLearningSteps=0)
    for _ in range(3):
        old = list(e.population)
        seen = []
        mut = e._replaceByMutation
        e._replaceByMutation = lambda i: (seen.append(e.population[i]), mut(i))[1]
        e._learnStep()
        del e._replaceByMutation
        top = sorted((a for a, _ in old), reverse=True)
        worst = sorted(old, key=lambda p: -p[0])[:mu][-1][0]
        expect(all(a >= worst for a, _ in seen), 'offspring of the best ones', parents=[a for a, _ in seen], fitnesses=top, mu=mu)
        new = [a for a, _ in e.population]
        expect(len(seen) == lam, 'as many offspring as wanted', offspring=len(seen), wanted=lam)
        expect(len(new) == (mu + lam if e.elitism else lam), 'size of the population', size=len(new))
        expect(all(a >= b for a, b in zip(new, new[1:])), 'best ones first', fitnesses=new)
        expect(all(a == f(x.params) for a, x in e.population), 'everyone keeps the own fitness')
        expect(e.hallOfFame[-1] is e.population[0][1], 'hall of fame')
        if e.elitism:
            expect(all(a >= b for a, b in zip(new, top[:mu])), 'the best ones survive', old=top[:mu], new=new)


class Thing(object):
    parent = None

    def __init__(self, name):
        self.name = name

    def copy(self):
        return Thing(self.name)

    def mutate(self):
        self.name = -1


@check('coevolution', n=40)
def _(rng, it):
    n = rng.randint(2, 12)
    pop = [Thing(i) for i in range(n)]
    c = Coevolution(lambda a, b: 0, list(pop), populationSize=n, selectionProportion=rng.uniform(1. / n + .01, 1), elitism=True)
    fits = fitnesses(rng, n)
    k = int(n * c.selectionProportion)
    new = c._selectAndReproduce(list(pop), fits)
    kept = [p.name for p in new[:k]]
    expect(len(new) == n and len(set(kept)) == k and -1 not in kept, 'the selected proportion survives', kept=kept)
    for y in set(range(n)) - set(kept):
        expect(all(fits[x] >= fits[y] for x in kept), 'nobody discarded is better than a kept one', kept=kept, fitnesses=fits)


@check('multi-objective evolution', n=12)
def _(rng, it):
    seen = []

    class Opt(nsga2.MultiObjectiveGA):
        def produceOffspring(self):
            pop = [tuple(x) for x in self.currentpop]
            for x in pop:
                expect(tuple(self.fitnesses[x]) == tuple(f(np.array(x))), 'the fitness of every individual')
            check_front(self.bestEvaluable, pop, lambda x: tuple(self.fitnesses[x]), self.allowEquality, 'best individuals')
            nsga2.MultiObjectiveGA.produceOffspring(self)
            seen.append(1)

    def f(x):
        return np.array([sum(x ** 2), sum((x - 1) ** 2)])
    o = Opt(f, np.zeros(2), populationSize=rng.choice([6, 10, 20]), maxLearningSteps=3, allowEquality=rng.random() < .6)
    o.learn()
    expect(len(seen) >= 3, 'learning steps are made', steps=len(seen))


if __name__ == '__main__':
    main()
