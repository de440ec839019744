"""Ranking functions and Pareto sorting respect the order of the fitnesses."""
from .common import *
from pyvc.runtime import All, Refill
from pyvc.seq import SSet, seq_of
from pyvc.core import POWR, TI
from pyvc.reals import R1

RF = 'pybrain.tools.rankingfunctions'
ND = 'pybrain.tools.nondominated'
ASSUMPTIONS = ['sorting: a permutation in the order of the keys; shuffling: any permutation',
               'powers, logarithm and exponential function are monotone (instances)',
               'individuals are hashable values; the iteration order of a set is arbitrary, but the same until the set changes',
               'recursive calls of the merging front end with fewer individuals']
BOUNDED_ONLY = ['normalizedFitness, the crowding distances themselves, whole evolution runs: bounded harness']


class Ranks(object):
    """the contract of rankedFitness: the order-preserving numbering of the individuals"""

    def __init__(self, R, n):
        self.R, self.n = R, n

    def __call__(self, R):
        n = slen(R)
        f = C.fun('rank', z3.IntSort(), z3.IntSort())
        r = lambda i: S(f(T(i)))
        ok = lambda i: sym_and(i >= 0, i < n)
        C.forall(1, lambda i: sym_implies(ok(i), sym_and(r(i) >= 0, r(i) < n)))
        C.forall(2, lambda i, j: sym_implies(sym_and(ok(i), ok(j)), sym_implies(at(R, i) < at(R, j), r(i) < r(j))))
        C.forall(2, lambda i, j: sym_implies(sym_and(ok(i), ok(j), i != j), r(i) != r(j)))
        self.r = r
        return SArr.make((n,), lambda i: TR(r(S(i[0]))), 'R')


@task('C17', 'rankedFitness', functions=[RF + '.rankedFitness'])
def _(t):
    n = dim('n')
    R = vec('fitness', n)
    keep = R.copy()
    seen = {}

    def inv(L):
        p, q, fact, order = seen['perm'] = L.outer['l'].perm
        k = L.k
        return [('numbered in order', All(1, lambda j: sym_implies(sym_and(j >= 0, j < n), at(L.res if 'res' in L.env else L.outer['res'], j) == ite(S(q(T(j))) < k, S(q(T(j))), 0))))]
    C.loop_specs[('rankedFitness', 0)] = LoopSpec(inv, modifies=lambda L: [L.outer['res']])
    r = t.call('rankedFitness', t.cls(RF, 'rankedFitness'), R)
    p, q, fact, order = seen['perm']
    i, j = index(n, 'i'), index(n, 'j')
    C.assume(S(order(S(q(T(j))), S(q(T(i))))))      # instances of what sorting gives
    C.assume(sym_and(S(fact(i)), S(fact(j))))
    t.prove('one rank for every individual', slen(r) == n)
    t.prove('ranks from 0', sym_and(at(r, i) >= 0, at(r, i) < n))
    t.prove('a better one is ranked higher', sym_implies(at(R, i) < at(R, j), at(r, i) < at(r, j)))
    t.prove('every rank once', sym_implies(i != j, at(r, i) != at(r, j)))
    t.prove('every rank is given', at(r, S(p(T(i)))) == i)
    t.prove('the fitnesses stay as they are', at(R, i) == at(keep, i))


def shaping(t, cls, lo=2, prep=lambda f, n: None, lemma=lambda *a: None, **k):
    n = dim('n', lo)
    R = vec('fitness', n)
    rk = Ranks(R, n)
    f = t.cls(RF, cls)(**k)
    prep(f, n)
    C.pc.append(T(n) >= lo)
    i, j = index(n, 'i'), index(n, 'j')
    # an individual of rank n - 1 and one of rank n - 2
    first = [None]
    real = rk.__call__

    def call(R):
        a = real(R)
        top = C.int('top')
        C.assume(sym_and(top >= 0, top < n, rk.r(top) == n - 1))
        lemma(f, rk.r, n, i, j, top)
        return a
    t.L.mods[RF].rankedFitness = call
    w = t.call(cls, f, R)
    t.prove('a weight for every individual', slen(w) == n)
    t.prove('no worse one above a better one', sym_implies(at(R, i) < at(R, j), at(w, i) <= at(w, j)))
    return f, R, w, rk.r, n, i, j


def numbers(f, n):
    """the parameters of a shaping function"""
    for a, lo, hi in [('gini', 0, 2), ('linearComponent', 0, 1), ('topFraction', 0, 1), ('bilinearFactor', 0, None), ('temperature', 0, None)]:
        if hasattr(f, a):
            v = C.real(a, show=True)
            setattr(f, a, v)
            C.assume(v >= lo)
            if a == 'gini':
                C.assume(v > 0)
            if hi is not None:
                C.assume(v <= hi)


@task('C17', 'linear ranking', functions=[RF + '.RankingFunction.__call__'])
def _(t):
    f, R, w, r, n, i, j = shaping(t, 'RankingFunction')
    t.prove('between 0 and 1', sym_and(at(w, i) >= 0, at(w, i) <= 1))


@task('C17', 'smooth Gini ranking', functions=[RF + '.SmoothGiniRanking.__call__'])
def _(t):
    def lemma(f, r, n, i, j, top):
        e = 2 / f.gini - 1
        pw = lambda k: S(POWR(TR(r(k) / (n - 1)), TR(e)))
        for a, b in [(i, j), (j, i), (i, top), (j, top)]:
            C.assume(sym_implies(r(a) <= r(b), pw(a) <= pw(b)))
        for a in (i, j, top):
            C.assume(pw(a) >= 0)
        C.assume(pw(top) == 1)
    shaping(t, 'SmoothGiniRanking', prep=numbers, lemma=lemma)


@task('C17', 'exponential ranking', functions=[RF + '.ExponentialRanking.__call__'])
def _(t):
    def lemma(f, r, n, i, j, top):
        e = lambda k: C.fn1('exp', r(k) / (n - 1) * f.temperature)
        C.assume(sym_implies(r(i) <= r(j), e(i) <= e(j)))
    shaping(t, 'ExponentialRanking', prep=numbers, lemma=lemma)


@task('C17', 'ranking of CMA-ES', functions=[RF + '.HansenRanking.__call__'])
def _(t):
    def lemma(f, r, n, i, j, top):
        e = lambda k: C.fn1('log', n - r(k))
        C.assume(sym_implies(r(i) <= r(j), e(i) >= e(j)))
    shaping(t, 'HansenRanking', lo=1, lemma=lemma)


@task('C17', 'top selection', functions=[RF + '.TopSelection.__call__'])
def _(t):
    f, R, w, r, n, i, j = shaping(t, 'TopSelection', lo=1, prep=numbers)
    t.prove('selected or not', sym_or(at(w, i) == 0, at(w, i) == 1))
    t.prove('the best fraction', (at(w, i) == 1) == (r(i) >= n * (1 - f.topFraction)))


@task('C17', 'top linear ranking', functions=[RF + '.TopLinearRanking.__call__'])
def _(t):
    def prep(f, n):
        numbers(f, n)
        C.assume(f.topFraction * n > 1)
    f, R, w, r, n, i, j = shaping(t, 'TopLinearRanking', prep=prep)
    t.prove('between 0 and 1', sym_and(at(w, i) >= 0, at(w, i) <= 1))


@task('C17', 'bilinear ranking', functions=[RF + '.BilinearRanking.__call__'])
def _(t):
    f, R, w, r, n, i, j = shaping(t, 'BilinearRanking', prep=numbers)
    t.prove('between 0 and 1', sym_and(at(w, i) >= 0, at(w, i) <= 1))


@task('C17', 'tournament selection', functions=[RF + '.TournamentSelection.__call__'])
def _(t):
    n = dim('n', 2)
    C.pc.append(T(n) >= 2)
    R = vec('fitness', n)
    best, worst = index(n, 'best'), index(n, 'worst')
    C.forall(1, lambda j: sym_implies(sym_and(j >= 0, j < n), sym_and(at(R, j) <= at(R, best), sym_or(j == worst, at(R, j) > at(R, worst)))))
    f = t.cls(RF, 'TournamentSelection')()
    f.tournamentSize = dim('size', 2)
    C.pc.append(T(f.tournamentSize) >= 2)
    me = 'TournamentSelection.__call__'

    def inv(L):
        res = L.outer['res']
        return [('no negative ones', All(1, lambda j: sym_implies(sym_and(j >= 0, j < n), at(res, j) >= 0))),
                ('never the worst', at(res, worst) == 0),
                ('someone as good as the best, if that one played', sym_implies(best < L.k, exists(lambda e: sym_and(e >= 0, e < n, at(res, e) >= 1, at(R, e) == at(R, best)))))]
    C.loop_specs[(me, 0)] = LoopSpec(inv, modifies=lambda L: [L.outer['res']])
    C.loop_specs[(me, 1)] = LoopSpec(lambda L: [('participants', sym_and(slen(L.l) == L.k + 1, L.l._getter()(0) == L.i)),
                                                ('the others', All(1, lambda j: sym_implies(sym_and(j >= 1, j < slen(L.l)), sym_and(L.l._getter()(j) >= 0, L.l._getter()(j) < n, L.l._getter()(j) != L.i))))],
                                        modifies=lambda L: [Refill(L.l if 'l' in L.env else L.outer['l'])])
    C.loop_specs[(me, 2)] = LoopSpec(lambda L: [('some individual', sym_and(L.randindex >= 0, L.randindex < n))])
    w = t.call('TournamentSelection', f, R)
    t.prove('a weight for every individual', slen(w) == n)
    j = index(n, 'j')
    t.prove('no negative ones', at(w, j) >= 0)
    t.prove('the worst one never', at(w, worst) == 0)
    t.prove('a best one at least once', exists(lambda e: sym_and(e >= 0, e < n, at(w, e) >= 1, at(R, e) == at(R, best))))


# ------------------------------------------------------------------ domination

class Ex(All):
    """there is a function of the quantified integers: assumed as a new symbol, proved by
    what the specification names (or any solution the solver finds)"""

    def __init__(self, nvars, use, show):
        self.nvars, self.use, self.show = nvars, use, show

    def goal(self):
        return self.show(*[C.int('all') for _ in range(self.nvars)])

    def assume(self):
        f = C.fun('witness', *([z3.IntSort()] * (self.nvars + 1)))
        C.forall(self.nvars, lambda *a: self.use(lambda *b: S(f(*[T(x) for x in b])), *a))


def exists(f):
    e = z3.Int('e~')
    return S(z3.Exists([e], TB(f(S(e)))))


class Pareto(object):
    """individuals are integers; their fitness vectors are arbitrary. dom(a, b): a is smaller
    than b in every objective (or, if equality does not count as allowed, smaller or equal)"""

    def __init__(self, t, strict):
        I = z3.IntSort()
        C.ghost['symbolic sets'] = True
        self.t, self.strict = t, strict
        self.m = dim('objectives')
        self.K = C.input_fun('objective', I, I, z3.RealSort())
        self.D = C.fun('dominates', I, I, z3.BoolSort())
        W = C.fun('objection', I, I, I)
        val = lambda a, c: S(self.K(T(a), T(c)))
        less = (lambda a, b, c: val(a, c) < val(b, c)) if strict else (lambda a, b, c: val(a, c) <= val(b, c))
        dom, m = self.base, self.m
        self.less = less
        # the definition of dom
        self.W = lambda a, b: S(W(T(a), T(b)))
        mark = len(C.closures)
        C.forall(3, lambda a, b, c: sym_implies(sym_and(dom(a, b), c >= 0, c < m), less(a, b, c)))
        C.forall(2, lambda a, b: sym_or(dom(a, b), sym_and(S(W(T(a), T(b))) >= 0, S(W(T(a), T(b))) < m, sym_not(less(a, b, S(W(T(a), T(b))))))))
        self.definition = C.closures[mark:]
        if strict:
            generalize(t, 'nobody dominates itself', 1, lambda a: sym_not(dom(a, a)), by=lambda a: C.assume(S(z3.BoolVal(True))))
        generalize(t, 'domination is transitive', 3, lambda a, b, c: sym_implies(sym_and(dom(a, b), dom(b, c)), dom(a, c)))

    def base(self, a, b):
        return S(self.D(T(a), T(b)))

    dom = base

    def abstract(self):
        """from here on only what was proved of dom is used"""
        C.closures[:] = [q for q in C.closures if not any(q is d for d in self.definition)]

    def better(self, a, b):
        """a is b or dominates it"""
        return sym_or(a == b, self.dom(a, b))

    def key(self):
        return lambda x: SArr.make((self.m,), lambda i: self.K(T(x), T(S(i[0]))), 'R')


def people(name='individuals', lo=1):
    n = dim('n', lo)
    f = C.input_fun(name, z3.IntSort(), z3.IntSort())
    return n, lambda i: S(f(T(i))), SList.from_fn(n, lambda i: S(f(T(i))))


def check_front(t, P, s, n, who, tag=''):
    x, y, i = C.int('x'), C.int('y'), index(n, 'i')
    t.prove(tag + 'members of the given individuals', sym_implies(s.has(x), exists(lambda e: sym_and(e >= 0, e < n, who(e) == x))))
    t.prove(tag + 'no member dominates another', sym_implies(sym_and(s.has(x), s.has(y), x != y), sym_not(P.dom(x, y))))
    t.prove(tag + 'every other one is dominated by a member', exists(lambda e: sym_and(s.has(e), P.better(e, who(i)))))


class Constrained(Pareto):
    """fitnesses are triples of objectives, feasibility, and constraint values: of two feasible individuals
    the objectives decide, a feasible one is before an infeasible one, and of two infeasible ones the one with the
    smaller (or equal) violation is first"""

    def __init__(self, t, strict, who):
        Pareto.__init__(self, t, strict)
        I = z3.IntSort()
        self.mc = dim('constraints')
        self.F = C.input_fun('feasible', I, z3.BoolSort())
        self.CV = C.input_fun('constraint', I, I, z3.RealSort())
        self.V = C.fun('violation', I, z3.RealSort())
        self.D2 = C.fun('beats', I, I, z3.BoolSort())
        self.feasible = lambda a: S(self.F(T(a)))
        V = lambda a: S(self.V(T(a)))
        mark = len(C.closures)
        D = lambda a, b: S(self.D(T(a), T(b)))
        feas = self.feasible
        C.forall(2, lambda a, b: self.dom(a, b) == S(ite(sym_and(feas(a), feas(b)), D(a, b), ite(feas(a), True, ite(feas(b), False, V(a) <= V(b))))))
        self.meaning = C.closures[mark:]
        generalize(t, 'precedence is transitive', 3, lambda a, b, c: sym_implies(sym_and(self.dom(a, b), self.dom(b, c)), self.dom(a, c)))

    def dom(self, a, b):
        return S(self.D2(T(a), T(b)))

    def forget(self):
        """only what was proved of the precedence is used"""
        self.abstract()
        C.closures[:] = [q for q in C.closures if not any(q is d for d in self.meaning)]

    def key(self):
        obj = Pareto.key(self)
        return lambda x: (obj(x), S(self.F(T(x))), SArr.make((self.mc,), lambda i: self.CV(T(x), T(S(i[0]))), 'R'))


def front_arr(t, strict, constrained=False):
    n, who, items = people()
    P = Constrained(t, strict, who) if constrained else Pareto(t, strict)
    name = '_const_non_dominated_front_arr' if constrained else '_non_dominated_front_arr'
    f = t.cls(ND, name)
    D = (lambda a, b: P.base(who(a), who(b))) if constrained else (lambda a, b: P.dom(who(a), who(b)))
    Q = lambda a, b: P.dom(who(a), who(b))
    inside = lambda a: sym_and(a >= 0, a < n)
    snap = {}

    def link(nd):
        """the matrix says who dominates whom"""
        def by(a, b):
            C.assume(sym_and(inside(a), inside(b)))
            ind = lambda c: S(z3.If(TB(P.less(who(a), who(b), c)), z3.IntVal(0), z3.IntVal(1)))
            w = P.W(who(a), who(b))
            induction(t, 'no objection', lambda q: sym_implies(D(a, b), Sum(q, ind) == 0), P.m)
            induction(t, 'an objection counts', lambda q: sym_and(Sum(q, ind) >= 0, sym_implies(sym_and(sym_not(D(a, b)), w < q), Sum(q, ind) >= 1)), P.m)
        generalize(t, 'the matrix of objections', 2, lambda a, b: sym_implies(sym_and(inside(a), inside(b)), at(nd, a, b) == sym_not(D(a, b))), by=by)

    def outer(L):
        nd = L.outer['ndom']
        res = L.outer['res']
        k = L.k
        if isinstance(k, int) or z3.is_int_value(T(k)):
            link(nd)
            if constrained:
                # (the violation is defined by the values the function was given)
                c = L.outer['c']
                i, j = index(n, 'i'), index(P.mc, 'j')
                t.prove('the constraint values', at(c, i, j) == S(P.CV(T(who(i)), T(j))))
                snap['violation'] = lambda i: sym_implies(inside(i), S(P.V(T(who(i)))) == abs(Sum(P.mc, lambda j: at(c, i, j))))
                C.forall(1, snap['violation'])
            P.abstract()
        return [('the matrix', All(2, lambda a, b: sym_implies(sym_and(inside(a), inside(b)), at(nd, a, b) == sym_not(D(a, b))))),
                ('earlier individuals', All(1, lambda x: sym_implies(res.has(x), sym_and(x >= 0, x < k)))),
                ('no member dominates another', All(2, lambda x, y: sym_implies(sym_and(res.has(x), res.has(y), x != y), sym_not(Q(x, y))))),
                ('every earlier one is represented', Ex(1, lambda rep, x: sym_implies(sym_and(x >= 0, x < k), sym_and(res.has(rep(x)), sym_or(rep(x) == x, Q(rep(x), x)))),
                                                       lambda x: sym_implies(sym_and(x >= 0, x < k), exists(lambda r: sym_and(res.has(r), sym_or(r == x, Q(r, x)))))))]

    def inner(L):
        res, ii, k = L.outer['res'], L.outer['ii'], L.k
        if isinstance(k, int) or z3.is_int_value(T(k)):
            snap.update(mem=res.mem, place=res.place)
        mem = lambda x: S(snap['mem'](T(x)))
        place = lambda x: S(snap['place'](T(x)))
        passed = lambda x: sym_and(x != ii, mem(x), place(x) < k)
        if constrained and not isinstance(k, int) and z3.is_const(T(k)) and not z3.is_int_value(T(k)):
            for i in (ii, L.get(k)):        # (instances of the definition)
                C.assume(snap['violation'](i))
        return [('an individual', sym_implies(k < L.n, inside(L.get(k)))), ('without those it dominates', All(1, lambda x: S(TB(res.has(x)) == TB(sym_and(mem(x), sym_not(sym_and(passed(x), Q(ii, x)))))))),
                ('not dominated so far', All(1, lambda x: sym_implies(passed(x), sym_not(Q(x, ii)))))]

    def fresh(res):
        def go():
            s = SSet.fresh()
            res.set_state(s.state())
        return go
    C.loop_specs[(name, 0)] = LoopSpec(outer, modifies=lambda L: [fresh(L.outer['res']), L.outer['ndom']])
    C.loop_specs[(name, 1)] = LoopSpec(inner, modifies=lambda L: [fresh(L.outer['res'])])
    s = t.call('front', f, items, P.key(), strict)
    if constrained:
        P.forget()
    check_front(t, P, s, n, who)


for strict in (True, False):
    task('C17', 'non-dominated front: ' + ('strictly' if strict else 'weakly'), functions=[ND + '._non_dominated_front_arr'])(
        lambda t, strict=strict: front_arr(t, strict))
    task('C17', 'constrained front: ' + ('strictly' if strict else 'weakly'), functions=[ND + '._const_non_dominated_front_arr'], limit=500)(
        lambda t, strict=strict: front_arr(t, strict, True))


def front_contract(t, P, fits, strict):
    """non_dominated_front by its contract"""
    def front(iterable, key=None, allowequality=True):
        t.prove('the same fitnesses', S(z3.BoolVal(key is fits)), kind='pre')
        t.prove('the same domination', S(z3.BoolVal(allowequality is strict)), kind='pre')
        n, get = seq_of(iterable)
        s = SSet.fresh('front')
        if isinstance(iterable, SSet):
            mem = iterable.mem
            C.forall(1, lambda x: sym_implies(s.has(x), S(mem(T(x)))))
            given = lambda x: S(mem(T(x)))
            each = lambda f: C.forall(1, lambda x: sym_implies(given(x), f(x, x)))
        else:
            w = C.fun('position', z3.IntSort(), z3.IntSort())
            C.forall(1, lambda x: sym_implies(s.has(x), sym_and(S(w(T(x))) >= 0, S(w(T(x))) < n, S(TI(get(S(w(T(x)))))) == x)))
            each = lambda f: C.forall(1, lambda i: sym_implies(sym_and(i >= 0, i < n), f(i, get(i))))
        C.forall(2, lambda x, y: sym_implies(sym_and(s.has(x), s.has(y), x != y), sym_not(P.dom(x, y))))
        r = C.fun('representative', z3.IntSort(), z3.IntSort())
        each(lambda i, x: sym_and(s.has(S(r(T(i)))), P.better(S(r(T(i))), x)))
        return s
    return front


def relation(t, strict, constrained):
    n, who, items = people()
    if constrained:
        P = Constrained(t, strict, who)
        P.forget()
    else:
        P = Pareto(t, strict)
        P.abstract()
    return P, n, who, items


def front_merge(t, strict, constrained=False):
    P, n, who, items = relation(t, strict, constrained)
    c = '_const' if constrained else ''
    f = t.cls(ND, c + '_non_dominated_front_merge_arr')
    key = P.key()
    m = t.L.mods[ND]
    for name in (c + '_non_dominated_front_merge_arr', c + '_non_dominated_front_arr'):
        setattr(m, name, front_contract(t, P, key, strict))
    s = t.call('front', f, items, key, strict)
    check_front(t, P, s, n, who)


def front_sort(t, strict, constrained=False):
    P, n, who, items = relation(t, strict, constrained)
    c = 'const_' if constrained else ''
    f = t.cls(ND, c + 'non_dominated_sort')
    key = P.key()
    setattr(t.L.mods[ND], c + 'non_dominated_front', front_contract(t, P, key, strict))
    first = {}

    def inv(L):
        fronts, items, k = L.fronts if 'fronts' in L.env else L.outer['fronts'], L.items, L.k
        if isinstance(k, int) or z3.is_int_value(T(k)):
            first['mem'] = items.mem
        given = lambda x: S(first['mem'](T(x)))
        get = fronts._getter()
        m = slen(fronts)

        def F(i, x):
            if isinstance(m, int) and m == 0:
                return S(z3.BoolVal(False))
            return get(i).has(x)
        ok = lambda i: sym_and(i >= 0, i < m)
        return [('one front per step', S(TI(m)) == k),
                ('given individuals', All(2, lambda i, x: sym_implies(sym_and(ok(i), F(i, x)), given(x)))),
                ('the others are left', All(1, lambda x: sym_implies(items.has(x), given(x)))),
                ('left or placed', Ex(1, lambda at, x: sym_implies(given(x), sym_or(items.has(x), sym_and(ok(at(x)), F(at(x), x)))),
                                      lambda x: sym_implies(given(x), sym_or(items.has(x), exists(lambda i: sym_and(ok(i), F(i, x))))))),
                ('in one front', All(3, lambda i, j, x: sym_implies(sym_and(ok(i), ok(j), F(i, x), F(j, x)), i == j))),
                ('not both', All(2, lambda i, x: sym_implies(sym_and(ok(i), F(i, x)), sym_not(items.has(x))))),
                ('not dominated by own or later fronts', All(4, lambda i, j, x, y: sym_implies(sym_and(ok(i), ok(j), i <= j, x != y, F(i, x), F(j, y)), bad(y, x)))),
                ('not dominated by those left', All(3, lambda i, x, y: sym_implies(sym_and(ok(i), x != y, F(i, x), items.has(y)), bad(y, x))))]
    # (weak domination: two equal ones dominate each other)
    bad = lambda y, x: sym_not(P.dom(y, x)) if strict and not constrained else sym_or(sym_not(P.dom(y, x)), P.dom(x, y))

    def havoc(fronts):
        def go():
            F = C.fun('front', z3.IntSort(), z3.IntSort(), z3.BoolSort())
            N = C.fun('card', z3.IntSort(), z3.IntSort())

            def one(i):
                s = SSet()
                s.mem, s.n = (lambda x: F(T(i), x)), N(T(i))
                return s
            ln = C.int('len')
            C.assume(ln >= 0)
            fronts.set_state((None, ln, one))
        return go
    C.loop_specs[(c + 'non_dominated_sort', 0)] = LoopSpec(inv, modifies=lambda L: [havoc(L.env.get('fronts') or L.outer['fronts'])],
                                                       sorts={'items': lambda v: SSet.fresh()})
    r = t.call(c + 'non_dominated_sort', f, items, key, strict)
    get, m = r._getter(), slen(r)
    i, j, a = index(m, 'i'), index(m, 'j'), index(n, 'a')
    x, y = C.int('x'), C.int('y')
    t.prove('only given individuals', sym_implies(get(i).has(x), exists(lambda e: sym_and(e >= 0, e < n, who(e) == x))))
    t.prove('every one in a front', exists(lambda e: sym_and(e >= 0, e < m, get(e).has(who(a)))))
    t.prove('in one front only', sym_implies(sym_and(get(i).has(x), get(j).has(x)), i == j))
    t.prove('no member dominated by one of its own or a later front', sym_implies(sym_and(i <= j, get(i).has(x), get(j).has(y), x != y), bad(y, x)))


for strict in (True, False):
    task('C17', 'merged fronts: ' + ('strictly' if strict else 'weakly'), functions=[ND + '._non_dominated_front_merge_arr'])(
        lambda t, strict=strict: front_merge(t, strict))
    task('C17', 'non-dominated sorting: ' + ('strictly' if strict else 'weakly'), functions=[ND + '.non_dominated_sort'])(
        lambda t, strict=strict: front_sort(t, strict))
    task('C17', 'merged constrained fronts: ' + ('strictly' if strict else 'weakly'), functions=[ND + '._const_non_dominated_front_merge_arr'])(
        lambda t, strict=strict: front_merge(t, strict, True))
    task('C17', 'constrained sorting: ' + ('strictly' if strict else 'weakly'), functions=[ND + '.const_non_dominated_sort'])(
        lambda t, strict=strict: front_sort(t, strict, True))


# ------------------------------------------------------------------ selection

NS = 'pybrain.optimization.populationbased.multiobjective.nsga2'
CS = 'pybrain.optimization.populationbased.multiobjective.constnsga2'
GA = 'pybrain.optimization.populationbased.ga'
EV = 'pybrain.optimization.populationbased.es'
CO = 'pybrain.optimization.populationbased.coevolution.coevolution'


def sorted_fronts(t, P, fits, n, who, constrained):
    """non_dominated_sort by its contract; the level of an individual is the number of its front"""
    I = z3.IntSort()
    lev, card = C.fun('level', I, I), C.fun('card', I, I)
    fronts = C.int('fronts')
    C.assume(fronts >= 0)
    level = lambda x: S(lev(T(x)))

    def sort(population, key=None, allowequality=True):
        x = C.int('any individual')
        a = key(x)
        c = index(P.m, 'c')
        b = fits(x)
        if constrained:
            d = index(P.mc, 'd')
            t.prove('sorted by feasibility and constraints', sym_and(a[1] == b[1], at(a[2], d) == at(b[2], d)), kind='pre')
            a, b = a[0], b[0]
        t.prove('sorted by the fitnesses', at(a, c) == at(b, c), kind='pre')
        t.prove('the same domination', S(z3.BoolVal(allowequality is P.strict)), kind='pre')
        m, get = seq_of(population)
        s = SSet(population)
        given = lambda x: S(s.mem(T(x)))
        C.forall(1, lambda x: sym_implies(given(x), sym_and(level(x) >= 0, level(x) < fronts)))
        C.forall(2, lambda x, y: sym_implies(sym_and(given(x), given(y), x != y, level(x) <= level(y)),
                                             sym_not(P.dom(y, x)) if P.strict and not constrained else sym_or(sym_not(P.dom(y, x)), P.dom(x, y))))

        def one(i):
            f = SSet()
            it = T(i)
            f.mem, f.n = (lambda x: z3.And(s.mem(x), lev(x) == it)), card(it)
            return f
        C.forall(1, lambda i: S(card(T(i))) >= 0)
        sort.given = given
        return SList.from_fn(fronts, one)
    sort.level = level
    return sort


class Lookup(object):
    def __init__(self, f):
        self.f = f

    def __getitem__(self, x):
        return self.f(x)


def nsga(t, strict, constrained=False):
    P, n, who, items = relation(t, strict, constrained)
    f = t.cls(CS if constrained else NS, 'nsga2select')
    key = P.key()
    m = t.L.mods[CS if constrained else NS]
    c = 'const_' if constrained else ''
    sort = sorted_fronts(t, P, key, n, who, constrained)
    setattr(m, c + 'non_dominated_sort', sort)
    crowd = C.fun('crowding', z3.IntSort(), z3.RealSort())
    distance = lambda x: S(crowd(T(x)))

    def crowding(front, fits):
        # an individual is in one front, so its distance within its front is a function of the individual
        x, y = C.int('x'), C.int('y')
        has = lambda x: S(front.mem(T(x)))
        sort.front = front
        t.prove('distances within a front', sym_implies(sym_and(has(x), sort.given(y)), S(TB(has(y)) == TB(level(x) == level(y)))), kind='pre')
        return Lookup(distance)
    setattr(m, c + 'crowding_distance', crowding)
    survivors = C.int('survivors', show=True)
    C.assume(survivors >= 0)
    level = sort.level

    def places(x, y):
        # where both come to stand when the front is sorted: instances of what sets and sorting give
        if not C.ghost.get('sorts') or not hasattr(sort, 'front'):
            return
        p, q, fact, order = C.ghost['sorts'][-1]
        sort.front.enumeration()
        spots = [S(q(sort.front.place(T(e)))) for e in (x, y)]
        for c in [c for c in C.closures if c.nvars == 1]:
            for e in [x, y] + [S(sort.front.place(T(e))) for e in (x, y)] + spots:
                C.assume(S(TB(c.body(e))))
        C.assume(sym_and(S(order(*spots)), S(order(*reversed(spots)))))

    def crowded(x, y, kept, k):
        places(x, y)
        return sym_implies(sym_and(kept.has(x), sort.given(y), sym_not(kept.has(y)), level(x) == level(y), level(y) < k), distance(x) >= distance(y))

    def inv(L):
        kept, k = L.individuals, L.k
        given = sort.given
        return [('given individuals of the fronts so far', All(1, lambda x: sym_implies(kept.has(x), sym_and(given(x), level(x) < k)))),
                ('not too many', sym_and(S(kept.n) >= 0, S(kept.n) <= survivors)),
                ('the least crowded ones', All(2, lambda x, y: crowded(x, y, kept, k))),
                ('complete or full', All(1, lambda x: sym_implies(sym_and(given(x), level(x) < k, sym_not(kept.has(x))), sym_and(level(x) == k - 1, S(kept.n) == survivors))))]

    C.loop_specs[('nsga2select', 0)] = LoopSpec(inv, sorts={'individuals': lambda v: SSet.fresh('kept')}, modifies=lambda L: [lambda: None])
    r = t.call('nsga2select', f, items, Lookup(key), survivors, strict)
    p, j = index(slen(r), 'p'), index(n, 'j')
    x, y = r[p], who(j)
    t.prove('given individuals', exists(lambda e: sym_and(e >= 0, e < n, who(e) == x)))
    t.prove('as many as wanted at most', slen(r) <= survivors)
    t.prove('as many as wanted unless all are kept', sym_or(slen(r) == survivors, exists(lambda e: sym_and(e >= 0, e < slen(r), r._getter()(e) == y))))
    gone = lambda: C.forall(1, lambda e: sym_implies(sym_and(e >= 0, e < slen(r)), r._getter()(e) != y))
    gone()
    t.prove('no discarded one dominates a kept one', sym_not(P.dom(y, x)) if strict and not constrained else sym_or(sym_not(P.dom(y, x)), P.dom(x, y)))
    t.prove('of a front that does not fit the least crowded ones', sym_implies(level(x) == level(y), distance(x) >= distance(y)))


for strict in (True, False):
    task('C17', 'NSGA-II selection: ' + ('strictly' if strict else 'weakly'), functions=[NS + '.nsga2select'])(
        lambda t, strict=strict: nsga(t, strict))
    task('C17', 'constrained NSGA-II selection: ' + ('strictly' if strict else 'weakly'), functions=[CS + '.nsga2select'])(
        lambda t, strict=strict: nsga(t, strict, True))


def fittest(t, n, fit, picked, size):
    """picked: positions in the population"""
    i, j, a = index(size, 'i'), index(n, 'j'), index(size, 'a')
    t.prove('different individuals', sym_implies(i != a, picked(i) != picked(a)))
    t.prove('of the population', sym_and(picked(i) >= 0, picked(i) < n))
    # where an individual comes to stand: instances of what shuffling and sorting give
    stages = [(p, q) for p, q, m in C.ghost.get('perms', [])] + [(p, q) for p, q, f, o in C.ghost['sorts']]

    def place(x):
        for p, q in stages:
            C.assume(sym_implies(sym_and(x >= 0, x < n), sym_and(S(q(T(x))) >= 0, S(q(T(x))) < n, S(p(q(T(x)))) == x)))
            x = S(q(T(x)))
        return x
    pi, pj = place(picked(i)), place(j)
    order = C.ghost['sorts'][-1][3]
    C.assume(sym_and(S(order(pi, pj)), S(order(pj, pi))))
    C.assume(S(order(S(z3.IntVal(0)), pj)))
    for e in (pj, n - 1 - pj):
        C.assume(sym_implies(sym_and(e >= 0, e < size), picked(e) != j))
    t.prove('no discarded one is better than a kept one', at(fit, picked(i)) >= at(fit, j))


@task('C17', 'selection of a genetic algorithm', functions=[GA + '.GA.select', GA + '.GA.selectionSize'])
def _(t):
    cls = t.cls(GA, 'GA')
    g = cls.__new__(cls)
    n = dim('n')
    fit = vec('fitness', n)
    g.__dict__.update(fitnesses=SList.from_fn(n, lambda i: at(fit, i)), currentpop=SList.from_fn(n, lambda i: i), populationSize=n,
                      tournament=False, topProportion=C.real('proportion', show=True))
    C.assume(sym_and(g.topProportion >= 0, g.topProportion <= 1))
    s = t.call('select', g.select)
    size = slen(s)
    t.prove('the top proportion', sym_and(size <= n * g.topProportion, size + 1 > n * g.topProportion))
    C.assume(size >= 1)
    fittest(t, n, fit, s._getter(), size)
    k = index(n, 'k')
    t.prove('the population stays', sym_and(slen(g.currentpop) == n, g.currentpop[k] == k))


@task('C17', 'selection of an evolution strategy', functions=[EV + '.ES._sortPopulation'])
def _(t):
    cls = t.cls(EV, 'ES')
    g = cls.__new__(cls)
    n = dim('n')
    fit = vec('fitness', n)
    mu = C.int('mu', show=True)
    C.assume(sym_and(mu >= 1, mu <= n))
    g.__dict__.update(population=SList.from_fn(n, lambda i: (at(fit, i), i)), hallOfFame=SList([]), mu=mu, storeHallOfFame=C.choose())
    quiet = C.choose()
    t.call('_sortPopulation', g._sortPopulation, quiet)
    pop = g.population
    k, j = index(n, 'k'), index(n, 'j')
    t.prove('as many', slen(pop) == n)
    t.prove('everyone keeps the own fitness', pop[k][0] == at(fit, pop[k][1]))
    t.prove('the best ones first', sym_implies(k <= j, pop[k][0] >= pop[j][0]))
    if g.storeHallOfFame and not quiet:
        t.prove('the best one enters the hall of fame', sym_and(slen(g.hallOfFame) == 1, g.hallOfFame[0] == pop[0][1]))
    else:
        t.prove('the hall of fame stays', slen(g.hallOfFame) == 0)
    fittest(t, n, fit, lambda i: pop._getter()(i)[1], mu)
    C.assume(S(C.ghost['sorts'][-1][3](S(z3.IntVal(0)), k)))
    t.prove('the best one is the first', pop[0][0] >= pop[k][0])


@task('C17', 'selection in coevolution', functions=[CO + '.Coevolution._selectAndReproduce', CO + '.Coevolution._numSelected'])
def _(t):
    cls = t.cls(CO, 'Coevolution')
    g = cls.__new__(cls)
    n = dim('n')
    fit = vec('fitness', n)
    g.__dict__.update(populationSize=n, elitism=C.choose(), selectionProportion=C.real('proportion', show=True), parentChildAverage=1.)
    C.assume(sym_and(g.selectionProportion >= 0, g.selectionProportion <= 1))
    got = []

    def extend(seeds, size):
        got.append((SList(seeds), size))
        return SList(seeds) + SList.from_fn(size - slen(seeds), lambda i: S(z3.IntVal(-1)))
    g._extendPopulation = extend
    r = t.call('_selectAndReproduce', g._selectAndReproduce, SList.from_fn(n, lambda i: i), SList.from_fn(n, lambda i: at(fit, i)))
    s = got[0][0]
    size = slen(s)
    t.prove('the selected proportion', sym_and(size <= n * g.selectionProportion, size + 1 > n * g.selectionProportion))
    t.prove('the size of the population stays', slen(r) == n)
    C.assume(size >= 1)
    fittest(t, n, fit, s._getter(), size)
