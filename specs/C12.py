"""Tabular value learners perform their temporal-difference update.

The values the table must hold after k steps are defined by recursion over the experience
(V below; a definition, so it is consistent); the loops of the real learn() methods are
shown to keep the table equal to it, for any number of episodes, steps, states, actions."""
from .common import *
from pyvc.runtime import pv_setattr as put

L_ = 'pybrain.rl.learners.valuebased.'
ASSUMPTIONS = ['states and actions of the experience are whole numbers within the table', 'one or more samples in every episode',
               'real powers: x**0 = 1, x**(k+1) = x * x**k']
BOUNDED_ONLY = ['learning through a real agent and data set, online mode, action value networks: bounded harness']
Int, Real = z3.IntSort(), z3.RealSort()


class Table(object):
    """contract of ActionValueTable (see the table tasks)"""

    def __init__(self, ns, na):
        self.ns, self.na = ns, na
        self.tab = vec('table', ns, na)
        self.updates = S(z3.IntVal(0))
        self.hint = self.known = None

    def inside(self, s, a):
        C.prove('a state of the table', sym_and(s >= 0, s < self.ns))
        C.prove('an action of the table', sym_and(a >= 0, a < self.na))

    def getValue(self, s, a):
        self.inside(s, a)
        v = at(self.tab, s, a)
        if self.known is not None:
            # an equal value under another name (spares the solver the products)
            ks, ka, kv = self.known
            C.prove('the greedy value', sym_implies(sym_and(s == ks, a == ka), v == kv), kind='aux')
            if C.entails(sym_and(s == ks, a == ka)):
                return kv
        return v

    def updateValue(self, s, a, v):
        self.inside(s, a)
        if isinstance(v, SArr):
            C.prove('a number', slen(v) == 1 if v.ndim else True)
            v = at(v, *([0] * v.ndim))
        self.tab[s, a] = v
        put(self, 'updates', self.updates + 1)

    def getMaxAction(self, s):
        C.prove('a state of the table', sym_and(s >= 0, s < self.ns))
        a = C.int('greedy')
        C.assume(sym_and(a >= 0, a < self.na))
        now = self.tab.copy()
        best = lambda b: sym_implies(sym_and(b >= 0, b < self.na), at(now, s, b) <= at(now, s, a))
        C.forall(1, best)
        if self.hint:
            self.hint(s, a, best)
        return a

    def getActionValues(self, s):
        return self.tab[s]


class Experience(object):
    """episodes e = 0 .. episodes-1 with len(e) steps"""

    def __init__(self, t, one=False):
        self.episodes = S(z3.IntVal(1)) if one else C.int('episodes', show=True)
        C.assume(self.episodes >= (1 if one else 0))
        self.ns, self.na = dim('states'), dim('actions')
        f = C.input_fun
        self.length = f('steps', Int, Int)
        self.s, self.a, self.r = f('state', Int, Int, Int), f('action', Int, Int, Int), f('reward', Int, Int, Real)
        C.forall(1, lambda e: S(self.length(T(e)) >= 1))
        C.forall(2, lambda e, k: S(z3.And(self.s(T(e), T(k)) >= 0, self.s(T(e), T(k)) < T(self.ns), self.a(T(e), T(k)) >= 0, self.a(T(e), T(k)) < T(self.na))))
        self.alpha, self.gamma = C.real('alpha', show=True), C.real('gamma', show=True)

    def sample(self, e, k):
        one = lambda v: SArr.make((1,), lambda i: v, 'R')
        return (one(z3.ToReal(self.s(T(e), T(k)))), one(z3.ToReal(self.a(T(e), T(k)))), one(self.r(T(e), T(k))))

    def dataset(self):
        return Seq(self.episodes, lambda e: Seq(S(self.length(T(e))), lambda k: self.sample(e, k)))


V_hint = []


def values(x, table, rule):
    """V(e, k, s, a): the table after k steps of episode e; rule: 'max' or 'taken'"""
    V = C.fun('V', Int, Int, Int, Int, Real)
    st, ac, rw = x.s, x.a, x.r
    t0 = table.tab.copy()
    C.forall(2, lambda s, a: S(V(z3.IntVal(0), z3.IntVal(0), T(s), T(a)) == T(at(t0, s, a))))
    C.forall(3, lambda e, s, a: S(V(T(e) + 1, z3.IntVal(0), T(s), T(a)) == V(T(e), x.length(T(e)), T(s), T(a))))
    C.forall(3, lambda e, s, a: S(V(T(e), z3.IntVal(1), T(s), T(a)) == V(T(e), z3.IntVal(0), T(s), T(a))))
    if rule == 'max':
        M, w = C.fun('Vmax', Int, Int, Real), C.fun('Vbest', Int, Int, Int)
        C.forall(3, lambda e, k, a: S(z3.Implies(z3.And(T(a) >= 0, T(a) < T(x.na)), V(T(e), T(k), st(T(e), T(k)), T(a)) <= M(T(e), T(k)))))
        attained = lambda e, k: S(z3.And(w(T(e), T(k)) >= 0, w(T(e), T(k)) < T(x.na), V(T(e), T(k), st(T(e), T(k)), w(T(e), T(k))) == M(T(e), T(k))))
        C.forall(2, attained)

        def hint(s, a, best, e, k):
            C.assume(best(S(w(T(e), T(k)))))
            C.assume(attained(e, k))
            C.prove('the greedy value is the largest', at(table.tab, s, a) == S(M(T(e), T(k))), kind='aux')
            table.known = (s, a, S(M(T(e), T(k))))
        V_hint.append(hint)
        nxt = lambda e, k: M(e, k)
    else:
        nxt = lambda e, k: V(e, k, st(e, k), ac(e, k))

    def step(e, k, s, a):
        e, k, s, a = T(e), T(k), T(s), T(a)
        old = V(e, k, s, a)
        hit = z3.And(s == st(e, k - 1), a == ac(e, k - 1))
        return S(z3.Implies(k >= 1, V(e, k + 1, s, a) == z3.If(hit, old + T(x.alpha) * (rw(e, k - 1) + T(x.gamma) * nxt(e, k) - old), old)))
    C.forall(4, step)
    return V


def batch(mod, name, rule):
    @task('C12', '%s.learn' % name, functions=[L_ + mod + '.%s.learn' % name, L_ + mod + '.%s.__init__' % name])
    def _(t):
        x = Experience(t)
        m = Table(x.ns, x.na)
        V = values(x, m, rule)
        learner = t.cls(L_ + mod, name)(x.alpha, x.gamma)
        learner._module = m
        learner.dataset = x.dataset()
        now = {}
        if rule == 'max':
            hint = V_hint.pop()
            m.hint = lambda s, a, best: 'step' in now and hint(s, a, best, now['episode'], now['step'])

        def same(e, k):
            return All(2, lambda s, a: sym_implies(sym_and(s >= 0, s < x.ns, a >= 0, a < x.na), at(m.tab, s, a) == S(V(T(e), T(k), T(s), T(a)))))

        def outer(L):
            now['episode'] = L.k
            return [('the table after the episodes so far', same(L.k, 0))]

        def inner(L):
            e, k = now['episode'], L.k
            if learner.laststate is None:
                mem = k == 0
            else:
                num = lambda v: at(v, 0) if isinstance(v, SArr) else v
                mem = sym_and(k >= 1, num(learner.laststate) == S(x.s(T(e), T(k) - 1)), num(learner.lastaction) == S(x.a(T(e), T(k) - 1)),
                              num(learner.lastreward) == S(x.r(T(e), T(k) - 1)))
            now['step'] = k
            return [('remembers the last step', mem), ('the table so far', same(e, k))]

        def forget(kind):
            def f():
                if kind == 's':
                    return None if C.choose() else C.int('laststate')
                if learner.laststate is None:
                    return None
                return C.int('lastaction') if kind == 'a' else vec('lastreward', 1)
            return f
        mods = lambda L: [m.tab, (m, 'updates'), (learner, 'laststate', forget('s')), (learner, 'lastaction', forget('a')), (learner, 'lastreward', forget('r'))]
        C.loop_specs[('%s.learn' % name, 0)] = LoopSpec(outer, modifies=mods)
        C.loop_specs[('%s.learn' % name, 1)] = LoopSpec(inner, modifies=mods)
        t.call('learn', learner.learn)
        s, a = index(x.ns, 's'), index(x.na, 'a')
        t.prove('the table holds the values of the temporal-difference updates, in order', at(m.tab, s, a) == S(V(T(x.episodes), z3.IntVal(0), T(s), T(a))))


batch('q', 'Q', 'max')
batch('sarsa', 'SARSA', 'taken')


@task('C12', 'QLambda.learn', functions=[L_ + 'qlambda.QLambda.learn', L_ + 'qlambda.QLambda.__init__'])
def _(t):
    x = Experience(t, one=True)
    m = Table(x.ns, x.na)
    n = S(x.length(z3.IntVal(0)))
    zero = z3.IntVal(0)
    lam = C.real('lambda', show=True)
    C.assume(lam >= 0)
    weight = lambda k: lam ** k
    C.forall(1, lambda k: sym_implies(k >= 0, weight(k + 1) == lam * weight(k)))
    C.assume(weight(S(z3.IntVal(0))) == 1)
    # U(k, s, a): the table after k steps backwards; step k moves from n-2-k to n-1-k
    U = C.fun('U', Int, Int, Int, Real)
    t0 = m.tab.copy()
    st, ac, rw = (lambda k: x.s(zero, T(k))), (lambda k: x.a(zero, T(k))), (lambda k: x.r(zero, T(k)))
    C.forall(2, lambda s, a: S(U(zero, T(s), T(a))) == at(t0, s, a))
    M, w = C.fun('Umax', Int, Real), C.fun('Ubest', Int, Int)
    C.forall(2, lambda k, a: S(z3.Implies(z3.And(T(a) >= 0, T(a) < T(x.na)), U(T(k), st(n - 1 - k), T(a)) <= M(T(k)))))
    attained = lambda k: S(z3.And(w(T(k)) >= 0, w(T(k)) < T(x.na), U(T(k), st(n - 1 - k), w(T(k))) == M(T(k))))
    C.forall(1, attained)

    def step(k, s, a):
        old = U(T(k), T(s), T(a))
        hit = z3.And(T(s) == st(n - 2 - k), T(a) == ac(n - 2 - k))
        new = old + T(x.alpha) * T(weight(k)) * (rw(n - 2 - k) + T(x.gamma) * M(T(k)) - old)
        return S(z3.Implies(z3.And(T(k) >= 0, T(k) < T(n) - 1), U(T(k) + 1, T(s), T(a)) == z3.If(hit, new, old)))
    C.forall(3, step)
    learner = t.cls(L_ + 'qlambda', 'QLambda')(x.alpha, x.gamma, lam)
    learner._module = m
    column = lambda f: SArr.make((n, 1), lambda i: f(S(i[0])), 'R')
    learner.dataset = dict(state=column(lambda k: z3.ToReal(st(k))), action=column(lambda k: z3.ToReal(ac(k))), reward=column(rw))
    now = {}

    def hint(s, a, best):
        k = now['k']
        C.assume(best(S(w(T(k)))))
        C.assume(attained(k))
        C.prove('the greedy value is the largest', at(m.tab, s, a) == S(M(T(k))), kind='aux')
        m.known = (s, a, S(M(T(k))))
    m.hint = hint
    same = lambda k: All(2, lambda s, a: sym_implies(sym_and(s >= 0, s < x.ns, a >= 0, a < x.na), at(m.tab, s, a) == S(U(T(k), T(s), T(a)))))

    def inv(L):
        now['k'] = L.k
        return [('one update per step', m.updates == L.k), ('the table so far', same(L.k))]
    C.loop_specs[('QLambda.learn', 0)] = LoopSpec(inv, modifies=lambda L: [m.tab, (m, 'updates')])
    t.call('learn', learner.learn)
    k = m.updates
    s, a = index(x.ns, 's'), index(x.na, 'a')
    t.prove('the table holds the values after the backward steps', at(m.tab, s, a) == S(U(T(k), T(s), T(a))))
    t.prove('all steps are learned from, or the weight is negligible', sym_or(k == n - 1, weight(k) < 0.0001))
    t.prove('no step beyond the first', sym_and(k >= 0, k <= n - 1))


def table(t, n=None):
    ns, na = dim('states'), dim('actions')
    m = t.cls(L_ + 'interface', 'ActionValueTable')(ns, na)
    t.prove('a value per state and action', slen(m.params) == ns * na)
    p = vec('params', ns * na)
    m._setParameters(p)
    r0 = m.params.copy()
    # rows belong to states, columns to actions
    value = lambda s, a: at(r0, s * na + a)
    return m, ns, na, r0, value


def cell(ns, na, name=''):
    return index(ns, 'state' + name), index(na, 'action' + name)


MT, MA = 'pybrain.structure.modules.table.Table.', L_ + 'interface.ActionValueTable.'


@task('C12', 'table: values', functions=[MT + 'updateValue', MT + 'getValue', MA + 'getActionValues', MA + '__init__', MA + 'initialize', MA + 'numActions'])
def _(t):
    m, ns, na, r0, value = table(t)
    s, a = cell(ns, na)
    t.prove('number of actions', m.numActions == na)
    t.prove('value', t.call('getValue', m.getValue, s, a) == value(s, a))
    t.prove('values of a state', at(t.call('getActionValues', m.getActionValues, s), a) == value(s, a))
    u, b = cell(ns, na, '2')
    v = C.real('new')
    t.call('updateValue', m.updateValue, u, b, v)
    t.prove('only this value changes', m.getValue(s, a) == ite(sym_and(s == u, a == b), v, value(s, a)))
    t.prove('the table is the parameter vector', at(m.params, s * na + a) == m.getValue(s, a))
    t.call('initialize', m.initialize, v)
    t.prove('initialised', m.getValue(s, a) == v)


@task('C12', 'table: greedy action', functions=[MA + 'getMaxAction', MA + '_forwardImplementation'])
def _(t):
    m, ns, na, r0, value = table(t)
    s, a = cell(ns, na)
    g = t.call('getMaxAction', m.getMaxAction, s)
    t.prove('an action', sym_and(g >= 0, g < na))
    t.prove('of largest value', value(s, a) <= at(r0, s * na + g))
    out = t.call('activate', m.activate, [s])
    g = at(out, 0)
    t.prove('activation gives a greedy action', sym_and(slen(out) == 1, g >= 0, g < na))
    b = C.int('answer')
    C.assume(b == g)
    t.prove('activation: of largest value', value(s, a) <= at(r0, s * na + b))
    k = index(ns * na, 'k')
    t.prove('asking changes nothing', at(m.params, k) == at(r0, k))
