"""Black-box optimizers report the best point they evaluated.

One evaluation from an arbitrary state of the optimizer is verified; the histories follow
by induction, since the optimizers evaluate through _oneEvaluation only. A state: evaluated
so often, the best value so far in the internal direction (or None) and its evaluable."""
from .common import *
from pyvc.runtime import pv_setattr as put

OP = 'pybrain.optimization.optimizer'
O = OP + '.BlackBoxOptimizer.'
ASSUMPTIONS = ['copies of evaluables are independent of the original (C01 for parameter containers)',
               'a learning step makes at most batchSize evaluations',
               'evaluations of an objective return finite numbers; the direction is chosen before the first evaluation']
BOUNDED_ONLY = ['whole runs of the concrete optimizers; ties with evolvables other than arrays and parameter containers: bounded harness']
is_ = lambda b: S(z3.BoolVal(bool(b)))


class Point(object):
    """an evolvable: identity and content"""

    def __init__(self, content, log=None):
        self.content, self.log = content, log

    def copy(self):
        return self.__class__(self.content, self.log)

    def mutate(self):
        C.prove('only a fresh copy is mutated', is_(self.fresh()))
        put(self, 'content', C.int('mutated'))

    randomize = mutate

    def fresh(self):
        return self.log is None or self not in self.log


class Objective(object):
    """records what it was asked; answers arbitrary numbers"""

    def __init__(self):
        self.asked, self.answers = [], []

    def __call__(self, x):
        self.asked.append(x)
        self.answers.append(C.real('value', show=True))
        return self.answers[-1]


KINDS = ['evolvable', 'wrapped', 'unwrapped']


def optimizer(t, kind, cls=None, must=None, minimize=None, base=None, f=None, init=None, **k):
    """a new optimizer with evaluator f"""
    Base = t.cls(*(base or (OP, 'ContinuousOptimizer' if kind == 'unwrapped' else 'BlackBoxOptimizer')))

    class Opt(Base):
        pass
    if must:
        setattr(Opt, 'must' + must, True)
    if minimize is not None:
        k['minimize'] = minimize
    return Opt(f, init, **k)


def start(t, kind):
    if kind == 'evolvable':
        return Point(C.int('content'))
    n = dim('dimension')
    x = vec('start', n)
    if kind == 'wrapped':
        return x
    pc = t.cls('pybrain.structure.parametercontainer', 'ParameterContainer')(n)
    pc._setParameters(x)
    return pc


def content(t, e):
    """what makes up an evaluable, as terms"""
    if isinstance(e, Point):
        return e.content
    a = e if isinstance(e, SArr) else e.params
    return a


def same(t, name, a, b):
    if isinstance(a, SArr):
        j = index(slen(b), 'component')
        t.prove(name, sym_and(slen(a) == slen(b), at(a, j) == at(b, j)))
    else:
        t.prove(name, a == b)


def value(a):
    return a.copy() if isinstance(a, SArr) else a


def candidate(t, o, kind, init):
    """an arbitrary point to be evaluated"""
    if kind == 'evolvable':
        return Point(C.int('candidate'))
    x = vec('candidate', o.numParameters)
    if kind == 'unwrapped':
        return x
    pc = o._initEvaluable.copy()
    pc._setParameters(x)
    return pc


DIRECTIONS = [(None, False), (None, True), ('Minimize', False), ('Minimize', True), ('Maximize', False), ('Maximize', True)]


def evaluate(kind, must, minimize):
    opposed = (must == 'Minimize' and not minimize) or (must == 'Maximize' and minimize)
    down = must == 'Minimize' or (minimize and not opposed)       # internal direction

    @task('C11', 'an evaluation: %s%s%s' % (kind, ', minimize' if minimize else '', ', internally ' + must.lower() if must else ''),
          functions=[O + '_oneEvaluation', O + '_bestFound', O + 'setEvaluator', O + '_setInitEvaluable', O + '_setMinimize', O + '_flipDirection', O + '__init__',
                     'pybrain.rl.environments.functions.transformations.oppositeFunction'] + ([OP + '.ContinuousOptimizer._setInitEvaluable', OP + '.ContinuousOptimizer._bestFound'] if kind == 'unwrapped' else []))
    def _(t):
        f = Objective()
        desired = C.real('desired')
        o = optimizer(t, kind, must=must, minimize=minimize, f=f, init=start(t, kind), storeAllEvaluated=True, storeAllEvaluations=True, desiredEvaluation=desired)
        t.prove('nothing is evaluated yet', sym_and(o.numEvaluations == 0, is_(o.bestEvaluation is None and not f.asked)))
        t.prove('the direction', is_(bool(o.minimize) == down and bool(o._wasOpposed) == opposed))
        sign = -1 if opposed else 1
        t.prove('the desired value', o.desiredEvaluation == sign * desired)
        # an arbitrary state
        n = C.int('evaluations', show=True)
        C.assume(n >= 0)
        o.numEvaluations = n
        some = C.choose()
        old = candidate(t, o, kind, None)
        if some:
            C.assume(n >= 1)
            best = C.real('best', show=True)
            o.bestEvaluation, o.bestEvaluable = best, old
        else:
            C.assume(n == 0)
        keep = value(content(t, old))
        all0, seen0 = C.fun('all', z3.IntSort(), z3.RealSort()), C.fun('seen', z3.IntSort(), z3.IntSort())
        o._allEvaluations.set_state((None, n, lambda i: S(all0(T(i)))))
        del f.asked[:], f.answers[:]
        x = candidate(t, o, kind, None)
        x0 = value(content(t, x))
        r = t.call('_oneEvaluation', o._oneEvaluation, x)
        v = f.answers[0]
        t.prove('the objective is asked once', is_(len(f.answers) == 1))
        asked = f.asked[0]
        same(t, 'about the candidate', content(t, asked), x0)
        if kind == 'wrapped':
            t.prove('an unwrapped candidate', is_(isinstance(asked, SArr)))
        if kind == 'unwrapped':
            t.prove('a wrapped candidate', is_(isinstance(asked, t.cls('pybrain.structure.parametercontainer', 'ParameterContainer'))))
        t.prove('the value', r == sign * v)
        t.prove('counted', o.numEvaluations == n + 1)
        t.prove('recorded in the sign of the user', sym_and(slen(o._allEvaluations) == n + 1, o._allEvaluations[n] == v))
        i = C.int('i')
        with supposing(sym_and(i >= 0, i < n)):
            t.prove('earlier evaluations are kept', o._allEvaluations._getter()(i) == S(all0(T(i))))
        t.prove('the evaluable is recorded', is_(slen(o._allEvaluated) == 1 and o._allEvaluated[0] is not x))
        same(t, 'the recorded evaluable', content(t, o._allEvaluated[0]), x0)
        # the candidate changes afterwards
        if isinstance(x, Point):
            x.content = C.int('later')
        else:
            (x if isinstance(x, SArr) else x._params)[:] = C.real('later')
        e, b = t.call('_bestFound', o._bestFound)
        e = content(t, e)
        user = v if not some else None
        if some:
            prev = sign * best
            pick = (lambda p, q: ite(p <= q, p, q)) if minimize else (lambda p, q: ite(p >= q, p, q))
            t.prove('the best of all values', b == pick(prev, v))
            isnew = (v < prev) if minimize else (v > prev)
            isold = (prev < v) if minimize else (prev > v)
            j = index(slen(e), 'j') if isinstance(e, SArr) else None
            get = (lambda a: at(a, j)) if isinstance(e, SArr) else (lambda a: a)
            t.prove('the best evaluable', sym_and(sym_implies(isnew, get(e) == get(x0)), sym_implies(isold, get(e) == get(keep))))
            t.prove('on a tie one of the two', sym_or(get(e) == get(x0), get(e) == get(keep)))
        else:
            t.prove('the best of all values', b == v)
            same(t, 'the best evaluable', e, x0)
        same(t, 'the recorded evaluable is kept', content(t, o._allEvaluated[0]), x0)


for _k in KINDS:
    for _m, _min in DIRECTIONS:
        evaluate(_k, _m, _min)


def direction(when):
    @task('C11', 'choosing the direction: %s' % when, functions=[O + '_setMinimize', O + '_getMinimize', O + '_flipDirection', O + 'setEvaluator'])
    def _(t):
        """set before or after the evaluator, once or twice, or taken from the evaluator"""
        for must, minimize in DIRECTIONS:
            f, g = Objective(), Objective()
            desired = C.real('desired')
            Fit = t.cls('pybrain.rl.environments.fitnessevaluator', 'FitnessEvaluator')

            class Eval(Fit):
                desiredValue = desired
                toBeMinimized = minimize

                def f(self, x):
                    return f_(x)
            f_ = f
            kw = dict(must=must, init=Point(C.int('content')))
            if when == 'after':
                o = optimizer(t, 'evolvable', f=f, desiredEvaluation=desired, **kw)
                o.minimize = minimize
            elif when == 'and changing it':
                o = optimizer(t, 'evolvable', f=f, desiredEvaluation=desired, minimize=not minimize, **kw)
                o.minimize = minimize
                o.minimize = minimize
            elif when == 'before':
                kw.pop('init')
                o = optimizer(t, 'evolvable', f=None, must=must)
                o.desiredEvaluation = desired
                o.minimize = minimize
                o.setEvaluator(f, Point(C.int('content')))
            elif when == 'a second evaluator':
                o = optimizer(t, 'evolvable', f=g, desiredEvaluation=desired, minimize=minimize, **kw)
                o.setEvaluator(f, Point(C.int('content')))
            else:
                o = optimizer(t, 'evolvable', f=Eval(), **kw)
            opposed = (must == 'Minimize' and not minimize) or (must == 'Maximize' and minimize)
            sign = -1 if opposed else 1
            tag = '%s%s' % ('minimize' if minimize else 'maximize', ' internally ' + must.lower() if must else '')
            t.prove('%s: internal direction' % tag, is_(bool(o.minimize) == (must == 'Minimize' or (minimize and not opposed)) and bool(o._wasOpposed) == opposed))
            r = t.call('_oneEvaluation', o._oneEvaluation, Point(C.int('content')))
            t.prove('%s: only negated' % tag, sym_and(is_(len(f.answers) == 1), r == sign * f.answers[0]))
            t.prove('%s: reported in the sign of the user' % tag, o._bestFound()[1] == f.answers[0])
            t.prove('%s: the desired value in the internal direction' % tag, o.desiredEvaluation == sign * desired)


for _w in ('before', 'after', 'and changing it', 'from the evaluator', 'a second evaluator'):
    direction(_w)


@task('C11', 'oppositeFunction', functions=['pybrain.rl.environments.functions.transformations.oppositeFunction'])
def _(t):
    opp = t.cls('pybrain.rl.environments.functions.transformations', 'oppositeFunction')
    f = Objective()
    g = t.call('opposite of a function', opp, f)
    t.prove('negated', g(3) == -f.answers[-1])
    Fit = t.cls('pybrain.rl.environments.fitnessevaluator', 'FitnessEvaluator')
    Env = t.cls('pybrain.rl.environments.functions.function', 'FunctionEnvironment')
    n = dim('dimension')
    for Base in (Fit, Env):
        for down in (False, True):
            class Eval(Base):
                desiredValue = C.real('desired')
                toBeMinimized = down

                def f(self, x):
                    return f(x)
            e = Eval() if Base is Fit else Eval(n)
            g = t.call('opposite of an evaluator', opp, e)
            x = vec('x', n)
            t.prove('negated value', g(x) == -f.answers[-1])
            t.prove('negated desired value', g.desiredValue == -e.desiredValue)
            t.prove('opposite direction', is_(g.toBeMinimized is (not down)))
            t.prove('the original is kept', is_(e.toBeMinimized is down))
            if Base is Env:
                t.prove('dimension', g.xdim == n)


@task('C11', 'learn: budgets', functions=[O + 'learn', O + '_stoppingCriterion', O + '_notify'])
def _(t):
    """steps are made only while the budgets allow; the contract of a step: up to batchSize
    evaluations, after which the best value is arbitrary"""
    minimize = C.choose()
    o = optimizer(t, 'evolvable', minimize=minimize, f=Objective(), init=Point(C.int('content')))
    o.numEvaluations = n0 = C.int('evaluations', show=True)
    o.numLearningSteps = s0 = C.int('steps', show=True)
    o.batchSize = b = dim('batchSize')
    C.assume(sym_and(n0 >= 0, s0 >= 0))
    limit = desired = steps = None
    o.maxEvaluations = None
    if C.choose():
        o.maxEvaluations = limit = C.int('maxEvaluations', show=True)
    if C.choose():
        o.desiredEvaluation = desired = C.real('desired', show=True)
    how = None
    if C.choose():
        steps = C.int('maxLearningSteps', show=True)
        C.assume(steps >= 0)
        how = C.choose()
        if how:
            o.maxLearningSteps = steps
    reached = lambda v: (v <= desired) if minimize else (v >= desired)

    def learnStep():
        if limit is not None:
            C.prove('the evaluation budget allows the step', o.numEvaluations + b <= limit)
        if desired is not None and o.bestEvaluation is not None:
            C.prove('the desired value is not reached yet', sym_not(reached(o.bestEvaluation)))
        if steps is not None:
            C.prove('the step budget allows the step', o.numLearningSteps < (steps if how else s0 + steps))
        k = C.int('made')
        C.assume(sym_and(k >= 0, k <= b))
        put(o, 'numEvaluations', o.numEvaluations + k)
        put(o, 'bestEvaluation', C.real('best'))
        if C.choose():
            raise t.cls('pybrain.utilities', 'DivergenceError')()
    o._learnStep = learnStep
    o.bestEvaluation = C.real('best') if C.choose() else None
    maker = lambda: C.real('best') if o.bestEvaluation is not None or C.choose() else None

    def within(n, s):
        c = [n >= n0, s >= s0]
        if limit is not None:
            c.append(sym_or(n == n0, n <= limit))
        if steps is not None:
            c.append(sym_or(s == s0, s <= (steps if how else s0 + steps)))
        return sym_and(*c)
    C.loop_specs[('BlackBoxOptimizer.learn', 0)] = LoopSpec(
        lambda L: [('within the budgets', within(o.numEvaluations, o.numLearningSteps))],
        modifies=lambda L: [(o, 'numEvaluations'), (o, 'numLearningSteps'), (o, 'bestEvaluation', maker)])
    r = t.call('learn', o.learn, *([steps] if steps is not None and not how else []))
    t.prove('no more evaluations or steps than asked', within(o.numEvaluations, o.numLearningSteps))
    t.prove('the best evaluation is returned', is_(r[1] is o.bestEvaluation))


HC = 'pybrain.optimization.hillclimber.'


def climber(base, minimize):
    @task('C11', '%s: a step%s' % (base[1], ', minimize' if minimize else ''), functions=[base[0] + '.%s._learnStep' % base[1], base[0] + '.%s._additionalInit' % base[1]])
    def _(t):
        """from an arbitrary state with a best point; the climber may stand elsewhere"""
        f = Objective()
        first = Point(C.int('content'))
        o = optimizer(t, 'evolvable', base=base, minimize=minimize, f=f, init=first)
        t.prove('the initial point is evaluated', sym_and(is_(len(f.answers) == 1 and f.asked[0] is first), o.numEvaluations == 1, o.bestEvaluation == f.answers[0]))
        e, b = o._bestFound()
        t.prove('and is the best so far', sym_and(e.content == first.content, b == f.answers[0]))
        c0 = first.content
        first.content = C.int('later')
        t.prove('the stored point is independent', o._bestFound()[0].content == c0)
        # an arbitrary history
        n, best = C.int('evaluations', show=True), C.real('best', show=True)
        C.assume(n >= 1)
        bc = C.int('best content')
        o.numEvaluations, o.bestEvaluation, o.bestEvaluable = n, best, Point(bc)
        if hasattr(o, '_current'):
            o._current, o._currentEvaluation = Point(C.int('stands')), C.real('stands', show=True)
            now = C.real('temperature')
            C.assume(now > 0)
            o.temperature = now
        stored = [x for x in (o.bestEvaluable, getattr(o, '_current', None), o._initEvaluable) if x is not None]
        for x in stored:
            x.log = stored
        del f.answers[:], f.asked[:]
        t.call('_learnStep', o._learnStep)
        t.prove('as many evaluations as announced', sym_and(is_(len(f.answers) == 1), o.numEvaluations == n + 1, o.batchSize == 1))
        v, x = f.answers[0], f.asked[0]
        e, b = o._bestFound()
        better, worse = ((v < best), (v > best)) if minimize else ((v > best), (v < best))
        t.prove('the best of all values', b == ite(better, v, best))
        t.prove('at its point', sym_and(sym_implies(worse, e.content == bc), sym_implies(better, e.content == x.content)))
        t.prove('on a tie one of the two', sym_or(e.content == bc, e.content == x.content))
        t.prove('the best value is never worse', (b <= best) if minimize else (b >= best))


for _b in ((HC[:-1], 'HillClimber'), (HC[:-1], 'StochasticHillClimber'), ('pybrain.optimization.randomsearch', 'RandomSearch')):
    for _m in (False, True):
        climber(_b, _m)


@task('C11', 'initial populations', functions=[O + 'setEvaluator'])
def _(t):
    """optimizers that evaluate several points while being set up"""
    f = Objective()
    Base = t.cls(OP, 'BlackBoxOptimizer')

    class Opt(Base):
        def _additionalInit(self):
            for x in pop:
                self._oneEvaluation(x)
    pop = [Point(C.int('member')) for _ in range(3)]
    o = t.call('construction', Opt, f, Point(C.int('content')))
    e, b = o._bestFound()
    t.prove('best of the population', sym_and(*[b >= v for v in f.answers]))
    t.prove('at its point', sym_or(*[sym_and(b == v, e.content == x.content) for v, x in zip(f.answers, pop)]))
