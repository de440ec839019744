"""Bounded contract checks for C11: bookkeeping of black-box optimizers."""
from lib import *
import logging
import numpy as np
logging.disable(logging.CRITICAL)
from pybrain.optimization.optimizer import BlackBoxOptimizer, ContinuousOptimizer
from pybrain.optimization import HillClimber, StochasticHillClimber, RandomSearch
from pybrain.structure.parametercontainer import ParameterContainer
from pybrain.structure.evolvables.evolvable import Evolvable
from pybrain.rl.environments.fitnessevaluator import FitnessEvaluator
from pybrain.rl.environments.functions.function import FunctionEnvironment
from pybrain.rl.environments.functions.transformations import oppositeFunction
from pybrain.utilities import DivergenceError


def content(x):
    if isinstance(x, Thing):
        return (x.v,)
    return tuple(np.ravel(x if isinstance(x, (np.ndarray, list)) else x.params))


class Thing(Evolvable):
    def __init__(self, rng, v):
        self.rng, self.v = rng, v

    def mutate(self, **k):
        self.v += self.rng.choice([-1., 0., 1., self.rng.uniform(-1, 1)])

    def randomize(self):
        self.v = self.rng.uniform(-3, 3)

    def copy(self):
        return Thing(self.rng, self.v)

    def newSimilarInstance(self):
        return self.copy()


KINDS = {'list': np.ndarray, 'array': np.ndarray, 'container': ParameterContainer, 'evolvable': Thing}


class Seen(object):
    """objective that remembers what it was asked"""

    def __init__(self, rng):
        self.rng, self.seen, self.off = rng, [], rng.uniform(-1, 1)
        self.ties = rng.random() < .4

    kind = None

    def __call__(self, x):
        if self.kind:
            expect(isinstance(x, KINDS[self.kind]), 'the objective gets what it is defined for', kind=self.kind, got=type(x))
        c = content(x)
        v = -sum((a - self.off) ** 2 for a in c) + .3 * sum(c)
        if self.ties:
            v = float(round(v))
        self.seen.append((c, v))
        return v


def best(seen, down):
    v = (min if down else max)(w for _, w in seen)
    return v, set(c for c, w in seen if w == v)


def expect_best(o, seen, down, what, **k):
    e, b = o._bestFound()
    v, at = best(seen, down)
    if 'kind' in k:
        expect(isinstance(e, KINDS[k['kind']]), '%s: kind of the best evaluable' % what, got=type(e), **k)
    expect(b == v, '%s: the best value' % what, reported=b, best=v, **k)
    expect(content(e) in at, '%s: the best evaluable has the best value' % what, reported=content(e), value=v, candidates=list(at)[:3], **k)


def initial(rng, kind, n):
    x = [rng.uniform(-2, 2) for _ in range(n)]
    if kind == 'list':
        return x
    if kind == 'array':
        return np.array(x)
    if kind == 'evolvable':
        return Thing(rng, x[0])
    p = ParameterContainer(n)
    p._setParameters(x)
    return p


def evaluator(rng, f, n, down):
    how = rng.choice(['callable', 'fitness', 'function'])
    if how == 'callable':
        return f, False
    class E(FunctionEnvironment if how == 'function' else FitnessEvaluator):
        desiredValue = None
        toBeMinimized = down
        def f(self, x): return f(x)
        def __call__(self, x): return f(x)
    return (E(n) if how == 'function' else E()), True


@check('evaluations', n=250)
def _(rng, it):
    n = rng.randint(1, 3)
    cont = rng.random() < .4
    kind = rng.choice(['list', 'array', 'container'] + ([] if cont else ['evolvable']))
    Base = ContinuousOptimizer if cont else BlackBoxOptimizer
    class Opt(Base):
        mustMinimize = False
    must = rng.choice([None, 'Minimize', 'Maximize'])
    if must:
        setattr(Opt, 'must' + must, True)
    down = rng.random() < .5
    f = Seen(rng)
    ev, tells = (f, False) if kind == 'evolvable' else evaluator(rng, f, n, down)
    if ev is f:
        f.kind = kind
    kw = {}
    if not tells or rng.random() < .5:
        kw['minimize'] = down
    elif not tells:
        down = False
    again = rng.random() < .5
    if again and 'minimize' in kw:
        kw['minimize'] = rng.random() < .5
    want = rng.choice([None, rng.uniform(-1, 1), float(rng.randint(-3, 1))])
    if want is not None:
        kw['desiredEvaluation'] = want
    init = initial(rng, kind, n)
    first = content(init)
    o = Opt(ev, init, storeAllEvaluations=True, storeAllEvaluated=True, **kw)
    expect(o.numEvaluations == 0 and o._bestFound()[1] is None, 'nothing evaluated yet')
    if again:
        # the direction is chosen, or chosen again, before the first evaluation
        for d in [rng.random() < .5 for _ in range(rng.randint(0, 2))] + [down]:
            o.minimize = d
    cur = o._initEvaluable
    expect(content(cur) == first, 'the initial point')
    for k in range(rng.randint(1, 6)):
        if cont:
            x = np.array([rng.choice([0., 1., rng.uniform(-2, 2)]) for _ in range(n)])
        else:
            x = cur.copy()
            if kind == 'evolvable':
                x.mutate()
            else:
                x._setParameters([rng.choice([0., 1., rng.uniform(-2, 2)]) for _ in range(n)])
        c = content(x)
        r = o._oneEvaluation(x)
        sign = -1 if o._wasOpposed else 1
        expect(f.seen[-1][0] == c and len(f.seen) == k + 1 and r == sign * f.seen[-1][1], 'the objective is asked about the candidate')
        if want is not None:
            reached = any(v <= want if down else v >= want for _, v in f.seen)
            o.maxEvaluations = None
            expect(bool(o._stoppingCriterion()) == reached, 'the desired value stops', desired=want, seen=f.seen, minimize=down)
        # later changes
        if kind == 'evolvable':
            x.v += 5
        elif cont:
            x += 5
        else:
            x._params[:] += 5
        expect_best(o, f.seen, down, 'evaluations', minimize=down, must=must, kind=kind, asked=f.seen)
    expect(o.numEvaluations == len(f.seen), 'number of evaluations')
    expect(list(o._allEvaluations) == [v for _, v in f.seen] and [content(e) for e in o._allEvaluated] == [c for c, _ in f.seen], 'evaluations are recorded in order',
           recorded=list(o._allEvaluations), seen=f.seen)
    expect(all(isinstance(x, KINDS[kind]) for x in o._allEvaluated), 'kind of the records')
    expect(content(init) == first, 'the initial evaluable is kept')


@check('starting anywhere', n=40)
def _(rng, it):
    n = rng.randint(1, 4)
    f = Seen(rng)
    class E(FunctionEnvironment):
        desiredValue = None
        toBeMinimized = rng.random() < .5
        def f(self, x): return f(x)
        def __call__(self, x): return f(x)
    Alg = rng.choice([HillClimber, RandomSearch])
    o = Alg(E(n), maxEvaluations=4) if rng.random() < .5 else Alg(f, numParameters=n, minimize=E.toBeMinimized, maxEvaluations=4)
    x, v = o.learn()
    expect(all(len(c) == n for c, _ in f.seen) and len(f.seen) == 4, 'points of the stated dimension', asked=f.seen)
    expect_best(o, f.seen, E.toBeMinimized, 'starting anywhere', asked=f.seen)


@check('a second objective', n=60)
def _(rng, it):
    down = rng.random() < .5
    class Opt(HillClimber):
        mustMinimize, mustMaximize = rng.choice([(True, False), (False, True), (False, False)])
    want = rng.uniform(-1, 0)
    o = Opt(Seen(rng), [0.], minimize=down, desiredEvaluation=want, maxEvaluations=20)
    f = Seen(rng)
    o.setEvaluator(f, [rng.uniform(-1, 1)])
    x, v = o.learn()
    expect_best(o, f.seen, down, 'second objective', minimize=down)
    hit = [w <= want if down else w >= want for _, w in f.seen]
    expect(not any(hit[:-1]) and (hit[-1] or o.numEvaluations >= 20), 'the desired value stops', desired=want, minimize=down, seen=f.seen[-3:])


@check('climbing', n=150)
def _(rng, it):
    Alg = rng.choice([HillClimber, StochasticHillClimber, RandomSearch])
    kind = rng.choice(['list', 'array', 'container', 'evolvable'])
    down, n = rng.random() < .5, rng.randint(1, 3)
    f = Seen(rng)
    f.kind = kind
    init = initial(rng, kind, n)
    budget, steps = rng.choice([None, rng.randint(1, 30)]), rng.choice([None, rng.randint(0, 10)])
    want = rng.choice([None, None, rng.uniform(-1, 1)])
    if budget is None and steps is None:
        budget = 25
    kw = dict(maxEvaluations=budget, minimize=down, storeAllEvaluations=True, storeAllEvaluated=True)
    if want is not None:
        kw['desiredEvaluation'] = want
    direct = rng.random() < .5
    if steps is not None and direct:
        kw['maxLearningSteps'] = steps
    if Alg is StochasticHillClimber:
        kw['temperature'] = rng.choice([.01, 1., 100.])
    o = Alg(f, init, **kw)
    expect(len(f.seen) == 1, 'the initial point is evaluated')
    # the initial evaluable changes afterwards
    if kind == 'evolvable':
        init.v += 7
    elif kind == 'container':
        init._params[:] += 7
    expect_best(o, f.seen, down, 'initial point', kind=kind)
    e, v = o.learn(steps) if steps is not None and not direct else o.learn()
    expect_best(o, f.seen, down, Alg.__name__, minimize=down, kind=kind, asked=f.seen[-4:])
    made = o.numLearningSteps
    expect(o.numEvaluations == len(f.seen) and made == len(f.seen) - 1, 'every evaluation is counted')
    expect(budget is None or len(f.seen) <= max(1, budget), 'evaluation budget', budget=budget, made=len(f.seen))
    expect(steps is None or made <= steps, 'step budget', steps=steps, made=made, direct=direct)
    if want is not None:
        expect(not any(w <= want if down else w >= want for _, w in f.seen[:-1]), 'the desired value stops', desired=want, minimize=down, seen=f.seen[-3:])
    expect(list(o._allEvaluations) == [w for _, w in f.seen] and [content(x) for x in o._allEvaluated] == [c for c, _ in f.seen], 'records')
    expect(all(isinstance(x, KINDS[kind]) for x in o._allEvaluated), 'kind of the records')
    if steps is not None and (budget is None or len(f.seen) < budget) and want is None:
        expect(made == steps, 'all steps are made', steps=steps, made=made)


def algorithms():
    import importlib
    out = []
    for m, c in [('populationbased.es', 'ES'), ('populationbased.ga', 'GA'), ('neldermead', 'NelderMead'), ('finitedifference.fd', 'FiniteDifferences'),
                 ('finitedifference.spsa', 'SimpleSPSA'), ('finitedifference.pgpe', 'PGPE'), ('distributionbased.snes', 'SNES'), ('distributionbased.xnes', 'XNES'),
                 ('distributionbased.nes', 'ExactNES'), ('distributionbased.nes', 'OriginalNES'), ('distributionbased.fem', 'FEM'), ('distributionbased.cmaes', 'CMAES'),
                 ('populationbased.pso', 'ParticleSwarmOptimizer'), ('distributionbased.rank1', 'Rank1NES')]:
        try:
            out.append(getattr(importlib.import_module('pybrain.optimization.' + m), c))
        except (ImportError, AttributeError):
            pass
    return out


ALL = algorithms()


@check('every optimizer', n=70)
def _(rng, it):
    Alg = ALL[it % len(ALL)]
    f = Seen(rng)
    f.ties = False
    down, n = rng.random() < .5, rng.randint(2, 3)
    kw = dict(mu=4, lambada=8) if Alg.__name__ == 'ES' else {}
    pso = Alg.__name__ == 'ParticleSwarmOptimizer'
    if pso:
        kw['numParameters'] = n
    try:
        o = Alg(f, None if pso else np.array([rng.uniform(-1, 1) for _ in range(n)]), minimize=down, maxEvaluations=rng.randint(20, 150), **kw)
        e, v = o.learn(rng.choice([None, 1, 3]))
    except (AttributeError, TypeError, ValueError, ImportError, ZeroDivisionError, IndexError, np.linalg.LinAlgError) as ex:
        if os.environ.get('C11_DEBUG'):
            import traceback
            traceback.print_exc()
            print(Alg.__name__, ex)
        return          # numerics of the algorithm: not part of this property
    if not f.seen:
        return
    expect_best(o, f.seen, down, Alg.__name__, minimize=down)
    v2, _ = best(f.seen, down)
    expect(v == v2 and f(e) == v2, 'learn returns the best point', algorithm=Alg.__name__)
    expect(o.numEvaluations == len(f.seen) - 1, 'every evaluation is counted', algorithm=Alg.__name__, counted=o.numEvaluations, seen=len(f.seen) - 1)
    expect(len(f.seen) - 1 <= o.maxEvaluations, 'evaluation budget', algorithm=Alg.__name__, made=len(f.seen) - 1, budget=o.maxEvaluations)


@check('opposite functions', n=60)
def _(rng, it):
    a = rng.uniform(-2, 2)
    x = np.array([rng.uniform(-1, 1)])
    g = oppositeFunction(lambda y: a * y)
    expect(g(3.) == -a * 3., 'negated')
    for Base in (FitnessEvaluator, FunctionEnvironment):
        class E(Base):
            desiredValue = rng.choice([None, a])
            toBeMinimized = rng.random() < .5
            def f(self, y): return a * float(y[0])
        e = E() if Base is FitnessEvaluator else E(1)
        g = oppositeFunction(e)
        expect(g(x) == -e(x) and g.toBeMinimized == (not e.toBeMinimized) and (e.desiredValue is None or g.desiredValue == -a), 'opposite evaluator')
        h = oppositeFunction(g)
        expect(h(x) == e(x) and h.toBeMinimized == e.toBeMinimized and (e.desiredValue is None or h.desiredValue == e.desiredValue), 'the opposite of the opposite')


@check('numerical errors', n=20)
def _(rng, it):
    bad = rng.choice([float('nan'), float('inf'), -float('inf')])
    vals = [rng.uniform(-1, 1) for _ in range(rng.randint(1, 4))] + [bad]
    it_ = iter(vals)
    o = HillClimber(lambda x: next(it_), [0.])
    x, v = o.learn()
    expect(v == max(vals[:-1]), 'the best finite value', values=vals, reported=v)


if __name__ == '__main__':
    main()
