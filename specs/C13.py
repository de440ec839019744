"""Agents and experiments follow the interaction protocol and log it faithfully."""
from .common import *
from . import C08 as seqs
from pyvc.runtime import Refill, pv_setattr as put

AG, EX, EN = 'pybrain.rl.agents.', 'pybrain.rl.experiments.', 'pybrain.rl.environments.'
FIELDS = ['state', 'action', 'reward']
ASSUMPTIONS = ['observations and actions that were handed over are not changed afterwards by their owner',
               'the agent, task, module, learner and environment of a user keep the protocol themselves']
BOUNDED_ONLY = ['whole experiments of real tasks, agents and learners: bounded harness']
Int, Real = z3.IntSort(), z3.RealSort()


def agent(t, kind='LoggingAgent'):
    """an agent with an arbitrary history"""
    s = seqs.State(t, t.cls('pybrain.datasets.reinforcement', 'ReinforcementDataSet'), FIELDS)
    Base = t.cls(AG + 'logging', 'LoggingAgent')

    class Acting(Base):
        def getAction(self):
            Base.getAction(self)
            self.lastaction = self.choice
            return self.choice
    a = Acting(s.dims['state'], s.dims['action'])
    t.prove('a new agent has an empty history of its dimensions', sym_and(slen(a.history) == 0, a.history.getDimension('state') == s.dims['state'],
                                                                           a.history.getDimension('action') == s.dims['action']))
    a.history = s.ds
    return s, a


def appended(t, s, a, obs, act, r):
    s.invariant('logging', s.n + 1, s.ns)
    s.boundaries('logging', s.n + 1, s.ns, s.st)
    for l, v in (('state', obs), ('action', act), ('reward', r)):
        i, j = index(s.n, 'row'), index(s.dims[l], 'col')
        t.prove('one sample is appended: %s' % l, at(s.ds.data[l], s.n, j) == (at(v, j) if isinstance(v, SArr) else v))
        t.prove('earlier samples are kept', at(s.ds.data[l], i, j) == at(s.old[l], i, j))


FN = [AG + 'logging.LoggingAgent.' + f for f in ('__init__', 'integrateObservation', 'getAction', 'giveReward')] + \
     ['pybrain.datasets.reinforcement.ReinforcementDataSet.addSample']


def sizes(t, s, scalar):
    if scalar:
        C.assume(sym_and(s.dims['state'] == 1, s.dims['action'] == 1))
        return C.real('obs', show=True), C.real('act', show=True), C.real('r', show=True)
    return vec('obs', s.dims['state']), vec('act', s.dims['action']), C.real('r', show=True)


def logging(scalar, on):
    @task('C13', 'logging an interaction%s%s' % (': numbers' if scalar else '', '' if on else ': switched off'), functions=FN)
    def _(t):
        s, a = agent(t)
        obs, act, r = sizes(t, s, scalar)
        a.choice = act
        if not on:
            a.logging = False
        t.call('integrateObservation', a.integrateObservation, obs)
        s.unchanged('observing')
        got = t.call('getAction', a.getAction)
        t.prove('the chosen action', S(z3.BoolVal(got is act)))
        s.unchanged('acting')
        t.call('giveReward', a.giveReward, r)
        if on:
            appended(t, s, a, obs, act, r)
        else:
            s.unchanged('not logging')


for _s in (False, True):
    for _o in (True, False):
        logging(_s, _o)


@task('C13', 'logging: out of order', functions=FN)
def _(t):
    """memory of the agent: any combination of observation, action and reward"""
    s, a = agent(t)
    obs, act, r = sizes(t, s, False)
    a.choice = act
    o, c, w = C.choose(), C.choose(), C.choose()
    if o:
        a.lastobs = obs
    if c:
        a.lastaction = act
    if w:
        a.lastreward = r
    if C.choose():
        if o and not c and not w:
            t.call('getAction', a.getAction)
        else:
            t.raises('acting without a new observation', AssertionError, a.getAction)
        s.unchanged('acting')
    elif C.choose():
        if o and c and not w:
            t.call('giveReward', a.giveReward, r)
            appended(t, s, a, obs, act, r)
            t.raises('rewarding twice', AssertionError, a.giveReward, r)
        else:
            t.raises('reward without observation and action', AssertionError, a.giveReward, r)
            s.unchanged('refused')
    else:
        t.call('integrateObservation', a.integrateObservation, obs)
        t.raises('reward before the action', AssertionError, a.giveReward, r)
        t.call('getAction', a.getAction)
        t.raises('acting twice', AssertionError, a.getAction)
        s.unchanged('refused')


@task('C13', 'logging: episodes', functions=[AG + 'logging.LoggingAgent.newEpisode', AG + 'logging.LoggingAgent.reset'])
def _(t):
    s, a = agent(t)
    last = s.st(s.ns - 1)
    if C.choose():
        a.logging = False
        t.call('newEpisode', a.newEpisode)
        s.unchanged('not logging')
    elif C.choose():
        Empty = t.cls('pybrain.datasets.sequential', 'EmptySequenceError')
        C.assume(sym_or(last < s.n, s.n == 0))
        t.call('newEpisode', a.newEpisode)
        if s.n == 0:
            s.unchanged('the first episode')
        else:
            s.invariant('newEpisode', s.n, s.ns + 1)
            s.boundaries('newEpisode', s.n, s.ns + 1, lambda i: ite(i == s.ns, s.n, s.st(i)))
    else:
        obs, act, r = sizes(t, s, False)
        a.choice = act
        a.integrateObservation(obs)
        a.getAction()
        t.call('reset', a.reset)
        t.prove('the history is erased', sym_and(slen(s.ds) == 0, s.ds.getNumSequences() == 1))
        t.raises('reward after a reset', AssertionError, a.giveReward, r)
        t.raises('action after a reset', AssertionError, a.getAction)


class Part(object):
    """records the calls made to it"""

    def __init__(self, log, **k):
        self.log = log
        for a, v in k.items():
            setattr(self, a, v)


LA = [AG + 'learning.LearningAgent.' + f for f in ('__init__', 'getAction', 'newEpisode', 'reset', 'learn', '_getLearning', '_setLearning')]


def learning(mode):
    """mode: no learner, a learner that is switched off, a learner"""
    @task('C13', 'LearningAgent: %s' % mode, functions=LA + FN)
    def _(t):
        s = seqs.State(t, t.cls('pybrain.datasets.reinforcement', 'ReinforcementDataSet'), FIELDS)
        obs, act, r = sizes(t, s, False)
        explored = vec('explored', s.dims['action'])
        log = []

        class Module(Part):
            def activate(self, x):
                self.log.append(('activate', x))
                return act

            def reset(self):
                self.log.append(('module reset',))

        class Learner(Part):
            module = dataset = None

            def explore(self, x, y):
                self.log.append(('explore', x, y))
                return explored

            def newEpisode(self):
                self.log.append(('learner episode', slen(self.dataset), self.dataset.getNumSequences()))

            def reset(self):
                self.log.append(('learner reset',))

            def learnEpisodes(self, k):
                self.log.append(('learn', k))
        m = Module(log, indim=s.dims['state'], outdim=s.dims['action'])
        l = None if mode == 'no learner' else Learner(log)
        on = mode == 'learning'
        a = t.call('LearningAgent', t.cls(AG + 'learning', 'LearningAgent'), m, l)
        is_ = lambda b: S(z3.BoolVal(bool(b)))
        if l is not None:
            t.prove('the learner knows module and history', is_(l.module is m and l.dataset is a.history))
            l.dataset = s.ds
        t.prove('learning by default', is_(a.learning == (l is not None)))
        if mode == 'no learner':
            a.learning = True
            t.prove('no learning without a learner', is_(a.learning is False))
        if mode == 'switched off':
            a.learning = False
            t.prove('learning is switched off', is_(a.learning is False))
        a.history = s.ds
        t.raises('acting without an observation', AssertionError, a.getAction)
        a.integrateObservation(obs)
        got = t.call('getAction', a.getAction)
        t.prove('the module is asked about the observation, the explorer about its answer', is_(
            log == [('activate', obs)] + ([('explore', obs, act)] if on else []) and all(e[1] is obs for e in log) and (not on or log[1][2] is act)))
        t.prove('the action', is_(got is (explored if on else act)))
        t.raises('acting twice', AssertionError, a.getAction)
        s.unchanged('acting')
        t.call('giveReward', a.giveReward, r)
        appended(t, s, a, obs, explored if on else act, r)
        t.raises('rewarding twice', AssertionError, a.giveReward, r)
        k = C.int('episodes')
        del log[:]
        t.call('learn', a.learn, k)
        t.prove('learning', is_(len(log) == (1 if on else 0) and (not on or log[0][0] == 'learn')))
        if on:
            t.prove('learning as long as asked', log[0][1] == k)
        del log[:]
        t.call('newEpisode', a.newEpisode)
        t.prove('new episode', is_([e[0] for e in log] == ['module reset'] + (['learner episode'] if on else [])))
        t.prove('new episode in the history', sym_and(s.ds.getNumSequences() == s.ns + 1, slen(s.ds) == s.n + 1, s.ds.getSequenceLength(s.ns) == 0))
        a.logging = False
        del log[:]
        t.call('newEpisode', a.newEpisode)
        t.prove('new episode', is_([e[0] for e in log] == ['module reset'] + (['learner episode'] if on else [])))
        a.integrateObservation(obs)
        a.getAction()
        a.giveReward(r)
        t.prove('nothing is recorded with logging switched off', sym_and(s.ds.getNumSequences() == s.ns + 1, slen(s.ds) == s.n + 1, s.ds.getSequenceLength(s.ns) == 0))
        del log[:]
        t.call('reset', a.reset)
        t.prove('reset', is_([e[0] for e in log] == ['module reset'] + (['learner reset'] if on else [])))
        t.prove('the history is erased', slen(s.ds) == 0)


for _m in ('no learner', 'switched off', 'learning'):
    learning(_m)


class World(object):
    """task and agent of an experiment: both insist on the protocol. The k-th interaction
    must hand on the observation, action and reward with number k."""

    def __init__(self, episodic=False):
        self.steps = S(z3.IntVal(0))       # finished interactions
        self.phase = S(z3.IntVal(0))
        self.episode = S(z3.IntVal(0))     # episodes begun
        self.started = S(z3.IntVal(0))     # steps at the start of the episode
        self.learned = S(z3.IntVal(0))
        self.O, self.A, self.R = [C.input_fun(x, Int, Real) for x in ('observation', 'action', 'reward')]
        self.finished = C.fun('finished', Int, Int, z3.BoolSort())
        self.hook = None
        self.told = S(z3.IntVal(0))

    def step(self, f, phase, value=None):
        k = T(self.steps)
        C.prove('the protocol: %s' % ['observation', 'integrate', 'choose', 'act', 'reward', 'give'][phase], self.phase == phase)
        if value is not None:
            C.prove('handed on as it is', value == S(f(k)))
        put(self, 'phase', self.phase + 1 if phase < 5 else S(z3.IntVal(0)))
        if phase == 5:
            put(self, 'steps', self.steps + 1)
        return S(f(k))


class Task_(object):
    def __init__(self, w):
        self.w = w

    def getObservation(self):
        return self.w.step(self.w.O, 0)

    def performAction(self, a):
        self.w.step(self.w.A, 3, a)

    def getReward(self):
        return self.w.step(self.w.R, 4)

    def reset(self):
        w = self.w
        C.prove('the task is reset between interactions', w.phase == 0)
        C.prove('the agent knows of the new episode before', w.told == w.episode + 1)
        if w.hook:
            w.hook(w.episode)
        put(w, 'episode', w.episode + 1)
        put(w, 'started', w.steps)

    def isFinished(self):
        w = self.w
        C.prove('between interactions', w.phase == 0)
        return S(w.finished(T(w.episode - 1), T(w.steps - w.started)))


class Agent_(object):
    def __init__(self, w):
        self.w = w

    def integrateObservation(self, o):
        self.w.step(self.w.O, 1, o)

    def getAction(self):
        return self.w.step(self.w.A, 2)

    def giveReward(self, r):
        self.w.step(self.w.R, 5, r)

    def newEpisode(self):
        w = self.w
        C.prove('the episode begins between interactions', w.phase == 0)
        put(w, 'told', w.told + 1)

    def learn(self):
        w = self.w
        C.prove('learning after every interaction', sym_and(w.phase == 0, w.learned + 1 == w.steps - w.base))
        put(w, 'learned', w.learned + 1)


def world():
    w = World()
    w.steps = w.base = C.int('before', show=True)
    return w


def interactions(cls, meth, mod, learns):
    @task('C13', '%s.%s' % (cls, meth), functions=[EX + 'experiment.Experiment.__init__', EX + 'experiment.Experiment._oneInteraction', EX + mod + '.%s.%s' % (cls, meth)])
    def _(t):
        w = world()
        e = t.call('Experiment', t.cls(EX + mod, cls), Task_(w), Agent_(w))
        t.prove('no interaction yet', e.stepid == 0)
        e.stepid = s0 = C.int('stepid', show=True)
        n = C.int('number', show=True)
        C.assume(n >= 0)
        C.loop_specs[('%s.%s' % (cls, meth), 0)] = LoopSpec(
            lambda L: [('so many interactions', sym_and(w.steps == w.base + L.k, w.phase == 0, e.stepid == s0 + L.k, w.learned == (L.k if learns else 0)))],
            modifies=lambda L: [(w, 'steps'), (w, 'phase'), (w, 'learned'), (e, 'stepid')])
        r = t.call(meth, getattr(e, meth), n)
        t.prove('exactly n interactions', sym_and(w.steps == w.base + n, w.phase == 0, w.learned == (n if learns else 0)))
        t.prove('the interactions are counted', sym_and(r == s0 + n, e.stepid == s0 + n))
        if not learns:
            k = w.steps
            got = t.call('_oneInteraction', e._oneInteraction)
            t.prove('one interaction gives its reward', sym_and(got == S(w.R(T(k))), w.steps == k + 1, w.phase == 0, e.stepid == s0 + n + 1))


interactions('Experiment', 'doInteractions', 'experiment', False)
interactions('EpisodicExperiment', 'doInteractions', 'episodic', False)
interactions('ContinuousExperiment', 'doInteractionsAndLearn', 'continuous', True)


def doing_episodes(w, e):
    """contracts of the two loops of doEpisodes; the rewards must be those of the episodes"""
    first = w.episode
    starts = C.fun('start', Int, Int)            # steps before episode i
    start = lambda i: S(starts(T(i)))
    w.hook = lambda i: C.assume(start(i) == w.steps)

    def outer(L):
        k = L.k
        out = [('so many episodes', sym_and(w.episode == first + k, w.told == w.episode, w.phase == 0, slen(L.all_rewards) == k))]
        if isinstance(k, int) and k == 0:
            return out + [('first', first == w.episode)]
        rs = L.all_rewards._getter()
        ok = lambda i: sym_and(i >= 0, i < k)
        size = lambda i: slen(rs(i))
        over = lambda i, j: S(w.finished(T(first + i), T(j)))
        return out + [
            ('every episode is complete', All(1, lambda i: sym_implies(ok(i), sym_and(size(i) >= 0, over(i, size(i)))))),
            ('and ends when the task says so', All(2, lambda i, j: sym_implies(sym_and(ok(i), j >= 0, j < size(i)), sym_not(over(i, j))))),
            ('the rewards of its steps', All(2, lambda i, j: sym_implies(sym_and(ok(i), j >= 0, j < size(i)), rs(i)._getter()(j) == S(w.R(T(start(first + i) + j))))))]

    def inner(L):
        size = w.steps - w.started
        out = [('steps of this episode', sym_and(size >= 0, e.stepid == size, w.phase == 0, slen(L.rewards) == size)),
               ('not over before', All(1, lambda k: sym_implies(sym_and(k >= 0, k < size), sym_not(S(w.finished(T(w.episode - 1), T(k)))))))]
        if L.rewards.items is None:
            get = L.rewards._getter()
            out.append(('the rewards of this episode', All(1, lambda k: sym_implies(sym_and(k >= 0, k < size), get(k) == S(w.R(T(w.started + k)))))))
        return out

    def forget_all(L):
        f, n = C.fun('rewards', Int, Int, Real), C.fun('lengths', Int, Int)
        L.all_rewards.set_state((None, C.int('done'), lambda i: SList.from_fn(S(n(T(i))), lambda j: S(f(T(i), T(j))))))

    def forget(L):
        f = C.fun('rewards', Int, Real)
        L.rewards.set_state((None, C.int('done'), lambda i: S(f(T(i)))))
    moving = [(w, 'steps'), (w, 'phase'), (e, 'stepid')]
    C.loop_specs[('EpisodicExperiment.doEpisodes', 0)] = LoopSpec(outer, modifies=lambda L: [lambda: forget_all(L), (w, 'episode'), (w, 'told'), (w, 'started')] + moving)
    C.loop_specs[('EpisodicExperiment.doEpisodes', 1)] = LoopSpec(inner, modifies=lambda L: [lambda: forget(L)] + moving)
    return start


@task('C13', 'EpisodicExperiment.doEpisodes', functions=[EX + 'experiment.Experiment._oneInteraction'] + [EX + 'episodic.EpisodicExperiment.' + f for f in ('__init__', '_oneInteraction', 'doEpisodes')])
def _(t):
    w = world()
    e = t.call('EpisodicExperiment', t.cls(EX + 'episodic', 'EpisodicExperiment'), Task_(w), Agent_(w))
    n = C.int('number', show=True)
    C.assume(n >= 0)
    start = doing_episodes(w, e)
    r = t.call('doEpisodes', e.doEpisodes, n)
    t.prove('n episodes', sym_and(w.episode == n, w.told == n, slen(r) == n, w.phase == 0))
    C.assume(n >= 1)
    i = index(n, 'episode')
    j = C.int('step', show=True)
    C.assume(sym_and(j >= 0, j < slen(r[i])))
    t.prove('a complete episode', S(w.finished(T(i), T(slen(r[i])))))
    t.prove('no step after its end', sym_not(S(w.finished(T(i), T(j)))))
    t.prove('the reward of every step', r[i][j] == S(w.R(T(start(i) + j))))


class Env_(object):
    def __init__(self, w):
        self.w = w

    def getSensors(self):
        return S(self.w.O(T(self.w.steps)))

    def performAction(self, a):
        w = self.w
        C.prove('the action reaches the environment', a == S(w.A(T(w.steps))))
        put(w, 'steps', w.steps + 1)

    def reset(self):
        put(self.w, 'episode', self.w.episode + 1)
        put(self.w, 'started', self.w.steps)


def episodic(t, w, discount):
    Base = t.cls(EN + 'episodic', 'EpisodicTask')

    class Episodic(Base):
        def getReward(self):
            return S(w.R(T(w.steps)))        # of the last action

        def isFinished(self):
            return S(w.finished(T(w.episode), T(w.steps - w.started)))
    x = Episodic(Env_(w))
    if discount:
        x.discount = C.real('discount', show=True)
        C.assume(sym_and(x.discount > 0, x.discount <= 1))
    return x


def total(w, x, start, n):
    """rewards of n steps, the first one after the step with number start"""
    weight = (lambda k: x.discount ** k) if x.discount else (lambda k: 1)
    return Sum(n, lambda k: weight(k + 1) * S(w.R(T(start + k + 1))))


ET = [EN + 'episodic.EpisodicTask.' + f for f in ('performAction', 'addReward', 'reset', 'getTotalReward')] + [EN + 'task.Task.' + f for f in ('__init__', 'performAction', 'getObservation')]


def accumulate(discount):
    @task('C13', 'EpisodicTask: rewards%s' % (', discounted' if discount else ''), functions=ET)
    def _(t):
        w = world()
        x = episodic(t, w, discount)
        # an arbitrary state in the middle of an episode, n steps since the reset
        n = C.int('samples', show=True)
        C.assume(n >= 0)
        w.started = w.base
        w.steps = w.base + n
        x.samples = n
        x.cumreward = total(w, x, w.base, n)
        t.prove('the observation of the environment', t.call('getObservation', x.getObservation) == S(w.O(T(w.steps))))
        t.call('performAction', x.performAction, S(w.A(T(w.steps))))
        t.prove('the reward is added', sym_and(w.steps == w.base + n + 1, x.samples == n + 1))
        t.prove('the sum of the rewards since the reset', t.call('getTotalReward', x.getTotalReward) == total(w, x, w.base, n + 1))
        k = w.episode
        t.call('reset', x.reset)
        t.prove('reset', sym_and(w.episode == k + 1, x.samples == 0, x.getTotalReward() == 0))


def evaluation(discount):
    @task('C13', 'EpisodicTask.f: module%s' % (', discounted' if discount else ''), functions=ET + [EN + 'episodic.EpisodicTask.f'])
    def _(t):
        w = world()
        x = episodic(t, w, discount)
        Base = t.cls('pybrain.structure.modules.module', 'Module')

        class Acting(Base):
            resets = S(z3.IntVal(0))

            def __init__(self):
                pass

            def reset(self):
                put(self, 'resets', self.resets + 1)

            def activate(self, o):
                C.prove('reset before every episode', self.resets == w.episode)
                C.prove('the module sees the observation', o == S(w.O(T(w.steps))))
                return S(w.A(T(w.steps)))
        m = Acting()
        x.batchSize = n = dim('batchSize')
        g = C.fun('length', Int, Int)      # of episode number 1, 2, ...
        tot = C.fun('total', Int, Real)
        whole = lambda i: S(tot(T(i)))

        def outer(L):
            return [('so many episodes', sym_and(w.episode == L.k, m.resets == L.k)),
                    ('the sum of their rewards', L.r == Sum(L.k, lambda i: whole(i + 1))),
                    ('complete episodes', All(1, lambda i: sym_implies(sym_and(i >= 1, i <= L.k), S(w.finished(T(i), g(T(i)))))))]

        def inner(L):
            k = w.steps - w.started
            return [('steps of this episode', sym_and(k >= 0, x.samples == k)),
                    ('not over before', All(1, lambda i: sym_implies(sym_and(i >= 0, i < k), sym_not(S(w.finished(T(w.episode), T(i))))))),
                    ('rewards so far', x.cumreward == total(w, x, w.started, k))]
        real_total = x.getTotalReward

        def getTotalReward():
            # names for the episode that is just over
            k = w.steps - w.started
            C.prove('the sum of the rewards of the episode', real_total() == total(w, x, w.started, k))
            C.assume(sym_and(S(g(T(w.episode))) == k, whole(w.episode) == total(w, x, w.started, k)))
            r = whole(w.episode)
            C.prove('the total reward', real_total() == r)
            return r
        x.getTotalReward = getTotalReward
        moving = [(w, 'steps'), (x, 'samples'), (x, 'cumreward', lambda: C.real('cumreward'))]
        C.loop_specs[('EpisodicTask.f', 0)] = LoopSpec(outer, modifies=lambda L: [(w, 'episode'), (w, 'started'), (m, 'resets')] + moving)
        C.loop_specs[('EpisodicTask.f', 1)] = LoopSpec(inner, modifies=lambda L: moving)
        r = t.call('f', x.f, m)
        t.prove('as many episodes as asked', sym_and(w.episode == n, m.resets == n))
        t.prove('the average of the sums of rewards', r * n == Sum(n, lambda i: whole(i + 1)))
        i = index(n, 'i')
        t.prove('of complete episodes', S(w.finished(T(i + 1), g(T(i + 1)))))


for _d in (False, True):
    accumulate(_d)
    evaluation(_d)


@task('C13', 'EpisodicTask.f: agent', functions=[EN + 'episodic.EpisodicTask.f'])
def _(t):
    """every evaluation of an agent runs one episode of an experiment"""
    w = world()
    x = episodic(t, w, False)
    made = []

    class Experiment_(object):
        def __init__(self, task, agent):
            made.append((task, agent))

        def doEpisodes(self, number=1):
            C.prove('one episode', number == 1)
            x.reset()
            # contract of doEpisodes and performAction
            k = C.int('length')
            C.assume(k >= 0)
            put(w, 'steps', w.steps + k)
            put(x, 'samples', k)
            put(x, 'cumreward', S(tot(T(w.episode))))
    tot = C.fun('total', Int, Real)
    t.L.mods[EN + 'episodic'].EpisodicExperiment = Experiment_
    if C.choose():
        t.raises('something else', ValueError, x.f, 3)
        return
    a = t.cls(AG + 'agent', 'Agent')()
    x.batchSize = n = dim('batchSize')
    C.loop_specs[('EpisodicTask.f', 0)] = LoopSpec(
        lambda L: [('so many episodes', w.episode == L.k), ('the sum of their rewards', L.r == Sum(L.k, lambda i: S(tot(T(i + 1)))))],
        modifies=lambda L: [(w, 'episode'), (w, 'started'), (w, 'steps'), (x, 'samples'), (x, 'cumreward', lambda: C.real('cumreward'))])
    r = t.call('f', x.f, a)
    t.prove('the average of the sums of rewards', r * n == Sum(n, lambda i: S(tot(T(i + 1)))))
    t.prove('as many episodes as asked', w.episode == n)


class Queue(object):
    """agent of a queued experiment: a history of so many episodes, the first one number f"""

    def __init__(self):
        self.first, self.next, self.learned = S(z3.IntVal(0)), S(z3.IntVal(0)), S(z3.IntVal(0))
        self.history = self

    def reset(self):
        put(self, 'first', self.next)

    def removeSequence(self, i):
        C.prove('there is such an episode', sym_and(i >= 0, i < self.next - self.first))
        C.prove('the oldest episode goes', i == 0)
        put(self, 'first', self.first + 1)

    def learn(self, *a):
        C.prove('learns from the full queue', self.next - self.first == self.length)
        put(self, 'learned', self.learned + 1)


@task('C13', 'QueuedExperiment.run', functions=[EX + 'queued.QueuedExperiment.' + f for f in ('run', '_fillQueue', '_stepQueueLoop')])
def _(t):
    q = Queue()
    q.length, k = dim('queuelength'), C.int('learningcycles', show=True)
    C.assume(k >= 0)
    Base = t.cls(EX + 'queued', 'QueuedExperiment')

    class Exp(Base):
        def doEpisodes(self, number=1):
            put(q, 'next', q.next + number)
    e = Exp(None, q)
    C.loop_specs[('QueuedExperiment.run', 1)] = LoopSpec(
        lambda L: [('the queue is full', sym_and(q.first == L.k, q.next == q.length + L.k, q.learned == L.k))],
        modifies=lambda L: [(q, 'first'), (q, 'next'), (q, 'learned')])
    t.call('run', e.run, q.length, k)
    t.prove('learned as often as asked, one new episode each', sym_and(q.learned == k, q.next == q.length + k, q.first == k))


class Limits(object):
    """the limits of a sensor or actor: a pair, or None"""
    __pv_nonscalar__ = True

    def __init__(self, given, lo, hi):
        self.given, self.pair = given, (lo, hi)

    def __bool__(self):
        return bool(self.given)

    def __getitem__(self, i):
        return self.pair[i]


def scaling(what):
    @task('C13', 'Task: scaling of %s' % what, functions=[EN + 'task.Task.' + f for f in ('__init__', 'setScaling', 'normalize' if what == 'observations' else 'denormalize',
                                                                                         'getObservation' if what == 'observations' else 'performAction')])
    def _(t):
        n = dim('n')
        given, lo, hi = C.fun('given', Int, z3.BoolSort()), C.fun('lower', Int, Real), C.fun('upper', Int, Real)
        G, LO, HI = (lambda i: S(given(T(i)))), (lambda i: S(lo(T(i)))), (lambda i: S(hi(T(i))))
        a = z3.Int('a~')
        C.assume(S(z3.ForAll([a], lo(a) < hi(a))))
        limits = SList.from_fn(n, lambda i: Limits(G(i), LO(i), HI(i)))
        x = vec('x', n)
        inside = lambda i: sym_and(at(x, i) >= LO(i), at(x, i) <= HI(i))
        log = []

        class Env(object):
            def getSensors(self):
                return x

            def performAction(self, v):
                log.append(v)
        k = t.cls(EN + 'task', 'Task')(Env())
        clipped = C.choose()
        if not clipped:
            k.clipping = False
        if what == 'observations':
            # (an observation outside its limits may be clipped or not)
            want = lambda i, v: sym_and(sym_implies(sym_not(G(i)), v == at(x, i)),
                                        sym_implies(sym_and(G(i), sym_or(not clipped, inside(i))), (v + 1) * (HI(i) - LO(i)) == 2 * (at(x, i) - LO(i))))
        else:
            line = lambda i: (at(x, i) + 1) / 2 * (HI(i) - LO(i)) + LO(i)
            cut = lambda i: ite(line(i) < LO(i), LO(i), ite(line(i) > HI(i), HI(i), line(i)))
            want = lambda i, v: v == ite(G(i), cut(i) if clipped else line(i), at(x, i))

        def inv(L):
            out = [('so many', slen(L.result) == L.k)]
            if L.result.items is None:
                get = L.result._getter()
                out.append(('the scaled ones', All(1, lambda i: sym_implies(sym_and(i >= 0, i < L.k), want(i, get(i))))))
            return out
        for f in ('normalize', 'denormalize'):
            C.loop_specs[('Task.' + f, 0)] = LoopSpec(inv, modifies=lambda L: [Refill(L.result, lambda: (lambda f: lambda i: S(f(T(i))))(C.fun('scaled', Int, Real)))])
        other = C.choose()
        k.setScaling(limits if what == 'observations' or other else None, limits if what == 'actions' or other else None)
        if what == 'observations':
            r = t.call('getObservation', k.getObservation)
        else:
            t.call('performAction', k.performAction, x)
            t.prove('one action', S(z3.BoolVal(len(log) == 1)))
            r = log[0]
        i = index(n, 'i')
        t.prove('as many as before', slen(r) == n)
        t.prove('scaled along its limits', want(i, r[i]))
        k.setScaling(None, None)
        if what == 'observations':
            t.prove('no scaling', at(k.getObservation(), i) == at(x, i))
        else:
            k.performAction(x)
            t.prove('no scaling', at(log[-1], i) == at(x, i))


scaling('observations')
scaling('actions')


@task('C13', 'EpisodicExperiment: optimization', functions=[EX + 'episodic.EpisodicExperiment.' + f for f in ('__init__', '_oneInteraction', 'doEpisodes')] + [AG + 'optimization.OptimizationAgent.__init__'])
def _(t):
    log = []

    class Optimizer(object):
        def setEvaluator(self, f, x):
            log.append((f, x))

        def learn(self):
            log.append('learn')
    o, problem, module = Optimizer(), object(), object()
    o.numEvaluations = done = C.int('evaluations', show=True)
    n, m = C.int('number', show=True), C.int('number', show=True)
    C.assume(sym_and(done >= 0, n >= 0, m >= 0))
    is_ = lambda b: S(z3.BoolVal(bool(b)))
    a = t.call('OptimizationAgent', t.cls(AG + 'optimization', 'OptimizationAgent'), module, o)
    e = t.call('EpisodicExperiment', t.cls(EX + 'episodic', 'EpisodicExperiment'), problem, a)
    t.prove('the module is optimized on the task', is_(len(log) == 1 and log[0][0] is problem and log[0][1] is module))
    t.call('doEpisodes', e.doEpisodes, n)
    t.prove('learns so many evaluations more', sym_and(o.maxEvaluations == done + n, is_(log[1:] == ['learn'])))
    t.call('doEpisodes', e.doEpisodes, m)
    t.prove('learns so many evaluations more', sym_and(o.maxEvaluations == done + n + m, is_(log[1:] == ['learn', 'learn'])))
    t.raises('only full episodes can be done', Exception, e.doInteractions, 1)
