"""Bounded contract checks for C13: interaction protocol, logging, episodes."""
from lib import *
import numpy as np
from pybrain.rl.agents import LearningAgent
from pybrain.rl.agents.logging import LoggingAgent
from pybrain.rl.agents.agent import Agent
from pybrain.rl.environments.environment import Environment
from pybrain.rl.environments.task import Task
from pybrain.rl.environments.episodic import EpisodicTask
from pybrain.rl.experiments import Experiment, EpisodicExperiment, ContinuousExperiment
from pybrain.rl.experiments.queued import QueuedExperiment
from pybrain.rl.learners.valuebased import ActionValueTable, Q
from pybrain.rl.explorers import EpsilonGreedyExplorer
from pybrain.structure.modules.module import Module
from pybrain.structure import LinearLayer
from pybrain.tools.shortcuts import buildNetwork


class Log(list):
    pass


class Env(Environment):
    """a new random observation after every action"""

    def __init__(self, rng, log, ins, outs):
        self.rng, self.log, self.indim, self.outdim = rng, log, ins, outs
        self.sense()

    def sense(self):
        self.state = np.array([self.rng.choice([0., self.rng.uniform(-1, 1)]) for _ in range(self.outdim)])

    def getSensors(self):
        return self.state

    def performAction(self, a):
        self.log.append(('act', tuple(np.ravel(a))))
        self.sense()

    def reset(self):
        self.log.append(('reset',))
        self.sense()


class Rewarding(object):
    reward = None

    def getObservation(self):
        o = self.parent.getObservation(self)
        self.log.append(('obs', tuple(np.ravel(o))))
        return o

    def performAction(self, a):
        self.reward = self.rng.choice([0., self.rng.uniform(-1, 1)])
        self.parent.performAction(self, a)

    def getReward(self):
        return self.reward


class Plain(Rewarding, Task):
    parent = Task


class Episodic(Rewarding, EpisodicTask):
    parent = EpisodicTask

    def __init__(self, env):
        EpisodicTask.__init__(self, env)
        self.ended, self.limit, self.seen = [], 1, []

    def reset(self):
        EpisodicTask.reset(self)
        self.limit, self.seen = self.rng.randint(1, 5), []

    def performAction(self, a):
        Rewarding.performAction(self, a)
        self.seen.append(self.reward)

    def isFinished(self):
        over = self.samples >= self.limit
        if over:
            self.ended.append(list(self.seen))
        return over


class Mod(Module):
    """random answers; remembers the questions"""

    def __init__(self, rng, log, i, o):
        Module.__init__(self, i, o)
        self.rng, self.log, self.resets = rng, log, 0

    def _forwardImplementation(self, inbuf, outbuf):
        outbuf[:] = [self.rng.choice([0., self.rng.uniform(-1, 1)]) for _ in range(self.outdim)]
        self.log.append(('choose', tuple(inbuf), tuple(outbuf)))

    def reset(self):
        Module.reset(self)
        self.log.append(('module reset',))


class Learner(object):
    module = dataset = None

    def __init__(self, rng, log):
        self.rng, self.log, self.learned = rng, log, []

    def explore(self, s, a):
        b = np.array(a) + self.rng.choice([0., 1.])
        self.log.append(('explore', tuple(np.ravel(s)), tuple(np.ravel(a)), tuple(np.ravel(b))))
        return b

    def newEpisode(self):
        self.log.append(('learner episode',))

    def learnEpisodes(self, n=1):
        self.learned.append((n, len(self.dataset)))

    def reset(self):
        self.log.append(('learner reset',))


def rows(ds):
    return [[(tuple(s), tuple(a), tuple(r)) for s, a, r in e] for e in ds]


def expected(log, rewards):
    """the interactions in the log"""
    out, cur, it = [], None, iter(rewards)
    for e in log:
        if e[0] == 'obs':
            cur = e[1]
        elif e[0] == 'act':
            out.append((cur, e[1], (next(it),)))
    return out


def setup(rng, kind, learn=True):
    log = Log()
    i, o = rng.randint(1, 3), rng.randint(1, 3)
    task = kind(Env(rng, log, o, i))
    task.rng, task.log = rng, log
    m = Mod(rng, log, i, o)
    l = Learner(rng, log) if learn else None
    return log, task, m, l, LearningAgent(m, l)


def protocol(log, agent, learner, what):
    kinds = [e[0] for e in log if e[0] in ('obs', 'choose', 'explore', 'act')]
    one = ['obs', 'choose'] + (['explore'] if learner is not None and agent.learning else []) + ['act']
    expect(kinds == one * (len(kinds) // len(one)), '%s: order of the calls' % what, calls=kinds[:12])
    seq = [e for e in log if e[0] in ('obs', 'choose', 'explore', 'act')]
    for p in range(0, len(seq), len(one)):
        chosen = seq[p + len(one) - 2]
        expect(seq[p][1] == seq[p + 1][1] and chosen[-1] == seq[p + len(one) - 1][1] and (len(one) == 3 or chosen[1:3] == seq[p + 1][1:]),
               '%s: observation and action are handed on' % what, step=seq[p:p + len(one)])


@check('interactions', n=150)
def _(rng, it):
    learn = rng.random() < .7
    log, task, m, l, agent = setup(rng, Plain, learn)
    expect(agent.learning == learn, 'learning by default')
    agent.learning = rng.random() < .6
    expect(bool(agent.learning) in ((False, True) if learn else (False,)), 'no learning without learner')
    cont = rng.random() < .4
    exp = (ContinuousExperiment if cont else Experiment)(task, agent)
    rewards, give = [], agent.giveReward

    def giveReward(r):
        expect(r == task.reward, 'the reward of the action')
        rewards.append(r)
        give(r)
    agent.giveReward = giveReward
    total, logged = 0, []
    for _ in range(rng.randint(1, 3)):
        n = rng.choice([0, 1, rng.randint(2, 8)])
        agent.logging = rng.random() < .8
        before, mark = len(log), len(rewards)
        out = exp.doInteractionsAndLearn(n) if cont else exp.doInteractions() if n == 1 and rng.random() < .5 else exp.doInteractions(n)
        total += n
        new = expected(log[before:], rewards[mark:])
        expect(out == total == exp.stepid and len(new) == n == len(rewards) - mark, 'exactly n interactions', n=n, done=len(new), counted=out)
        if agent.logging:
            logged += new
        expect([r for e in rows(agent.history) for r in e] == logged, 'one sample per interaction', history=rows(agent.history), interactions=logged)
    protocol(log, agent, l, 'interactions')
    if learn:
        expect(len(l.learned) == (total if cont and agent.learning else 0), 'learning after every interaction', learned=len(l.learned))


@check('episodes', n=150)
def _(rng, it):
    log, task, m, l, agent = setup(rng, Episodic, rng.random() < .7)
    if rng.random() < .5:
        task.discount = rng.choice([.5, .9, 1.])
    exp = EpisodicExperiment(task, agent)
    out, total = [], 0
    for _ in range(rng.randint(1, 3)):
        n = rng.choice([0, 1, 3])
        got = exp.doEpisodes(n)
        expect(len(got) == n, 'n episodes', n=n, got=len(got))
        out += got
        total += n
    expect(len(task.ended) == total and task.ended == out, 'complete episodes with their rewards', episodes=task.ended, got=out)
    if total:
        want = sum((task.discount or 1) ** (k + 1 if task.discount else 1) * r for k, r in enumerate(out[-1]))
        expect_close(task.getTotalReward(), want, 'sum of the rewards since the reset', rewards=out[-1], discount=task.discount)
        expect(exp.stepid == len(out[-1]), 'steps of the episode')
    expect(sum(e[0] == 'reset' for e in log) == total and sum(e[0] == 'module reset' for e in log) == total, 'every episode starts from a reset')
    if agent.learning:
        expect(sum(e[0] == 'learner episode' for e in log) == total, 'the learner knows of the episodes')
    protocol(log, agent, l, 'episodes')
    flat = expected(log, [r for e in out for r in e])
    want = []
    for e in out:
        want.append(flat[:len(e)])
        flat = flat[len(e):]
    expect(rows(agent.history) == (want or [[]]) and agent.history.getNumSequences() == max(1, total), 'one sequence per episode', history=rows(agent.history), want=want)
    agent.reset()
    expect(len(agent.history) == 0 and agent.history.getNumSequences() == 1, 'the history is erased')


@check('queue', n=60)
def _(rng, it):
    log, task, m, l, agent = setup(rng, Episodic)
    exp = QueuedExperiment(task, agent)
    q, k = rng.randint(1, 4), rng.randint(0, 4)
    exp.run(q, k)
    expect(len(l.learned) == k and len(task.ended) == q + k, 'one episode per learning step', episodes=len(task.ended))
    expect([[r[2][0] for r in e] for e in rows(agent.history)] == task.ended[-q:], 'the newest episodes are kept')


@check('evaluating a module or agent', n=80)
def _(rng, it):
    log, task, m, l, agent = setup(rng, Episodic)
    task.batchSize = rng.randint(1, 4)
    if rng.random() < .5:
        task.discount = .9
    f = task.f(m if rng.random() < .5 else agent)
    expect(len(task.ended) == task.batchSize, 'one episode per evaluation')
    d = task.discount
    expect_close(f, sum(sum((d ** (i + 1) if d else 1) * r for i, r in enumerate(e)) for e in task.ended) / task.batchSize, 'average of the sums of rewards')
    expect_raises(ValueError, task.f, 'something else', 3)


@check('out of order', n=150)
def _(rng, it):
    log, task, m, l, agent = setup(rng, Plain, rng.random() < .5)
    if rng.random() < .5:
        class Own(LoggingAgent):
            def getAction(self):
                LoggingAgent.getAction(self)
                self.lastaction = np.array([rng.uniform(-1, 1) for _ in range(self.outdim)])
                return self.lastaction
        agent = Own(task.outdim, task.indim)
    phase, rec, obs = 0, [], None
    for _ in range(rng.randint(3, 15)):
        call = rng.choice('oaaargg') if rng.random() < .5 else 'oag'[phase]
        before = rows(agent.history)
        if call == 'o':
            obs = np.array([rng.uniform(-1, 1) for _ in range(agent.indim)])
            agent.integrateObservation(obs)
            phase = 1
        elif call == 'a':
            if phase == 1:
                act = np.array(agent.getAction())
                phase = 2
            else:
                expect_raises(AssertionError, agent.getAction, 'acting out of order')
        elif call == 'r':
            agent.reset()
            phase, rec = 0, []
            continue
        else:
            r = rng.uniform(-1, 1)
            if phase == 2:
                agent.giveReward(r)
                rec.append((tuple(obs), tuple(act), (r,)))
                phase = 0
            else:
                expect_raises(AssertionError, agent.giveReward, 'reward out of order', r)
        expect([x for e in rows(agent.history) for x in e] == rec, 'the history holds the complete interactions', history=rows(agent.history), want=rec)


@check('a real learner', n=20)
def _(rng, it):
    ns, na = rng.randint(2, 4), rng.randint(2, 3)
    log = Log()

    class Walk(Environment):
        indim = outdim = 1
        def __init__(self): self.s = 0
        def getSensors(self): return [self.s]
        def performAction(self, a):
            log.append((self.s, int(a[0])))
            self.s = rng.randrange(ns)
        def reset(self): self.s = 0

    class T(EpisodicTask):
        def getReward(self): return float(self.env.s)
        def isFinished(self): return self.samples >= 4
    agent = LearningAgent(ActionValueTable(ns, na), Q())
    rew = EpisodicExperiment(T(Walk()), agent).doEpisodes(3)
    want = [(s, a, r) for (s, a), r in zip(log, sum(rew, []))]
    expect([(s[0], a[0], r[0]) for e in agent.history for s, a, r in e] == want and len(want) == 12, 'history', want=want)


@check('logging switched off', n=60)
def _(rng, it):
    log, task, m, l, agent = setup(rng, Episodic, rng.random() < .7)
    if rng.random() < .3:
        class Own(LoggingAgent):
            def getAction(self):
                LoggingAgent.getAction(self)
                self.lastaction = np.array([rng.uniform(-1, 1) for _ in range(self.outdim)])
                return self.lastaction
        agent = Own(task.outdim, task.indim)
    exp = EpisodicExperiment(task, agent)
    agent.logging = True
    exp.doEpisodes(rng.randint(0, 2))
    before, seqs = rows(agent.history), agent.history.getNumSequences()
    agent.logging = False
    exp.doEpisodes(rng.randint(1, 3))
    agent.newEpisode()
    expect(rows(agent.history) == before and agent.history.getNumSequences() == seqs, 'nothing is recorded', before=before, after=rows(agent.history))
    agent.logging = True
    exp.doEpisodes(1)
    expect(agent.history.getNumSequences() == seqs + bool(sum(map(len, before))) and rows(agent.history)[-1][-1][2] == (task.ended[-1][-1],), 'recorded again')


@check('resets and learning', n=60)
def _(rng, it):
    log, task, m, l, agent = setup(rng, Plain)
    agent.learning = on = rng.random() < .6
    Experiment(task, agent).doInteractions(rng.randint(0, 4))
    agent.learn()
    agent.learn(3)
    expect([n for n, _ in l.learned] == ([1, 3] if on else []), 'learns as many episodes as asked, one by default', got=l.learned)
    del log[:]
    agent.reset()
    kinds = [e[0] for e in log]
    expect(kinds == ['module reset'] + ['learner reset'] * on, 'module and learner are reset', got=kinds)


@check('scaling', n=100)
def _(rng, it):
    i, o = rng.randint(1, 3), rng.randint(1, 3)
    log = Log()
    env = Env(rng, log, o, i)
    t = (Task if rng.random() < .5 else Plain)(env)
    t.rng, t.log, env.reward = rng, Log(), 0
    lim = lambda n: [None if rng.random() < .3 else (lambda a: (a, a + rng.uniform(.5, 3)))(rng.uniform(-3, 3)) for _ in range(n)]
    so, sa = lim(i), lim(o)
    expect(t.indim == env.indim and t.outdim == env.outdim, 'sizes of the environment')
    for kind in range(3):
        uo, ua = kind != 1, kind != 2
        t.setScaling(so if uo else None, sa if ua else None)
        env.state = np.array([rng.uniform(-3, 3) if l is None else rng.uniform(*l) for l in so])
        t.clipping = rng.random() < .7
        want = [s if l is None or not uo else 2 * (s - l[0]) / (l[1] - l[0]) - 1 for l, s in zip(so, env.state)]
        expect_close(np.ravel(t.getObservation()), want, 'observations are scaled along their limits', limits=so if uo else None)
        a = np.array([rng.uniform(-1.5, 1.5) for _ in range(o)])
        want = [x if l is None or not ua else (x + 1) / 2 * (l[1] - l[0]) + l[0] for l, x in zip(sa, a)]
        if t.clipping and ua:
            want = [x if l is None else min(max(x, l[0]), l[1]) for l, x in zip(sa, want)]
        del log[:]
        t.performAction(a)
        expect(len(log) == 1, 'one action')
        expect_close(log[0][1], want, 'actions are scaled along their limits', limits=sa if ua else None, action=a)


@check('episodes of an optimizer', n=25)
def _(rng, it):
    from pybrain.rl.agents import OptimizationAgent
    from pybrain.optimization import HillClimber, RandomSearch
    log, task, m, l, agent = setup(rng, Episodic)
    net = buildNetwork(task.outdim, task.indim)
    task.batchSize = rng.choice([1, 1, 2])
    opt = rng.choice([HillClimber, RandomSearch])()
    exp = EpisodicExperiment(task, OptimizationAgent(net, opt))
    expect_raises(Exception, exp.doInteractions, 'single interactions', 1)
    total = opt.numEvaluations
    expect(len(task.ended) == total * task.batchSize, 'episodes of the first evaluation')
    for _ in range(rng.randint(1, 3)):
        n = rng.randint(1, 6)
        exp.doEpisodes(n)
        total += n
        expect(opt.numEvaluations == total and len(task.ended) == total * task.batchSize, 'n evaluations', n=n, evaluations=opt.numEvaluations, episodes=len(task.ended), want=total)


if __name__ == '__main__':
    main()
