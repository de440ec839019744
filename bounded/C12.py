"""Bounded contract checks for C12: temporal-difference learning on tables."""
from lib import *
import numpy as np
from pybrain.datasets import ReinforcementDataSet
from pybrain.rl.learners.valuebased import ActionValueTable, Q, SARSA, QLambda, ActionValueNetwork
from pybrain.structure.modules.table import Table
from pybrain.rl.agents import LearningAgent
from pybrain.rl.explorers import EpsilonGreedyExplorer


def episodes(rng, ns, na, one=False):
    ds, eps = ReinforcementDataSet(1, 1), []
    for _ in range(1 if one else rng.randint(1, 4)):
        ds.newSequence()
        e = []
        for _ in range(rng.randint(1, 7)):
            s, a = rng.randrange(ns), rng.randrange(na)
            if e and rng.random() < .3:
                s = e[-1][0]
            e.append((s, a, rng.choice([0., 1., rng.uniform(-2, 2)])))
            ds.addSample([s], [a], [e[-1][2]])
        eps.append(e)
    return ds, eps


def table(rng):
    ns, na = rng.randint(1, 5), rng.randint(1, 4)
    m = ActionValueTable(ns, na)
    if rng.random() < .3:
        m.initialize(rng.choice([0., 1.]))
    else:
        m._setParameters([rng.choice([0., rng.uniform(-1, 1)]) for _ in range(ns * na)])
    return m, ns, na, m.params.reshape(ns, na).copy()


def expect_table(m, v, what, **k):
    expect_close(m.params, v.ravel(), what, **k)


@check('table', n=100)
def _(rng, it):
    m, ns, na, v = table(rng)
    expect(m.numActions == na and m.paramdim == ns * na, 'size of the table')
    for _ in range(5):
        s, a = rng.randrange(ns), rng.randrange(na)
        v[s, a] = rng.uniform(-1, 1)
        m.updateValue(s, a, v[s, a])
        expect_table(m, v, 'one value is changed', state=s, action=a)
        expect(m.getValue(s, a) == v[s, a] and list(m.getActionValues(s)) == list(v[s]), 'values', state=s, action=a)
    if rng.random() < .5:
        v[:] = rng.choice([0., 1.])
        v[rng.randrange(ns), rng.randrange(na)] += rng.choice([0., 1., -1.])
        m._setParameters(v.ravel())
    elif rng.random() < .6:
        v[:] = [[rng.choice([1., 1. + 1e-13, 1. - 1e-13, 2e-9, 1e-9, -1e9, -3., 1e9]) for _ in range(na)] for _ in range(ns)]
        m._setParameters(v.ravel())
    for s in range(ns):
        best = set(np.where(v[s] == v[s].max())[0])
        got = set(int(m.getMaxAction(s)) for _ in range(20)) | set(int(m.getMaxAction(float(s))) for _ in range(3)) | set(int(m.activate([s])[0]) for _ in range(3))
        expect(got <= best, 'the greedy action has the largest value', state=s, got=got, values=v[s])
    expect_table(m, v, 'asking changes nothing')
    t = Table(ns, na)
    s, a = rng.randrange(ns), rng.randrange(na)
    t.updateValue(s, a, 3.)
    expect(t.activate([s, a])[0] == 3. == t.getValue(s, a) == t.params[s * na + a], 'plain table')


def expected(v, eps, alpha, gamma, taken):
    for e in eps:
        for (s, a, r), (s2, a2, _) in zip(e, e[1:]):
            nxt = v[s2, a2] if taken else v[s2].max()
            v[s, a] += alpha * (r + gamma * nxt - v[s, a])
    return v


@check('Q-learning and SARSA', n=250)
def _(rng, it):
    m, ns, na, v = table(rng)
    ds, eps = episodes(rng, ns, na)
    alpha, gamma = rng.choice([0., .5, 1., rng.random()]), rng.choice([0., .99, 1., rng.random()])
    cls = rng.choice([Q, SARSA])
    learner = cls(alpha, gamma)
    learner.module = m
    if rng.random() < .5:
        learner.dataset = ds
        times = rng.randint(1, 2)
        learner.learnEpisodes(times)
    else:
        times = 1
        learner.learnOnDataset(ds)
    for _ in range(times):
        v = expected(v, eps, alpha, gamma, cls is SARSA)
    expect_table(m, v, 'temporal-difference updates', learner=cls.__name__, episodes=eps, alpha=alpha, gamma=gamma)
    expect([[(int(s[0]), int(a[0]), r[0]) for s, a, r in e] for e in ds] == [[(s, a, r) for s, a, r in e] for e in eps], 'the experience is kept')


@check('Q(lambda)', n=200)
def _(rng, it):
    m, ns, na, v = table(rng)
    ds, eps = episodes(rng, ns, na, one=True)
    alpha, gamma, lam = rng.random(), rng.choice([0., .99, rng.random()]), rng.choice([0., .01, .5, .9, 1.])
    learner = QLambda(alpha, gamma, lam)
    learner.module, learner.dataset = m, ds
    learner.learn()
    e = eps[0]
    for k in range(len(e) - 1):
        w = lam ** k
        if w < .0001:
            break
        (s, a, r), s2 = e[-2 - k], e[-1 - k][0]
        v[s, a] += alpha * w * (r + gamma * v[s2].max() - v[s, a])
    expect_table(m, v, 'weighted updates backwards', episode=e, alpha=alpha, gamma=gamma, trace=lam)


@check('learning through an agent', n=40)
def _(rng, it):
    m, ns, na, v = table(rng)
    cls = rng.choice([Q, SARSA])
    learner = cls(.5, .9)
    agent = LearningAgent(m, learner)
    expect(learner.module is m and learner.explorer.module is m and learner.dataset is agent.history, 'the learner knows table and history')
    eps = []
    for _ in range(rng.randint(1, 3)):
        agent.newEpisode()
        e = []
        for _ in range(rng.randint(1, 4)):
            s = rng.randrange(ns)
            agent.integrateObservation(np.array([float(s)]))
            a = int(agent.getAction()[0])
            expect(0 <= a < na, 'an action')
            e.append((s, a, rng.uniform(-1, 1)))
            agent.giveReward(e[-1][2])
        eps.append(e)
    expect_table(m, v, 'acting changes nothing')
    agent.learn()
    expect_table(m, expected(v, eps, .5, .9, cls is SARSA), 'temporal-difference updates', learner=cls.__name__, episodes=eps)


@check('action values of a network', n=30)
def _(rng, it):
    d, na = rng.randint(1, 3), rng.randint(1, 4)
    m = ActionValueNetwork(d, na)
    s = np.array([rng.uniform(-1, 1) for _ in range(d)])
    v = m.getActionValues(s)
    expect(len(np.ravel(v)) == na and [float(m.getValue(s, a)[0]) for a in range(na)] == np.ravel(v).tolist(), 'values')
    expect(int(m.getMaxAction(s)) in np.where(np.ravel(v) == v.max())[0], 'greedy action')
    expect((m.indim, m.outdim) == (d, 1) and int(m.activate(s)[0]) == int(m.getMaxAction(s)), 'activation gives the greedy action')


if __name__ == '__main__':
    main()
