"""Bounded contract checks for C14: random mazes and the ready-made maze tasks, against a model on a dict of cells."""
from lib import *
import numpy as np
from pybrain.rl.environments.mazes import Maze, PolarMaze, MDPMazeTask
from pybrain.rl.environments.mazes.tasks import *
from pybrain.rl.environments.mazes.tasks.maze import MazeTask, TrivialMaze

DIRS = [(1, 0), (0, 1), (-1, 0), (0, -1)]


def draw(rng, border=None):
    r, c = rng.randint(1, 6), rng.randint(1, 6)
    border = rng.random() < .6 if border is None else border
    tb = np.array([[int(rng.random() < .35) for _ in range(c)] for _ in range(r)])
    if border:
        tb[0, :] = tb[-1, :] = 1
        tb[:, 0] = tb[:, -1] = 1
    free = [tuple(map(int, p)) for p in np.argwhere(tb == 0)]
    if len(free) < 2:
        return draw(rng, border)
    if rng.random() < .5:
        tb = tb.astype(bool)
    return tb, free


def blocked(free, p):
    return tuple(p) not in free


@check('maze', n=250)
def _(rng, it):
    tb, free = draw(rng)
    goal = rng.choice(free)
    k = {}
    if rng.random() < .5:
        k['initPos'] = rng.sample(free, rng.randint(1, len(free)))
    if rng.random() < .3:
        k['stochAction'] = rng.choice([.2, 1.])
    keep = tb.copy()
    m = Maze(tb, goal, **k)
    start = k.get('initPos', [f for f in free if f != goal])
    expect(sorted(m.initPos) == sorted(start), 'start cells', got=m.initPos, expected=start)
    seen = set()
    for step in range(40):
        p = tuple(m.perseus)
        if step == 0:
            expect(p in start and not m.bang, 'starts at a configured cell')
        seen.add(p)
        s = m.getSensors()
        expect(list(s) == [float(blocked(free, (p[0] + d[0], p[1] + d[1]))) for d in DIRS], 'sensors', cell=p, got=s, maze=tb)
        expect(tuple(m.perseus) == p, 'looking does not move')
        a = rng.randrange(4)
        m.performAction(a)
        q = tuple(m.perseus)
        if 'stochAction' in k:
            ok = [p] + [(p[0] + d[0], p[1] + d[1]) for d in DIRS]
            expect(q in ok, 'moves one cell at most', cell=p, got=q)
        else:
            n = (p[0] + DIRS[a][0], p[1] + DIRS[a][1])
            b = blocked(free, n)
            expect(q == (p if b else n), 'moves in the direction if there is no wall', cell=p, action=a, got=q, maze=tb)
            expect(bool(m.bang) == b, 'bump')
        expect(q in free, 'stands on a free cell', got=q, maze=tb)
        if rng.random() < .05:
            m.reset()
            expect(tuple(m.perseus) in start and not m.bang, 'reset to a configured cell')
    expect(same(tb, keep) and m.goal == goal, 'the maze stays as it is')


@check('all starts are used', n=20)
def _(rng, it):
    tb, free = draw(rng)
    start = rng.sample(free, min(3, len(free)))
    m = Maze(tb, free[0], initPos=start)
    got = set()
    for _ in range(120):
        m.reset()
        got.add(tuple(m.perseus))
    expect(got == set(start), 'resets use every configured cell', got=got, expected=start)


@check('noisy sensors', n=30)
def _(rng, it):
    tb, free = draw(rng)
    m = Maze(tb, free[0], stochObs=rng.choice([.3, 1.]))
    p = m.perseus
    for _ in range(10):
        s = list(m.getSensors())
        expect(set(s) <= {0., 1.} and len(s) == 4, 'sensors are 0 or 1')
        if m.stochObs == 1:
            expect(s == [1. - float(blocked(free, (p[0] + d[0], p[1] + d[1]))) for d in DIRS], 'all sensors wrong')
        expect(m.perseus == p, 'looking does not move')


@check('polar maze', n=200)
def _(rng, it):
    tb, free = draw(rng)
    goal = rng.choice(free)
    k = {}
    if rng.random() < .3:
        k['stochAction'] = rng.choice([.2, 1.])
    m = PolarMaze(tb, goal, **k)
    for step in range(40):
        p, d = tuple(m.perseus), m.perseusDir
        expect(d in range(4), 'direction')
        want = [float(blocked(free, (p[0] + e[0], p[1] + e[1]))) for e in DIRS]
        expect(list(m.getSensors()) == want[d:] + want[:d], 'sensors turn with theseus', cell=p, direction=d, got=m.getSensors(), maze=tb)
        a = rng.randrange(5)
        m.performAction(a)
        q, e = tuple(m.perseus), m.perseusDir
        n = (p[0] + DIRS[d][0], p[1] + DIRS[d][1])
        if 'stochAction' in k:
            expect(q in (p, n) and (q == p or e == d), 'moves ahead or turns')
        elif a == 1:
            b = blocked(free, n)
            expect(q == (p if b else n) and e == d and bool(m.bang) == b, 'forward', cell=p, got=q)
        else:
            expect(q == p and e == (d + {0: 0, 2: 2, 3: 1, 4: 3}[a]) % 4 and not m.bang, 'turning', action=a, before=d, got=e)
        expect(q in free, 'stands on a free cell')


@check('maze task', n=120)
def _(rng, it):
    tb, free = draw(rng)
    g = rng.choice(free)

    class T(MazeTask):
        topology, goal = tb, g
        initPos = [f for f in free if f != g][:rng.randint(1, 9)]
        finalReward, bangPenalty, defaultPenalty = 7, -3, rng.choice([0, -.5])
        maxSteps = rng.choice([None, 12])
    t = T()
    for ep in range(2):
        t.reset()
        expect(t.steps == 0 and t.getTotalReward() == 0 and tuple(t.env.perseus) in T.initPos, 'start of an episode')
        cum = 0
        for step in range(60):
            p = tuple(t.env.perseus)
            a = rng.randrange(4)
            if rng.random() < .3:
                v = np.zeros(4)
                v[a] = 1
                t.performAction(v)
            else:
                t.performAction(a)
            q = tuple(t.env.perseus)
            n = (p[0] + DIRS[a][0], p[1] + DIRS[a][1])
            b = blocked(free, n)
            expect(q == (p if b else n), 'moves as commanded')
            r = 7 if q == g else (-3 if b else T.defaultPenalty)
            expect(t.getReward() == r, 'reward', got=t.getReward(), expected=r, cell=q)
            cum += r
            expect_close(t.getTotalReward(), cum, 'total reward of the episode')
            fin = q == g or (T.maxSteps is not None and step + 1 >= T.maxSteps)
            expect(bool(t.isFinished()) == fin, 'end of the episode', cell=q, goal=g, step=step)
            if fin:
                break


@check('ready-made tasks', n=120)
def _(rng, it):
    cls = rng.choice([CheeseMaze, TrivialMaze, FourByThreeMaze, ShuttleDocking, EightyNineStateMaze, TMaze])
    t = cls()
    free = [tuple(map(int, p)) for p in np.argwhere(np.asarray(t.topology) == 0)]
    for ep in range(2):
        t.reset()
        expect(tuple(t.env.perseus) in t.env.initPos, 'starts at a configured cell', kind=cls.__name__)
        goals = 0
        for step in range(60):
            o = t.getObservation()
            expect(len(o) == t.outdim, 'size of the observation', kind=cls.__name__)
            p, d = tuple(t.env.perseus), getattr(t.env, 'perseusDir', None)
            a = rng.randrange(t.actions)
            t.performAction(a)
            q = tuple(t.env.perseus)
            expect(q in free, 'stands on a free cell', kind=cls.__name__, got=q)
            r = t.getReward()
            expect(t.getReward() == r, 'reading the reward twice', kind=cls.__name__)
            if cls is TMaze:
                at = q[1] == t.length + 1
                if at and q[0] != 2:
                    goals += 1
                    wrong = (2 + DIRS[a][0], p[1]) != tuple(t.env.goal)
                    expect(r == (-.1 if wrong else 4), 'reward at the end of the T maze', got=r, goal=t.env.goal, action=a)
                    expect(t.isFinished(), 'the T maze ends')
                else:
                    expect(r == (-.1 if t.env.bang else 0), 'reward in the T maze', got=r)
                expect(step > 0 or list(o)[:2] == ([1, 0] if t.env.goal[0] == 3 else [0, 1]), 'the T maze shows its goal at the start')
            elif cls is not ShuttleDocking:
                n = (p[0], p[1])
                expect((r == t.finalReward) == (q == tuple(t.env.goal)), 'reward of the goal', kind=cls.__name__, got=r)
                if cls in (CheeseMaze, TrivialMaze):
                    n = (p[0] + DIRS[a][0], p[1] + DIRS[a][1])
                    expect(q == (n if n in free else p), 'moves as commanded', kind=cls.__name__)
                expect(q == p or abs(q[0] - p[0]) + abs(q[1] - p[1]) == 1, 'one cell at a time')
            else:
                expect((r == 10) == (q == tuple(t.env.goal)), 'reward of docking', got=r)
                if a == 1:
                    n = (1, p[1] + (1 if d == 1 else -1))
                    want = n if n in free and n not in ((1, 1), (1, 5)) else p
                    if p not in ((1, 1), (1, 5)):
                        expect(q == want, 'the ship moves forward', cell=p, direction=d, got=q)
                elif a == 2:
                    expect(q == p and t.env.perseusDir == (d + 2) % 4, 'the ship turns around')
            if t.isFinished():
                expect(q == tuple(t.env.goal), 'only the goal ends the episode', kind=cls.__name__)
                break


@check('MDP maze task', n=80)
def _(rng, it):
    tb, free = draw(rng)
    g = rng.choice(free)
    start = rng.choice([f for f in free if f != g])
    env = Maze(tb, g, initPos=[start])
    t = MDPMazeTask(env)
    seen = {}
    for f in free:
        env.perseus = f
        o = t.getObservation()
        expect(len(o) == 1 and 0 <= o[0] < tb.size, 'observation of a cell', got=o)
        seen.setdefault(int(o[0]), []).append(f)
    expect(all(len(v) == 1 for v in seen.values()), 'cells are told apart', got=[v for v in seen.values() if len(v) > 1], maze=tb)
    env.reset()
    for _ in range(30):
        p = tuple(env.perseus)
        a = rng.randrange(4)
        t.performAction(np.array([a + 0.]))
        n = (p[0] + DIRS[a][0], p[1] + DIRS[a][1])
        q = p if blocked(free, n) else n
        expect(tuple(env.perseus) == q, 'moves as commanded')
        expect(t.getReward() == float(q == g), 'reward of the goal')
        expect(tuple(env.perseus) == (start if q == g else q), 'the goal leads back to the start')


WALLS = {}


@check('observations of the ready-made tasks', n=100)
def _(rng, it):
    cls = rng.choice([CheeseMaze, TrivialMaze, FourByThreeMaze, ShuttleDocking, TMaze])
    t = cls()
    table = np.asarray(t.topology)
    for _ in range(40):
        o = list(np.ravel(t.getObservation()))
        p = tuple(t.env.perseus)
        w = [bool(table[p[0] + d[0], p[1] + d[1]]) for d in DIRS]
        expect(set(o) <= {0., 1.}, 'observations are 0 or 1', kind=cls.__name__, got=o)
        if cls in (TrivialMaze,):
            expect(o == [float(x) for x in w], 'walls around', got=o)
        elif cls is FourByThreeMaze:
            W, E = w[3], w[1]
            expect(o == [float(x) for x in (W, E, W and E, not W and not E)], 'walls in the west and east', cell=p, got=o)
        else:
            expect(sum(o) == 1, 'one of n', kind=cls.__name__, got=o, cell=p)
        if cls is CheeseMaze:
            what = 'goal' if p == tuple(t.env.goal) else 'end' if sum(w) == 3 else tuple(w)
            seen = WALLS.setdefault('cheese', {})
            expect(seen.setdefault(what, o) == o and all((v == o) == (k == what) for k, v in seen.items()), 'walls around are told apart', cell=p, got=o)
        if cls is TMaze:
            want = ([0, 1, 0, 0], [1, 0, 0, 0])[t.env.goal[0] == 3] if p == (2, 1) else [0, 0, p[1] == t.length + 1, p[1] < t.length + 1]
            expect(o == want, 'place in the T maze', cell=p, got=o)
        if cls is ShuttleDocking:
            ahead = t.env.perseusDir
            ok = [4] if p == (1, 5) else [0] if p == (1, 1) else [(ahead + 2) % 4, ahead] if p[1] == 3 else [(ahead + 2) % 4]
            expect(o.index(1) in ok, 'what the ship sees', cell=p, direction=ahead, got=o)
        if t.isFinished() or rng.random() < .05:
            t.reset()
        else:
            t.performAction(rng.randrange(t.actions))


@check('draws', n=6)
def _(rng, it):
    """every configured outcome occurs; about as many actions fail as configured"""
    table = np.array([[1] * 5, [1, 0, 0, 0, 1], [1, 0, 0, 0, 1], [1, 0, 0, 0, 1], [1] * 5])
    for cls in (Maze, PolarMaze):
        m = cls(table, (1, 1), stochAction=.2)
        n, hits = 1200, 0
        for _ in range(n):
            m.perseus = (2, 2)
            if cls is PolarMaze:
                m.perseusDir = 2
            m.performAction(1)
            hits += tuple(m.perseus) == ((1, 2) if cls is PolarMaze else (2, 3))
        want = .8 + .2 / (5 if cls is PolarMaze else 4)
        expect(abs(hits - n * want) < 8 * (n * want * (1 - want)) ** .5, 'random actions are as rare as configured', kind=cls.__name__, n=n, commanded=hits)
        m = cls(table, (1, 1), stochObs=.2)
        m.perseus, m.perseusDir = (2, 2), 0
        hits = sum(int(sum(m.getSensors())) for _ in range(300))
        expect(abs(hits - 240) < 8 * (1200 * .16) ** .5, 'wrong sensors are as rare as configured', kind=cls.__name__, n=1200, wrong=hits)
    seen, goals = set(), set()
    t = TMaze(length=rng.randint(1, 12))
    expect(np.asarray(t.topology).sum() + t.length + 3 == np.asarray(t.topology).size and np.asarray(t.topology).shape == (5, t.length + 3) and
           all(t.topology[2][1:t.length + 2] == 0) and all(t.topology[1:4, t.length + 1] == 0), 'the T maze', topology=t.topology)
    for _ in range(150):
        m.reset()
        seen.add(m.perseusDir)
        t.reset()
        goals.add(tuple(t.env.goal))
    expect(seen == {0, 1, 2, 3}, 'every direction occurs', got=seen)
    expect(goals == {(1, t.length + 1), (3, t.length + 1)}, 'every goal occurs', got=goals)


if __name__ == '__main__':
    main()
