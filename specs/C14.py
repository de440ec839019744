"""Maze environments never leave the free cells and move as commanded.

The maze is any table of walls (1) and free cells (0), with or without a border; theseus
stands on any free cell. Every action is verified from there, so no history leaves the free
cells."""
from .common import *

Z = 'pybrain.rl.environments.mazes.'
ASSUMPTIONS = ['the table of a maze holds 0 (free) and 1 (wall)', 'actions are the numbers 0..3 (0..4 for polar mazes)',
               'random() and choice() return any value of their range']
BOUNDED_ONLY = ['the ready-made maze tasks (cheese, shuttle, T, 4x3, 89 states) and whole episodes: bounded harness']
DIRS = [(1, 0), (0, 1), (-1, 0), (0, -1)]


class State(object):
    def __init__(self, t, mod='maze', cls='Maze', noise=False):
        self.t = t
        self.R, self.K = R, K = dim('rows'), dim('columns')
        self.table = tb = ivec('walls', R, K)
        a, b = z3.Ints('a~ b~')
        C.assume(S(z3.ForAll([a, b], z3.Or(T(at(tb, S(a), S(b))) == 0, T(at(tb, S(a), S(b))) == 1))))
        self.r, self.c = index(R, 'row'), index(K, 'column')
        self.g = index(R, 'goal_row'), index(K, 'goal_column')
        C.assume(sym_and(at(tb, self.r, self.c) == 0, at(tb, *self.g) == 0))
        self.init = [(self.r, self.c)]
        self.env = env = t.cls(Z + mod, cls)(tb, self.g, initPos=SList([(self.r, self.c)]))
        if noise:
            env.stochAction = C.real('stochAction', show=True)
            C.assume(sym_and(env.stochAction > 0, env.stochAction <= 1))
        env.bang = S(TB(C.int('banged') > 0))

    def wall(self, r, c):
        """is there a wall, or the outside"""
        return sym_or(r < 0, r >= self.R, c < 0, c >= self.K, at(self.table, r, c) == 1)

    def moved(self, where, d, r=None, c=None):
        """theseus went in direction d if there is no wall"""
        env, t = self.env, self.t
        r, c = self.r if r is None else r, self.c if c is None else c
        p = env.perseus
        nr, nc = r + d[0], c + d[1]
        w = self.wall(nr, nc)
        t.prove('%s: moves to a free neighbouring cell, stays in front of a wall' % where,
                sym_and(p[0] == ite(w, r, nr), p[1] == ite(w, c, nc)))
        t.prove('%s: bumping is noticed' % where, S(TB(env.bang)) == S(TB(w)))

    def inside(self, where):
        p = self.env.perseus
        self.t.prove('%s: stands on a free cell' % where, sym_not(self.wall(p[0], p[1])))

    def table_kept(self, where):
        t0 = self.table
        r, c = index(self.R, 'r'), index(self.K, 'c')
        self.t.prove('%s: the maze stays as it is' % where, sym_and(at(self.env.mazeTable, r, c) == at(t0, r, c), self.env.goal[0] == self.g[0], self.env.goal[1] == self.g[1]))


def pick(what, n):
    k = C.int(what, show=True)
    C.assume(sym_and(k >= 0, k < n))
    for v in range(n - 1):
        if k == v:
            return v
    return n - 1


@task('C14', 'performAction', functions=[Z + 'maze.Maze.performAction', Z + 'maze.Maze._moveInDir', Z + 'maze.Maze.__init__'])
def _(t):
    s = State(t)
    a = pick('action', 4)
    t.call('performAction', s.env.performAction, a)
    s.moved('performAction', DIRS[a])
    s.inside('performAction')
    s.table_kept('performAction')


@task('C14', 'performAction with random actions', functions=[Z + 'maze.Maze.performAction'])
def _(t):
    s = State(t, noise=True)
    a = pick('action', 4)
    t.call('performAction', s.env.performAction, a)
    s.inside('performAction')
    p = s.env.perseus
    way = [sym_and(p[0] == s.r + d[0], p[1] == s.c + d[1]) for d in DIRS]
    t.prove('stays or moves to a neighbouring cell', sym_or(sym_and(p[0] == s.r, p[1] == s.c), *way))
    s.table_kept('performAction')


@task('C14', 'getSensors', functions=[Z + 'maze.Maze.getSensors'])
def _(t):
    s = State(t)
    o = t.call('getSensors', s.env.getSensors)
    t.prove('one sensor for every direction', slen(o) == 4)
    for k, d in enumerate(DIRS):
        t.prove('sensor tells whether there is a wall', at(o, k) == ite(s.wall(s.r + d[0], s.c + d[1]), 1, 0))
    p = s.env.perseus
    t.prove('looking does not move', sym_and(p[0] == s.r, p[1] == s.c))


@task('C14', '_isWall', functions=[Z + 'maze.Maze._isWall'])
def _(t):
    s = State(t)
    r, c = C.int('row', show=True), C.int('column', show=True)
    t.prove('a wall or the outside', S(TB(t.call('_isWall', s.env._isWall, (r, c)))) == S(TB(s.wall(r, c))))


@task('C14', 'getSensors with noise', functions=[Z + 'maze.Maze.getSensors'])
def _(t):
    s = State(t)
    s.env.stochObs = C.real('stochObs', show=True)
    C.assume(sym_and(s.env.stochObs > 0, s.env.stochObs <= 1))
    s.env._isWall = lambda p: S(TB(s.wall(*p)))         # contract of _isWall, proved below
    o = t.call('getSensors', s.env.getSensors)
    for k in range(4):
        t.prove('sensors are 0 or 1', sym_or(at(o, k) == 0, at(o, k) == 1))
    p = s.env.perseus
    t.prove('looking does not move', sym_and(p[0] == s.r, p[1] == s.c))


@task('C14', 'reset', functions=[Z + 'maze.Maze.reset'])
def _(t):
    s = State(t)
    n = dim('starts')
    rs, cs = ivec('start_rows', n), ivec('start_columns', n)
    q = z3.Int('q~')
    C.assume(S(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < T(n)), T(sym_not(s.wall(at(rs, S(q)), at(cs, S(q)))))))))
    s.env.initPos = SList.from_fn(n, lambda i: (at(rs, i), at(cs, i)))
    t.call('reset', s.env.reset)
    e = z3.Int('e~')
    p = s.env.perseus
    t.prove('starts at a configured cell', S(z3.Exists([e], z3.And(e >= 0, e < T(n), T(p[0]) == T(at(rs, S(e))), T(p[1]) == T(at(cs, S(e)))))))
    t.prove('no bump yet', sym_not(S(TB(s.env.bang))) if isinstance(s.env.bang, Sym) else not s.env.bang)
    s.inside('reset')


TURN = {2: 2, 3: 1, 4: 3}


@task('C14', 'polar maze: performAction', functions=[Z + 'polarmaze.PolarMaze.performAction'])
def _(t):
    s = State(t, 'polarmaze', 'PolarMaze')
    d = pick('direction', 4)
    s.env.perseusDir = d
    a = pick('action', 5)
    t.call('performAction', s.env.performAction, a)
    if a == 1:
        s.moved('forward', DIRS[d])
        t.prove('direction is kept', s.env.perseusDir == d)
    else:
        p = s.env.perseus
        t.prove('turning and staying does not move', sym_and(p[0] == s.r, p[1] == s.c))
        t.prove('turning', s.env.perseusDir == (d + TURN.get(a, 0)) % 4)
    s.inside('performAction')
    s.table_kept('performAction')


@task('C14', 'polar maze: random actions', functions=[Z + 'polarmaze.PolarMaze.performAction'])
def _(t):
    s = State(t, 'polarmaze', 'PolarMaze', noise=True)
    d = pick('direction', 4)
    s.env.perseusDir = d
    t.call('performAction', s.env.performAction, 1)
    s.inside('performAction')
    p = s.env.perseus
    t.prove('stays or moves ahead', sym_or(sym_and(p[0] == s.r, p[1] == s.c), sym_and(p[0] == s.r + DIRS[d][0], p[1] == s.c + DIRS[d][1])))
    t.prove('a direction', sym_and(s.env.perseusDir >= 0, s.env.perseusDir < 4))


@task('C14', 'polar maze: getSensors', functions=[Z + 'polarmaze.PolarMaze.getSensors', Z + 'polarmaze.PolarMaze.reset'])
def _(t):
    s = State(t, 'polarmaze', 'PolarMaze')
    d0 = s.env.perseusDir
    t.prove('a direction after reset', sym_and(d0 >= 0, d0 < 4))
    d = pick('direction', 4)
    s.env.perseusDir = d
    o = t.call('getSensors', s.env.getSensors)
    t.prove('one sensor for every direction', slen(o) == 4)
    for k in range(4):
        e = DIRS[(d + k) % 4]
        t.prove('sensors turn with theseus', at(o, k) == ite(s.wall(s.r + e[0], s.c + e[1]), 1, 0))


def maze_task(t):
    s = State(t)

    class MyTask(t.cls(Z + 'tasks.maze', 'MazeTask')):
        pass
    MyTask.topology, MyTask.goal, MyTask.initPos = s.table, s.g, SList([(s.r, s.c)])
    MyTask.bangPenalty, MyTask.defaultPenalty, MyTask.finalReward = C.real('bangPenalty', show=True), C.real('defaultPenalty', show=True), C.real('finalReward', show=True)
    return s, MyTask


@task('C14', 'reward of a maze task', functions=[Z + 'tasks.maze.MazeTask.getReward', Z + 'tasks.maze.MazeTask.isFinished', Z + 'tasks.maze.MazeTask.__init__',
                                                 Z + 'tasks.pomdp.POMDPTask.performAction', Z + 'tasks.pomdp.POMDPTask.isFinished'])
def _(t):
    s, cls = maze_task(t)
    tk = t.call('MazeTask', cls)
    s.env = tk.env
    lim = C.choose()
    steps, mx = C.int('steps', show=True), C.int('maxSteps', show=True)
    C.assume(sym_and(steps >= 0, mx >= 0))
    tk.steps = steps
    if lim:
        tk.maxSteps = mx
    a = pick('action', 4)
    t.call('performAction', tk.performAction, a)
    s.moved('performAction', DIRS[a])
    p = s.env.perseus
    there = sym_and(p[0] == s.g[0], p[1] == s.g[1])
    want = ite(there, cls.finalReward, ite(S(TB(s.env.bang)), cls.bangPenalty, cls.defaultPenalty))
    t.prove('reward of the goal exactly on reaching the goal', t.call('getReward', tk.getReward) == want)
    fin = t.call('isFinished', tk.isFinished)
    t.prove('reaching the goal ends the episode', S(TB(fin)) == S(TB(sym_or(there, steps + 1 >= mx) if lim else there)))
    t.prove('the reward is counted once', tk.cumreward == want)
    t.call('reset', tk.reset)
    t.prove('reset', sym_and(tk.steps == 0, tk.cumreward == 0, s.env.perseus[0] == s.r, s.env.perseus[1] == s.c))


@task('C14', 'MDP maze task', functions=[Z + 'tasks.mdp.MDPMazeTask.getReward', Z + 'tasks.mdp.MDPMazeTask.performAction', Z + 'tasks.mdp.MDPMazeTask.getObservation'])
def _(t):
    s = State(t)
    tk = t.cls(Z + 'tasks.mdp', 'MDPMazeTask')(s.env)
    o1 = at(t.call('getObservation', tk.getObservation), 0)
    a = pick('action', 4)
    t.call('performAction', tk.performAction, vec('chosen', 1) * 0 + a)
    s.moved('performAction', DIRS[a])
    p = s.env.perseus
    o2 = at(tk.getObservation(), 0)
    # different cells look different
    r1, c1, r2, c2 = s.r, s.c, p[0], p[1]
    t.prove('the observation tells the cell', S(TB(o1 == o2)) == S(TB(sym_and(r1 == r2, c1 == c2))))
    r3, c3 = index(s.R, 'other_row'), index(s.K, 'other_column')
    s.env.perseus = (r3, c3)
    o3 = at(tk.getObservation(), 0)
    t.prove('different cells look different', S(TB(o1 == o3)) == S(TB(sym_and(r1 == r3, c1 == c3))))
    s.env.perseus = p
    there = sym_and(p[0] == s.g[0], p[1] == s.g[1])
    rw = t.call('getReward', tk.getReward)
    t.prove('reward exactly on reaching the goal', rw == ite(there, 1, 0))
    q = s.env.perseus
    t.prove('the goal leads back to the start', sym_and(q[0] == ite(there, s.r, p[0]), q[1] == ite(there, s.c, p[1])))
