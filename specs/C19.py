"""Two-player games enforce their rules: boards of any size, any position."""
from .common import *
from pyvc.runtime import All, Havoc, Refill, pv_setattr as put
from pyvc.maps import PMap, PSet, SetMap, View, code, same

GM = 'pybrain.rl.environments.twoplayergames.gomoku'
PN = 'pybrain.rl.environments.twoplayergames.pente'
CG = 'pybrain.rl.environments.twoplayergames.capturegame'
TP = 'pybrain.rl.environments.twoplayergames.twoplayergame'
I = z3.IntSort()
DIRS = [(0, 1), (1, 0), (1, 1), (1, -1)]
ASSUMPTIONS = ['the players name a colour (1 or -1) and the game is undecided',
               'the board holds as many stones as cells exactly when no cell is empty (counting of a finite board)',
               'contracts of _fiveRow, _killsWhich, _neighbors, _capture, _suicide and _setStone are the ones proved for them',
               '_iterPos enumerates the points of the board, each once (bounded checks on the real code only)',
               'groups are connected: proved for an arbitrary set of points that is closed under steps to stones of the same colour',
               'the size of a set of liberties is used as far as none, one and more go']
BOUNDED_ONLY = ['the enumeration of the board', 'board arrays and sensors, killing moves of pente, group sizes and numbers of liberties', 'random boards, handicap, the players, whole games']


def conj(l):
    return z3.And(*[TB(x) for x in l]) if l else z3.BoolVal(True)


def disj(l):
    return z3.Or(*[TB(x) for x in l]) if l else z3.BoolVal(False)


class Row(object):
    """a gomoku or pente game in any undecided position"""

    def __init__(self, t, mod, name, pente=False, states=True):
        C.ghost['symbolic dicts'] = True
        self.t = t
        cls = t.cls(mod, name)
        t.cls(GM, 'GomokuGame')
        g = self.g = cls.__new__(cls)
        self.h, self.w = dim('rows', 5), dim('columns', 5)
        put(g, 'size', (self.h, self.w))
        self.c = 1 if C.choose() else -1
        f = C.input_fun('stone', I, I, I)
        self.b0 = lambda i, j: f(TI(i), TI(j))
        if states:
            C.forall(2, lambda i, j: S(z3.Or(self.b0(i, j) == 0, self.b0(i, j) == 1, self.b0(i, j) == -1)))
        n = C.int('stones')
        C.assume(n >= 0)
        put(g, 'b', PMap(lambda i, j: self.on(i, j), lambda i, j: self.b0(i, j), 2, blank=0, count=T(n)))
        self.b = g.b
        put(g, 'winner', None)
        self.last = C.int('last')
        put(g, 'lastplayer', self.last)
        put(g, 'movesDone', C.int('moves'))
        C.assume(g.movesDone >= 0)
        self.moves = g.movesDone
        self.n = n
        self.taken = {1: 0, -1: 0}
        if pente:
            self.taken = {1: C.int('pairs of black'), -1: C.int('pairs of white')}
            for v in self.taken.values():
                C.assume(v >= 0)
            put(g, 'pairsTaken', t.L.builtins['dict'](self.taken))
        C.assume(n == self.moves - 2 * (self.taken[1] + self.taken[-1]))

    def on(self, i, j):
        i, j = TI(i), TI(j)
        return z3.And(i >= 0, j >= 0, i < T(self.h), j < T(self.w))

    def cell(self, name='pos'):
        return (C.int(name + ' row', show=True), C.int(name + ' column', show=True))

    def counting(self):
        """the count of stones and the cells of the board"""
        n = self.b.count
        C.assume(S(z3.And(n >= 0, n <= T(self.h * self.w))))
        i, j = z3.Int(C.fresh_name('free')), z3.Int(C.fresh_name('free'))
        v = self.b.val
        C.pc.append(z3.Implies(n < T(self.h * self.w), z3.And(self.on(i, j), v(i, j) == 0)))
        C.forall(2, lambda a, c: S(z3.Implies(z3.And(self.on(a, c), v(TI(a), TI(c)) == 0), n < T(self.h * self.w))))

    def lined(self, pos, d, k=5):
        """with a stone at pos, k of the colour in a row through pos along d"""
        i, j = TI(pos[0]), TI(pos[1])
        d = [TI(x) for x in d]
        mine = lambda s: z3.And(self.on(i + d[0] * s, j + d[1] * s), self.b0(i + d[0] * s, j + d[1] * s) == self.c)
        return disj([conj([mine(o + s) for s in range(k) if o + s != 0]) for o in range(-k + 1, 1)])

    def run(self, pos, d, sign):
        """stones of the colour next to pos, up to four"""
        i, j = TI(pos[0]), TI(pos[1])
        d = [TI(x) * sign for x in d]
        mine = [z3.And(self.on(i + d[0] * s, j + d[1] * s), self.b0(i + d[0] * s, j + d[1] * s) == self.c) for s in range(1, 5)]
        return z3.Sum(*[z3.If(conj(mine[:s]), 1, 0) for s in range(1, 5)])

    def five(self, pos):
        return disj([self.lined(pos, d) for d in DIRS])

    def frame(self, t, b=None):
        i, j = self.cell('any')
        b = b or self.b0
        t.prove('the cells of the board', S(self.g.b.dom(T(i), T(j)) == self.on(i, j)))
        t.prove('the stones on the board', sym_implies(S(self.on(i, j)), S(self.g.b.val(T(i), T(j)) == TI(b(T(i), T(j))))))


def by_direction(k, f):
    """f(direction number k)"""
    return S(z3.Or(*[z3.And(TI(k) == m, TB(f(DIRS[m]))) for m in range(4)]))


@task('C19', 'five in a row', functions=[GM + '.GomokuGame._fiveRow'], limit=300)
def _(t):
    r = Row(t, GM, 'GomokuGame', states=False)
    pos = r.cell()
    C.assume(S(z3.And(r.on(*pos), r.b0(*pos) == 0)))

    def inv(L):
        return [('none in the directions so far', S(conj([z3.Implies(TI(L.k) > m, z3.Not(r.lined(pos, DIRS[m]))) for m in range(4)])))]
    C.loop_specs[('GomokuGame._fiveRow', 0)] = LoopSpec(inv, only_symbolic=False)

    def counted(L):
        n = 1
        for m in range(2):
            n = n + S(z3.If(TI(L.k) > m, r.run(pos, L.dir, (-1, 1)[m]), 0))
        return [('stones on both sides', L.found == n)]
    C.loop_specs[('GomokuGame._fiveRow', 1)] = LoopSpec(counted, only_symbolic=False)
    res = t.call('_fiveRow', r.g._fiveRow, r.c, pos)
    t.prove('exactly if five are lined up', S(TB(res) == r.five(pos)))
    r.frame(t)


def rule_move(t, r, pos, ok, res, won, b1, kills=None):
    """what a move must do"""
    g = r.g
    t.prove('accepted exactly if legal', S(TB(res) == TB(ok)))
    legal = C.branch(TB(ok))
    i, j = r.cell('any')
    x = (T(i), T(j))
    if not legal:
        t.prove('refused: no winner', g.winner is None)
        t.prove('refused: not counted', g.movesDone == r.moves)
        r.frame(t)
        return
    t.prove('counted', g.movesDone == r.moves + 1)
    if C.branch(TB(won)):
        t.prove('the player wins', g.winner is not None and g.winner == r.c)
        t.prove('the other cells stay', sym_implies(S(z3.And(r.on(i, j), z3.Not(same(x, [TI(p) for p in pos])))), S(g.b.val(*x) == r.b0(i, j))))
        t.prove('the cell is taken', S(g.b.val(*[TI(p) for p in pos]) != 0))
        t.prove('the cells of the board', S(g.b.dom(*x) == r.on(i, j)))
        return
    r.frame(t, b1)
    r.counting()
    if g.winner is None:
        t.prove('undecided: a cell is free', S(g.b.count < T(r.h * r.w)))
    else:
        t.prove('a draw', isinstance(g.winner, str) and g.winner == g.DRAW)
        t.prove('a draw: no cell is free', sym_implies(S(r.on(i, j)), S(g.b.val(*x) != 0)))


@task('C19', 'a move in gomoku', functions=[GM + '.GomokuGame.doMove', GM + '.GomokuGame.isLegal', GM + '.GomokuGame._setStone', TP + '.TwoPlayerGame.performAction'])
def _(t):
    r = Row(t, GM, 'GomokuGame')
    pos = r.cell()
    g = r.g
    won = C.bool('five in a row')

    def five(c, p):
        t.prove('asked for this move', sym_and(c == r.c, p[0] == pos[0], p[1] == pos[1]), kind='pre')
        t.prove('before the stone is set', g.b.state is r.b_state, kind='pre')
        return won
    g._fiveRow = five
    r.b_state = g.b.state
    ok = S(z3.And(r.on(*pos), r.b0(*pos) == 0))
    here = [TI(p) for p in pos]
    t.prove('legal exactly if free', S(TB(t.call('isLegal', g.isLegal, r.c, pos)) == TB(ok)))
    if C.choose():
        res = t.call('doMove', g.doMove, r.c, pos)
        t.prove('the last player stays', g.lastplayer == r.last)
    else:
        got = []
        real = g.doMove
        g.doMove = lambda *a: got.append(real(*a))
        t.call('performAction', g.performAction, (r.c, pos))
        res, = got
        t.prove('the last player', g.lastplayer == r.c)
    rule_move(t, r, pos, ok, res, won, lambda i, j: z3.If(same([i, j], here), z3.IntVal(r.c), r.b0(i, j)))
    t.prove('over exactly if decided', g.gameOver() == (g.winner is not None))
    t.prove('the winner is told', g.getWinner() is g.winner or g.getWinner() == g.winner)


# ------------------------------------------------------------------ pente

TURNS = [(m, d) for m in range(4) for d in (-1, 1)]


class Kills(object):
    """the pairs a stone of the colour at pos captures, in the order of the directions"""

    def __init__(self, r, pos):
        self.r, self.pos = r, pos
        i, j = TI(pos[0]), TI(pos[1])
        self.cell = lambda t, s: (i + DIRS[TURNS[t][0]][0] * TURNS[t][1] * s, j + DIRS[TURNS[t][0]][1] * TURNS[t][1] * s)
        self.kill = [conj([r.on(*self.cell(t, s)) for s in (1, 2, 3)] + [r.b0(*self.cell(t, 1)) == -r.c, r.b0(*self.cell(t, 2)) == -r.c, r.b0(*self.cell(t, 3)) == r.c])
                     for t in range(8)]

    def off(self, k):
        """captured stones in the first k directions"""
        return z3.simplify(z3.Sum(*[z3.If(z3.And(self.kill[t], z3.IntVal(t) < TI(k)), 2, 0) for t in range(8)]))

    def among(self, i, j, k=8):
        return disj([z3.And(self.kill[t], z3.IntVal(t) < TI(k), z3.Or(*[same([TI(i), TI(j)], self.cell(t, s)) for s in (1, 2)])) for t in range(8)])

    def content(self, get, k=8):
        """the list holds the captured stones of the first k directions"""
        out = []
        for t in range(8):
            o = self.off(t)
            for s in (0, 1):
                e = get(S(z3.simplify(o + s)))
                out.append(z3.Implies(z3.And(self.kill[t], z3.IntVal(t) < TI(k)), same([TI(x) for x in e], self.cell(t, s + 1))))
        return S(z3.And(*out))


def getter(l):
    """elements of a list; what lies beyond the end of it is anything"""
    g = l._getter()
    if l.items is None:
        return g
    more = cells_maker()

    def get(i):
        r = more(i)
        for k, x in enumerate(l.items):
            r = tuple(ite(i == k, a, b) for a, b in zip(x, r))
        return r
    return get


def cells_maker():
    f, h = C.fun('row', I, I), C.fun('column', I, I)
    return lambda i: (S(f(TI(i))), S(h(TI(i))))


@task('C19', 'captured pairs', functions=[PN + '.PenteGame._killsWhich'], limit=500)
def _(t):
    r = Row(t, PN, 'PenteGame', pente=True, states=False)
    pos = r.cell()
    C.assume(S(z3.And(r.on(*pos), r.b0(*pos) == 0)))
    K = Kills(r, pos)

    def inv(turn):
        def go(L):
            l = L.res
            k = turn(L)
            return [('as many as captured', slen(l) == S(K.off(k))), ('the captured ones', K.content(getter(l), k))]
        return go
    outer = []
    C.loop_specs[('PenteGame._killsWhich', 0)] = LoopSpec(lambda L: (outer.__setitem__(slice(None), [L.k]), inv(lambda L: 2 * L.k)(L))[1], only_symbolic=False,
                                                          sorts={'res': lambda v: fresh_cells()})
    C.loop_specs[('PenteGame._killsWhich', 1)] = LoopSpec(inv(lambda L: 2 * this(L) + L.k), only_symbolic=False, sorts={'res': lambda v: fresh_cells()})

    def this(L):
        # the number of the direction of this round
        d = L.outer['dir']
        i, j = TI(d[0]), TI(d[1])
        return S(z3.If(i == 0, 0, z3.If(j == 0, 1, z3.If(j == 1, 2, 3))))

    def fresh_cells():
        n = C.int('captured')
        C.assume(n >= 0)
        return SList.from_fn(n, cells_maker())
    l = t.call('_killsWhich', r.g._killsWhich, r.c, pos)
    t.prove('as many as captured', slen(l) == S(K.off(8)))
    t.prove('the captured ones', K.content(getter(l)))
    r.frame(t)


@task('C19', 'captured stones are different', functions=[PN + '.PenteGame._killsWhich'])
def _(t):
    r = Row(t, PN, 'PenteGame', pente=True, states=False)
    pos = r.cell()
    K = Kills(r, pos)
    get = cells_maker()
    C.assume(K.content(get))
    k, m = C.int('k'), C.int('m')
    C.assume(k >= 0)
    C.assume(m > k)
    C.assume(m < S(K.off(8)))
    x = [TI(v) for v in get(k)]
    t.prove('an enemy stone of the board', S(z3.And(r.on(*x), r.b0(*x) == -r.c, K.among(*x))))
    t.prove('different stones', S(z3.Not(same(x, [TI(v) for v in get(m)]))))


def killing(t, r, pos, ask):
    """contract of _killsWhich ('captured pairs', 'captured stones are different')"""
    K = Kills(r, pos)
    get = cells_maker()

    def kills(c, p):
        t.prove('asked for this move', sym_and(c == r.c, p[0] == pos[0], p[1] == pos[1]), kind='pre')
        t.prove('before the stone is set', r.g.b.state is r.b_state, kind='pre')
        n = S(K.off(8))
        C.assume(K.content(get))
        ask.append(1)
        return SList.from_fn(n, get)
    return K, kills, get


def removal(K, r, pos, get):
    here = [TI(p) for p in pos]

    def gone(k, i, j):
        return disj([z3.And(K.kill[m], same([TI(i), TI(j)], K.cell(m, s)), K.off(m) + s - 1 < TI(k)) for m in range(8) for s in (1, 2)])

    def board(k, i, j):
        return z3.If(gone(k, i, j), 0, z3.If(same([TI(i), TI(j)], here), z3.IntVal(r.c), r.b0(i, j)))

    def inv(L):
        b = r.g.b
        n = TI(L.k)
        el = get(S(n))
        return [('stones removed so far', All(2, lambda i, j: S(z3.Implies(r.on(i, j), b.val(TI(i), TI(j)) == board(L.k, i, j))))),
                ('the cells of the board', All(2, lambda i, j: S(b.dom(TI(i), TI(j)) == r.on(i, j)))),
                ('counted', S(b.count == T(r.n) + 1 - n))]
    return board, inv


@task('C19', 'a move in pente', functions=[PN + '.PenteGame.doMove', PN + '.PenteGame._setStone', GM + '.GomokuGame.isLegal', GM + '.GomokuGame._setStone'], limit=200)
def _(t):
    r = Row(t, PN, 'PenteGame', pente=True)
    pos = r.cell()
    g = r.g
    row = C.bool('five in a row')

    def five(c, p):
        t.prove('asked for this move', sym_and(c == r.c, p[0] == pos[0], p[1] == pos[1]), kind='pre')
        t.prove('before the stone is set', g.b.state is r.b_state, kind='pre')
        return row
    g._fiveRow = five
    r.b_state = g.b.state
    asked = []
    K, g._killsWhich, get = killing(t, r, pos, asked)
    board, inv = removal(K, r, pos, get)
    C.loop_specs[('PenteGame._setStone', 0)] = LoopSpec(inv, modifies=lambda L: [Havoc(r.g.b, lambda: fresh_board(r))])
    ok = S(z3.And(r.on(*pos), r.b0(*pos) == 0))
    pairs = S(K.off(8)) // 2
    won = S(z3.Or(TB(row), T(r.taken[r.c] + pairs >= 5)))
    res = t.call('doMove', g.doMove, r.c, pos)
    rule_move(t, r, pos, ok, res, won, lambda i, j: board(K.off(8), i, j))
    if C.branch(TB(ok)) and not C.branch(TB(won)):
        t.prove('captured pairs are counted', sym_and(g.pairsTaken[r.c] == r.taken[r.c] + pairs, g.pairsTaken[-r.c] == r.taken[-r.c]))
        t.prove('stones on the board are counted', S(g.b.count == T(g.movesDone - 2 * (g.pairsTaken[1] + g.pairsTaken[-1]))))
    else:
        t.prove('captured pairs stay', sym_and(*[g.pairsTaken[c] == r.taken[c] for c in (1, -1)]))


def fresh_board(r):
    f, h = C.fun('board', I, I, I), C.fun('cells', I, I, z3.BoolSort())
    r.g.b.set_state((lambda i, j: h(TI(i), TI(j)), lambda i, j: f(TI(i), TI(j)), T(C.int('stones on the board'))))


# ------------------------------------------------------------------ the capture game

D4 = [(0, 1), (0, -1), (1, 0), (-1, 0)]
B = z3.BoolSort()


def beside(x, d):
    return (x[0] + d[0], x[1] + d[1])


class Capture(object):
    """a capture game in any undecided position whose groups and liberties are right"""

    def __init__(self, t, inv=True, index=True):
        C.ghost['symbolic dicts'] = True
        self.t = t
        cls = t.cls(CG, 'CaptureGame')
        t.cls(TP, 'TwoPlayerGame')
        g = self.g = cls.__new__(cls)
        self.size = dim('size', 1)
        put(g, 'size', self.size)
        self.c = 1 if C.choose() else -1
        f = C.input_fun('stone', I, I, I)
        self.b0 = lambda *x: f(*x)
        C.forall(2, lambda i, j: S(z3.Or(f(T(i), T(j)) == 0, f(T(i), T(j)) == 1, f(T(i), T(j)) == -1)), pattern=lambda i, j: [[f(i, j)]])
        put(g, 'b', PMap(lambda *x: self.on(x), lambda *x: f(*x), 2))
        self.grp0, self.ld0, self.lib0 = C.fun('group', I, I, I), C.fun('label', I, B), C.fun('liberty', I, I, I, B)
        put(g, 'groups', PMap(lambda *x: z3.And(self.on(x), f(*x) != 0), lambda *x: self.grp0(*x), 2))
        put(g, 'liberties', SetMap(lambda x: self.ld0(x), lambda x, *k: self.lib0(x, *k)))
        self.adj, self.index, self.q = C.fun('adjacent', I, I, I, I, B), C.fun('index', I, I, I), C.fun('closed', I, I, B)
        put(g, 'winner', None)
        put(g, 'movesDone', C.int('moves'))
        C.assume(g.movesDone >= 0)
        self.moves = g.movesDone
        self.pos = (C.int('pos row', show=True), C.int('pos column', show=True))
        self.here = tuple(T(x) for x in self.pos)
        # adjacency: a name for 'one step apart'
        C.forall(4, lambda *a: S(z3.Implies(self.adj(*[T(x) for x in a]), z3.Or(*[same([T(x) for x in a[2:]], beside([T(x) for x in a[:2]], d)) for d in D4]))),
                 pattern=lambda *a: [[self.adj(*a)]])
        if inv:
            for nm, c in self.right():
                c.assume()
            self.liberties().assume()

    def on(self, x):
        x = [TI(y) for y in x]
        return z3.And(x[0] >= 0, x[1] >= 0, x[0] < T(self.size), x[1] < T(self.size))

    # -- what is right about groups and liberties
    def parts(self):
        g = self.g
        return g.b.val, g.groups.dom, g.groups.val, g.liberties.dom, g.liberties.mem

    def all2(self, f, pattern):
        return All(2, lambda *x: S(f(tuple(T(y) for y in x))), lambda *x: [pattern(x)])

    def all4(self, f, pattern):
        return All(4, lambda *x: S(f(tuple(T(y) for y in x[:2]), tuple(T(y) for y in x[2:]))), lambda *x: [pattern(x[:2], x[2:])])

    def touched(self, q, g):
        """a stone with the label beside q"""
        b, st, grp, ld, lib = self.parts()
        return z3.Or(*[z3.And(st(*beside(q, d)), grp(*beside(q, d)) == g) for d in D4])

    def liberties(self, extra=None):
        b, st, grp, ld, lib = self.parts()
        more = extra or (lambda g, q: z3.BoolVal(False))
        return All(3, lambda g, *q: S((lambda g, q: z3.Implies(ld(g), lib(g, *q) == z3.Or(z3.And(self.on(q), b(*q) == 0, self.touched(q, g)), more(g, q))))(T(g), tuple(T(y) for y in q))),
                   lambda g, *q: [[lib(g, *q)]])

    def right(self, but=None):
        """groups are the connected stones of one colour, and have the free points beside them as liberties"""
        b, st, grp, ld, lib = self.parts()
        spare = but or (lambda p, q: z3.BoolVal(False))
        return [('every stone belongs to a group', self.all2(lambda p: st(*p) == z3.And(self.on(p), b(*p) != 0), lambda p: [grp(*p)])),
                ('every group has liberties noted', self.all2(lambda p: z3.Implies(st(*p), ld(grp(*p))), lambda p: [grp(*p)])),
                ('stones side by side are one group', self.all4(lambda p, q: z3.Implies(z3.And(self.adj(*(p + q)), st(*p), st(*q), b(*p) == b(*q), z3.Not(spare(p, q))), grp(*p) == grp(*q)),
                                                                 lambda p, q: [self.adj(*(p + q))])),
                ('labels are those of own stones', self.all4(lambda p, x: z3.Implies(z3.And(st(*p), self.on(x), grp(*p) == self.index(*x)), z3.And(st(*x), grp(*x) == grp(*p))),
                                                              lambda p, x: [grp(*p), self.index(*x)])),
                ('groups have one colour', self.all4(lambda p, q: z3.Implies(z3.And(st(*p), st(*q), grp(*p) == grp(*q)), b(*p) == b(*q)), lambda p, q: [grp(*p), grp(*q)])),
                ('groups are connected', self.all4(lambda p, q: z3.Implies(z3.And(st(*p), st(*q), grp(*p) == grp(*q)), self.q(*p) == self.q(*q)), lambda p, q: [self.q(*p), self.q(*q)]))]

    def around(self):
        """contract of _neighbors at pos ('neighbours')"""
        m = self.m = C.int('neighbours')
        C.assume(m >= 0)
        r, c = C.fun('row', I, I), C.fun('column', I, I)
        w = self.where = C.fun('where', I, I, I)
        el = self.el = lambda i: (r(T(i)), c(T(i)))
        h = self.here
        C.forall(1, lambda i: S(z3.Implies(z3.And(T(i) >= 0, T(i) < T(m)),
                                           z3.And(self.on(el(i)), z3.Or(*[same(el(i), beside(h, d)) for d in D4]), w(*el(i)) == T(i),
                                                  self.adj(*(h + el(i))), self.adj(*(el(i) + h))))), pattern=lambda i: [[r(i)]])
        for d in D4:
            x = beside(h, d)
            C.pc.append(z3.Implies(self.on(x), z3.And(w(*x) >= 0, w(*x) < T(m), same(el(w(*x)), x))))

        def neighbors(pos):
            self.t.prove('neighbours of the point', S(same([T(p) for p in pos], h)), kind='pre')
            return SList.from_fn(m, lambda i: (S(el(i)[0]), S(el(i)[1])))
        self.g._neighbors = neighbors


@task('C19', 'neighbouring points', functions=[CG + '.CaptureGame._neighbors'])
def _(t):
    r = Capture(t, inv=False)
    h = r.here
    C.pc.append(r.on(h))
    l = t.call('_neighbors', r.g._neighbors, r.pos)
    els = [tuple(T(x) for x in l[i]) for i in range(len(l))]
    for k, e in enumerate(els):
        t.prove('a point of the board beside this one', S(z3.And(r.on(e), disj([same(e, beside(h, d)) for d in D4]))))
        for f in els[:k]:
            t.prove('different points', S(z3.Not(same(e, f))))
    for d in D4:
        x = beside(h, d)
        t.prove('every point beside this one', sym_implies(S(r.on(x)), S(disj([same(x, e) for e in els]))))


@task('C19', 'labels of different points are different', functions=[])
def _(t):
    r = Capture(t, inv=False)
    x, y = [(C.int(n + ' row'), C.int(n + ' column')) for n in 'xy']
    n = r.size
    C.pc.append(z3.And(r.on([T(v) for v in x]), r.on([T(v) for v in y])))
    C.assume(n * x[0] + x[1] == n * y[0] + y[1])
    for a, b in ((x, y), (y, x)):
        if a[0] < b[0]:
            d = b[0] - a[0]
            t.prove('rows are that far apart', n * d >= n)
            C.assume(n * d >= n)
            t.prove('not the same number', S(z3.BoolVal(False)))
            return
    t.prove('the same point', sym_and(x[0] == y[0], x[1] == y[1]))


@task('C19', 'a stone is set in the capture game', functions=[CG + '.CaptureGame._setStone'], limit=600)
def _(t):
    r = Capture(t)
    g, h = r.g, r.here
    C.pc.append(z3.And(r.on(h), r.b0(*h) == 0))
    # labels ('labels of different points are different')
    C.pc.append(r.index(*h) == T(r.size * r.pos[0] + r.pos[1]))
    C.forall(4, lambda *a: S((lambda x, y: z3.Implies(z3.And(r.on(x), r.on(y), r.index(*x) == r.index(*y)), same(x, y)))([T(v) for v in a[:2]], [T(v) for v in a[2:]])),
             pattern=lambda *a: [[r.index(*a[:2]), r.index(*a[2:])]])
    r.around()
    b1 = lambda *x: z3.If(same(x, h), z3.IntVal(r.c), r.b0(*x))
    stone = lambda *x: z3.And(r.on(x), b1(*x) != 0)
    # an arbitrary set of points that is closed under steps to stones of the same colour
    C.forall(4, lambda *a: S((lambda p, q: z3.Implies(z3.And(r.adj(*(p + q)), stone(*p), stone(*q), b1(*p) == b1(*q)), r.q(*p) == r.q(*q)))(tuple(T(v) for v in a[:2]), tuple(T(v) for v in a[2:]))),
             pattern=lambda *a: [[r.adj(*a)]])

    def inv(L):
        b, st, grp, ld, lib = r.parts()
        k, merge = TI(L.k), TB(L.merge)
        gp = grp(*h)
        mine = [beside(h, d) for d in D4]
        done = lambda x: r.where(*x) < k
        pending = lambda lab, q: z3.And(same(q, h), disj([z3.And(st(*x), grp(*x) == lab) for x in mine]), z3.Not(disj([z3.And(st(*x), done(x), grp(*x) == lab) for x in mine])))
        out = r.right(lambda p, q: z3.Or(z3.And(same(p, h), z3.Not(done(q))), z3.And(same(q, h), z3.Not(done(p)))))
        out.append(('liberties', r.liberties(pending)))
        out.append(('the label is new unless joined', r.all2(lambda p: z3.Implies(z3.And(z3.Not(merge), st(*p), z3.Not(same(p, h))), grp(*p) != gp), lambda p: [grp(*p)])))
        out.append(('own label unless joined', S(z3.Implies(z3.Not(merge), gp == r.index(*h)))))
        out.append(('liberties of the stone noted', S(ld(gp))))
        out.append(('liberties of the neighbours noted', All(1, lambda i: S(z3.Implies(z3.And(T(i) >= 0, T(i) < T(r.m), st(*r.el(i))), ld(grp(*r.el(i))))), lambda i: [[r.el(i)[0]]])))
        out.append(('joined with a neighbour', S(z3.Implies(z3.Not(merge), z3.Not(disj([z3.And(r.on(x), b(*x) == r.c, done(x)) for x in mine]))))))
        return out

    def groups_outer():
        f = C.fun('group', I, I, I)
        g.groups.set_state((stone, lambda *x: f(*x), None))

    def liberties_any():
        d, m = C.fun('label', I, B), C.fun('liberty', I, I, I, B)
        g.liberties.set_state((lambda x: d(x), lambda x, *k: m(x, *k)))
    C.loop_specs[('CaptureGame._setStone', 0)] = LoopSpec(inv, modifies=lambda L: [Havoc(g.groups, groups_outer), Havoc(g.liberties, liberties_any)])
    at = []

    def relabel(L):
        if isinstance(L.k, int):
            at[:] = [g.groups.val]
        old = at[0]
        place = C.ghost['keys'][-1][1]
        grp, st = g.groups.val, g.groups.dom
        return [('labels so far', r.all2(lambda x: grp(*x) == z3.If(z3.And(st(*x), place(*x) < TI(L.k), old(*x) == TI(L.oldg)), TI(L.newg), old(*x)), lambda x: [grp(*x)]))]

    def groups_inner():
        f = C.fun('group', I, I, I)
        g.groups.set_state((g.groups.dom, lambda *x: f(*x), None))
    C.loop_specs[('CaptureGame._setStone', 1)] = LoopSpec(relabel, modifies=lambda L: [Havoc(g.groups, groups_inner)])
    t.call('_setStone', g._setStone, r.c, r.pos)
    x = tuple(T(C.int('any')) for _ in range(2))
    t.prove('the board', S(z3.And(g.b.dom(*x) == r.on(x), g.b.val(*x) == b1(*x))))
    for nm, c in r.right() + [('groups have the free points beside them as liberties', r.liberties())]:
        t.prove(nm, c.goal())


def rules(r):
    """what the rules say about a stone of the colour at the free point pos"""
    h, g = r.here, r.g
    o = C.fun('other row', I, I), C.fun('other column', I, I)
    lib = g.liberties.mem
    # some liberty of a group besides the point, where there is one
    C.forall(3, lambda l, *q: S((lambda l, q: z3.Implies(z3.And(lib(l, *q), z3.Not(same(q, h))), z3.And(lib(l, o[0](l), o[1](l)), z3.Not(same((o[0](l), o[1](l)), h)))))(T(l), tuple(T(v) for v in q))),
             pattern=lambda l, *q: [[lib(l, *q)]])
    r.other = lambda l: z3.And(lib(l, o[0](l), o[1](l)), z3.Not(same((o[0](l), o[1](l)), h)))
    b = lambda x: r.b0(*x)
    r.taken = lambda x: z3.And(r.on(x), b(x) == -r.c, z3.Not(r.other(r.grp0(*x))))
    r.helped = lambda x: z3.And(r.on(x), b(x) == r.c, r.other(r.grp0(*x)))
    near = [beside(h, d) for d in D4]
    r.captures = disj([r.taken(x) for x in near])
    r.breathes = disj([z3.Or(r.helped(x), z3.And(r.on(x), b(x) == 0)) for x in near])
    r.suicide = z3.And(z3.Not(r.breathes), z3.Not(r.captures))


def asked(r, res):
    def fn(c, p):
        r.t.prove('asked for this stone', sym_and(c == r.c, p[0] == r.pos[0], p[1] == r.pos[1]), kind='pre')
        r.t.prove('the point is free', S(z3.And(r.on(r.here), r.g.b.val(*r.here) == 0, r.g.b.dom(*r.here))), kind='pre')
        return S(res())
    return fn


def so_far(r, L, f):
    return All(1, lambda i: S(z3.Implies(z3.And(T(i) >= 0, T(i) < TI(L.k)), f(r.el(i)))), lambda i: [[r.el(i)[0]]])


def liberty_here(r):
    """the free point is a liberty of the groups beside it"""
    lib, ld = r.g.liberties.mem, r.g.liberties.dom
    return All(1, lambda i: S(z3.Implies(z3.And(T(i) >= 0, T(i) < T(r.m), r.b0(*r.el(i)) != 0), z3.And(ld(r.grp0(*r.el(i))), lib(r.grp0(*r.el(i)), *r.here)))),
               lambda i: [[r.el(i)[0]]])


def unchanged(t, r, but=()):
    g = r.g
    x = tuple(T(C.int('any')) for _ in range(2))
    t.prove('the other points stay', sym_implies(S(conj([z3.Not(same(x, p)) for p in but])), S(z3.And(g.b.dom(*x) == r.on(x), g.b.val(*x) == r.b0(*x)))))


@task('C19', 'captures and suicides', functions=[CG + '.CaptureGame._capture', CG + '.CaptureGame._suicide'], limit=300)
def _(t):
    r = Capture(t)
    g, h = r.g, r.here
    C.pc.append(z3.And(r.on(h), r.b0(*h) == 0))
    r.around()
    rules(r)
    if C.choose():
        C.loop_specs[('CaptureGame._capture', 0)] = LoopSpec(lambda L: [('liberty', liberty_here(r)), ('none captured so far', so_far(r, L, lambda x: z3.Not(r.taken(x))))])
        res = t.call('_capture', g._capture, r.c, r.pos)
        t.prove('captures exactly if an enemy group has no other liberty', S(TB(res) == r.captures))
    else:
        g._capture = asked(r, lambda: r.captures)
        C.loop_specs[('CaptureGame._suicide', 0)] = LoopSpec(lambda L: [('none free so far', so_far(r, L, lambda x: r.b0(*x) != 0))])
        C.loop_specs[('CaptureGame._suicide', 1)] = LoopSpec(lambda L: [('liberty', liberty_here(r)), ('no help so far', so_far(r, L, lambda x: z3.Not(r.helped(x))))])
        res = t.call('_suicide', g._suicide, r.c, r.pos)
        t.prove('suicide exactly if no liberty is left and nothing captured', S(TB(res) == r.suicide))
    unchanged(t, r)
    t.prove('groups and liberties stay', r.g.groups.val(*h).eq(r.grp0(*h)) and r.g.liberties.mem(h[0], *h).eq(r.lib0(h[0], *h)))


@task('C19', 'a move in the capture game', functions=[CG + '.CaptureGame.doMove', CG + '.CaptureGame.isLegal', TP + '.TwoPlayerGame.performAction', TP + '.TwoPlayerGame.gameOver'])
def _(t):
    r = Capture(t, inv=False)
    g, h = r.g, r.here
    rules(r)
    put(g, 'suicideenabled', C.choose())
    put(g, 'lastplayer', C.int('last'))
    last = g.lastplayer
    suicide, captures = r.suicide, r.captures
    g._suicide, g._capture = asked(r, lambda: suicide), asked(r, lambda: captures)
    sets = []
    free = asked(r, lambda: z3.BoolVal(True))

    def setstone(c, p):
        free(c, p)
        sets.append((c, p))
        g.b[p] = c
    g._setStone = setstone
    ok = z3.And(r.on(h), r.b0(*h) == 0, z3.BoolVal(True) if g.suicideenabled else z3.Not(suicide))
    resign = C.choose()
    if not resign:
        t.prove('legal exactly if the rules allow it', S(TB(t.call('isLegal', g.isLegal, r.c, r.pos)) == ok))
        unchanged(t, r)
    pos = 'resign' if resign else r.pos
    if C.choose():
        res = t.call('doMove', g.doMove, r.c, pos)
        t.prove('the last player stays', g.lastplayer == last)
    else:
        got, real = [], g.doMove
        g.doMove = lambda *a: got.append(real(*a))
        t.call('performAction', g.performAction, (r.c, pos))
        res, = got
        t.prove('the last player', g.lastplayer == r.c)
    t.prove('over exactly if decided', g.gameOver() == (g.winner is not None))
    if resign:
        t.prove('resigning is accepted', TB(res) is not False and S(TB(res)))
        t.prove('resigning loses', g.winner is not None and g.winner == -r.c)
        t.prove('counted', g.movesDone == r.moves + 1)
        t.prove('no stone is set', not sets)
        unchanged(t, r)
        return
    t.prove('accepted exactly if legal', S(TB(res) == ok))
    if not C.branch(ok):
        t.prove('refused: no winner', g.winner is None)
        t.prove('refused: not counted', g.movesDone == r.moves)
        t.prove('refused: no stone', not sets)
        unchanged(t, r)
        return
    t.prove('counted', g.movesDone == r.moves + 1)
    unchanged(t, r, [h])
    t.prove('the point is taken', S(z3.And(g.b.dom(*h), g.b.val(*h) != 0)))
    if C.branch(captures):
        t.prove('a capture wins', g.winner is not None and g.winner == r.c)
        t.prove('only marked', not sets)
    elif C.branch(suicide):
        t.prove('suicide loses', g.winner is not None and g.winner == -r.c)
        t.prove('only marked', not sets)
    else:
        t.prove('undecided', g.winner is None)
        t.prove('the stone is set', len(sets) == 1)


def listing(pred, *xs):
    """a list of exactly the points of which pred holds, each once; xs: points of interest"""
    n = C.int('points')
    C.assume(n >= 0)
    i, j, w = C.fun('point row', I, I), C.fun('point column', I, I), C.fun('number', I, I, I)
    el = lambda k: (i(T(k)), j(T(k)))
    C.forall(1, lambda k: S(z3.Implies(z3.And(T(k) >= 0, T(k) < T(n)), z3.And(pred(el(k)), w(*el(k)) == T(k)))), pattern=lambda k: [[i(k)]])
    has = lambda x: z3.Implies(pred(x), z3.And(w(*x) >= 0, w(*x) < T(n), same(el(w(*x)), x)))
    C.forall(2, lambda *x: S(has(tuple(T(v) for v in x))), pattern=lambda *x: [[w(*x)]])
    for x in xs:
        C.pc.append(has(x))
    return SList.from_fn(n, lambda k: (S(el(k)[0]), S(el(k)[1]))), w


def board_points(r, *xs):
    """contract of _iterPos: every point of the board, once"""
    l, r.number = listing(r.on, *xs)
    r.g._iterPos = lambda: l


@task('C19', 'an empty capture game', functions=[CG + '.CaptureGame.reset', CG + '.CaptureGame.__init__', TP + '.TwoPlayerGame.reset'])
def _(t):
    r = Capture(t, inv=False)
    g = r.g
    board_points(r)
    w = r.number

    def cells_any():
        d, v = C.fun('cells', I, I, B), C.fun('content', I, I, I)
        g.b.set_state((lambda *x: d(*x), lambda *x: v(*x), None))
    dom = lambda x: g.b.dom(*x)
    C.loop_specs[('CaptureGame.reset', 0)] = LoopSpec(lambda L: [('points so far', r.all2(lambda x: z3.And(g.b.dom(*x) == z3.And(r.on(x), w(*x) < TI(L.k)), z3.Implies(g.b.dom(*x), g.b.val(*x) == 0)), lambda x: [g.b.dom(*x)]))],
                                                     modifies=lambda L: [Havoc(g.b, cells_any)])
    if C.choose():
        t.call('reset', g.reset)
    else:
        put(g, 'winner', 1)
        enabled = C.choose()
        size = C.int('new size')
        put(g, 'size', None)
        put(g, 'suicideenabled', None)
        C.assume(size == r.size)
        t.call('__init__', g.__init__, size, enabled)
        t.prove('the size', g.size == size)
        t.prove('suicide as told', g.suicideenabled is enabled)
    x = tuple(T(C.int('any')) for _ in range(2))
    C.pc.append(z3.Implies(r.on(x), w(*x) >= 0))
    t.prove('the points of the board are free', S(z3.And(g.b.dom(*x) == r.on(x), z3.Implies(r.on(x), g.b.val(*x) == 0))))
    t.prove('no groups', S(z3.And(z3.Not(g.groups.dom(*x)), z3.Not(g.liberties.dom(x[0])))))
    t.prove('undecided', g.winner is None and not g.gameOver())
    t.prove('no moves', g.movesDone == 0)


@task('C19', 'legal, acceptable and killing moves', functions=[CG + '.CaptureGame.getLegals', CG + '.CaptureGame.getAcceptable', CG + '.CaptureGame.getKilling'])
def _(t):
    r = Capture(t, inv=False)
    g = r.g
    x = tuple(T(C.int('any')) for _ in range(2))
    board_points(r, x)
    legal, suicide, capture = [C.fun(n, I, I, B) for n in ('legal', 'suicide', 'capture')]

    def rule(f, pre=None):
        def fn(c, p):
            t.prove('asked for the colour', c == r.c, kind='pre')
            p = [T(v) for v in p]
            if pre is not None:
                t.prove('asked for legal moves only', S(pre(*p)), kind='pre')
            return S(f(*p))
        return fn

    def known(f):
        def fn(c):
            t.prove('asked for the colour', c == r.c, kind='pre')
            return listing(f, x)[0]
        return fn
    g.isLegal, g._suicide, g._capture = rule(legal), rule(suicide, legal), rule(capture, legal)
    legals = lambda x: z3.And(r.on(x), legal(*x))
    safe = lambda x: z3.And(legals(x), z3.Not(suicide(*x)))
    name, what = 'getLegals', legals
    if C.choose():
        g.getLegals = known(legals)
        name, what = 'getAcceptable', safe
        if C.choose():
            g.getAcceptable = known(safe)
            name, what = 'getKilling', lambda x: z3.And(safe(x), capture(*x))
    l = t.call(name, getattr(g, name), r.c)
    t.prove(name + ': exactly those', S(PSet.of(l)(*x) == what(x)))


@task('C19', 'an empty board of a row game', functions=[GM + '.GomokuGame.reset', GM + '.GomokuGame.__init__', PN + '.PenteGame.reset', PN + '.PenteGame._setStone'])
def _(t):
    pente = C.choose()
    r = Row(t, PN, 'PenteGame', pente=True) if pente else Row(t, GM, 'GomokuGame')
    g = r.g
    on = lambda x: r.on(*x)
    x = tuple(T(C.int('any')) for _ in range(2))
    mid = tuple(T(v // 2) for v in (r.h, r.w))
    l, w = listing(on, x, mid)
    g._iterPos = lambda: l

    def cells_any():
        d, v = C.fun('cells', I, I, B), C.fun('content', I, I, I)
        g.b.set_state((lambda *x: d(*x), lambda *x: v(*x), None))
    clean = lambda x, k: z3.And(g.b.dom(*x) == z3.And(on(x), w(*x) < k), z3.Implies(g.b.dom(*x), g.b.val(*x) == 0))
    C.loop_specs[('GomokuGame.reset', 0)] = LoopSpec(lambda L: [('points so far', All(2, lambda *x: S(clean(tuple(T(v) for v in x), TI(L.k))), lambda *x: [[g.b.dom(*x)], [g.b.val(*x)]]))],
                                                    modifies=lambda L: [Havoc(g.b, cells_any)])

    def kills(c, p):
        # contract of _killsWhich, on a board that holds no other stone
        q = tuple(T(C.int('any')) for _ in range(2))
        C.pc.append(z3.Implies(on(q), z3.And(w(*q) >= 0, w(*q) < T(slen(l)))))
        t.prove('no other stones', S(z3.Implies(z3.And(on(q), z3.Not(same(q, mid))), z3.And(g.b.dom(*q), g.b.val(*q) == 0))), kind='pre')
        return SList([])
    g._killsWhich = kills
    if C.choose():
        t.call('reset', g.reset)
    else:
        put(g, 'winner', 1)
        put(g, 'size', None)
        t.call('__init__', g.__init__, (r.h, r.w))
        t.prove('the size', sym_and(g.size[0] == r.h, g.size[1] == r.w))
    here = z3.If(same(x, mid), z3.IntVal(-1), 0) if pente else z3.IntVal(0)
    t.prove('the points of the board', S(g.b.dom(*x) == on(x)))
    t.prove('are free' + (' but for a white stone in the middle' if pente else ''), sym_implies(S(on(x)), S(g.b.val(*x) == here)))
    t.prove('undecided', g.winner is None and not g.gameOver())
    t.prove('moves', g.movesDone == (1 if pente else 0))
    if pente:
        t.prove('no pairs taken', sym_and(g.pairsTaken[1] == 0, g.pairsTaken[-1] == 0))


@task('C19', 'legal and killing moves of the row games', functions=[GM + '.GomokuGame.getLegals', GM + '.GomokuGame.getKilling'])
def _(t):
    r = Row(t, PN, 'PenteGame', pente=True)
    g = r.g
    on = lambda x: r.on(*x)
    x = tuple(T(C.int('any')) for _ in range(2))
    points = listing(on, x)[0]
    g._iterPos = lambda: points
    five, pairs = C.fun('five', I, I, B), C.fun('pairs', I, I, I)
    legal = lambda x: z3.And(on(x), r.b0(*x) == 0)

    def rule(f):
        def fn(c, p):
            t.prove('asked for the colour', c == r.c, kind='pre')
            p = [T(v) for v in p]
            t.prove('asked for legal moves only', S(legal(p)), kind='pre')
            return f(*p)
        return fn

    def known(f):
        def fn(c):
            t.prove('asked for the colour', c == r.c, kind='pre')
            return listing(f, x)[0]
        return fn
    g._fiveRow = rule(lambda *p: S(five(*p)))
    if C.choose():
        l = t.call('getLegals', g.getLegals, r.c)
        t.prove('exactly the free points', S(PSet.of(l)(*x) == legal(x)))
    else:
        g.getLegals = known(legal)
        l = t.call('getKilling', t.cls(GM, 'GomokuGame').getKilling, g, r.c)
        t.prove('exactly those with five in a row', S(PSet.of(l)(*x) == z3.And(legal(x), five(*x))))
    r.frame(t)
