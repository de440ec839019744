"""Two-player games against oracles that know only the rules and the stones."""
from lib import *
from pybrain.rl.environments.twoplayergames import CaptureGame, GomokuGame
from pybrain.rl.environments.twoplayergames.pente import PenteGame
from pybrain.rl.environments.twoplayergames import capturegameplayers as CP, gomokuplayers as GP

B, W, E = 1, -1, 0


# ------------------------------------------------------------------ capture game

def around(size, p):
    return [q for q in ((p[0] + 1, p[1]), (p[0] - 1, p[1]), (p[0], p[1] + 1), (p[0], p[1] - 1)) if 0 <= q[0] < size and 0 <= q[1] < size]


def worm(stones, size, p):
    """the connected stones of p and their free neighbours"""
    seen, todo, free = set([p]), [p], set()
    while todo:
        for q in around(size, todo.pop()):
            if stones.get(q, E) == E:
                free.add(q)
            elif stones[q] == stones[p] and q not in seen:
                seen.add(q)
                todo.append(q)
    return seen, free


def outcome(stones, size, c, p):
    """'capture', 'suicide' or None"""
    s = dict(stones)
    s[p] = c
    if any(s.get(q) == -c and not worm(s, size, q)[1] for q in around(size, p)):
        return 'capture'
    return None if worm(s, size, p)[1] else 'suicide'


def agree(g, stones, what):
    size = g.size
    cells = [(i, j) for i in range(size) for j in range(size)]
    expect(dict(g.b) == dict((p, stones.get(p, E)) for p in cells), '%s: the board' % what, board=g.b, stones=stones)
    for p in cells:
        if p in stones:
            w, free = worm(stones, size, p)
            expect(set(q for q in stones if g.groups[q] == g.groups[p]) == w, '%s: the group of a stone' % what, stone=p)
            expect(set(g.liberties[g.groups[p]]) == free, '%s: the liberties of a group' % what, stone=p, free=free, liberties=g.liberties[g.groups[p]])
            expect(g.getLiberties(p) == len(free) and g.getGroupSize(p) == len(w), '%s: number of liberties and stones' % what, stone=p)
        else:
            expect(g.getLiberties(p) is None and g.getGroupSize(p) is None, '%s: nothing on a free point' % what)
    expect(set(g.groups) == set(stones) and set(g.liberties) == set(g.groups.values()), '%s: groups of stones only' % what)
    a = g.getBoardArray()
    expect(len(a) == g.outdim and list(a) == [float(stones.get(p, E) == c) for p in cells for c in (W, B)], '%s: board array' % what)
    expect(list(g.getSensors()) == [stones.get(p, E) for p in cells], '%s: sensors' % what)
    for c in (B, W):
        free = [p for p in cells if p not in stones]
        res = dict((p, outcome(stones, size, c, p)) for p in free)
        legal = [p for p in free if g.suicideenabled or res[p] != 'suicide']
        expect(list(g.getLegals(c)) == legal, '%s: legal moves' % what, color=c)
        expect([p for p in cells if g.isLegal(c, p)] == legal, '%s: legal points' % what, color=c)
        expect(list(g.getAcceptable(c)) == [p for p in free if res[p] != 'suicide'], '%s: moves without suicide' % what, color=c)
        expect(list(g.getKilling(c)) == [p for p in free if res[p] == 'capture'], '%s: capturing moves' % what, color=c)


def copy_of(g):
    return (dict(g.b), dict(g.groups), dict((k, set(v)) for k, v in g.liberties.items()), g.movesDone, g.winner)


@check('capture game', n=220)
def _(rng, it):
    size = rng.choice([1, 2, 3, 3, 4, 4, 5, 6, 7])
    free = rng.random() < .5
    g = CaptureGame(size, free)
    if rng.random() < .2:
        for c in (B, W) * 3:
            g.performAction((c, rng.choice(g.getLegals(c) or ['resign'])))
        g.reset()
    stones, c, moves = {}, B, 0
    cells = [(i, j) for i in range(size) for j in range(size)]
    gentle = rng.random() < .7
    for _ in range(3 * size * size + 3):
        p = rng.choice(cells + [(-1, 0), (size, 0), (0, size)]) if rng.random() < .5 or not stones else rng.choice(around(size, rng.choice(sorted(stones))) or cells)
        if gentle and p not in stones and p in cells and outcome(stones, size, c, p) and rng.random() < .8:
            continue
        before = copy_of(g)
        if rng.random() < .02:
            expect(g.doMove(c, 'resign') is True and g.winner == -c and g.gameOver() and g.getWinner() == -c, 'resigning loses')
            expect(dict(g.b) == before[0], 'resigning changes no stone')
            return
        res = outcome(stones, size, c, p) if p in cells and p not in stones else None
        legal = p in cells and p not in stones and (free or res != 'suicide')
        expect(bool(g.isLegal(c, p)) == legal, 'legal moves', point=p, color=c, stones=stones)
        expect(copy_of(g) == before, 'asking changes nothing')
        if rng.random() < .5:
            expect(bool(g.doMove(c, p)) == legal, 'accepted exactly if legal', point=p, color=c)
        else:
            g.performAction((c, p))
            expect(g.lastplayer == c, 'the last player')
        if not legal:
            expect(copy_of(g) == before, 'a refused move changes nothing', point=p)
            continue
        moves += 1
        expect(g.movesDone == moves, 'moves are counted', moves=moves, counted=g.movesDone)
        if res:
            expect(g.winner == (c if res == 'capture' else -c), 'the winner', result=res, winner=g.winner, color=c)
            expect(g.gameOver() and g.getWinner() == g.winner, 'the game is over')
            b = dict(g.b)
            mark = b.pop(p)
            old = before[0]
            old.pop(p)
            expect(b == old and mark != E, 'a deciding move changes its own point only')
            return
        expect(g.winner is None and not g.gameOver(), 'undecided')
        stones[p] = c
        agree(g, stones, 'game')
        c = -c if rng.random() < .9 else c


@check('capture game: whole boards', n=40)
def _(rng, it):
    size = rng.randint(3, 7)
    g = CaptureGame(size, rng.random() < .7)
    if rng.random() < .5:
        k = g.randomBoard(rng.randint(0, size * size))
        stones = dict((p, v) for p, v in g.b.items() if v != E)
        expect(len(stones) == k, 'as many stones as reported', stones=stones, moves=k)
        expect(sum(stones.values()) in (0, 1), 'colors alternate')
        expect(g.winner is None and all(worm(stones, size, p)[1] for p in stones), 'undecided')
    else:
        c = rng.choice([B, W])
        h = rng.randint(0, 5)
        g.giveHandicap(h, c)
        stones = dict((p, v) for p, v in g.b.items() if v != E)
        expect(all(v == c for v in stones.values()) and len(stones) <= h and (h == 0 or len(stones) >= 1), 'handicap stones', stones=stones)
    agree(g, stones, 'board')


def recorder(game, cls, *a, **k):
    class Rec(cls):
        def getAction(self):
            r = cls.getAction(self)
            log.append((self, r))
            return r
    log = []
    return Rec, log


def whole_game(rng, g, A1, A2, what):
    log = []

    def make(cls, color):
        class Rec(cls):
            def getAction(self):
                r = cls.getAction(self)
                expect(r[0] == self.color and self.game is g, '%s: players play their color' % what)
                expect(self.game.isLegal(*r), '%s: players make legal moves' % what, move=r)
                log.append((self, tuple(r)))
                return r
        return Rec(g, color)
    c = rng.choice([B, W])
    p1, p2 = make(A1, c), make(A2, -c)
    g.playToTheEnd(p1, p2)
    expect(g.gameOver(), '%s: played to the end' % what)
    expect(all(log[i][0] is (p1, p2)[i % 2] for i in range(len(log))), '%s: players take turns' % what)
    expect(g.lastplayer == log[-1][1][0], '%s: last player' % what)
    return [x[1] for x in log]


@check('whole capture games', n=30)
def _(rng, it):
    size = rng.randint(2, 6)
    g = CaptureGame(size)
    pl = [CP.RandomCapturePlayer, CP.NonSuicidePlayer, CP.KillingPlayer]
    log = whole_game(rng, g, rng.choice(pl), rng.choice(pl), 'capture game')
    stones = {}
    for c, p in log[:-1]:
        expect(outcome(stones, size, c, p) is None, 'the game goes on until it is decided')
        stones[p] = c
    c, p = log[-1]
    r = outcome(stones, size, c, p)
    expect(r is not None and g.winner == (c if r == 'capture' else -c), 'the winner')


# ------------------------------------------------------------------ five in a row

DIRS = [(0, 1), (1, 0), (1, 1), (1, -1)]


def lined_up(stones, p, c, n=5):
    s = dict(stones)
    s[p] = c
    return any(all(s.get((p[0] + (o + k) * d[0], p[1] + (o + k) * d[1])) == c for k in range(n)) for d in DIRS for o in range(-n + 1, 1))


def pairs(stones, p, c):
    out = []
    for d in [x for y in DIRS for x in (y, (-y[0], -y[1]))]:
        q = [(p[0] + k * d[0], p[1] + k * d[1]) for k in (1, 2, 3)]
        if [stones.get(x) for x in q] == [-c, -c, c]:
            out += q[:2]
    return out


def random_moves(rng, size, stones):
    cells = [(i, j) for i in range(size[0]) for j in range(size[1])]
    free = [p for p in cells if p not in stones]
    if stones and rng.random() < .75:
        p = rng.choice(sorted(stones))
        d = rng.choice(DIRS)
        k = rng.choice([-2, -1, 1, 2])
        return (p[0] + k * d[0], p[1] + k * d[1])
    if rng.random() < .3:
        return rng.choice(cells + [(-1, 0), (0, -1), (size[0], 0), (0, size[1]), (-1, -1)])
    return rng.choice(free or cells)


def row_game(rng, g, stones, pente):
    size = g.size
    cells = [(i, j) for i in range(size[0]) for j in range(size[1])]
    c = B
    avoid = rng.random() < .8
    taken = {B: 0, W: 0}
    moves = len(stones)
    for _ in range(4 * len(cells)):
        p = random_moves(rng, size, stones)
        legal = p in cells and p not in stones
        before = dict(g.b)
        if legal and avoid and (lined_up(stones, p, c) or rng.random() < .5 and lined_up(stones, p, -c, 4)):
            if rng.random() < .9 and any(q not in stones and not lined_up(stones, q, c) for q in cells):
                continue
        kills = pairs(stones, p, c) if legal and pente else []
        five = legal and lined_up(stones, p, c)
        if legal:
            expect(bool(g._fiveRow(c, p)) == five if hasattr(g, '_fiveRow') else True, 'five in a row', point=p, color=c, stones=stones)
        expect(bool(g.isLegal(c, p)) == legal, 'legal moves', point=p)
        if rng.random() < .1:
            free = [q for q in cells if q not in stones]
            expect(list(g.getLegals(c)) == free, 'all legal moves')
            win = [q for q in free if lined_up(stones, q, c) or pente and taken[c] + len(pairs(stones, q, c)) // 2 >= 5]
            expect(sorted(set(g.getKilling(c))) == win, 'winning moves', winning=win)
        expect(bool(g.doMove(c, p)) == legal, 'accepted exactly if legal', point=p, color=c)
        if not legal:
            expect(dict(g.b) == before and g.winner is None and g.movesDone == moves, 'a refused move changes nothing', point=p, counted=g.movesDone, moves=moves)
            continue
        moves += 1
        expect(g.movesDone == moves, 'moves are counted', moves=moves, counted=g.movesDone)
        if five or taken[c] + len(kills) // 2 >= 5:
            b = dict(g.b)
            expect(g.winner == c and g.gameOver() and g.getWinner() == c, 'the winner', winner=g.winner, color=c)
            b.pop(p), before.pop(p)
            expect(b == before, 'a deciding move changes its own point only')
            return
        stones[p] = c
        for q in kills:
            stones.pop(q, None)
        taken[c] += len(kills) // 2
        expect(dict(g.b) == dict((q, stones.get(q, E)) for q in cells), 'the board', move=p, color=c, killed=kills)
        if pente:
            expect(dict(g.pairsTaken) == taken, 'captured pairs', pairs=taken, counted=g.pairsTaken)
        a = g.getBoardArray()
        expect(len(a) == g.outdim and list(a) == [float(stones.get(q, E) == k) for q in cells for k in (W, B)], 'board array')
        expect(list(g.getSensors()) == [stones.get(q, E) for q in cells] and g.indim == len(cells) and g.outdim == 2 * len(cells), 'sensors')
        if len(stones) == len(cells):
            expect(g.winner == g.DRAW and g.gameOver(), 'a full board is a draw', winner=g.winner)
            return
        expect(g.winner is None and not g.gameOver(), 'undecided', winner=g.winner, stones=len(stones), cells=len(cells))
        c = -c if rng.random() < .95 else c


@check('gomoku', n=150)
def _(rng, it):
    g = GomokuGame((rng.randint(5, 7), rng.randint(5, 7)))
    if rng.random() < .2:
        g.doMove(B, (1, 1))
        g.reset()
    row_game(rng, g, {}, False)


@check('pente', n=250)
def _(rng, it):
    g = PenteGame((rng.randint(5, 9), rng.randint(5, 9)))
    row_game(rng, g, {(g.size[0] // 2, g.size[1] // 2): W}, True)


@check('full boards', n=20)
def _(rng, it):
    """a drawing order without five in a row"""
    g = GomokuGame((5, rng.randint(5, 8)))
    cells = [(i, j) for i in range(g.size[0]) for j in range(g.size[1])]
    color = dict(((i, j), B if (i + 2 * j) % 4 < 2 else W) for i, j in cells)
    rng.shuffle(cells)
    for k, p in enumerate(cells):
        if rng.random() < .2 and k:
            expect(not g.doMove(color[p], cells[k - 1]), 'occupied')
        expect(g.doMove(color[p], p), 'accepted')
        expect(g.winner == (None if k + 1 < len(cells) else g.DRAW), 'a draw exactly when the board is full', stones=k + 1, cells=len(cells), winner=g.winner)


@check('whole games of five in a row', n=30)
def _(rng, it):
    pente = rng.random() < .5
    g = (PenteGame if pente else GomokuGame)((rng.randint(5, 8), rng.randint(5, 8)))
    pl = [GP.RandomGomokuPlayer, GP.KillingGomokuPlayer]
    log = whole_game(rng, g, rng.choice(pl), rng.choice(pl), 'five in a row')
    stones = {(g.size[0] // 2, g.size[1] // 2): W} if pente else {}
    taken = {B: 0, W: 0}
    for i, (c, p) in enumerate(log):
        k = pairs(stones, p, c) if pente else []
        over = lined_up(stones, p, c) or pente and taken[c] + len(k) // 2 >= 5
        if over:
            expect(i == len(log) - 1 and g.winner == c, 'the winner', winner=g.winner)
            return
        stones[p] = c
        taken[c] += len(k) // 2
        for q in k:
            stones.pop(q, None)
    expect(g.winner == g.DRAW and len(stones) == g.size[0] * g.size[1], 'a draw on a full board', winner=g.winner)


if __name__ == '__main__':
    main()
