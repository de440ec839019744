"""Construction of networks: every graph is sorted or refused."""
from lib import *
from pybrain.structure import LinearLayer, BiasUnit, FullConnection, IdentityConnection, FeedForwardNetwork, RecurrentNetwork
from pybrain.structure.networks.network import NetworkConstructionException
from pybrain.structure.moduleslice import ModuleSlice
from pybrain.structure.connections.shared import MotherConnection, SharedFullConnection


def cyclic(nodes, edges):
    left = set(nodes)
    while left:
        free = [n for n in left if not any(b is n and a in left for a, b in edges)]
        if not free:
            return True
        left -= set(free)
    return False


class Build(object):
    def __init__(self, rng):
        self.rng = rng
        self.rec = rng.random() < .5
        self.net = RecurrentNetwork() if self.rec else FeedForwardNetwork()
        self.mods, self.ins, self.outs, self.conns, self.recs = [], [], [], [], []
        self.mothers = []

    def module(self):
        rng = self.rng
        m = BiasUnit() if rng.random() < .1 else LinearLayer(rng.randint(1, 3), name=rng.choice([None, 'same', 'n%d' % rng.randint(0, 9)]))
        self.mods.append(m)
        return m

    def put(self, m, first):
        rng, net = self.rng, self.net
        what = ModuleSlice(m, outSliceTo=1) if rng.random() < .1 and m.indim > 1 else m
        for _ in range(rng.choice([1, 1, 2])):
            z = rng.random()
            if z < .25:
                net.addInputModule(what)
                if m not in self.ins:
                    self.ins.append(m)
            elif z < .5 or first:
                net.addOutputModule(what)
                if m not in self.outs:
                    self.outs.append(m)
            else:
                net.addModule(what)

    def connect(self, a, b, recurrent=False):
        rng = self.rng
        if rng.random() < .3 and self.mothers is not None:
            k = a.outdim * b.indim
            fit = [x for x in self.mothers if x.paramdim == k]
            mc = rng.choice(fit) if fit else MotherConnection(k)
            self.mothers.append(mc)
            c = SharedFullConnection(mc, a, b)
        elif rng.random() < .2 and a.outdim > 1:
            c = FullConnection(ModuleSlice(a, outSliceTo=1), b)
        else:
            c = FullConnection(a, b)
        (self.net.addRecurrentConnection if recurrent else self.net.addConnection)(c)
        (self.recs if recurrent else self.conns).append(c)

    def agree(self):
        net = self.net
        before = list(net.modulesSorted), [(c.inmod, c.outmod) for c in self.conns]
        if cyclic(self.mods, before[1]):
            for _ in range(2):
                expect_raises(NetworkConstructionException, net.sortModules, 'a cycle is refused')
            expect(not net.sorted, 'a refused network is not sorted')
            self.same()
            return False
        net.sortModules()
        self.check()
        if self.rng.random() < .3:
            net.sortModules()
            self.check()
        return True

    def same(self):
        net = self.net
        expect(net.modules == set(self.mods) and len(net.modules) == len(self.mods), 'the set of modules stays')
        expect(sorted(id(c) for m in net.connections for c in net.connections[m]) == sorted(id(c) for c in self.conns), 'the connections stay')
        for m in net.connections:
            expect(all(c.inmod is m for c in net.connections[m]), 'connections are kept where they leave')
        if self.rec:
            expect(sorted(map(id, net.recurrentConns)) == sorted(map(id, self.recs)), 'the recurrent connections stay')
        expect(list(map(id, net.inmodules)) == list(map(id, self.ins)), 'input modules in the order of adding')
        expect(list(map(id, net.outmodules)) == list(map(id, self.outs)), 'output modules in the order of adding')

    def check(self):
        net = self.net
        expect(net.sorted, 'sorted')
        self.same()
        pos = dict((id(m), i) for i, m in enumerate(net.modulesSorted))
        expect(len(net.modulesSorted) == len(self.mods) == len(pos) and set(pos) == set(map(id, self.mods)), 'every module exactly once',
               got=[m.name for m in net.modulesSorted])
        for c in self.conns:
            expect(pos[id(c.inmod)] < pos[id(c.outmod)], 'from an earlier module to a later one', connection=c)
        expect(net.indim == sum(m.indim for m in self.ins) and net.outdim == sum(m.outdim for m in self.outs), 'sizes', indim=net.indim, outdim=net.outdim)
        for n, d in (('inputbuffer', net.indim), ('inputerror', net.indim), ('outputbuffer', net.outdim), ('outputerror', net.outdim)):
            expect(getattr(net, n).shape[1] == d, 'size of the %s' % n)


@check('random graphs', n=260)
def _(rng, it):
    b = Build(rng)
    k = rng.randint(1, 9)
    hidden = [b.module() for _ in range(k)]
    order = list(hidden)
    rng.shuffle(order)
    acyclic = rng.random() < .7
    todo = [('m', m) for m in hidden]
    rng.shuffle(todo)
    for i, (_, m) in enumerate(todo):
        b.put(m, i == 0)
    for phase in range(rng.choice([1, 1, 2, 3])):
        for _ in range(rng.choice([k, 2 * k, k * k // 2 + 1])):
            i, j = rng.randrange(len(order)), rng.randrange(len(order))
            if acyclic:
                if i == j:
                    continue
                i, j = min(i, j), max(i, j)
            elif rng.random() < .7:
                i, j = min(i, j), max(i, j)
            if order[j].indim:
                b.connect(order[i], order[j])
        if b.rec:
            for _ in range(rng.randint(0, 4)):
                i, j = rng.choice(order), rng.choice(order)
                if j.indim:
                    b.connect(i, j, True)
        if rng.random() < .3:
            b.put(rng.choice(order), False)
        if not b.agree():
            return
        if rng.random() < .5:
            m = b.module()
            order.insert(rng.randint(0, len(order)), m)
            b.put(m, False)


@check('chains and stars', n=16)
def _(rng, it):
    b = Build(rng)
    b.rec, b.net = False, FeedForwardNetwork()
    k = rng.choice([3, 30, 150])
    for _ in range(k):
        b.mods.append(LinearLayer(1))
    for i, m in enumerate(rng.sample(b.mods, k)):
        b.put(m, i == 0)
    pairs = [(i, i + 1) for i in range(k - 1)] if it % 2 else [(0, i) for i in range(1, k - 1)] + [(i, k - 1) for i in range(1, k - 1)]
    rng.shuffle(pairs)
    for i, j in pairs:
        b.connect(b.mods[i], b.mods[j])
    if not b.agree():
        raise Violation('a chain has no cycle')
    back = rng.choice(pairs)
    if it % 2:
        b.connect(b.mods[rng.randint(back[1], k - 1)], b.mods[rng.randint(0, back[0])])
        expect(not b.agree(), 'one connection back makes a cycle')


@check('cycles of every length', n=24)
def _(rng, it):
    b = Build(rng)
    k = it % 8 + 1
    for _ in range(k + 2):
        b.mods.append(LinearLayer(1))
    for i, m in enumerate(b.mods):
        b.put(m, i == 0)
    b.connect(b.mods[k], b.mods[0])
    b.connect(b.mods[0], b.mods[k + 1])
    for i in range(k):
        b.connect(b.mods[i], b.mods[(i + 1) % k])
    expect(not b.agree(), 'a cycle of %d modules' % k)


@check('recurrent connections do not order', n=30)
def _(rng, it):
    b = Build(rng)
    b.rec, b.net = True, RecurrentNetwork()
    k = rng.randint(1, 6)
    for _ in range(k):
        b.mods.append(LinearLayer(rng.randint(1, 2)))
    for i, m in enumerate(b.mods):
        b.put(m, i == 0)
    for i in range(k):
        for j in range(k):
            if rng.random() < .6:
                b.connect(b.mods[i], b.mods[j], True)
            if i < j and rng.random() < .5:
                b.connect(b.mods[i], b.mods[j])
    expect(b.agree(), 'sorted in spite of recurrent cycles')


if __name__ == '__main__':
    main()
