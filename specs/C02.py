"""Construction of networks: every graph is sorted or refused.

_topologicalSort is under contract for any number of modules and connections, with any ends and
in any order. The dictionary `graph` of the code is known by four functions (keys, counter,
number of children, children); the counters are tied to the connections by ghost state: the
connections into a module that are still counted are enumerated without gaps or repetitions, so
that a counter is zero exactly when none of them is left (a proof of the cardinality, not an
assumption). The sequence of modules ever emitted or waiting is ghost state too."""
from .common import *
from pyvc.runtime import All, Havoc, Refill, pv_setattr as put
from .C03 import buf, Places

NW = 'pybrain.structure.networks.network'
I, R = z3.IntSort(), z3.RealSort()
ASSUMPTIONS = ['every connection joins two modules that were added to the network',
               'itertools.chain over the lists of connections gives all connections, each once (in any order)',
               'modules are compared by identity; names are totally ordered',
               'a network in which every module of a non-empty set has a connection from that set is what is meant by a cycle; '
               'its converse (a ranking of the modules along the connections) is proved by induction']
BOUNDED_ONLY = ['termination of the sort', 'sub-networks of slices in connections between connectables (the connection classes themselves are under contract in C01)']


class Node(object):
    __pv_nonscalar__ = True

    def __init__(self, G, k, edge=None):
        self.__dict__.update(G=G, k=k, edge=edge)

    name = property(lambda self: S(self.G.name(TI(self.k))))
    indim = property(lambda self: self.G.indim(self.k))
    outdim = property(lambda self: self.G.outdim(self.k))

    def _get_offset(self):
        return S(self.G.OFF.fn([TI(self.k)]))

    def _set_offset(self, v):
        put_at(self.G.OFF, [self.k], TI(v))

    offset = property(_get_offset, _set_offset)

    def _resetBuffers(self, length=1):
        if not (isinstance(length, int) and length == 1):
            raise Unsupported('length of the buffers')
        self.G.CLEAR.set((lambda old, k: lambda b: z3.If(b[0] == k, old(b) + 1, old(b)))(self.G.CLEAR.fn, TI(self.k)))

    def __eq__(self, o):
        return isinstance(o, Node) and C.branch(TB(self.k == o.k))

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 1

    def __pv_map__(self, f):
        return Node(self.G, _map_terms(self.k, f), None if self.edge is None else _map_terms(self.edge, f))

    def __pv_subst__(self, k, t):
        return Node(self.G, subst_value(self.k, k, t), None if self.edge is None else subst_value(self.edge, k, t))

    def __pv_merge__(self, c, o):
        if not isinstance(o, Node):
            raise Unsupported('a module or something else')
        return Node(self.G, ite(S(c), self.k, o.k))


class Edge(object):
    __pv_nonscalar__ = True

    def __init__(self, G, k):
        self.__dict__.update(G=G, k=k)

    inmod = property(lambda self: Node(self.G, S(self.G.src(TI(self.k))), self.k))
    outmod = property(lambda self: Node(self.G, S(self.G.dst(TI(self.k))), self.k))

    def __pv_map__(self, f):
        return Edge(self.G, _map_terms(self.k, f))

    def __pv_subst__(self, k, t):
        return Edge(self.G, subst_value(self.k, k, t))


def put_at(b, key, v):
    key, v, old = [TI(x) for x in key], v, b.fn
    b.set(lambda x: z3.If(z3.And(*[p == q for p, q in zip(x, key)]), v, old(x)))


class Entry(object):
    """graph[k]: a counter and the children"""
    __pv_nonscalar__ = True

    def __init__(self, G, k):
        self.G, self.k = G, k

    def __pv_map__(self, f):
        return Entry(self.G, _map_terms(self.k, f))

    def __pv_subst__(self, k, t):
        return Entry(self.G, subst_value(self.k, k, t))

    def __getitem__(self, i):
        G, k = self.G, TI(self.k)
        if isinstance(i, slice):
            if (i.start, i.stop, i.step) != (1, None, None):
                raise Unsupported('part of an entry')
            ch = G.CH.fn
            return SList.from_fn(S(G.NCH.fn([k])), lambda j: Node(G, S(G.dst(ch([k, TI(j)]))), S(ch([k, TI(j)]))))
        if i != 0:
            raise Unsupported('part of an entry')
        return S(G.CNT.fn([k]))

    def __setitem__(self, i, v):
        G, k = self.G, TI(self.k)
        if not isinstance(i, int) or i != 0:
            raise Unsupported('part of an entry')
        old, v = G.CNT.fn([k]), TI(v)
        # the ghost state follows the connection the module was reached by
        e = G.by.get('edge')
        if e is not None:
            e = TI(e)
            slot, at_ = G.SLOT.fn, G.AT.fn
            if z3.is_true(simp(v == old + 1)):
                put_at(G.AT, [k, old], e)
                put_at(G.SLOT, [e], old)
                put_at(G.ALIVE, [e], z3.BoolVal(True))
            elif z3.is_true(simp(v == old - 1)):
                last = at_([k, old - 1])
                put_at(G.AT, [k, slot([e])], last)
                put_at(G.SLOT, [last], slot([e]))
                put_at(G.ALIVE, [e], z3.BoolVal(False))
        put_at(G.CNT, [k], v)

    def append(self, node):
        G, k = self.G, TI(self.k)
        if not isinstance(node, Node) or node.edge is None:
            raise Unsupported('a child of unknown origin')
        n = G.NCH.fn([k])
        put_at(G.CH, [k, n], TI(node.edge))
        put_at(G.KIDX, [node.edge], n)
        put_at(G.NCH, [k], n + 1)


class GraphMap(object):
    __pv_nonscalar__ = True

    def __init__(self, G):
        self.G = G

    def has(self, m):
        if not isinstance(m, Node):
            raise Unsupported('key of the graph')
        return C.branch(TB(self.G.DOM.fn([TI(m.k)])))

    __contains__ = has

    def __getitem__(self, m):
        if not self.has(m):
            raise KeyError(m)
        self.G.by['edge'] = m.edge
        return Entry(self.G, m.k)

    def __setitem__(self, m, v):
        G = self.G
        if isinstance(v, Entry):
            if TI(v.k).eq(TI(m.k)):
                return
            raise Unsupported('an entry for two modules')
        if not isinstance(v, SList) or v.items is None or len(v.items) != 1:
            raise Unsupported('entry of the graph')
        put_at(G.DOM, [m.k], z3.BoolVal(True))
        put_at(G.CNT, [m.k], TI(v.items[0]))
        put_at(G.NCH, [m.k], z3.IntVal(0))

    def __delitem__(self, m):
        if not self.has(m):
            raise KeyError(m)
        put_at(self.G.DOM, [m.k], z3.BoolVal(False))

    def keys_(self):
        G = self.G
        dom = G.DOM.fn
        e, p, n = C.fun('key', I, I), C.fun('place of key', I, I), C.int('keys')
        C.assume(n >= 0)
        C.forall(1, lambda i: S(z3.Implies(z3.And(TI(i) >= 0, TI(i) < T(n)), z3.And(dom([e(TI(i))]), p(e(TI(i))) == TI(i)))))
        C.forall(1, lambda k: S(z3.Implies(dom([TI(k)]), z3.And(p(TI(k)) >= 0, p(TI(k)) < T(n), e(p(TI(k))) == TI(k)))))
        G.enum = p
        return e, n

    def items(self):
        e, n = self.keys_()
        return SList.from_fn(n, lambda i: (Node(self.G, S(e(TI(i)))), Entry(self.G, S(e(TI(i))))))

    def keys(self):
        e, n = self.keys_()
        return SList.from_fn(n, lambda i: Node(self.G, S(e(TI(i)))))

    def __bool__(self):
        G, dom = self.G, self.G.DOM.fn
        if C.choose():
            w = C.int('left over')
            C.assume(S(dom([T(w)])))
            G.left = w
            return True
        C.forall(1, lambda k: S(z3.Not(dom([TI(k)]))))
        return False


class Queue(SList):
    """the waiting modules; remembers how many went before, and where each one came"""

    @staticmethod
    def make(G, n, f, base):
        r = Queue()
        r.G, r.items, r.n, r.f, r.base = G, None, n, f, base
        r.get = lambda i: Node(G, S(f(TI(i))))
        return r

    def __getitem__(self, i):
        if isinstance(i, slice) and (i.stop, i.step) == (None, None) and i.start == 1:
            f, n = self.f, TI(self.n)
            return Queue.make(self.G, S(simp(z3.If(n > 0, n - 1, 0))), lambda j: f(j + 1), S(simp(TI(self.base) + z3.If(n > 0, 1, 0))))
        return SList.__getitem__(self, i)

    def pop(self, i=-1):
        if i != 0:
            raise Unsupported('taken from the end')
        v = SList.__getitem__(self, 0)
        f, n, b = self.f, TI(self.n), TI(self.base)
        self.to(simp(n - 1), lambda j: f(j + 1), simp(b + 1))
        return v

    def append(self, m):
        G, f, n, k = self.G, self.f, TI(self.n), TI(m.k)
        put_at(G.Q, [S(TI(self.base) + n)], k)
        put_at(G.POS, [m.k], TI(self.base) + n)
        self.to(simp(n + 1), lambda j: z3.If(j == n, k, f(j)), TI(self.base))

    def to(self, n, f, base):
        old = self.n, self.f, self.base, self.get

        def undo():
            self.n, self.f, self.base, self.get = old
        C.log(undo)
        A.note_write(self)
        G = self.G
        self.n, self.f, self.base = S(n), f, S(base)
        self.get = lambda i: Node(G, S(f(TI(i))))


class Graph(object):
    def __init__(self, t):
        self.t = t
        self.N, self.E = dim('modules', 0), dim('connections', 0)
        self.src, self.dst, self.name = C.fun('from', I, I), C.fun('to', I, I), C.fun('name', I, I)
        N, src, dst = T(self.N), self.src, self.dst
        C.forall(1, lambda e: S(z3.Implies(self.edge(e), z3.And(src(TI(e)) >= 0, src(TI(e)) < N, dst(TI(e)) >= 0, dst(TI(e)) < N))))
        self.order, self.place = C.fun('any order', I, I), C.fun('place in any order', I, I)
        o, p = self.order, self.place
        C.forall(1, lambda i: S(z3.Implies(self.node(i), z3.And(o(TI(i)) >= 0, o(TI(i)) < N, p(o(TI(i))) == TI(i), p(TI(i)) >= 0, p(TI(i)) < N, o(p(TI(i))) == TI(i)))))
        mk = lambda n, name, kind: A.Buf(n, (lambda f: lambda b: f(*b))(C.fun(name, *([I] * n + [I if kind == 'I' else z3.BoolSort()]))), kind, name)
        self.DOM = A.Buf(1, lambda b: z3.BoolVal(False), 'B', 'keys')
        self.ALIVE = A.Buf(1, lambda b: z3.BoolVal(False), 'B', 'counted')
        for n in ('CNT', 'NCH', 'KIDX', 'SLOT', 'Q', 'POS'):
            setattr(self, n, mk(1, n, 'I'))
        self.CH, self.AT = mk(2, 'CH', 'I'), mk(2, 'AT', 'I')
        self.by = {}
        self.made = 0

        def factory():
            self.made += 1
            if self.made > 1:
                raise Unsupported('two dictionaries')
            return GraphMap(self)
        C.ghost['dict factory'] = factory
        net = self.net = t.cls(NW, 'Network').__new__(t.cls(NW, 'Network'))
        self.modules = SList.from_fn(self.N, lambda i: Node(self, S(o(TI(i)))))
        put(net, 'modules', self.modules)
        G = self

        class Connections(object):
            def values(self):
                return SList([SList.from_fn(G.E, lambda e: Edge(G, e))])
        self.connections = Connections()
        put(net, 'connections', self.connections)
        put(net, 'sorted', False)
        put(net, 'modulesSorted', SList([]))

    def node(self, k):
        return z3.And(TI(k) >= 0, TI(k) < T(self.N))

    def edge(self, e):
        return z3.And(TI(e) >= 0, TI(e) < T(self.E))

    def nodes(self, f):
        return All(1, lambda k: S(z3.Implies(self.node(k), f(TI(k)))))

    def edges(self, f):
        return All(1, lambda e: S(z3.Implies(self.edge(e), f(TI(e)))))

    # -- clauses
    def slots(self):
        """the counters count the connections alive"""
        cnt, slot, at_, alive = [b.fn for b in (self.CNT, self.SLOT, self.AT, self.ALIVE)]
        return [('counters', self.nodes(lambda k: cnt([k]) >= 0)),
                ('counted connections', self.edges(lambda e: z3.Implies(alive([e]), z3.And(slot([e]) >= 0, slot([e]) < cnt([self.dst(e)]), at_([self.dst(e), slot([e])]) == e)))),
                ('nothing else is counted', All(2, lambda k, j: S(z3.Implies(z3.And(self.node(k), TI(j) >= 0, TI(j) < cnt([TI(k)])),
                                                                             (lambda e: z3.And(self.edge(e), alive([e]), self.dst(e) == TI(k), slot([e]) == TI(j)))(at_([TI(k), TI(j)]))))))]

    def children(self, upto):
        """of the connections before `upto`"""
        nch, ch, kidx = self.NCH.fn, self.CH.fn, self.KIDX.fn
        u = TI(upto)
        return [('children', self.edges(lambda e: z3.Implies(e < u, z3.And(kidx([e]) >= 0, kidx([e]) < nch([self.src(e)]), ch([self.src(e), kidx([e])]) == e)))),
                ('no other children', All(2, lambda k, j: S(z3.Implies(z3.And(self.node(k), TI(j) >= 0, TI(j) < nch([TI(k)])),
                                                                       (lambda e: z3.And(e >= 0, e < u, self.src(e) == TI(k), kidx([e]) == TI(j)))(ch([TI(k), TI(j)])))))),
                ('numbers of children', self.nodes(lambda k: nch([k]) >= 0))]

    def queued(self, k, n):
        pos, q = self.POS.fn, self.Q.fn
        return z3.And(pos([k]) >= 0, pos([k]) < n, q([pos([k])]) == k)

    def queue(self, emitted, roots):
        """emitted and waiting modules, one after the other"""
        s, w = TI(slen(emitted)), TI(slen(roots))
        n = s + w
        pos, q, cnt = self.POS.fn, self.Q.fn, self.CNT.fn
        key = lambda l, i: TI(l.get(S(TI(i))).k) if l.items is None else None
        r = [('number of emitted', S(s >= 0)), ('number of waiting', S(w >= 0)), ('number of former', S(TI(roots.base) == s)),
             ('waiting', All(1, lambda i: S(z3.Implies(z3.And(TI(i) >= 0, TI(i) < w), roots.f(TI(i)) == q([s + TI(i)]))))),
             ('places', All(1, lambda i: S(z3.Implies(z3.And(TI(i) >= 0, TI(i) < n), z3.And(self.node(q([TI(i)])), pos([q([TI(i)])]) == TI(i)))))),
             ('no counted connection', self.nodes(lambda k: (cnt([k]) == 0) == self.queued(k, n))),
             ('senders first', self.edges(lambda e: z3.Implies(self.queued(self.dst(e), n), self.queued(self.src(e), s)))),
             ('the order', self.edges(lambda e: z3.Implies(self.queued(self.dst(e), n), pos([self.src(e)]) < pos([self.dst(e)]))))]
        if emitted.items is None:
            r.append(('emitted', All(1, lambda i: S(z3.Implies(z3.And(TI(i) >= 0, TI(i) < s), key(emitted, i) == q([TI(i)]))))))
        elif emitted.items:
            raise Unsupported('not empty')
        return r


ME = 'Network._topologicalSort'


def loops(G):
    net = G.net
    C.loop_specs[(ME, 0)] = LoopSpec(lambda L: [('entries', G.nodes(lambda k: G.DOM.fn([k]) == (G.place(k) < TI(L.k)))),
                                                ('keys are modules', All(1, lambda k: S(z3.Implies(G.DOM.fn([TI(k)]), G.node(k))))),
                                                ('nothing counted', All(1, lambda k: S(z3.Implies(G.DOM.fn([TI(k)]), z3.And(G.CNT.fn([TI(k)]) == 0, G.NCH.fn([TI(k)]) == 0)))))],
                                     modifies=lambda L: [G.DOM, G.CNT, G.NCH])
    C.loop_specs[(ME, 1)] = LoopSpec(lambda L: [('alive', All(1, lambda e: S(G.ALIVE.fn([TI(e)]) == z3.And(TI(e) >= 0, TI(e) < TI(L.k)))))] + G.slots() + G.children(L.k),
                                     modifies=lambda L: [G.CNT, G.NCH, G.CH, G.KIDX, G.ALIVE, G.SLOT, G.AT])

    def fresh_queue(v):
        n, b, f = C.int('waiting'), C.int('former'), C.fun('waiting', I, I)
        return Queue.make(G, n, lambda i: f(i), b)

    def again(r):
        def fn():
            v = fresh_queue(r)
            r.n, r.f, r.base, r.get = v.n, v.f, v.base, v.get
        return Havoc(r, fn)

    def start(L):
        """the ghost sequence starts with the roots found"""
        r = L.roots
        if isinstance(r, Queue):
            return
        if r.items is not None or 'perm' not in r.__dict__ or 'sel' not in r.__dict__ or getattr(G, 'enum', None) is None:
            raise Unsupported('roots')
        p, q = r.perm[0], r.perm[1]
        get = r.get
        rnk = r.sel[1]
        G.Q.set(lambda b: TI(get(S(b[0])).k))
        G.POS.set(lambda b: q(rnk(G.enum(b[0]))))
        L.env['roots'] = Queue.make(G, r.n, lambda i: TI(get(S(i)).k), 0)

    def outer(L):
        start(L)
        return G.queue(net.modulesSorted, L.roots) + G.slots() + [
            ('keys', G.nodes(lambda k: G.DOM.fn([k]) == z3.Not(G.queued(k, TI(slen(net.modulesSorted)))))),
            ('keys are modules', All(1, lambda k: S(z3.Implies(G.DOM.fn([TI(k)]), G.node(k))))),
            ('alive', G.edges(lambda e: G.ALIVE.fn([e]) == G.DOM.fn([G.src(e)])))]
    C.loop_specs[(ME, 2)] = LoopSpec(outer, modifies=lambda L: [Refill(net.modulesSorted, lambda: (lambda f: lambda i: Node(G, S(f(TI(i)))))(C.fun('emitted', I, I))),
                                                                G.DOM, G.CNT, G.ALIVE, G.SLOT, G.AT, G.Q, G.POS], sorts={'roots': fresh_queue})

    def inner(L):
        root = TI(L.outer['root'].k)
        return G.queue(net.modulesSorted, L.roots) + G.slots() + [
            ('alive', G.edges(lambda e: G.ALIVE.fn([e]) == z3.And(G.DOM.fn([G.src(e)]), z3.Not(z3.And(G.src(e) == root, G.KIDX.fn([e]) < TI(L.k))))))]
    C.loop_specs[(ME, 3)] = LoopSpec(inner, modifies=lambda L: [G.CNT, G.ALIVE, G.SLOT, G.AT, G.Q, G.POS] + ([again(L.roots)] if 'roots' not in L.env else []), sorts={'roots': fresh_queue})


@task('C02', 'sorting any graph', functions=[NW + '.Network._topologicalSort'], limit=300)
def _(t):
    G = Graph(t)
    loops(G)
    exc = t.cls(NW, 'NetworkConstructionException')
    try:
        t.call('sort', G.net._topologicalSort, _raises=exc)
    except exc:
        refused(t, G)
        return
    sorted_(t, G)


def sorted_(t, G):
    l = G.net.modulesSorted
    n = slen(l)
    m = index(G.N, 'module')
    p = S(G.POS.fn([T(m)]))
    t.prove('every module is in the list', sym_and(p >= 0, p < n, l[p].k == m))
    i = index(n, 'i')
    t.prove('the list holds modules', S(G.node(l[i].k)))
    t.prove('no module is there twice', S(G.POS.fn([TI(l[i].k)])) == i)
    e = index(G.E, 'connection')
    t.prove('connections lead forward', S(G.POS.fn([G.src(T(e))]) < G.POS.fn([G.dst(T(e))])))
    stays(t, G)


def refused(t, G):
    """no ranking of the modules increases along all connections"""
    rank = C.fun('rank', I, I)
    C.forall(1, lambda k: S(rank(TI(k)) >= 0))
    w = G.left
    rising = lambda e: S(z3.Implies(G.edge(e), rank(G.src(TI(e))) < rank(G.dst(TI(e)))))
    P = lambda r: lambda k: S(z3.Implies(z3.And(G.DOM.fn([TI(k)])), rank(TI(k)) >= TI(r)))
    with supposing():
        r = C.int('r')
        with supposing():
            k = C.int('left over')
            C.assume(S(G.DOM.fn([T(k)])))
            e = G.AT.fn([T(k), z3.IntVal(0)])
            left = S(z3.And(G.edge(e), G.dst(e) == T(k), G.DOM.fn([G.src(e)])))
            t.prove('a module left over has a connection from one left over', left)
            # the ranking rises along e, and the claim is supposed of r and where e comes from
            t.prove('lemma rank: step', sym_implies(sym_and(left, rising(e), P(r)(G.src(e))), S(rank(T(k)) >= T(r) + 1)), kind='aux')
        # by induction, ranks of modules left over exceed every bound, also their own
        t.prove('only graphs with a cycle are refused', S(z3.Not(TB(P(rank(T(w)) + 1)(w)))))
    stays(t, G)


def stays(t, G):
    t.prove('modules and connections stay', G.net.modules is G.modules and G.net.connections is G.connections)
    i = index(G.N, 'i')
    t.prove('the modules stay', G.modules.get(i).k == S(G.order(T(i))))


def sizes(what, n_parts):
    @task('C02', 'sizes and state of a sorted network%s' % what, functions=[NW + '.Network.sortModules', 'pybrain.structure.modules.module.Module.__init__', 'pybrain.structure.modules.module.Module._resetBuffers'], limit=100)
    def _(t):
        G = Graph(t)
        net = G.net
        C.ghost.pop('dict factory')
        fi, fo = C.fun('indim', I, I), C.fun('outdim', I, I)
        C.forall(1, lambda m: S(z3.And(fi(TI(m)) >= 0, fo(TI(m)) >= 0)))
        G.indim, G.outdim = lambda k: S(fi(TI(k))), lambda k: S(fo(TI(k)))
        ins, outs = Places(G, 'input', G.indim), Places(G, 'output', G.outdim)
        li, lo = [SList.from_fn(p.n, (lambda p: lambda i: Node(G, S(p.f(TI(i)))))(p)) for p in (ins, outs)]
        put(net, 'inmodules', li)
        put(net, 'outmodules', lo)
        calls, sorts = [], A.Buf(1, lambda b: z3.IntVal(0), 'I')

        class Connected(object):
            def __init__(self, k):
                self.k = k

            def sort(self, key=None, reverse=False):
                old, k = sorts.fn, TI(self.k)
                sorts.set(lambda b: z3.If(b[0] == k, old(b) + 1, old(b)))

        class Connections(object):
            def __getitem__(self, m):
                return Connected(m.k)
        conns = Connections()
        put(net, 'connections', conns)
        put(net, 'motherconnections', SList([]))
        put(net, 'name', 'net')
        parts = [t.call('container', t.cls('pybrain.structure.parametercontainer', 'ParameterContainer'), dim('parameters')) for _ in range(n_parts)]
        for x in parts:
            put(x, 'owner', net)
            put(x, '_derivs', vec('derivs', x.paramdim))
        G.OFF, G.CLEAR = buf(1, 'offset', 'I'), A.Buf(1, lambda b: z3.IntVal(0), 'I')
        off = G.OFF.fn
        done = lambda L, f: All(1, lambda i: S(z3.Implies(G.node(i), f(G.order(TI(i)), TI(i) < TI(L.k)))))
        C.loop_specs[('Network.__setOffset', 0)] = LoopSpec(lambda L: [('offsets so far', done(L, lambda m, d: z3.Implies(d, G.OFF.fn([m]) == TI(L.x))))], modifies=lambda L: [G.OFF])
        C.loop_specs[('Network._resetBuffers', 0)] = LoopSpec(lambda L: [('modules so far', done(L, lambda m, d: G.CLEAR.fn([m]) == z3.If(d, 1, 0)))], modifies=lambda L: [G.CLEAR])
        cls = t.cls(NW, 'Network')
        cls._topologicalSort = lambda self: calls.append('sort')
        cls._containerIterator = lambda self: SList(parts)
        me = 'Network.sortModules'
        C.loop_specs[(me, 0)] = LoopSpec(lambda L: [('connections sorted so far', All(1, lambda i: S(z3.Implies(G.node(i), sorts.fn([G.order(TI(i))]) == z3.If(TI(i) < TI(L.k), 1, 0)))))], modifies=lambda L: [sorts])
        C.loop_specs[(me, 1)] = LoopSpec(lambda L: [('inputs so far', net.indim == S(ins.start(TI(L.k))))], modifies=lambda L: [(net, 'indim')])
        C.loop_specs[(me, 2)] = LoopSpec(lambda L: [('outputs so far', net.outdim == S(outs.start(TI(L.k))))], modifies=lambda L: [(net, 'outdim')])
        t.call('sort', net.sortModules)
        t.prove('the modules are sorted once', calls == ['sort'])
        t.prove('the input size is the sum over the input modules', net.indim == ins.total)
        t.prove('the output size is the sum over the output modules', net.outdim == outs.total)
        for n, d in (('inputbuffer', ins.total), ('inputerror', ins.total), ('outputbuffer', outs.total), ('outputerror', outs.total)):
            t.prove('shape of the %s' % n, sym_and(getattr(net, n).shape[0] == 1, getattr(net, n).shape[1] == d))
        m = S(G.order(T(index(G.N, 'module'))))
        t.prove('the modules start from step 0', S(G.OFF.fn([T(m)])) == 0)
        t.prove('the buffers of every module are cleared once', S(G.CLEAR.fn([T(m)])) == 1)
        t.prove('the connections of every module are sorted once', S(sorts.fn([T(m)])) == 1)
        t.prove('sorted', net.sorted is True)
        t.prove('modules and connections stay', net.modules is G.modules and net.connections is conns and net.inmodules is li and net.outmodules is lo)
        i = index(ins.n, 'i')
        t.prove('input modules stay in their order', li.get(i).k == S(ins.f(T(i))))
        b = net.inputbuffer
        t.call('sort again', net.sortModules)
        t.prove('sorting again does nothing', calls == ['sort'] and net.inputbuffer is b)


sizes('', 1)
sizes(' without parameters', 0)


# ---- how modules and connections get into the network

class Bag(object):
    """a set of modules, known by membership"""
    __pv_nonscalar__ = True

    def __init__(self, G, mem):
        self.G, self.mem = G, mem

    def __contains__(self, m):
        if not isinstance(m, Node):
            raise Unsupported('member of the set of modules')
        return C.branch(TB(self.mem.fn([TI(m.k)])))

    def add(self, m):
        if not isinstance(m, Node):
            raise Unsupported('member of the set of modules')
        put_at(self.mem, [m.k], z3.BoolVal(True))


class Leaving(object):
    """the connections that leave a module"""
    __pv_nonscalar__ = True

    def __init__(self, P, k):
        self.P, self.k = P, k

    def append(self, c):
        P, k = self.P, TI(self.k)
        n = P.LEN.fn([k])
        put_at(P.LIST, [k, n], TI(c.number))
        put_at(P.LEN, [k], n + 1)


class Keyed(object):
    """module -> list of connections"""
    __pv_nonscalar__ = True

    def __init__(self, P):
        self.P = P

    def __contains__(self, m):
        if not isinstance(m, Node):
            raise Unsupported('key of the connections')
        return C.branch(TB(self.P.KEY.fn([TI(m.k)])))

    def __getitem__(self, m):
        if m not in self:
            raise KeyError(m)
        return Leaving(self.P, m.k)

    def __setitem__(self, m, v):
        if not (isinstance(v, SList) and v.items == [] or isinstance(v, list) and not v):
            raise Unsupported('a list of connections')
        put_at(self.P.KEY, [m.k], z3.BoolVal(True))
        put_at(self.P.LEN, [m.k], z3.IntVal(0))


class Member(Node):
    """a module with parameters, possibly sequential, with an owner"""

    def __init__(self, P, k, edge=None):
        Node.__init__(self, P, k, edge)

    paramdim = property(lambda self: S(self.G.pdim(TI(self.k))))
    sequential = property(lambda self: S(self.G.seq(TI(self.k))))

    def _set_owner(self, v):
        if v is not self.G.net:
            raise Unsupported('another owner')
        put_at(self.G.OWNED, [self.k], z3.BoolVal(True))

    owner = property(None, _set_owner)

    def __eq__(self, o):
        return self.k == o.k if isinstance(o, Node) else False

    def __hash__(self):
        return 1

    def __pv_map__(self, f):
        return Member(self.G, _map_terms(self.k, f))

    def __pv_subst__(self, k, t):
        return Member(self.G, subst_value(self.k, k, t))

    def __pv_merge__(self, c, o):
        if not isinstance(o, Member):
            raise Unsupported('a module or something else')
        return Member(self.G, ite(S(c), self.k, o.k))


class Mother(object):
    __pv_nonscalar__ = True

    def __init__(self, P, k):
        self.__dict__.update(P=P, k=k)

    def __eq__(self, o):
        return self.k == o.k if isinstance(o, Mother) else False

    def __hash__(self):
        return 2

    def __pv_map__(self, f):
        return Mother(self.P, _map_terms(self.k, f))

    def __pv_subst__(self, k, t):
        return Mother(self.P, subst_value(self.k, k, t))

    def __pv_merge__(self, c, o):
        if not isinstance(o, Mother):
            raise Unsupported('weights or something else')
        return Mother(self.P, ite(S(c), self.k, o.k))

    def _set_owner(self, v):
        if v is not self.P.net:
            raise Unsupported('another owner')
        put_at(self.P.MOWNED, [self.k], z3.BoolVal(True))

    owner = property(None, _set_owner)


class Growing(object):
    """a network with any modules and connections so far"""

    def __init__(self, t, recurrent=False):
        self.t = t
        mk = lambda n, name, kind: A.Buf(n, (lambda f: lambda b: f(*b))(C.fun(name, *([I] * n + [I if kind == 'I' else z3.BoolSort()]))), kind, name)
        self.KEY, self.MEM, self.OWNED, self.MOWNED = [mk(1, n, 'B') for n in ('key', 'member', 'owned', 'owned mother')]
        self.LEN, self.LIST = mk(1, 'number', 'I'), mk(2, 'connection', 'I')
        self.pdim, self.seq, self.name = C.fun('paramdim', I, I), C.fun('sequential', I, z3.BoolSort()), C.fun('name', I, I)
        C.forall(1, lambda k: S(self.pdim(TI(k)) >= 0))
        C.forall(1, lambda k: S(self.LEN.fn([TI(k)]) >= 0))
        self.cls = t.cls('pybrain.structure.networks.recurrent', 'RecurrentNetwork') if recurrent else t.cls(NW, 'Network')
        net = self.net = self.cls.__new__(self.cls)
        put(net, 'modules', Bag(self, self.MEM))
        put(net, 'connections', Keyed(self))
        self.lists = {}
        for n, mem in (('inmodules', Member), ('outmodules', Member), ('motherconnections', Mother)):
            f, k = C.fun(n, I, I), C.int('number of ' + n)
            C.assume(k >= 0)
            # no module is there twice
            C.forall(2, (lambda f, k: lambda i, j: S(z3.Implies(z3.And(TI(i) >= 0, TI(i) < TI(j), TI(j) < T(k)), f(TI(i)) != f(TI(j)))))(f, k))
            l = SList.from_fn(k, (lambda f, mem: lambda i: mem(self, S(f(TI(i)))))(f, mem))
            put(net, n, l)
            self.lists[n] = (l, f, k)
        if recurrent:
            f, k = C.fun('recurrent', I, I), C.int('number of recurrent')
            C.assume(k >= 0)
            self.edges = lambda i: self.edge(i)
            l = SList.from_fn(k, lambda i: self.edge(S(f(TI(i)))))
            put(net, 'recurrentConns', l)
            self.lists['recurrentConns'] = (l, f, k)
        put(net, 'sorted', True)
        put(net, 'sequential', C.choose())
        self.before = dict((n, getattr(self, n).fn) for n in ('KEY', 'MEM', 'OWNED', 'MOWNED', 'LEN', 'LIST'))

    def edge(self, k, src=None, dst=None, mother=None, pdim=None):
        base = self.t.cls('pybrain.structure.connections.shared', 'SharedConnection') if mother is not None else object
        P = self

        class Joining(base):
            __pv_nonscalar__ = True
            number = k
            inmod, outmod = src, dst
            owned = False

            def __init__(self):
                pass

            def __eq__(self, o):
                return C.branch(TB(self.number == o.number))

            def __hash__(self):
                return 3

            def __pv_map__(self, f):
                return P.edge(_map_terms(k, f), src, dst, mother, pdim)

            def __pv_subst__(self, i, t):
                return P.edge(subst_value(k, i, t), src, dst, mother, pdim)

            def __pv_merge__(self, c, o):
                return P.edge(ite(S(c), self.number, o.number))

            def _set_owner(self, v):
                if v is not P.net:
                    raise Unsupported('another owner')
                P.edge_owned = True
            owner = property(None, _set_owner)
        if mother is not None:
            Joining.mother = mother
        if pdim is not None:
            Joining.paramdim = pdim
        return Joining()

    def changed(self, where, **allowed):
        """everything else stays; allowed: buffer -> condition on the entry that may differ"""
        for n, old in self.before.items():
            b = getattr(self, n)
            ix = [C.int('any') for _ in range(b.nd if hasattr(b, 'nd') else 2 if n == 'LIST' else 1)]
            same = S(b.fn([T(i) for i in ix]) == old([T(i) for i in ix]))
            self.t.prove('%s: %s of the others' % (where, n.lower()), sym_or(same, allowed[n](*ix)) if n in allowed else same)

    def list_is(self, where, n, more=None):
        l, f, k = self.lists[n]
        now = getattr(self.net, n)
        key = lambda x: x.k if hasattr(x, 'k') else x.number
        with supposing():
            i = index(k, 'i')
            self.t.prove('%s: %s keep their order' % (where, n), key(now.get(i)) == S(f(T(i))))
        if more is None:
            self.t.prove('%s: no other %s' % (where, n), slen(now) == k)
            return
        there = any_of(lambda j: S(z3.And(TI(j) >= 0, TI(j) < T(k), f(TI(j)) == TI(more))))
        if C.branch(TB(slen(now) == k)):
            self.t.prove('%s: only once in %s' % (where, n), there)
        else:
            self.t.prove('%s: last of %s' % (where, n), sym_and(slen(now) == k + 1, key(now.get(k)) == more))
            self.t.prove('%s: not yet in %s' % (where, n), S(z3.Not(TB(there))))


def any_of(f):
    j = z3.Int('j~any')
    return S(z3.Exists([j], TB(f(S(j)))))


def adding(how, lists):
    @task('C02', how, functions=[NW + '.Network.%s' % f for f in (how, 'addModule')])
    def _(t):
        P = Growing(t)
        m = Member(P, C.int('module'))
        arg = m
        if C.choose():
            S_ = t.cls('pybrain.structure.moduleslice', 'ModuleSlice')
            arg = S_.__new__(S_)
            put(arg, 'base', m)
        t.call(how, getattr(P.net, how), arg)
        k = T(m.k)
        t.prove('the module is there', S(P.MEM.fn([k])))
        had = S(P.before['KEY']([k]))
        t.prove('it has a list of connections', S(P.KEY.fn([k])))
        t.prove('its connections stay', ite(had, S(P.LEN.fn([k]) == P.before['LEN']([k])), S(P.LEN.fn([k]) == 0)))
        here = lambda i, *_: i == m.k
        P.changed(how, MEM=here, KEY=here, LEN=here, OWNED=here)
        t.prove('parameters belong to the network', sym_implies(S(P.pdim(k) > 0), S(P.OWNED.fn([k]))))
        for n in P.lists:
            P.list_is(how, n, m.k if n in lists else None)
        t.prove('to be sorted again', P.net.sorted is False)


adding('addModule', ())
adding('addInputModule', ('inmodules',))
adding('addOutputModule', ('outmodules',))


def connecting(recurrent, shared):
    how = 'addRecurrentConnection' if recurrent else 'addConnection'

    @task('C02', how + (' (shared weights)' if shared else ''),
          functions=['pybrain.structure.networks.recurrent.RecurrentNetworkComponent.addRecurrentConnection'] if recurrent else [NW + '.Network.addConnection'])
    def _(t):
        P = Growing(t, recurrent)
        P.edge_owned = False
        a, b, e = Member(P, C.int('sender')), Member(P, C.int('receiver')), C.int('connection')
        mother = Mother(P, C.int('mother')) if shared else None
        pd = C.int('paramdim')
        C.assume(pd >= 0)
        c = P.edge(e, a, b, mother, pd)
        t.call(how, getattr(P.net, how), c)
        k = T(a.k)
        n = P.before['LEN']([k])
        if recurrent:
            P.changed(how, MOWNED=(lambda i: i == mother.k) if shared else (lambda i: False))
            l, f, cnt = P.lists['recurrentConns']
            now = P.net.recurrentConns
            t.prove('the connection is the last one', sym_and(slen(now) == cnt + 1, now.get(cnt).number == e))
            with supposing():
                i = index(cnt, 'i')
                t.prove('the recurrent connections stay', now.get(i).number == S(f(T(i))))
        else:
            had = S(P.before['KEY']([k]))
            t.prove('the sender has a list', S(P.KEY.fn([k])))
            was = ite(had, S(n), 0)
            t.prove('the connection comes after those of its sender', sym_and(S(P.LEN.fn([k])) == was + 1, S(P.LIST.fn([k, T(was)])) == e))
            P.changed(how, KEY=lambda i: i == a.k, LEN=lambda i: i == a.k, LIST=lambda i, j: sym_and(i == a.k, j == was),
                      MOWNED=(lambda i: i == mother.k) if shared else (lambda i: False))
        for x in ('inmodules', 'outmodules'):
            P.list_is(how, x)
        P.list_is(how, 'motherconnections', mother.k if shared else None)
        if shared:
            there = any_of(lambda j: S(z3.And(TI(j) >= 0, TI(j) < T(P.lists['motherconnections'][2]), P.lists['motherconnections'][1](TI(j)) == TI(mother.k))))
            t.prove('a new mother belongs to the network', sym_or(there, S(P.MOWNED.fn([T(mother.k)]))))
        else:
            t.prove('weights belong to the network', sym_implies(pd > 0, S(z3.BoolVal(P.edge_owned))))
        t.prove('to be sorted again', P.net.sorted is False)


for r_ in (False, True):
    for s_ in (False, True):
        connecting(r_, s_)
