"""Networks compute the composition of their parts and pass errors back through it.

The implementations of FeedForwardNetwork and RecurrentNetworkComponent are under contract for
any number of modules, connections, input and output modules, any sizes and any time offset.
Modules and connections are known by their contracts only (C04, C05): with IN0(m) the external
input of m plus everything its incoming connections deliver, in any sorted graph (C02),

* a module computes its output row OUT0(m) when its input row is IN0(m),
* a connection adds D(c), what it makes of OUT0 of its sender, to the input row of its receiver,

which is a definition of the composition by recursion along the order. The code is proved to call
every module exactly once, with its input row complete, and every connection exactly once, after
its sender; backwards likewise with the errors."""
from .common import *
from pyvc.runtime import All, Havoc, pv_setattr as put

FF = 'pybrain.structure.networks.feedforward'
RN = 'pybrain.structure.networks.recurrent'
NW = 'pybrain.structure.networks.network'
I, R = z3.IntSort(), z3.RealSort()
ASSUMPTIONS = ['the network is sorted (C02) and its modules and connections keep their contracts (C04, C05, C06)',
               'what a module or connection delivers is a function of the rows named in its contract, so that the equations define the composition',
               'reverse accumulation over a sorted graph gives the gradient of the composition (chain rule)']
BOUNDED_ONLY = ['the chain rule itself (numerical comparison), nested networks, networks with shared weights, buildNetwork, data sets']


class Mod(object):
    __pv_nonscalar__ = True

    def __init__(self, G, k):
        self.__dict__.update(G=G, k=k)

    def _row(self, buf, d):
        k = TI(self.k)
        sh = (self.G.T, d)
        return SArr(buf, sh, lambda idx: [k] + list(idx), lambda b: (z3.And(b[0] == k, A.inb(b[1:], sh)), b[1:]))

    indim = property(lambda self: self.G.indim(self.k))
    outdim = property(lambda self: self.G.outdim(self.k))
    inputbuffer = property(lambda self: self._row(self.G.IN, self.indim))
    outputbuffer = property(lambda self: self._row(self.G.OUT, self.outdim))
    inputerror = property(lambda self: self._row(self.G.IE, self.indim))
    outputerror = property(lambda self: self._row(self.G.OE, self.outdim))

    def _get_offset(self):
        return S(self.G.OFF.fn([TI(self.k)]))

    def _set_offset(self, v):
        old, k, v = self.G.OFF.fn, TI(self.k), TI(v)
        self.G.OFF.set(lambda b: z3.If(b[0] == k, v, old(b)))

    offset = property(_get_offset, _set_offset)

    def forward(self):
        self.G.module_forward(self.k)

    def backward(self):
        self.G.module_backward(self.k)

    def shift(self, n):
        self.G.module_shift(self.k, n)

    def reset(self):
        self.G.module_reset(self.k)

    def _growBuffers(self):
        self.G.module_grow(self.k)

    def _resetBuffers(self, length=1):
        self.G.module_clear(self.k, length)

    def __eq__(self, o):
        return isinstance(o, Mod) and C.branch(TB(self.k == o.k))

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 1

    def __pv_map__(self, f):
        return Mod(self.G, _map_terms(self.k, f))

    def __pv_subst__(self, k, t):
        return Mod(self.G, subst_value(self.k, k, t))


class Conn(object):
    __pv_nonscalar__ = True
    paramdim = 0

    def __init__(self, G, k, q, recurrent=False):
        self.__dict__.update(G=G, k=k, q=q, recurrent=recurrent)

    inmod = property(lambda self: Mod(self.G, self.G.source(self)))
    outmod = property(lambda self: Mod(self.G, self.G.target(self)))

    def forward(self, inmodOffset=0, outmodOffset=0):
        self.G.conn_forward(self, inmodOffset, outmodOffset)

    def backward(self, inmodOffset=0, outmodOffset=0):
        self.G.conn_backward(self, inmodOffset, outmodOffset)

    def __pv_map__(self, f):
        return Conn(self.G, _map_terms(self.k, f), _map_terms(self.q, f), self.recurrent)

    def __pv_subst__(self, k, t):
        return Conn(self.G, subst_value(self.k, k, t), subst_value(self.q, k, t), self.recurrent)


class ConnMap(object):
    __pv_nonscalar__ = True

    def __init__(self, G):
        self.G = G

    def __getitem__(self, m):
        return SList.from_fn(self.G.count(m.k), lambda q, k=m.k: Conn(self.G, k, q))

    def __contains__(self, m):
        return True


def buf(n, name, kind='R'):
    f = C.input_fun(name, *([I] * n + [R if kind == 'R' else I]))
    return A.Buf(n, lambda b: f(*b), kind, name)


def zeros_buf(n, kind='I'):
    return A.Buf(n, lambda b: z3.IntVal(0) if kind == 'I' else z3.RealVal(0), kind)


class Places(object):
    """the input or output modules: distinct, with the starts of their parts of the flat vector"""

    def __init__(self, G, name, size):
        self.G, self.size = G, size
        self.n = dim(name + ' modules')
        self.f, self.p, self.start = C.fun(name, I, I), C.fun(name + ' place', I, I), C.fun(name + ' start', I, I)
        f, p, st, n = self.f, self.p, self.start, T(self.n)
        C.forall(1, lambda i: S(z3.Implies(z3.And(TI(i) >= 0, TI(i) < n),
                                           z3.And(f(TI(i)) >= 0, f(TI(i)) < T(G.N), p(f(TI(i))) == TI(i), st(TI(i) + 1) == st(TI(i)) + T(size(S(f(TI(i)))))))))
        C.assume(S(st(z3.IntVal(0)) == 0))
        C.forall(2, lambda i, j: S(z3.Implies(z3.And(0 <= TI(i), TI(i) <= TI(j), TI(j) <= n), st(TI(i)) <= st(TI(j)))))
        self.total = S(st(n))

    def has(self, m, upto=None):
        m = TI(m)
        u = TI(self.n if upto is None else upto)
        return z3.And(self.p(m) >= 0, self.p(m) < u, self.f(self.p(m)) == m)

    def mods(self):
        return SList.from_fn(self.n, lambda i: Mod(self.G, S(self.f(TI(i)))))

    def at(self, m, j):
        """position of component j of module m"""
        return self.start(self.p(TI(m))) + TI(j)


class Graph(object):
    """any sorted network in any state"""

    def __init__(self, t, mod, name, direction):
        self.t, self.way = t, direction
        self.N, self.T = dim('modules'), dim('buffer length')
        fi, fo, nc, tg = C.fun('indim', I, I), C.fun('outdim', I, I), C.fun('connections', I, I), C.fun('target', I, I, I)
        C.forall(1, lambda m: S(z3.And(fi(TI(m)) >= 0, fo(TI(m)) >= 0, nc(TI(m)) >= 0)))
        C.forall(2, lambda m, q: S(z3.Implies(z3.And(TI(m) >= 0, TI(m) < T(self.N), TI(q) >= 0, TI(q) < nc(TI(m))),
                                              z3.And(tg(TI(m), TI(q)) > TI(m), tg(TI(m), TI(q)) < T(self.N)))))
        self.indim, self.outdim = lambda m: S(fi(TI(m))), lambda m: S(fo(TI(m)))
        self.count, self.tg = lambda m: S(nc(TI(m))), tg
        self.nrec = C.int('recurrent connections')
        C.assume(self.nrec >= 0)
        rs, rt = C.fun('recurrent source', I, I), C.fun('recurrent target', I, I)
        C.forall(1, lambda r: S(z3.Implies(z3.And(TI(r) >= 0, TI(r) < T(self.nrec)), z3.And(rs(TI(r)) >= 0, rs(TI(r)) < T(self.N), rt(TI(r)) >= 0, rt(TI(r)) < T(self.N)))))
        self.rs, self.rt = rs, rt
        for n in ('IN', 'OUT', 'IE', 'OE'):
            b = buf(3, n)
            setattr(self, n, b)
            setattr(self, n + '_0', b.fn)
        self.off = C.int('offset', show=True)
        C.assume(sym_and(self.off >= 0, self.off < self.T))
        off = T(self.off)
        self.OFF = A.Buf(1, lambda b: off, 'I')
        self.mcalls, self.ccalls, self.rcalls, self.scalls = zeros_buf(1), zeros_buf(2), zeros_buf(1), zeros_buf(1)
        net = self.net = t.cls(mod, name).__new__(t.cls(mod, name))
        mods = SList.from_fn(self.N, lambda k: Mod(self, k))
        put(net, 'modulesSorted', mods)
        put(net, 'connections', ConnMap(self))
        self.ins, self.outs = Places(self, 'input', self.indim), Places(self, 'output', self.outdim)
        put(net, 'inmodules', self.ins.mods())
        put(net, 'outmodules', self.outs.mods())
        put(net, 'sorted', True)
        perm, back = C.fun('any order', I, I), C.fun('place in any order', I, I)
        C.forall(1, lambda i: S(z3.Implies(z3.And(TI(i) >= 0, TI(i) < T(self.N)),
                                           z3.And(perm(TI(i)) >= 0, perm(TI(i)) < T(self.N), back(perm(TI(i))) == TI(i), back(TI(i)) >= 0, back(TI(i)) < T(self.N), perm(back(TI(i))) == TI(i)))))
        self.perm, self.place = perm, back
        put(net, 'modules', SList.from_fn(self.N, lambda i: Mod(self, S(perm(TI(i))))))
        put(net, '_Network__offset', self.off)
        put(net, 'recurrentConns', SList.from_fn(self.nrec, lambda r: Conn(self, r, 0, True)))
        put(net, 'forget', False)
        # what connections deliver to component j of their receiver; what modules deliver
        self.D, self.OUT0 = C.fun('delivered', I, I, I, R), C.fun('output', I, I, R)
        self.RD = C.fun('delivered from before', I, I, R)
        # sums of what arrives: from the modules before k; from the first q connections of k; from the first r recurrent ones
        self.SA, self.SB, self.SR = C.fun('from modules', I, I, I, R), C.fun('from connections', I, I, I, I, R), C.fun('from recurrent', I, I, I, R)
        SA, SB, SR, D = self.SA, self.SB, self.SR, self.D
        C.forall(2, lambda m, j: S(z3.And(SA(TI(m), TI(j), 0) == 0, SR(TI(m), TI(j), 0) == 0)))
        C.forall(3, lambda m, j, k: S(z3.And(SB(TI(m), TI(j), TI(k), 0) == 0,
                                             z3.Implies(TI(k) >= 0, SA(TI(m), TI(j), TI(k) + 1) == SA(TI(m), TI(j), TI(k)) + SB(TI(m), TI(j), TI(k), nc(TI(k)))),
                                             z3.Implies(TI(k) >= 0, SR(TI(m), TI(j), TI(k) + 1) == SR(TI(m), TI(j), TI(k)) + z3.If(rt(TI(k)) == TI(m), self.RD(TI(k), TI(j)), 0)))))
        C.forall(4, lambda m, j, k, q: S(z3.Implies(TI(q) >= 0, SB(TI(m), TI(j), TI(k), TI(q) + 1) == SB(TI(m), TI(j), TI(k), TI(q)) + z3.If(tg(TI(k), TI(q)) == TI(m), D(TI(k), TI(q), TI(j)), 0))))

        # errors: what connections pass back to component j of their sender; what modules pass back
        self.E, self.RE, self.IE0 = C.fun('passed back', I, I, I, R), C.fun('passed back from later', I, I, R), C.fun('input error', I, I, R)
        self.SC, self.SE = C.fun('errors of connections', I, I, I, R), C.fun('errors of recurrent', I, I, I, R)
        SC, SE = self.SC, self.SE
        C.forall(2, lambda m, j: S(z3.And(SC(TI(m), TI(j), 0) == 0, SE(TI(m), TI(j), 0) == 0)))
        C.forall(3, lambda m, j, q: S(z3.Implies(TI(q) >= 0, z3.And(SC(TI(m), TI(j), TI(q) + 1) == SC(TI(m), TI(j), TI(q)) + self.E(TI(m), TI(q), TI(j)),
                                                                    SE(TI(m), TI(j), TI(q) + 1) == SE(TI(m), TI(j), TI(q)) + z3.If(rs(TI(q)) == TI(m), self.RE(TI(q), TI(j)), 0)))))

    def source(self, c):
        return S(self.rs(TI(c.k))) if c.recurrent else c.k

    def target(self, c):
        return S(self.rt(TI(c.k))) if c.recurrent else S(self.tg(TI(c.k), TI(c.q)))

    # -- the composition
    def ext(self, m, j):
        """external input, or what the input row held"""
        m, j = TI(m), TI(j)
        return z3.If(self.ins.has(m), TR(self.x.at(S(self.ins.at(m, j)))), self.IN_0([m, self.row, j]))

    def in0(self, m, j, rec=False):
        m, j = TI(m), TI(j)
        r = self.ext(m, j) + self.SA(m, j, m)
        return r + self.SR(m, j, T(self.nrec)) if rec else r

    def called(self, buf, *k):
        k = [TI(x) for x in k]
        old = buf.fn
        buf.set(lambda b: z3.If(z3.And(*[x == y for x, y in zip(b, k)]), old(b) + 1, old(b)))

    def cells(self, m, d):
        m = TI(m)
        return lambda j: z3.And(TI(j) >= 0, TI(j) < T(d(S(m))))

    def any_j(self, m, d):
        j = C.int('component', show=True)
        C.assume(S(self.cells(m, d)(j)))
        return T(j)

    def module_forward(self, k):
        t, m = self.t, TI(k)
        with supposing():
            j = self.any_j(k, self.indim)
            t.prove('a module works on the row of this step', S(self.OFF.fn([m])) == S(self.row), kind='pre')
            t.prove('a module is called when its input is complete', S(self.IN.fn([m, self.row, j]) == self.want_in(m, j)), kind='pre')
        self.called(self.mcalls, k)
        old, row = self.OUT.fn, self.row
        self.OUT.set(lambda b: z3.If(z3.And(b[0] == m, b[1] == row, b[2] >= 0, b[2] < T(self.outdim(S(m)))), self.OUT0(b[0], b[2]), old(b)))

    def conn_forward(self, c, i, o):
        t = self.t
        src, dst = TI(self.source(c)), TI(self.target(c))
        ri = self.row - 1 if c.recurrent else self.row
        with supposing():
            j = self.any_j(S(src), self.outdim)
            t.prove('a connection works on the rows of this step', sym_and(i == S(ri), o == S(self.row)), kind='pre')
            sent = self.OUT_0([src, ri, j]) if c.recurrent else self.OUT0(src, j)
            t.prove('a connection is called when its sender is done', S(self.OUT.fn([src, ri, j]) == sent), kind='pre')
        if c.recurrent:
            self.called(self.rcalls, c.k)
        else:
            self.called(self.ccalls, c.k, c.q)
        old, row = self.IN.fn, self.row
        d = (lambda j: self.RD(TI(c.k), j)) if c.recurrent else (lambda j: self.D(TI(c.k), TI(c.q), j))
        self.IN.set(lambda b: old(b) + z3.If(z3.And(b[0] == dst, b[1] == row, b[2] >= 0, b[2] < T(self.indim(S(dst)))), d(b[2]), 0))

    def exte(self, m, j):
        m, j = TI(m), TI(j)
        return z3.If(self.outs.has(m), TR(self.e.at(S(self.outs.at(m, j)))), self.OE_0([m, self.row, j]))

    def module_backward(self, k):
        t, m = self.t, TI(k)
        with supposing():
            j = self.any_j(k, self.outdim)
            t.prove('a module works on the row of this step', S(self.OFF.fn([m])) == S(self.row), kind='pre')
            t.prove('a module is called when its error is complete', S(self.OE.fn([m, self.row, j]) == self.want_error(m, j)), kind='pre')
        self.called(self.mcalls, k)
        old, row = self.IE.fn, self.row
        self.IE.set(lambda b: z3.If(z3.And(b[0] == m, b[1] == row, b[2] >= 0, b[2] < T(self.indim(S(m)))), self.IE0(b[0], b[2]), old(b)))

    def conn_backward(self, c, i, o):
        t = self.t
        src, dst = TI(self.source(c)), TI(self.target(c))
        ro = self.row + 1 if c.recurrent else self.row
        with supposing():
            j = self.any_j(S(dst), self.indim)
            t.prove('a connection works on the rows of this step', sym_and(i == S(self.row), o == S(ro)), kind='pre')
            got = self.IE_0([dst, ro, j]) if c.recurrent else self.IE0(dst, j)
            t.prove('a connection is called when its receiver is done', S(self.IE.fn([dst, ro, j]) == got), kind='pre')
        if c.recurrent:
            self.called(self.rcalls, c.k)
        else:
            self.called(self.ccalls, c.k, c.q)
        old, row = self.OE.fn, self.row
        e = (lambda j: self.RE(TI(c.k), j)) if c.recurrent else (lambda j: self.E(TI(c.k), TI(c.q), j))
        self.OE.set(lambda b: old(b) + z3.If(z3.And(b[0] == src, b[1] == row, b[2] >= 0, b[2] < T(self.outdim(S(src)))), e(b[2]), 0))

    def module_shift(self, k, n):
        m, n = TI(k), TI(n)
        for name in ('IN', 'OUT', 'IE', 'OE'):
            b, old = getattr(self, name), getattr(self, name).fn
            T_ = T(self.T)
            b.set(lambda x, old=old: z3.If(x[0] == m, z3.If(z3.And(x[1] - n >= 0, x[1] - n < T_), old([x[0], x[1] - n, x[2]]), 0), old(x)))
        old = self.OFF.fn
        self.OFF.set(lambda x: z3.If(x[0] == m, old(x) + n, old(x)))
        self.called(self.scalls, k)

    def module_reset(self, k):
        m = TI(k)
        for name in ('IN', 'OUT', 'IE', 'OE'):
            b, old = getattr(self, name), getattr(self, name).fn
            b.set(lambda x, old=old: z3.If(x[0] == m, 0, old(x)))
        old = self.OFF.fn
        self.OFF.set(lambda x: z3.If(x[0] == m, 0, old(x)))
        self.called(self.mcalls, k)

    def module_grow(self, k):
        self.called(self.mcalls, k)

    def module_clear(self, k, length):
        self.t.prove('the length of the buffers', length == self.length, kind='pre')
        self.called(self.mcalls, k)

    # -- clauses
    def rows(self, name, f):
        """the rows of this step are f(m, j, before); the other rows stay"""
        row, d = self.row, self.indim if name[0] == 'I' else self.outdim
        now, then = getattr(self, name), getattr(self, name + '_0')
        return All(3, lambda m, r, j: S(z3.Implies(z3.And(TI(m) >= 0, TI(m) < T(self.N), TI(j) >= 0, TI(j) < T(d(m))),
                                                   now.fn([TI(m), TI(r), TI(j)]) == z3.If(TI(r) == row, f(TI(m), TI(j)), then([TI(m), TI(r), TI(j)])))))

    def counted(self, done, also=None):
        also = also or (lambda m, p: done(m))
        mod = All(1, lambda m: S(z3.Implies(z3.And(TI(m) >= 0, TI(m) < T(self.N)), self.mcalls.fn([TI(m)]) == z3.If(done(TI(m)), 1, 0))))
        con = All(2, lambda m, p: S(z3.Implies(z3.And(TI(m) >= 0, TI(m) < T(self.N), TI(p) >= 0, TI(p) < T(self.count(m))), self.ccalls.fn([TI(m), TI(p)]) == z3.If(also(TI(m), TI(p)), 1, 0))))
        return [('calls of modules', mod), ('calls of connections', con)]

    def inputs(self, f):
        """the input rows of this step, f(m, j); the other rows stay"""
        row = self.row
        return All(3, lambda m, r, j: S(z3.Implies(z3.And(TI(m) >= 0, TI(m) < T(self.N), TI(j) >= 0, TI(j) < T(self.indim(m))),
                                                   self.IN.fn([TI(m), TI(r), TI(j)]) == z3.If(TI(r) == row, f(TI(m), TI(j)), self.IN_0([TI(m), TI(r), TI(j)])))))

    def outputs(self, k):
        row = self.row
        return All(3, lambda m, r, j: S(z3.Implies(z3.And(TI(m) >= 0, TI(m) < T(self.N), TI(j) >= 0, TI(j) < T(self.outdim(m))),
                                                   self.OUT.fn([TI(m), TI(r), TI(j)]) == z3.If(z3.And(TI(r) == row, TI(m) < TI(k)), self.OUT0(TI(m), TI(j)), self.OUT_0([TI(m), TI(r), TI(j)])))))

    def calls(self, k, q=None):
        """every module before k and its connections were called once"""
        q = z3.IntVal(0) if q is None else TI(q)
        done = lambda m: TI(m) < TI(k)
        return [('calls of modules', All(1, lambda m: S(z3.Implies(z3.And(TI(m) >= 0, TI(m) < T(self.N)), self.mcalls.fn([TI(m)]) == z3.If(TI(m) < TI(k), 1, 0))))),
                ('calls of connections', All(2, lambda m, p: S(z3.Implies(z3.And(TI(m) >= 0, TI(m) < T(self.N), TI(p) >= 0, TI(p) < T(self.count(m))),
                                                                          self.ccalls.fn([TI(m), TI(p)]) == z3.If(TI(m) < TI(k), 1, 0)))))]

    def copied_in(self, i):
        return self.inputs(lambda m, j: z3.If(self.ins.has(m, i), TR(self.x.at(S(self.ins.at(m, j)))), self.IN_0([m, self.row, j])))

    def stays(self, names):
        for n in names:
            m, r, j = C.int('m'), C.int('r'), C.int('j')
            d = self.indim if n[0] == 'I' else self.outdim
            C.assume(sym_and(m >= 0, m < self.N, j >= 0, j < d(m)))
            b = [T(m), T(r), T(j)]
            self.t.prove('%s rows are not written' % n, S(getattr(self, n).fn(b) == getattr(self, n + '_0')(b)))


def forward_loops(G, me, n0, rec, row=None):
    G.row = T(G.off) if row is None else row
    IN, OUT = G.IN, G.OUT
    base = (lambda m, j: G.ext(m, j) + G.SR(m, j, T(G.nrec))) if rec else G.ext
    if rec:
        base = lambda m, j: G.ext(m, j) + z3.If(G.row > 0, G.SR(m, j, T(G.nrec)), 0)
    G.want_in = lambda m, j: base(m, j) + G.SA(m, j, m)
    C.loop_specs[(me, 0)] = LoopSpec(lambda L: [('position', L.index == S(G.ins.start(TI(L.k)))), ('inputs copied so far', G.copied_in(L.k))], modifies=lambda L: [IN])
    k = 1
    if rec:
        C.loop_specs[(me, 1)] = LoopSpec(lambda L: [('recurrent connections so far', G.inputs(lambda m, j: G.ext(m, j) + G.SR(m, j, TI(L.k)))),
                                                    ('calls', All(1, lambda r: S(z3.Implies(TI(r) >= 0, G.rcalls.fn([TI(r)]) == z3.If(TI(r) < TI(L.k), 1, 0)))))],
                                         modifies=lambda L: [IN, G.rcalls])
        k = 2
    C.loop_specs[(me, k)] = LoopSpec(lambda L: [('inputs', G.inputs(lambda m, j: base(m, j) + G.SA(m, j, TI(L.k)))), ('outputs', G.outputs(L.k))] + G.calls(L.k),
                                     modifies=lambda L: [IN, OUT, G.mcalls, G.ccalls])

    def inner(L):
        k = TI(L.outer['m'].k)
        return [('inputs', G.inputs(lambda m, j: base(m, j) + G.SA(m, j, k) + G.SB(m, j, k, TI(L.k)))),
                ('calls of connections', All(2, lambda m, p: S(z3.Implies(z3.And(TI(m) >= 0, TI(m) < T(G.N), TI(p) >= 0, TI(p) < T(G.count(m))),
                                                                          G.ccalls.fn([TI(m), TI(p)]) == z3.If(z3.Or(TI(m) < k, z3.And(TI(m) == k, TI(p) < TI(L.k))), 1, 0)))))]
    C.loop_specs[(me, k + 1)] = LoopSpec(inner, modifies=lambda L: [IN, G.ccalls])
    return k + 2


def copied_out(G, name, places, target, value):
    return lambda L: [('position', L.index == S(places.start(TI(L.k)))),
                      ('copied so far', All(2, lambda m, j: S(z3.Implies(z3.And(places.has(m, L.k), TI(j) >= 0, TI(j) < T(places.size(m))), TR(target.at(S(places.at(m, j)))) == value(TI(m), TI(j))))))]


@task('C03', 'feed-forward networks: forward', functions=[FF + '.FeedForwardNetworkComponent._forwardImplementation'], limit=200)
def _(t):
    G = Graph(t, FF, 'FeedForwardNetwork', 'forward')
    me = 'FeedForwardNetworkComponent._forwardImplementation'
    G.x, out = vec('x', G.ins.total), vec('y', G.outs.total)
    x0 = G.x.copy()
    k = forward_loops(G, me, 0, False)
    C.loop_specs[(me, k)] = LoopSpec(copied_out(G, 'output', G.outs, out, G.OUT0), modifies=lambda L: [out])
    t.call('forward', G.net._forwardImplementation, G.x, out)
    finish_forward(t, G, out, x0)


def finish_forward(t, G, out, x0):
    i = index(G.outs.n, 'output module')
    m = S(G.outs.f(TI(i)))
    j = index(G.outdim(m), 'component')
    t.prove('the outputs of the output modules in their order', S(TR(out.at(S(G.outs.start(TI(i)) + TI(j)))) == G.OUT0(TI(m), TI(j))))
    m = index(G.N, 'module')
    t.prove('every module is called once', S(G.mcalls.fn([TI(m)]) == 1))
    q = index(G.count(m), 'connection')
    t.prove('every connection is called once', S(G.ccalls.fn([TI(m), TI(q)]) == 1))
    G.stays(['IE', 'OE'])
    k = index(G.ins.total, 'k')
    t.prove('the input stays', at(G.x, k) == at(x0, k))


def backward_loops(G, me, rec, last=None):
    G.row = T(G.off)
    base = (lambda m, j: G.exte(m, j) + z3.If(last, 0, G.SE(m, j, T(G.nrec)))) if rec else G.exte
    G.want_error = lambda m, j: base(m, j) + G.SC(m, j, T(G.count(S(TI(m)))))
    e = lambda L: ('errors copied so far', G.rows('OE', lambda m, j: z3.If(G.outs.has(m, L.k), TR(G.e.at(S(G.outs.at(m, j)))), G.OE_0([m, G.row, j]))))
    C.loop_specs[(me, 0)] = LoopSpec(lambda L: [('position', L.index == S(G.outs.start(TI(L.k)))), e(L)], modifies=lambda L: [G.OE])
    k = 1
    if rec:
        C.loop_specs[(me, 1)] = LoopSpec(lambda L: [('recurrent connections so far', G.rows('OE', lambda m, j: G.exte(m, j) + G.SE(m, j, TI(L.k)))),
                                                    ('calls', All(1, lambda r: S(z3.Implies(TI(r) >= 0, G.rcalls.fn([TI(r)]) == z3.If(TI(r) < TI(L.k), 1, 0)))))],
                                         modifies=lambda L: [G.OE, G.rcalls])
        k = 2
    first = lambda L: T(G.N) - TI(L.k)
    offsets = ('offsets', All(1, lambda m: S(G.OFF.fn([TI(m)]) == G.row)))
    all_c = lambda m: T(G.count(S(m)))
    C.loop_specs[(me, k)] = LoopSpec(lambda L: [('output errors', G.rows('OE', lambda m, j: base(m, j) + z3.If(m >= first(L), G.SC(m, j, all_c(m)), 0))),
                                                ('input errors', G.rows('IE', lambda m, j: z3.If(m >= first(L), G.IE0(m, j), G.IE_0([m, G.row, j])))), offsets]
                                     + G.counted(lambda m: m >= first(L)), modifies=lambda L: [G.OE, G.IE, G.OFF, G.mcalls, G.ccalls])

    def inner(L):
        me_ = TI(L.outer['m'].k)
        return [('output errors', G.rows('OE', lambda m, j: base(m, j) + z3.If(m > me_, G.SC(m, j, all_c(m)), z3.If(m == me_, G.SC(m, j, TI(L.k)), 0)))),
                ] + G.counted(lambda m: m > me_, lambda m, p: z3.Or(m > me_, z3.And(m == me_, p < TI(L.k))))[1:]
    C.loop_specs[(me, k + 1)] = LoopSpec(inner, modifies=lambda L: [G.OE, G.ccalls])
    return k + 2


def finish_backward(t, G, res, e0):
    i = index(G.ins.n, 'input module')
    m = S(G.ins.f(TI(i)))
    j = index(G.indim(m), 'component')
    t.prove('the errors of the input modules in their order', S(TR(res.at(S(G.ins.start(TI(i)) + TI(j)))) == G.IE0(TI(m), TI(j))))
    m = index(G.N, 'module')
    t.prove('every module is called once', S(G.mcalls.fn([TI(m)]) == 1))
    q = index(G.count(m), 'connection')
    t.prove('every connection is called once', S(G.ccalls.fn([TI(m), TI(q)]) == 1))
    G.stays(['IN', 'OUT'])
    k = index(G.outs.total, 'k')
    t.prove('the given error stays', at(G.e, k) == at(e0, k))


@task('C03', 'feed-forward networks: backward', functions=[FF + '.FeedForwardNetworkComponent._backwardImplementation'], limit=200)
def _(t):
    G = Graph(t, FF, 'FeedForwardNetwork', 'backward')
    me = 'FeedForwardNetworkComponent._backwardImplementation'
    G.e, res = vec('e', G.outs.total), vec('ie', G.ins.total)
    e0 = G.e.copy()
    k = backward_loops(G, me, False)
    C.loop_specs[(me, k)] = LoopSpec(copied_out(G, 'input', G.ins, res, G.IE0), modifies=lambda L: [res])
    t.call('backward', G.net._backwardImplementation, G.e, res, vec('y', G.outs.total), vec('x', G.ins.total))
    finish_backward(t, G, res, e0)


@task('C03', 'recurrent networks: forward', functions=[RN + '.RecurrentNetworkComponent._forwardImplementation'], limit=200)
def _(t):
    G = Graph(t, RN, 'RecurrentNetwork', 'forward')
    me = 'RecurrentNetworkComponent._forwardImplementation'
    G.x, out = vec('x', G.ins.total), vec('y', G.outs.total)
    x0 = G.x.copy()
    k = forward_loops(G, me, 0, True)
    C.loop_specs[(me, k + 1)] = LoopSpec(copied_out(G, 'output', G.outs, out, G.OUT0), modifies=lambda L: [out])
    t.call('forward', G.net._forwardImplementation, G.x, out)
    finish_forward(t, G, out, x0)
    r = index(G.nrec, 'recurrent connection')
    t.prove('recurrent connections are called once, if there is an earlier step', S(G.rcalls.fn([TI(r)]) == z3.If(G.row > 0, 1, 0)))
    m = index(G.N, 'module')
    j = index(G.outdim(m), 'j')
    rr = C.int('row')
    C.assume(S(T(rr) != G.row))
    t.prove('earlier outputs stay', S(G.OUT.fn([TI(m), T(rr), TI(j)]) == G.OUT_0([TI(m), T(rr), TI(j)])))


@task('C03', 'recurrent networks: backward', functions=[RN + '.RecurrentNetworkComponent._backwardImplementation', RN + '.RecurrentNetworkComponent._isLastTimestep'], limit=200)
def _(t):
    G = Graph(t, RN, 'RecurrentNetwork', 'backward')
    me = 'RecurrentNetworkComponent._backwardImplementation'
    G.e, res = vec('e', G.outs.total), vec('ie', G.ins.total)
    e0 = G.e.copy()
    mx = C.int('steps so far')
    C.assume(mx >= G.off)
    put(G.net, 'maxoffset', mx)
    last = T(mx) == T(G.off)
    k = backward_loops(G, me, True, last)
    C.loop_specs[(me, k)] = LoopSpec(copied_out(G, 'input', G.ins, res, G.IE0), modifies=lambda L: [res])
    t.call('backward', G.net._backwardImplementation, G.e, res, vec('y', G.outs.total), vec('x', G.ins.total))
    finish_backward(t, G, res, e0)
    r = index(G.nrec, 'recurrent connection')
    t.prove('recurrent connections are called once, if there is a later step', S(G.rcalls.fn([TI(r)]) == z3.If(last, 0, 1)))


def node(G, m):
    return z3.And(TI(m) >= 0, TI(m) < T(G.N))


def offset_loop(G):
    """assigning the offset of a network assigns it to its modules, in any order"""
    C.loop_specs[('Network.__setOffset', 0)] = LoopSpec(
        lambda L: [('offsets so far', All(1, lambda m: S(z3.Implies(z3.And(node(G, m), G.place(TI(m)) < TI(L.k)), G.OFF.fn([TI(m)]) == TI(L.x)))))], modifies=lambda L: [G.OFF])


@task('C03', 'recurrent networks: forward, forgetful', functions=[RN + '.RecurrentNetworkComponent._forwardImplementation'], limit=300)
def _(t):
    G = Graph(t, RN, 'RecurrentNetwork', 'forward')
    me = 'RecurrentNetworkComponent._forwardImplementation'
    G.x, out = vec('x', G.ins.total), vec('y', G.outs.total)
    x0 = G.x.copy()
    put(G.net, 'forget', True)
    off = T(G.off)
    C.assume(S(off + 1 < T(G.T)))
    offset_loop(G)
    k = forward_loops(G, me, 0, True, off + 1)
    then = dict((n, getattr(G, n).fn) for n in ('IN', 'OUT', 'IE', 'OE'))
    known = dict(IN=lambda b: z3.If(b[1] == off + 1, G.all_in(b[0], b[2]), G.IN_0(b)), OUT=lambda b: z3.If(b[1] == off + 1, G.OUT0(b[0], b[2]), G.OUT_0(b)), IE=G.IE_0, OE=G.OE_0)
    G.all_in = lambda m, j: G.ext(m, j) + G.SR(m, j, T(G.nrec)) + G.SA(m, j, T(G.N))

    def shifted(L):
        r = [('offsets', All(1, lambda m: S(z3.Implies(node(G, m), G.OFF.fn([TI(m)]) == z3.If(G.place(TI(m)) < TI(L.k), off, off + 1))))),
             ('calls', All(1, lambda m: S(z3.Implies(node(G, m), G.scalls.fn([TI(m)]) == z3.If(G.place(TI(m)) < TI(L.k), 1, 0)))))]
        for n in ('OUT', 'IN'):
            d, now = (G.indim if n == 'IN' else G.outdim), getattr(G, n).fn

            def clause(m, r_, j, n=n, d=d, now=now):
                b = [TI(m), TI(r_), TI(j)]
                up = [b[0], b[1] + 1, b[2]]
                return S(z3.Implies(z3.And(node(G, m), b[1] >= 0, b[1] < T(G.T), b[2] >= 0, b[2] < T(d(m))),
                                    now(b) == z3.If(G.place(b[0]) < TI(L.k), z3.If(b[1] + 1 < T(G.T), known[n](up), 0), known[n](b))))
            r.append(('rows of ' + n, All(3, clause)))
        return r
    C.loop_specs[(me, k)] = LoopSpec(shifted, modifies=lambda L: [G.IN, G.OUT, G.IE, G.OE, G.OFF, G.scalls])
    C.loop_specs[(me, k + 1)] = LoopSpec(copied_out(G, 'output', G.outs, out, G.OUT0), modifies=lambda L: [out])
    t.call('forward', G.net._forwardImplementation, G.x, out)
    i = index(G.outs.n, 'output module')
    m = S(G.outs.f(TI(i)))
    j = index(G.outdim(m), 'component')
    t.prove('the outputs of the output modules in their order', S(TR(out.at(S(G.outs.start(TI(i)) + TI(j)))) == G.OUT0(TI(m), TI(j))))
    m = index(G.N, 'module')
    t.prove('every module is called once', S(G.mcalls.fn([TI(m)]) == 1))
    q = index(G.count(m), 'connection')
    t.prove('every connection is called once', S(G.ccalls.fn([TI(m), TI(q)]) == 1))
    j = index(G.outdim(m), 'j')
    t.prove('the outputs of this step are kept for the next one', S(G.OUT.fn([TI(m), off, TI(j)]) == G.OUT0(TI(m), TI(j))))
    t.prove('the step is undone for the modules', S(G.OFF.fn([TI(m)]) == off - 1))
    t.prove('and for the network', G.net.offset == G.off - 1)
    r = index(G.nrec, 'recurrent connection')
    t.prove('recurrent connections are called once', S(G.rcalls.fn([TI(r)]) == 1))
    k = index(G.ins.total, 'k')
    t.prove('the input stays', at(G.x, k) == at(x0, k))


@task('C03', 'everything has arrived')
def _(t):
    """in a sorted graph nothing is delivered to a module after its turn"""
    G = Graph(t, FF, 'FeedForwardNetwork', 'forward')
    m = index(G.N, 'module')
    j = C.int('component')
    M, J = T(m), T(j)
    k = C.int('later module')
    C.assume(sym_and(k >= m, k < G.N))
    with supposing():
        q = C.int('q')
        P = lambda q: sym_implies(sym_and(q >= 0, q <= G.count(k)), S(G.SB(M, J, T(k), TI(q)) == 0))
        induction(t, 'no connection leads back', P, G.count(k))
        t.prove('a later module delivers nothing', S(G.SB(M, J, T(k), T(G.count(k))) == 0))
    C.forall(1, lambda k: S(z3.Implies(z3.And(TI(k) >= M, TI(k) < T(G.N)), G.SB(M, J, TI(k), T(G.count(k))) == 0)))
    d = G.N - m
    induction(t, 'nothing more arrives', lambda i: sym_implies(sym_and(i >= 0, i <= d), S(G.SA(M, J, M + TI(i)) == G.SA(M, J, M))), d)
    t.prove('the input is complete when the module is called', S(G.SA(M, J, T(G.N)) == G.SA(M, J, M)))


MODC = 'pybrain.structure.modules.module.Module.'
BUFS = (('inputbuffer', 'IN'), ('inputerror', 'IE'), ('outputbuffer', 'OUT'), ('outputerror', 'OE'))


def own_buffers(G):
    """the rows of the network itself"""
    net = G.net
    put(net, 'indim', G.ins.total)
    put(net, 'outdim', G.outs.total)
    own = {}
    for n, b in BUFS:
        own[n] = vec('own ' + n, G.T, G.ins.total if b[0] == 'I' else G.outs.total)
        put(net, n, own[n])
    put(net, 'bufferlist', SList([(n, G.ins.total if b[0] == 'I' else G.outs.total) for n, b in BUFS]))
    return own


def each_once(G, buf, what, L):
    return (what, All(1, lambda m: S(z3.Implies(node(G, m), buf.fn([TI(m)]) == z3.If(G.place(TI(m)) < TI(L.k), 1, 0)))))


def rows_of(G, L, after, upto=None):
    """rows of the modules dealt with so far are after(name, row index triple); the others as before"""
    r = []
    for n in ('IN', 'OUT', 'IE', 'OE'):
        d, now, then = (G.indim if n[0] == 'I' else G.outdim), getattr(G, n).fn, getattr(G, n + '_0')

        def clause(m, i, j, n=n, d=d, now=now, then=then):
            b = [TI(m), TI(i), TI(j)]
            return S(z3.Implies(z3.And(node(G, m), b[1] >= 0, b[1] < T(G.T), b[2] >= 0, b[2] < T(d(m))),
                                now(b) == (z3.If(G.place(b[0]) < TI(L.k), after(then, b), then(b)) if L is not None else after(then, b))))
        r.append(('rows of ' + n, All(3, clause)))
    return r


def all_rows(t, G, what, after):
    for n, c in rows_of(G, None, after):
        t.prove('%s: %s' % (what, n), c.goal())


def reset_loop(G):
    offset_loop(G)
    C.loop_specs[('Network.reset', 0)] = LoopSpec(lambda L: [each_once(G, G.mcalls, 'calls', L),
                                                             ('offsets', All(1, lambda m: S(z3.Implies(node(G, m), G.OFF.fn([TI(m)]) == 0))))] + rows_of(G, L, lambda f, b: z3.RealVal(0)),
                                                  modifies=lambda L: [G.IN, G.OUT, G.IE, G.OE, G.OFF, G.mcalls])


def own_zero(t, G, what):
    for n, b in BUFS:
        i, j = index(G.T, 'row'), index(G.ins.total if b[0] == 'I' else G.outs.total, 'j')
        t.prove('%s: the %s of the network is zero' % (what, n), at(getattr(G.net, n), i, j) == 0)


@task('C03', 'networks: reset', functions=[NW + '.Network.reset', MODC + 'reset'], limit=100)
def _(t):
    G = Graph(t, FF, 'FeedForwardNetwork', 'reset')
    own_buffers(G)
    reset_loop(G)
    t.call('reset', G.net.reset)
    all_rows(t, G, 'everything is zero', lambda f, b: z3.RealVal(0))
    own_zero(t, G, 'reset')
    m = index(G.N, 'module')
    t.prove('every module is reset once', S(G.mcalls.fn([T(m)])) == 1)
    t.prove('back to step 0', sym_and(S(G.OFF.fn([T(m)])) == 0, G.net.offset == 0))


@task('C03', 'networks: offset', functions=[NW + '.Network.__setOffset', NW + '.Network.__getOffset'], limit=100)
def _(t):
    G = Graph(t, FF, 'FeedForwardNetwork', 'offset')
    offset_loop(G)
    t.prove('the offset', G.net.offset == G.off)
    x = C.int('new offset')
    G.net.offset = x
    m = index(G.N, 'module')
    t.prove('every module follows', S(G.OFF.fn([T(m)])) == x)
    t.prove('reads back', G.net.offset == x)


@task('C03', 'networks: shift', functions=[NW + '.Network.shift', MODC + 'shift'], limit=200)
def _(t):
    G = Graph(t, FF, 'FeedForwardNetwork', 'shift')
    own = own_buffers(G)
    old = dict((n, own[n].copy()) for n in own)
    items = C.int('items', show=True)
    C.assume(sym_and(items <= G.T, items >= -G.T))
    offset_loop(G)
    it, T_ = TI(items), T(G.T)
    moved = lambda f, b: z3.If(z3.And(b[1] - it >= 0, b[1] - it < T_), f([b[0], b[1] - it, b[2]]), 0)
    C.loop_specs[('Network.shift', 0)] = LoopSpec(lambda L: [each_once(G, G.scalls, 'calls', L)] + rows_of(G, L, moved), modifies=lambda L: [G.IN, G.OUT, G.IE, G.OE, G.OFF, G.scalls])
    t.call('shift', G.net.shift, items)
    all_rows(t, G, 'rows move', moved)
    m = index(G.N, 'module')
    t.prove('every module is shifted once', S(G.scalls.fn([T(m)])) == 1)
    t.prove('the offset moves once', sym_and(S(G.OFF.fn([T(m)])) == G.off + items, G.net.offset == G.off + items))
    for n, b in BUFS:
        i, j = index(G.T, 'row'), index(G.ins.total if b[0] == 'I' else G.outs.total, 'j')
        t.prove('the %s of the network moves' % n, at(getattr(G.net, n), i, j) == ite(sym_and(i - items >= 0, i - items < G.T), at(old[n], i - items, j), 0))


@task('C03', 'networks: growing', functions=[NW + '.Network._growBuffers', MODC + '_growBuffers'], limit=100)
def _(t):
    G = Graph(t, FF, 'FeedForwardNetwork', 'grow')
    own = own_buffers(G)
    C.loop_specs[('Network._growBuffers', 0)] = LoopSpec(lambda L: [each_once(G, G.mcalls, 'calls', L)], modifies=lambda L: [G.mcalls])
    t.call('grow', G.net._growBuffers)
    m = index(G.N, 'module')
    t.prove('every module grows once', S(G.mcalls.fn([T(m)])) == 1)
    t.prove('the offset stays', G.net.offset == G.off)
    for n, b in BUFS:
        i, j = index(G.T, 'row'), index(G.ins.total if b[0] == 'I' else G.outs.total, 'j')
        t.prove('the %s of the network grows' % n, sym_and(getattr(G.net, n).shape[0] == 2 * G.T, at(getattr(G.net, n), i, j) == at(own[n], i, j)))


@task('C03', 'feed-forward networks: activate', functions=[FF + '.FeedForwardNetworkComponent.activate', MODC + 'activate', MODC + 'forward'], limit=100)
def _(t):
    G = Graph(t, FF, 'FeedForwardNetwork', 'activate')
    own_buffers(G)
    reset_loop(G)
    x, y = vec('x', G.ins.total), vec('y', G.outs.total)
    x0 = x.copy()
    runs = []

    def implementation(self, inbuf, outbuf):
        runs.append(1)
        with supposing():
            all_rows(t, G, 'when the network starts', lambda f, b: z3.RealVal(0))
            m = index(G.N, 'module')
            t.prove('when the network starts: step 0', sym_and(S(G.OFF.fn([T(m)])) == 0, G.net.offset == 0))
            k = index(G.ins.total, 'k')
            t.prove('the network works on the given input', at(inbuf, k) == at(x0, k))
        outbuf[:] = y
    t.cls(FF, 'FeedForwardNetwork')._forwardImplementation = implementation
    r = t.call('activate', G.net.activate, x)
    t.prove('the network runs once', runs == [1])
    k = index(G.outs.total, 'k')
    t.prove('its output is returned', sym_and(slen(r) == G.outs.total, at(r, k) == at(y, k)))
    k = index(G.ins.total, 'k')
    t.prove('the input stays', at(x, k) == at(x0, k))
    r[index(G.outs.total, 'k')] = 17
    k = index(G.outs.total, 'k')
    t.prove('the result is a copy', at(G.net.outputbuffer, 0, k) == at(y, k))
