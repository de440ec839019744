"""Dictionaries and sets whose keys are integers or tuples of integers, of any size: known by
the predicate of their keys and the function of their values. Text values (marks) are numbers
of their own (see `code`)."""
import z3
from .core import C, Sym, S, T, TI, TB, Int, Bool, Unsupported, simp, sym_and
from . import arr as A

MARKS = {}


def code(v):
    if isinstance(v, str):
        if v not in MARKS:
            MARKS[v] = 1000 + len(MARKS)
        return z3.IntVal(MARKS[v])
    return TI(v)


def ints(key):
    """the integers a key consists of (None: not such a key)"""
    if isinstance(key, tuple):
        r = []
        for x in key:
            if isinstance(x, Sym) or isinstance(x, int):
                r.append(TI(x))
            else:
                return None
        return r
    if isinstance(key, (Sym, int)):
        return [TI(key)]
    return None


def same(xs, ys):
    return z3.And(*[x == y for x, y in zip(xs, ys)]) if len(xs) > 1 else xs[0] == ys[0]


def key_of(xs):
    return tuple(S(x) for x in xs) if len(xs) > 1 else S(xs[0])


class Base(object):
    __pv_nonscalar__ = True

    def __init__(self):
        C.alloc += 1
        self.serial = C.alloc

    def set_state(self, st):
        old = self.state

        def undo():
            self.state = old
        C.log(undo)
        A.note_write(self)
        self.state = st

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o


class PMap(Base):
    """key -> integer. state: (dom, val); `count`: number of keys whose value is not `blank`
    (a ghost counter, kept when `blank` is given)"""

    def __init__(self, dom, val, nk=None, blank=None, count=None):
        Base.__init__(self)
        self.nk, self.blank = nk, blank
        self.state = (dom, val, count)

    @staticmethod
    def empty():
        r = PMap(lambda *k: z3.BoolVal(False), lambda *k: z3.IntVal(0))
        return r

    dom = property(lambda self: self.state[0])
    val = property(lambda self: self.state[1])
    count = property(lambda self: self.state[2])

    def _key(self, key):
        k = ints(key)
        if k is None:
            return None
        if self.nk is None:
            self.nk = len(k)
        return k if len(k) == self.nk else None

    def __contains__(self, key):
        k = self._key(key)
        return k is not None and C.branch(TB(self.dom(*k)))

    def __getitem__(self, key):
        k = self._key(key)
        if k is None or not C.branch(TB(self.dom(*k))):
            raise KeyError(key)
        return S(simp(self.val(*k)))

    def get(self, key, default=None):
        return self[key] if key in self else default

    def __setitem__(self, key, v):
        k = self._key(key)
        if k is None:
            raise Unsupported('key of a symbolic dictionary: %r' % (key,))
        dom, val, cnt = self.state
        v = code(v)
        if cnt is not None:
            full = lambda t: z3.If(t != code(self.blank), 1, 0)
            cnt = simp(cnt + full(v) - z3.If(dom(*k), full(val(*k)), 0))
        self.set_state((lambda *x: z3.Or(same(x, k), dom(*x)), lambda *x: z3.If(same(x, k), v, val(*x)), cnt))

    def __delitem__(self, key):
        k = self._key(key)
        if k is None or not C.branch(TB(self.dom(*k))):
            raise KeyError(key)
        dom, val, cnt = self.state
        if cnt is not None:
            raise Unsupported('removal from a counted dictionary')
        self.set_state((lambda *x: z3.And(z3.Not(same(x, k)), dom(*x)), val, cnt))

    def keys(self):
        from .seq import Seq
        nk, dom = self.nk, self.dom
        e = [C.fun('key', Int, Int) for _ in range(nk)]
        p = C.fun('place', *([Int] * (nk + 1)))
        n = C.int('keys')
        C.assume(n >= 0)
        elt = lambda i: [f(TI(i)) for f in e]
        C.forall(1, lambda j: z3.Implies(z3.And(TI(j) >= 0, TI(j) < T(n)), z3.And(TB(dom(*elt(j))), p(*elt(j)) == TI(j))))
        C.forall(nk, lambda *x: z3.Implies(TB(dom(*[TI(y) for y in x])), z3.And(p(*[TI(y) for y in x]) >= 0, p(*[TI(y) for y in x]) < T(n),
                                                                               *[f(p(*[TI(y) for y in x])) == TI(y) for f, y in zip(e, x)])))
        s = Seq(n, lambda i: key_of(elt(i)))
        C.ghost.setdefault('keys', []).append((e, p, n))
        return s

    def __iter__(self):
        return self.keys()

    def pv_len(self):
        raise Unsupported('size of a symbolic dictionary')


class PSet(Base):
    """a set of keys, known by its membership predicate"""

    def __init__(self, mem):
        Base.__init__(self)
        self.state = mem

    mem = property(lambda self: self.state)

    @staticmethod
    def of(o, nk=None):
        """the set of the elements of anything"""
        from .seq import seq_of, is_symbolic
        if isinstance(o, (PSet, View)):
            return o.mem
        if isinstance(o, (set, frozenset)):
            o = list(o)
        if not is_symbolic(o):
            ks = [ints(x) for x in seq_list(o)]
            if any(k is None for k in ks):
                raise Unsupported('elements of a symbolic set')
            return lambda *x: z3.Or(*[same(x, k) for k in ks]) if ks else z3.BoolVal(False)
        n, get = seq_of(o)
        cd = lambda i: z3.BoolVal(True)
        src = getattr(o, 'src', None)
        if src is not None and o.items is None and all(a is b for a, b in zip(o.state(), src[1])):
            # a selection (not changed since): those elements of the source that are selected
            n, cd, get = src[0]
        probe = ints(get(C.int('probe')))
        if probe is None:
            raise Unsupported('elements of a symbolic set')
        w = C.fun('where', *([Int] * (len(probe) + 1)))
        el = lambda i: ints(get(S(i)))
        inside = lambda j: z3.And(j >= 0, j < T(n), cd(j))
        C.forall(1, lambda j: z3.Implies(inside(TI(j)), z3.And(inside(w(*el(TI(j)))), same(el(w(*el(TI(j)))), el(TI(j))))),
                 pattern=lambda j: [el(j)] if all(z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() for x in el(j)) else [])
        return lambda *x: z3.And(inside(w(*x)), same(el(w(*x)), x))

    def __contains__(self, key):
        k = ints(key)
        return k is not None and C.branch(TB(self.mem(*k)))

    def pv_len(self):
        return size(self.mem, 2)

    def has(self, *k):
        return S(simp(TB(self.mem(*[TI(x) for x in k]))))

    def update(self, *os):
        for o in os:
            f, g = self.mem, PSet.of(o)
            self.set_state(lambda *x, f=f, g=g: z3.Or(f(*x), g(*x)))

    def difference_update(self, *os):
        for o in os:
            f, g = self.mem, PSet.of(o)
            self.set_state(lambda *x, f=f, g=g: z3.And(f(*x), z3.Not(g(*x))))

    def add(self, key):
        self.update([key])

    def discard(self, key):
        self.difference_update([key])

    def remove(self, key):
        if key not in self:
            raise KeyError(key)
        self.difference_update([key])

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __bool__(self):
        return C.branch(T(self.pv_len()) > 0)


def seq_list(o):
    from .seq import SList
    return o.items if isinstance(o, SList) else list(o)


def size(mem, nk):
    """the number of elements, as far as 0, 1 and more go"""
    n = C.int('size')
    a = [C.int('one') for _ in range(nk)]
    b = [C.int('two') for _ in range(nk)]
    A_, B_ = [T(x) for x in a], [T(x) for x in b]
    C.pc.append(T(n) >= 0)
    C.pc.append(z3.Implies(T(n) >= 1, TB(mem(*A_))))
    C.pc.append(z3.Implies(T(n) >= 2, z3.And(TB(mem(*A_)), TB(mem(*B_)), z3.Not(same(A_, B_)))))
    pat = lambda *x: [[t] for t in [z3.simplify(TB(mem(*x)))] if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED]
    C.forall(nk, lambda *x: z3.Implies(TB(mem(*[TI(y) for y in x])), T(n) >= 1), pattern=pat)
    C.forall(nk, lambda *x: z3.Implies(z3.And(TB(mem(*[TI(y) for y in x])), T(n) == 1), same([TI(y) for y in x], A_)), pattern=pat)
    return n


class SetMap(Base):
    """number -> set of keys. state: (dom(g), mem(g, *key))"""

    def __init__(self, dom, mem, nk=2):
        Base.__init__(self)
        self.nk = nk
        self.state = (dom, mem)

    dom = property(lambda self: self.state[0])
    mem = property(lambda self: self.state[1])

    def __contains__(self, g):
        k = ints(g)
        return k is not None and len(k) == 1 and C.branch(TB(self.dom(k[0])))

    def __getitem__(self, g):
        k = ints(g)
        if k is None or not C.branch(TB(self.dom(k[0]))):
            raise KeyError(g)
        return View(self, k[0])

    def __setitem__(self, g, s):
        g = ints(g)[0]
        if not isinstance(s, PSet) or s.__dict__.get('owned'):
            if isinstance(s, View) and s.map is self and s.g.eq(g):
                return
            raise Unsupported('a set kept in two places')
        s.owned = True
        (dom, mem), f = self.state, s.mem
        self.set_state((lambda x: z3.Or(x == g, dom(x)), lambda x, *k: z3.If(x == g, f(*k), mem(x, *k))))

    def __delitem__(self, g):
        g = ints(g)[0]
        if not C.branch(TB(self.dom(g))):
            raise KeyError(S(g))
        dom, mem = self.state
        self.set_state((lambda x: z3.And(x != g, dom(x)), mem))

    def pop(self, g):
        v = self[g]
        f = v.mem
        del self[g]
        return PSet(f)


class View(PSet):
    """one of the sets of a SetMap"""

    def __init__(self, m, g):
        self.map, self.g, self.serial = m, g, m.serial
        at = m.mem
        self.__dict__['seen'] = at

    @property
    def mem(self):
        f, g = self.map.mem, self.g
        return lambda *x: f(g, *x)

    def pv_len(self):
        return size(self.mem, self.map.nk)

    def set_state(self, f):
        m, g = self.map, self.g
        dom, mem = m.state
        m.set_state((dom, lambda x, *k: z3.If(x == g, f(*k), mem(x, *k))))
