"""Sequences of possibly symbolic length; lists, dicts and sets that record
mutations (so that loop bodies can be re-run and rolled back)."""
import z3
from .core import (C, Sym, S, SS, T, TR, TI, TB, Int, Real, Bool, Unsupported,
                   RealTypeError, ite, simp, merge2, pure, explore, sym_not, sym_and, sym_or, PathEnd)
from . import arr as A


def is_seq(x):
    return hasattr(x, '__pv_seq__')


class Seq(object):
    """immutable sequence: n, get(i)"""
    __pv_seq__ = True
    __pv_nonscalar__ = True

    def __init__(self, n, get):
        self.n = n if isinstance(n, int) else SS(T(n))
        self.get = get

    def __iter__(self):
        if not isinstance(self.n, int):
            raise Unsupported('native iteration over a sequence of symbolic length')
        return iter([self.get(i) for i in range(self.n)])

    def __len__(self):
        if not isinstance(self.n, int):
            raise Unsupported('native len')
        return self.n

    def __getitem__(self, i):
        if isinstance(i, slice):
            lo, cnt, st = A.norm_slice(i, self.n)
            return Seq(cnt, lambda j: self.get(SS(T(lo) + st * T(j))))
        return self.get(A.norm_index(i, self.n))

    def __contains__(self, x):
        return SList.coerce(self).__contains__(x)

    def pv_len(self):
        return self.n


def srange(*a):
    a = [A.as_dim(x) for x in a]
    if all(isinstance(x, int) for x in a):
        return range(*a)
    lo, hi, st = 0, None, 1
    if len(a) == 1:
        hi = a[0]
    elif len(a) == 2:
        lo, hi = a
    else:
        lo, hi, st = a
    if not isinstance(st, int):
        raise Unsupported('range with symbolic step')
    if st > 0:
        n = hi - lo if st == 1 else (hi - lo + (st - 1)) // st
    else:
        n = (lo - hi) if st == -1 else (lo - hi + (-st - 1)) // (-st)
    if not isinstance(n, int):
        if not C.entails(T(n) >= 0):
            if C.branch(T(n) < 0):
                n = 0
    elif n < 0:
        n = 0
    return Seq(n, lambda j: lo + st * j if not isinstance(j, int) or st != 1 else lo + j)


def seq_of(x):
    """iterable -> (n, get) ; concrete iterables give a python list"""
    if isinstance(x, SList):
        if x.items is not None:
            return len(x.items), list(x.items).__getitem__
        return x.n, x.get
    if isinstance(x, Seq):
        return x.n, x.get
    if isinstance(x, SSet):
        return x.enumeration()
    if isinstance(x, A.SArr):
        n = x._shape[0]
        snap = A.SArr.make(x._shape, x.snap(), x.kind) if x.ndim == 1 else x
        return n, (lambda i: snap.view(i, False) if x.ndim > 1 else S(snap.term([simp(T(i))])))
    l = list(x)
    return len(l), l.__getitem__


def is_symbolic(x):
    if isinstance(x, SList):
        return x.items is None and not isinstance(x.n, int)
    if isinstance(x, Seq):
        return not isinstance(x.n, int)
    if isinstance(x, SSet):
        return True
    if isinstance(x, A.SArr):
        return bool(x._shape) and not isinstance(x._shape[0], int)
    return False


def value_eq(a, b):
    """python ==, as a (possibly symbolic) truth value"""
    if a is b:
        return True
    r = (a == b)
    if isinstance(r, A.SArr):
        return bool(r)
    return r


class SList(object):
    """python list; concrete (items) or symbolic (n, get)"""
    __pv_seq__ = True
    __pv_nonscalar__ = True

    oplog = None

    def __init__(self, it=()):
        C.alloc += 1
        self.serial = C.alloc
        self.n = None
        self.get = None
        if is_symbolic(it):
            self.items = None
            self.n, self.get = seq_of(it)
        else:
            self.items = list(it)

    @staticmethod
    def from_fn(n, get):
        r = SList()
        if isinstance(n, int):
            r.items = [get(i) for i in range(n)]
        else:
            r.items, r.n, r.get = None, n, get
        return r

    @staticmethod
    def coerce(x):
        if isinstance(x, SList):
            return x
        n, get = seq_of(x)
        return SList.from_fn(n, get)

    def to_array(self):
        if self.items is not None:
            return A.from_list(self.items)
        k = z3.Int('probe~0')
        v = self.get(Sym(k))
        get = self.get
        if isinstance(v, A.SArr) or is_seq(v):
            v = A._unlist(v)

            def fn(idx):
                w = A._unlist(get(S(idx[0])))
                return w.term(list(idx[1:]))
            return A.SArr.make((self.n,) + v._shape, fn, v.kind)
        if not isinstance(v, (Sym, int, float)):
            raise Unsupported('array of %s' % type(v).__name__)
        kd = A.kind_of(T(v))
        return A.SArr.make((self.n,), lambda idx: A._coerce(kd, T(get(S(idx[0])))), kd)

    # -- state
    def state(self):
        return (self.items, self.n, self.get)

    def set_state(self, st):
        old = self.state()

        def undo():
            self.items, self.n, self.get = old
        C.log(undo)
        A.note_write(self)
        self.items, self.n, self.get = st

    def _mut(self):
        """log the old state (concrete list about to be changed in place)"""
        old = list(self.items) if self.items is not None else None
        o2 = (self.n, self.get)

        def undo():
            self.items = old
            self.n, self.get = o2
        C.log(undo)
        A.note_write(self)

    def pv_len(self):
        return len(self.items) if self.items is not None else self.n

    def __len__(self):
        if self.items is not None:
            return len(self.items)
        if isinstance(self.n, int):
            return self.n
        raise Unsupported('native len() of a symbolic list')

    def __bool__(self):
        n = self.pv_len()
        if isinstance(n, int):
            return n > 0
        return C.branch(T(n) > 0)

    def __iter__(self):
        if self.items is not None:
            return iter(self.items)       # live, like a python list
        if isinstance(self.n, int):
            return iter([self.get(i) for i in range(self.n)])
        raise Unsupported('native iteration over a symbolic list')

    def _idx(self, i):
        return A.norm_index(i, self.pv_len())

    def __getitem__(self, i):
        if isinstance(i, slice):
            if self.items is not None and not any(isinstance(x, (Sym, A.SArr)) for x in (i.start, i.stop, i.step)):
                return SList(self.items[_float_check(i)])
            n, get = self.pv_len(), self._getter()
            lo, cnt, st = A.norm_slice(i, n)
            return SList.from_fn(cnt, lambda j: get(SS(T(lo) + st * T(j))))
        i = _index(i)
        if self.items is not None and isinstance(i, int):
            return self.items[i]
        j = self._idx(i)
        return self._getter()(j)

    def _getter(self):
        if self.items is not None:
            items = list(self.items)

            def get(j):
                if isinstance(j, int):
                    return items[j]
                v = items[-1]
                for p in range(len(items) - 2, -1, -1):
                    v = merge2(simp(T(j) == p), items[p], v)
                return v
            return get
        return self.get

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            if i.start is None and i.stop is None and i.step is None:
                o = SList(v)
                self.set_state(o.state())
                return
            if self.items is not None and not is_symbolic(v):
                self._mut()
                self.items[_float_check(i)] = list(v)
                return
            raise Unsupported('slice assignment')
        i = _index(i)
        if self.items is not None and isinstance(i, int):
            self._mut()
            self.items[i] = v
            return
        j = self._idx(i)
        if self.items is not None:
            jt = T(j)
            self._mut()
            self.items = [merge2(simp(jt == p), v, x) for p, x in enumerate(self.items)]
            return
        get, jt = self.get, T(j)
        self.set_state((None, self.n, lambda q: merge2(simp(T(q) == jt), v, get(q))))

    def __delitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported('del slice')
        self.pop(i)

    def append(self, v):
        if self.items is not None:
            self._mut()
            self.items.append(v)
            return
        if self.oplog is not None:
            self.oplog.append(('append', v))
            if len(self.oplog) > 1:
                raise Unsupported('several list operations per iteration')
        n, get = T(self.n), self.get

        def g(j):
            c = simp(T(j) == n)
            if z3.is_true(c):
                return v
            if z3.is_false(c):
                return get(j)
            return merge2(c, v, get(j))
        self.set_state((None, SS(n + 1), g))

    def extend(self, o):
        if self.items is not None and not is_symbolic(o):
            self._mut()
            self.items.extend(list(o))
            return
        self.set_state((self + SList.coerce(o)).state())

    def insert(self, i, v):
        i = _index(i)
        if self.items is not None and isinstance(i, int):
            self._mut()
            self.items.insert(i, v)
            return
        n, get = self.pv_len(), self._getter()
        nt, it = T(n), T(i)
        if C.branch(it < 0):
            raise Unsupported('insert at a negative position')
        if C.branch(it > nt):
            it = nt
        self.set_state((None, SS(nt + 1), lambda j: _lazy_ite3(T(j), it, get, v)))

    def pop(self, i=-1):
        i = _index(i)
        if self.items is not None and isinstance(i, int):
            self._mut()
            return self.items.pop(i)
        n = self.pv_len()
        j = self._idx(i)
        get = self._getter()
        v = get(j)
        jt = T(j)
        self.set_state((None, SS(T(n) - 1),
                        lambda q: _lazy_sel(simp(T(q) < jt), lambda: get(q), lambda: get(SS(T(q) + 1)))))
        return v

    def remove(self, v):
        if self.items is not None:
            for p, x in enumerate(self.items):
                if value_eq(x, v):
                    self._mut()
                    del self.items[p]
                    return
            raise ValueError('list.remove(x): x not in list')
        raise Unsupported('remove from a symbolic list')

    def index(self, v):
        if self.items is not None:
            for p, x in enumerate(self.items):
                if value_eq(x, v):
                    return p
            raise ValueError('not in list')
        raise Unsupported('index in a symbolic list')

    def count(self, v):
        if self.items is None:
            from . import sums

            def one(k):
                e = value_eq(self.get(S(k)), v)
                return z3.If(TB(e), z3.IntVal(1), z3.IntVal(0))
            return S(sums.Sum(self.pv_len(), one))
        r = 0
        for x in self.items:
            e = value_eq(x, v)
            r = r + (e if isinstance(e, int) else S(TI(e)))
        return r

    def __contains__(self, v):
        if self.items is not None:
            for x in self.items:
                if value_eq(x, v):
                    return True
            return False
        if C.branch(T(self.n) <= 0):
            return False
        i = C.int('mem')
        get = self.get
        # exists or not: fork
        if C.choose():
            C.assume(sym_and(i >= 0, i < self.n, value_eq(get(i), v)))
            if not C.feasible(z3.BoolVal(True)):
                raise PathEnd()
            return True
        n = T(self.n)
        C.forall(1, lambda j: z3.Implies(z3.And(T(j) >= 0, T(j) < n), z3.Not(TB(value_eq(get(j), v)))))
        return False

    def reverse(self):
        if self.items is not None:
            self._mut()
            self.items.reverse()
            return
        n, get = T(self.n), self.get
        self.set_state((None, self.n, lambda j: get(SS(n - 1 - T(j)))))

    def sort(self, key=None, reverse=False, cmp=None):
        if cmp is not None:
            raise RealTypeError("'cmp' is an invalid keyword argument for sort()")
        r = ssorted(self, key=key, reverse=reverse)
        self.set_state(r.state())
        if r.items is None:
            self.perm = r.perm

    def copy(self):
        return SList(self)

    def clear(self):
        self.set_state(([], None, None))

    def __add__(self, o):
        if not isinstance(o, SList):
            if isinstance(o, list):
                o = SList(o)
            else:
                return NotImplemented
        if self.items is not None and o.items is not None:
            return SList(self.items + o.items)
        n, m = self.pv_len(), o.pv_len()
        g, h = self._getter(), o._getter()
        nt = T(n)
        if isinstance(n, int) and n == 0:
            return SList.from_fn(m, h)
        if isinstance(m, int) and m == 0:
            return SList.from_fn(n, g)
        return SList.from_fn(SS(nt + T(m)),
                             lambda j: _lazy_sel(simp(T(j) < nt), lambda: g(j), lambda: h(SS(T(j) - nt))))

    def __radd__(self, o):
        if isinstance(o, list):
            return SList(o) + self
        return NotImplemented

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __mul__(self, k):
        if self.items is not None and isinstance(k, int):
            return SList(self.items * k)
        if self.items is not None and len(self.items) == 1 and isinstance(k, Sym):
            v = self.items[0]
            n = k
            if C.branch(T(k) < 0):
                n = 0
            return SList.from_fn(n, lambda j: v)
        raise Unsupported('list repetition')
    __rmul__ = __mul__

    def __eq__(self, o):
        if not is_seq(o) and not isinstance(o, list):
            return False
        o = SList.coerce(o)
        n, m = self.pv_len(), o.pv_len()
        if isinstance(n, int) and isinstance(m, int):
            if n != m:
                return False
            r = True
            for x, y in zip(self, o):
                e = value_eq(x, y)
                if e is False:
                    return False
                r = sym_and(r, e)
            return r
        if isinstance(n, int) and n == 0 or isinstance(m, int) and m == 0:
            return S(simp(T(n) == T(m)))
        raise Unsupported('list equality')

    def __ne__(self, o):
        r = self.__eq__(o)
        return sym_not(r)

    def __lt__(self, o):
        return tuple(self) < tuple(o)

    def __hash__(self):
        raise RealTypeError("unhashable type: 'list'")

    def __repr__(self):
        return 'SList(%s)' % (self.items if self.items is not None else 'n=%s' % (self.n,))

    def __format__(self, s):
        return '<list>'

    def __deepcopy__(self, memo):
        import copy
        if self.items is not None:
            r = SList()
            memo[id(self)] = r
            r.items = [copy.deepcopy(x, memo) for x in self.items]
            return r
        return SList(self)

    def __pv_merge__(self, c, o):
        if not isinstance(o, SList):
            raise Unsupported('merge list')
        n, m = self.pv_len(), o.pv_len()
        if self.items is not None and o.items is not None and n == m:
            return SList([merge2(c, a, b) for a, b in zip(self.items, o.items)])
        g, h = self._getter(), o._getter()
        if isinstance(n, int) and n == 0:
            return SList.from_fn(ite(S(c), 0, m), h)
        if isinstance(m, int) and m == 0:
            return SList.from_fn(ite(S(c), n, 0), g)
        return SList.from_fn(ite(S(c), n, m), lambda j: merge2(c, g(j), h(j)))


def _lazy_sel(c, f, g):
    if z3.is_true(c):
        return f()
    if z3.is_false(c):
        return g()
    return merge2(c, f(), g())


def _lazy_ite3(j, i, get, v):
    return _lazy_sel(simp(j == i), lambda: v,
                     lambda: _lazy_sel(simp(j < i), lambda: get(S(j)), lambda: get(SS(j - 1))))


def _index(i):
    if isinstance(i, A.SArr):
        if i.kind == 'R':
            raise RealTypeError('only integer scalar arrays can be converted to a scalar index')
        i = i.item()
    if isinstance(i, float) or (isinstance(i, Sym) and not i.is_int and not i.is_bool):
        raise RealTypeError('list indices must be integers or slices, not float')
    if isinstance(i, Sym) and i.is_bool:
        return S(TI(i))
    return i


def _float_check(s):
    for x in (s.start, s.stop, s.step):
        if isinstance(x, float):
            raise RealTypeError('slice indices must be integers or None or have an __index__ method')
    return s


# ---------------------------------------------------------------- dict / set with undo

class TDict(dict):
    def _mut(self):
        old = dict(self)

        def undo():
            dict.clear(self)
            dict.update(self, old)
        C.log(undo)
        A.note_write(self)

    def __setitem__(self, k, v):
        self._mut()
        dict.__setitem__(self, k, v)

    def __delitem__(self, k):
        self._mut()
        dict.__delitem__(self, k)

    def update(self, *a, **k):
        self._mut()
        dict.update(self, *a, **k)

    def pop(self, *a):
        self._mut()
        return dict.pop(self, *a)

    def popitem(self):
        self._mut()
        return dict.popitem(self)

    def clear(self):
        self._mut()
        dict.clear(self)

    def setdefault(self, k, v=None):
        self._mut()
        return dict.setdefault(self, k, v)

    def copy(self):
        return TDict(self)


class TSet(set):
    def _mut(self):
        old = set(self)

        def undo():
            set.clear(self)
            set.update(self, old)
        C.log(undo)
        A.note_write(self)

    def add(self, x):
        self._mut()
        set.add(self, x)

    def update(self, *a):
        self._mut()
        set.update(self, *[list(x) for x in a])

    def remove(self, x):
        self._mut()
        set.remove(self, x)

    def discard(self, x):
        self._mut()
        set.discard(self, x)

    def difference_update(self, *a):
        self._mut()
        set.difference_update(self, *[list(x) for x in a])

    def clear(self):
        self._mut()
        set.clear(self)

    def pop(self):
        self._mut()
        return set.pop(self)

    def copy(self):
        return TSet(self)


class SSet(object):
    """a set of integers known by its membership predicate and its size"""
    __pv_nonscalar__ = True

    def __init__(self, it=()):
        C.alloc += 1
        self.serial = C.alloc
        self.mem, self.n, self.enum = (lambda x: z3.BoolVal(False)), z3.IntVal(0), None
        if is_symbolic(it):
            if isinstance(it, SSet):
                self.mem, self.n, self.enum = it.mem, it.n, it.enum
            else:
                self._from_seq(*seq_of(it))
        else:
            for x in it:
                self.add(x)

    def _from_seq(self, n, get):
        nt = T(n)
        w = C.fun('where', Int, Int)
        at = lambda i: TI(get(S(i)))
        self.mem = lambda x: z3.And(w(x) >= 0, w(x) < nt, at(w(x)) == x)
        C.forall(1, lambda j: z3.Implies(z3.And(T(j) >= 0, T(j) < nt), self_mem(at(T(j)))))
        self_mem = self.mem
        m, a, b = z3.Int(C.fresh_name('card')), z3.Int(C.fresh_name('dup')), z3.Int(C.fresh_name('dup'))
        C.pc.append(z3.And(m >= 0, m <= nt, z3.Implies(nt > 0, m > 0)))
        C.pc.append(z3.Or(m == nt, z3.And(a >= 0, a < b, b < nt, at(a) == at(b))))
        self.n = m

    @staticmethod
    def fresh(name='set'):
        f = C.fun(name, Int, Bool)
        n = z3.Int(C.fresh_name('card'))
        C.pc.append(n >= 0)
        r = SSet()
        r.mem, r.n = (lambda x: f(x)), n
        return r

    def state(self):
        return (self.mem, self.n, self.enum)

    def set_state(self, st):
        old = self.state()

        def undo():
            self.mem, self.n, self.enum = old
        C.log(undo)
        A.note_write(self)
        self.mem, self.n, self.enum = st

    def enumeration(self):
        if self.enum is None:
            e, p = C.fun('enum', Int, Int), C.fun('place', Int, Int)
            mem, n = self.mem, self.n
            C.forall(1, lambda j: z3.Implies(z3.And(T(j) >= 0, T(j) < n), z3.And(mem(e(T(j))), p(e(T(j))) == T(j))))
            C.forall(1, lambda x: z3.Implies(mem(T(x)), z3.And(p(T(x)) >= 0, p(T(x)) < n, e(p(T(x))) == T(x))))
            self.enum = (S(n), lambda i: S(e(T(i))))
            self.place = p
        return self.enum

    def has(self, x):
        return S(simp(self.mem(TI(x))))

    def __contains__(self, x):
        return C.branch(self.mem(TI(x)))

    def pv_len(self):
        return S(self.n)

    def __len__(self):
        raise Unsupported('len of a symbolic set used as a number')

    def __bool__(self):
        self.enumeration()
        return C.branch(self.n > 0)

    def add(self, x):
        x, mem, n = TI(x), self.mem, self.n
        self.set_state((lambda y: z3.Or(y == x, mem(y)), simp(z3.If(mem(x), n, n + 1)), None))

    def remove(self, x):
        x, mem, n = TI(x), self.mem, self.n
        if not C.branch(mem(x)):
            raise KeyError(S(x))
        self.set_state((lambda y: z3.And(y != x, mem(y)), simp(n - 1), None))

    def discard(self, x):
        if x in self:
            self.remove(x)

    def _other(self, o):
        return o if isinstance(o, SSet) else SSet(o)

    def _join(self, o):
        o = self._other(o)
        f, g = self.mem, o.mem
        c, m = z3.Int(C.fresh_name('common')), z3.Int(C.fresh_name('card'))
        C.pc.append(z3.And(m >= self.n, m >= o.n, m <= self.n + o.n))
        C.pc.append(z3.Or(m == self.n + o.n, z3.And(f(c), g(c))))
        return (lambda x: z3.Or(f(x), g(x))), m, None

    def _minus(self, o):
        o = self._other(o)
        f, g = self.mem, o.mem
        c, m = z3.Int(C.fresh_name('outside')), z3.Int(C.fresh_name('card'))
        C.pc.append(z3.And(m >= 0, m >= self.n - o.n, m <= self.n))
        C.pc.append(z3.Or(m == self.n - o.n, z3.And(g(c), z3.Not(f(c)))))
        return (lambda x: z3.And(f(x), z3.Not(g(x)))), m, None

    def _meet(self, o):
        o = self._other(o)
        f, g = self.mem, o.mem
        m = z3.Int(C.fresh_name('card'))
        C.pc.append(z3.And(m >= 0, m <= o.n, m <= self.n))
        return (lambda x: z3.And(f(x), g(x))), m, None

    def __ior__(self, o):
        self.set_state(self._join(o))
        return self

    update = lambda self, *os: [self.set_state(self._join(o)) for o in os] and None

    def __isub__(self, o):
        self.set_state(self._minus(o))
        return self

    difference_update = lambda self, o: self.set_state(self._minus(o))

    def _new(self, st):
        r = SSet()
        r.mem, r.n, r.enum = st
        return r

    def __or__(self, o):
        return self._new(self._join(o))

    union = __or__

    def __sub__(self, o):
        return self._new(self._minus(o))

    difference = __sub__

    def __and__(self, o):
        return self._new(self._meet(o))

    intersection = __and__

    def copy(self):
        return SSet(self)

    def __pv_merge__(self, c, o):
        if not isinstance(o, SSet):
            raise Unsupported('merge of a set')
        f, g = self.mem, o.mem
        return self._new(((lambda x: z3.If(c, f(x), g(x))), simp(z3.If(c, self.n, o.n)), None))

    def clear(self):
        self.set_state(((lambda x: z3.BoolVal(False)), z3.IntVal(0), None))

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)


# ---------------------------------------------------------------- builtins over sequences

def slen(x):
    if isinstance(x, (SList, Seq, SSet)):
        return x.pv_len()
    if isinstance(x, A.SArr):
        if not x._shape:
            raise RealTypeError('len() of unsized object')
        return x._shape[0]
    if getattr(type(x), '__pv_nonscalar__', False) and hasattr(x, 'pv_len'):
        return x.pv_len()
    m = getattr(type(x), '__len__', None)
    if m is not None and getattr(type(x), '__module__', '').startswith('pybrain'):
        return x.__len__()
    return len(x)


def senumerate(x, start=0):
    if is_symbolic(x):
        n, get = seq_of(x)
        return Seq(n, lambda i: (i + start if start else i, get(i)))
    return enumerate(x, start)


def szip(*xs):
    if any(is_symbolic(x) for x in xs):
        parts = [seq_of(x) for x in xs]
        n = parts[0][0]
        for m, _ in parts[1:]:
            if simp(T(m)).eq(simp(T(n))) or C.entails(T(m) == T(n)):
                continue
            n = m if C.branch(T(m) < T(n)) else n
        return Seq(n, lambda i: tuple(g(i) for _, g in parts))
    return zip(*xs)


def sreversed(x):
    if is_symbolic(x):
        n, get = seq_of(x)
        nt = T(n)
        return Seq(n, lambda i: get(SS(nt - 1 - T(i))))
    if isinstance(x, SList):
        return reversed(x.items)
    if isinstance(x, Seq):
        return reversed(list(x))
    return reversed(x)


def lazy_map(n, get, f):
    """pointwise image; evaluated at a generic index now, at instances later"""
    return SList.from_fn(n, lambda i: pure(lambda: f(get(i))))


def smap(f, *xs):
    if any(is_symbolic(x) for x in xs):
        if len(xs) == 1:
            n, get = seq_of(xs[0])
            return freeze(n, get, f)
        z = szip(*xs)
        return freeze(z.n, z.get, lambda t: f(*t))
    return SList(map(f, *[list(x) for x in xs]))


def freeze(n, get, f):
    """[f(get(i)) for i < n], evaluated eagerly at a generic index"""
    k = z3.Int(C.fresh_name('ix'))
    saved = C.pc
    C.pc = list(saved) + [k >= 0, k < T(n)]
    try:
        v = pure(lambda: f(get(Sym(k))))
    finally:
        extra = C.pc[len(saved) + 2:]
        C.pc = saved
    if extra:
        # facts learnt on the way hold for every element
        fs = z3.And(*extra)
        nt = T(n)
        C.forall(1, lambda j: z3.Implies(z3.And(T(j) >= 0, T(j) < nt), z3.substitute(fs, (k, T(j)))))
    return SList.from_fn(n, lambda i: subst_value(v, k, T(i)))


def subst_value(v, k, t):
    if isinstance(v, Sym):
        return SS(z3.substitute(v.t, (k, t)))
    if isinstance(v, tuple):
        return tuple(subst_value(x, k, t) for x in v)
    if isinstance(v, A.SArr):
        g = v.snap()
        ph = [z3.Int('sv~%d' % i) for i in range(v.ndim)]

        def fn(idx):
            b = z3.substitute(g(ph), (k, t))
            return z3.substitute(b, *list(zip(ph, idx))) if ph else b
        return A.SArr.make([subst_value(s, k, t) for s in v._shape], fn, v.kind)
    if isinstance(v, SList):
        if v.items is not None:
            return SList([subst_value(x, k, t) for x in v.items])
        return SList.from_fn(subst_value(v.n, k, t), lambda i: subst_value(v.get(i), k, t))
    if isinstance(v, Seq):
        return Seq(subst_value(v.n, k, t), lambda i: subst_value(v.get(i), k, t))
    if hasattr(v, '__pv_subst__'):
        return v.__pv_subst__(k, t)
    return v


def ssum(x, start=0):
    if isinstance(x, A.SArr):
        if x.ndim == 1:
            r = A.asum(x)
            return r if (isinstance(start, int) and start == 0) else r + start
        r = A.asum(x, 0)
        return r if (isinstance(start, int) and start == 0) else r + start
    if is_symbolic(x):
        from . import sums
        n, get = seq_of(x)
        k = z3.Int('probe~0')
        v = get(Sym(k))
        if isinstance(v, (Sym, int, float)):
            r = S(sums.Sum(n, lambda j: TI(get(Sym(j)))))
            return r if (isinstance(start, int) and start == 0) else r + start
        if isinstance(v, A.SArr):
            nn = n
            return A.SArr.make(v._shape, lambda idx: TR(sums.Sum(nn, lambda j: TR(get(Sym(j)).term(list(idx))))))
        raise Unsupported('sum of %s' % type(v).__name__)
    r = start
    for v in x:
        r = r + v
    return r


def _minmax(sign, name):
    def f(*a, **kw):
        key = kw.get('key')
        if len(a) == 1:
            x = a[0]
            if is_symbolic(x):
                if key is not None:
                    raise Unsupported('max with key over a symbolic sequence')
                if isinstance(x, A.SArr) and x.ndim == 1:
                    return A._extremum(x, sign)[0]
                return A._extremum(SList.coerce(x).to_array(), sign)[0]
            items = list(x)
            if not items:
                if 'default' in kw:
                    return kw['default']
                raise ValueError('%s() arg is an empty sequence' % name)
        else:
            items = list(a)
        best = items[0]
        kb = key(best) if key else best
        for v in items[1:]:
            kv = key(v) if key else v
            c = (kv > kb) if sign > 0 else (kv < kb)
            if isinstance(c, Sym) and isinstance(v, (Sym, int, float)) and isinstance(best, (Sym, int, float)) \
                    and not A._isinf(v) and not A._isinf(best) and not A._isinf(kv) and not A._isinf(kb):
                best = ite(c, v, best)
                kb = ite(c, kv, kb) if key else best
            elif c:
                best, kb = v, kv
        return best
    f.__name__ = name
    return f


smax = _minmax(+1, 'max')
smin = _minmax(-1, 'min')


def sany(x):
    if is_symbolic(x):
        n, get = seq_of(x)
        v = z3.Int(C.fresh_name('qa'))
        return S(z3.Exists([v], z3.And(v >= 0, v < T(n), TB(get(Sym(v))))))
    for v in x:
        if v:
            return True
    return False


def sall(x):
    if is_symbolic(x):
        n, get = seq_of(x)
        v = z3.Int(C.fresh_name('qa'))
        return S(z3.ForAll([v], z3.Implies(z3.And(v >= 0, v < T(n)), TB(get(Sym(v))))))
    for v in x:
        if not v:
            return False
    return True


def _lex(a, b):
    """(a <= b, a == b) of numbers or tuples of numbers"""
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        if not a:
            return z3.BoolVal(True), z3.BoolVal(True)
        le, eq = _lex(a[0], b[0])
        le2, eq2 = _lex(a[1:], b[1:])
        return z3.Or(z3.And(le, z3.Not(eq)), z3.And(eq, le2)), z3.And(eq, eq2)
    if not all(isinstance(v, (Sym, int, float)) for v in (a, b)):
        raise Unsupported('symbolic sort on keys of type %s' % type(a).__name__)
    return TB(a <= b), TB(S(simp(TR(a) == TR(b))))


def ssorted(x, key=None, reverse=False, cmp=None):
    if cmp is not None:
        raise RealTypeError("'cmp' is an invalid keyword argument for sort()")
    if not is_symbolic(x):
        items = list(x)
        keys = [key(v) if key else v for v in items]
        if any(isinstance(k, Sym) or (isinstance(k, tuple) and any(isinstance(q, Sym) for q in k)) for k in keys):
            # insertion sort, forking on comparisons (stable)
            out = []
            for v, k in zip(items, keys):
                p = len(out)
                while p > 0 and ((out[p - 1][1] < k) if reverse else (k < out[p - 1][1])):
                    p -= 1
                out.insert(p, (v, k))
            return SList([v for v, _ in out])
        return SList(sorted(items, key=key, reverse=reverse) if key else sorted(items, reverse=reverse))
    # symbolic: an unknown permutation that orders the keys, stable
    n, get = seq_of(x)
    p = C.fun('perm', Int, Int)
    q = C.fun('perminv', Int, Int)
    nt = T(n)
    kf = (lambda i: pure(lambda: key(get(i)))) if key else get

    def fact(i):
        i = T(i)
        return z3.Implies(z3.And(i >= 0, i < nt),
                          z3.And(p(i) >= 0, p(i) < nt, q(i) >= 0, q(i) < nt, p(q(i)) == i, q(p(i)) == i))
    C.forall(1, fact)

    def order(i, j):
        i, j = T(i), T(j)
        a, b = kf(S(p(i))), kf(S(p(j)))
        le, same = _lex(b, a) if reverse else _lex(a, b)
        return z3.Implies(z3.And(i >= 0, i < j, j < nt),
                          z3.And(le, z3.Implies(same, p(i) < p(j))))
    try:
        C.forall(2, order)
        order(Sym(z3.Int('probe~0')), Sym(z3.Int('probe~1')))
    except Unsupported:
        raise
    r = SList.from_fn(n, lambda i: get(S(p(T(i)))))
    r.perm = (p, q, fact, order)
    C.ghost.setdefault('sorts', []).append(r.perm)
    return r


def slist(x=()):
    return SList(x)


def stuple(x=()):
    if is_symbolic(x):
        n, get = seq_of(x)
        return Seq(n, get)
    return tuple(x)
