"""Loads pybrain's real source (from $PYVC_REPO or /repo, read on every run) through
transform.py with shadow builtins and shadow numpy/scipy/random/math.

Dropped by the extraction: print() and logging calls do nothing."""
import os
import sys
import types
import itertools
import operator
import functools
import collections
import z3
from .core import (C, Sym, S, SS, T, TR, TI, TB, Int, Real, Bool, Unsupported, RealTypeError,
                   ite, simp, sym_pow, py_int, pure, PathEnd, sym_implies, sym_and, sym_or, sym_not)
from . import arr as A
from . import seq as Q
from . import runtime as R
from . import transform
from .seq import SList, TDict, TSet, Seq

REPO = os.environ.get('PYVC_REPO', '/repo')


# ------------------------------------------------------------------ shadow types

class ShadowType(object):
    def __init__(self, name, check, make, base):
        self.__name__ = name
        self.__pv_type__ = name
        self._check, self._make, self._base = check, make, base

    def __call__(self, *a, **k):
        return self._make(*a, **k)

    def __instancecheck__(self, x):
        return self._check(x)

    def __subclasscheck__(self, c):
        return c is self or (isinstance(c, type) and issubclass(c, self._base))

    def __mro_entries__(self, bases):
        return (self._base,)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(self._base, n)

    def __eq__(self, o):
        return self is o or o is self._base

    def __hash__(self):
        return hash(self.__name__)

    def __repr__(self):
        return "<class '%s'>" % self.__name__


def _int_make(x=0, *a):
    if isinstance(x, A.SArr):
        x = x.item()
    if isinstance(x, Sym):
        return SS(py_int(x.t))
    return int(x, *a)


def _float_make(x=0.0):
    if isinstance(x, A.SArr):
        x = x.item()
    if isinstance(x, Sym):
        return SS(TR(x))
    if x is None or isinstance(x, (list, tuple, SList)):
        raise RealTypeError('float() argument')
    return float(x)


def _bool_make(x=False):
    if isinstance(x, Sym):
        return SS(TB(x))
    return bool(x)


def _isint(x):
    return (isinstance(x, int)) or (isinstance(x, Sym) and (x.is_int or x.is_bool))


sh_int = ShadowType('int', _isint, _int_make, int)
sh_float = ShadowType('float', lambda x: isinstance(x, float) or (isinstance(x, Sym) and x.t.sort() == Real),
                      _float_make, float)
sh_bool = ShadowType('bool', lambda x: isinstance(x, bool) or (isinstance(x, Sym) and x.is_bool), _bool_make, bool)
sh_list = ShadowType('list', lambda x: isinstance(x, (list, SList)), Q.slist, SList)
sh_tuple = ShadowType('tuple', lambda x: isinstance(x, tuple), Q.stuple, tuple)


def _dict_make(*a, **k):
    return TDict(*a, **k)


def _dict_display(d):
    if not d and C.ghost.get('dict factory'):
        return C.ghost['dict factory']()
    if not d and C.ghost.get('symbolic dicts'):
        from .maps import PMap
        return PMap.empty()
    return TDict(d)


def _set_make(*a):
    if C.ghost.get('symbolic dicts'):
        from .maps import PSet
        return PSet(PSet.of(a[0]) if a else (lambda *x: z3.BoolVal(False)))
    if C.ghost.get('symbolic sets') or a and isinstance(a[0], Q.SSet):
        return Q.SSet(*a)
    if a and Q.is_symbolic(a[0]):
        raise Unsupported('set of a symbolic sequence')
    return TSet(*a)


sh_dict = ShadowType('dict', lambda x: isinstance(x, dict), _dict_make, TDict)
sh_set = ShadowType('set', lambda x: isinstance(x, (set, Q.SSet)), _set_make, TSet)
sh_range = ShadowType('range', lambda x: isinstance(x, range), Q.srange, range)
sh_ndarray = ShadowType('ndarray', lambda x: isinstance(x, A.SArr), None, A.SArr)


def sh_type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, Sym):
            return sh_int if x.is_int else (sh_bool if x.is_bool else sh_float)
        t = type(x)
        return {int: sh_int, float: sh_float, bool: sh_bool, SList: sh_list, tuple: sh_tuple,
                TDict: sh_dict, TSet: sh_set, A.SArr: sh_ndarray, list: sh_list, dict: sh_dict}.get(t, t)
    return type(*a)


class ShadowTypeFactory(object):
    """`type`: callable, and usable as a metaclass base or in isinstance"""
    def __call__(self, *a):
        return sh_type(*a)

    def __instancecheck__(self, x):
        return isinstance(x, (type, ShadowType))

    def __mro_entries__(self, b):
        return (type,)


def sh_isinstance(x, t):
    if hasattr(x, '__pv_isinstance__'):
        r = x.__pv_isinstance__(t)
        if r is not NotImplemented:
            return r
    if isinstance(t, tuple):
        return any(sh_isinstance(x, q) for q in t)
    if isinstance(t, Missing):
        return False
    return isinstance(x, t)


def sh_abs(x):
    return abs(x)


def sh_round(x, nd=None):
    if isinstance(x, Sym):
        if nd is not None:
            raise Unsupported('round')
        t = TR(x)
        f = z3.ToInt(t)
        d = t - z3.ToReal(f)
        half = z3.RealVal('1/2')
        return SS(z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1))))
    if isinstance(x, A.SArr):
        raise Unsupported('round of an array')
    return round(x, nd) if nd is not None else round(x)


def sh_filter(f, xs):
    if Q.is_symbolic(xs):
        n, get = Q.seq_of(xs)
        return R.filter_comp(n, get, lambda l: (v for v in l if (f(v) if f else v)))
    return SList([v for v in xs if (f(v) if f else v)])


def sh_str(x='', *a):
    if isinstance(x, (Sym, A.SArr)):
        return '<sym>'
    return str(x, *a)


sh_strt = ShadowType('str', lambda x: isinstance(x, str), sh_str, str)


def sh_pow(a, b, m=None):
    if m is not None:
        raise Unsupported('pow mod')
    return a ** b


def sh_print(*a, **k):
    pass


def sh_hash(x):
    return hash(x)


def sh_setattr(o, n, v):
    R.pv_setattr(o, n, v)


def sh_iter(x):
    x = R.iterable(x)
    if C.eager and Q.is_symbolic(x):
        return x
    if Q.is_symbolic(x):
        raise Unsupported('iter() of a symbolic sequence')
    return iter(x)


def sh_divmod(a, b):
    return (a // b, a % b)


# ------------------------------------------------------------------ placeholders

class Missing(object):
    """a library name the verifier does not model"""

    def __init__(self, name):
        self.__dict__['_name'] = name

    def __call__(self, *a, **k):
        raise Unsupported('unmodelled library function %s' % self._name)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Missing(self._name + '.' + n)

    def __mro_entries__(self, b):
        return (object,)

    def _b(self, *a):
        raise Unsupported('unmodelled library value %s' % self._name)
    __add__ = __mul__ = __sub__ = __lt__ = __gt__ = __iter__ = __getitem__ = __radd__ = __rmul__ = __bool__ = _b


class ShadowModule(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Missing(self.__name__ + '.' + n)


# ------------------------------------------------------------------ numpy & co

def _pow(a, b):
    return a ** b


def _size(a):
    return A._arr1(a).size if not isinstance(a, (Sym, int, float)) else 1


def _shape(a):
    return A._arr1(a)._shape


def _ravel(a):
    return A._arr1(a).ravel()


def _mean(a, axis=None):
    return A._arr1(a).mean(axis)


def _asum(a, axis=None, **kw):
    if isinstance(a, (Sym, int, float)):
        return a
    return A.asum(A._arr1(a), axis)


def _zeros_like(a, dt=None):
    a = A._arr1(a)
    v = {'R': z3.RealVal(0), 'I': z3.IntVal(0), 'B': z3.BoolVal(False)}[a.kind]
    return A.SArr.make(a._shape, lambda i: v, a.kind)


def _ones_like(a):
    a = A._arr1(a)
    v = {'R': z3.RealVal(1), 'I': z3.IntVal(1), 'B': z3.BoolVal(True)}[a.kind]
    return A.SArr.make(a._shape, lambda i: v, a.kind)


def _sign(x):
    x = A._unlist(x)

    def f(a):
        a = TI(a)
        one = z3.RealVal(1) if a.sort() == Real else z3.IntVal(1)
        return z3.If(a > 0, one, z3.If(a < 0, -one, one - one))
    if isinstance(x, A.SArr):
        return x._map(f)
    return SS(f(T(x)))


def _finite(value):
    # real numbers are finite: infinities and nan are outside the model (see DESIGN.md)
    def f(x):
        x = A._unlist(x)
        if isinstance(x, A.SArr):
            return x._map(lambda a: z3.BoolVal(value))
        if x is None or isinstance(x, str):
            raise TypeError('ufunc not supported for the input types')
        return value
    return f


def _maximum(a, b):
    r = _cmpsel(a, b, lambda x, y: x >= y)
    return r


def _minimum(a, b):
    return _cmpsel(a, b, lambda x, y: x <= y)


def _cmpsel(a, b, c):
    from .core import balance

    def f(x, y):
        x, y = balance(x, y)
        return z3.If(c(x, y), x, y)
    a, b = A._unlist(a), A._unlist(b)
    if isinstance(a, A.SArr):
        return a._bin(b, f)
    if isinstance(b, A.SArr):
        return b._bin(a, f)
    return S(f(T(a), T(b)))


def _abs(x):
    return abs(A._unlist(x))


def _floor(x):
    if isinstance(x, A.SArr):
        return x._map(lambda a: z3.ToReal(z3.ToInt(TR(a))), 'R')
    if isinstance(x, Sym):
        return SS(z3.ToReal(z3.ToInt(TR(x))))
    import math
    return float(math.floor(x))


def _ceil(x):
    if isinstance(x, (A.SArr, Sym)):
        return -_floor(-x)
    import math
    return float(math.ceil(x))


def _mfloor(x):
    if isinstance(x, Sym):
        return SS(z3.ToInt(TR(x)))
    import math
    return math.floor(x)


def _mceil(x):
    if isinstance(x, Sym):
        return SS(-z3.ToInt(-TR(x)))
    import math
    return math.ceil(x)


def _vstack(l):
    items = [A._arr1(x) for x in l]
    items = [x.reshape(1, x._shape[0]) if x.ndim == 1 else x for x in items]
    return A.concatenate(items, 0)


def _sqrtf(x):
    return A.elementwise('sqrt')(x)


def _any(a, axis=None):
    return A.reduce_bool(a, False)


def _all(a, axis=None):
    return A.reduce_bool(a, True)


def _diag(a):
    a = A._arr1(a)
    g = a.snap()
    if a.ndim == 1:
        return A.SArr.make((a._shape[0], a._shape[0]), lambda i: z3.If(i[0] == i[1], TR(g([i[0]])), z3.RealVal(0)))
    return A.SArr.make((a._shape[0],), lambda i: g([i[0], i[0]]), a.kind)


def _allclose(*a, **k):
    raise Unsupported('allclose')


def _std(a):
    raise Unsupported('std')


def _array(x, dt=None, **kw):
    return A.array(x, dt, **kw)


def _log10(x):
    raise Unsupported('log10')


def _nonneg_norm(v, *a):
    if a:
        raise Unsupported('norm of that order')
    v = A._arr1(v)
    return C.fn1('sqrt', A.asum(v * v))


def _array_split(a, k, axis=0):
    """k consecutive parts, the first len % k of which have one element more"""
    if axis != 0 or not isinstance(k, (int, Sym)):
        raise Unsupported('array_split')
    a = A._arr1(a)
    if C.branch(TB(S(T(k)) <= 0)):
        raise ValueError('number sections must be larger than 0.')
    n = T(a._shape[0])
    q, r = T(C.int('part')), T(C.int('longer'))
    C.assume(z3.And(n == q * T(k) + r, r >= 0, r < T(k), q >= 0))

    def start(i):
        i = T(i)
        return simp(i * q + z3.If(i < r, i, r))
    part = lambda i: a[S(start(i)):S(start(T(i) + 1))]
    if isinstance(k, int):
        return SList([part(z3.IntVal(i)) for i in range(k)])
    return SList.from_fn(k, part)


def _tile(a, reps):
    a = A.asarray(a)
    reps = tuple(reps) if isinstance(reps, (tuple, list)) else (reps,)
    if len(reps) == a.ndim + 1 and all(isinstance(r, int) and r == 1 for r in reps[1:]):
        g = a.snap()
        return A.SArr.make((reps[0],) + tuple(a._shape), lambda i: g(list(i[1:])), a.kind)
    raise Unsupported('tile')


def _delete(a, i, axis=None):
    a = A._arr1(a)
    if axis is not None or not isinstance(i, (int, Sym)):
        raise Unsupported('delete')
    a = a.ravel()
    g, n, i = a.snap(), T(a._shape[0]), T(i)
    if C.branch(z3.Or(i >= n, i < -n)):
        raise IndexError('index is out of bounds')
    i = simp(z3.If(i < 0, i + n, i))
    return A.SArr.make((S(n - 1),), lambda x: g([simp(z3.If(x[0] < i, x[0], x[0] + 1))]), a.kind)


class R_(object):
    """numpy.r_[a, b, ...] for arrays and scalars: concatenation along the first axis"""

    def __getitem__(self, k):
        ks = k if isinstance(k, tuple) else (k,)
        if any(isinstance(x, (slice, str)) for x in ks):
            raise Unsupported('r_ with a slice')
        return A.concatenate([A._arr1(x) if isinstance(x, (A.SArr, SList, list)) else A._arr1([x]) for x in ks], 0)


def make_numpy():
    np = ShadowModule('numpy')
    d = np.__dict__
    for n in ('zeros', 'ones', 'eye', 'arange', 'dot', 'outer', 'amax', 'amin', 'argmax', 'argmin', 'where',
              'clip', 'concatenate', 'append', 'resize'):
        d[n] = getattr(A, n)
    for n in ('exp', 'tanh', 'log', 'sqrt', 'sin', 'cos', 'tan'):
        d[n] = A.elementwise(n)
    d.update(tile=_tile, array_split=_array_split, delete=_delete, array=_array, asarray=A.asarray, size=_size, shape=_shape, ravel=_ravel, mean=_mean, average=_mean, argsort=_argsort, sum=_asum,
             zeros_like=_zeros_like, ones_like=_ones_like, sign=_sign, maximum=_maximum, minimum=_minimum,
             abs=_abs, absolute=_abs, fabs=_abs, floor=_floor, ceil=_ceil, power=_pow, vstack=_vstack,
             any=_any, all=_all, diag=_diag, ndarray=sh_ndarray, Infinity=float('inf'), inf=float('inf'),
             Inf=float('inf'), nan=float('nan'), pi=3.141592653589793, newaxis=None, identity=A.eye,
             float64=sh_float, int64=sh_int, max=A.amax, min=A.amin, copy=lambda a: A._arr1(a).copy(),
             transpose=lambda a: A._arr1(a).transpose(), reshape=lambda a, s: A._arr1(a).reshape(s),
             r_=R_(), isnan=_finite(False), isinf=_finite(False), isfinite=_finite(True), isscalar=lambda x: isinstance(x, (Sym, int, float, str)) , integer=sh_int, floating=sh_float, errstate=Missing('numpy.errstate'),
             float=sh_float, int=sh_int, bool=sh_bool, bool_=sh_bool, alltrue=_all, sometrue=_any)
    return np


# random: every draw is a fresh unknown in its range (proved for all outcomes)

def r_random(*a):
    if a and a[0] is not None:
        return r_uniform_arr(0, 1, A.as_shape(a[0]))
    x = C.real('rnd')
    C.assume(z3.And(x.t >= 0, x.t < 1))
    note_draw('random', x)
    return x


def note_draw(kind, v):
    C.ghost.setdefault('draws', []).append((kind, v))


def r_uniform_arr(lo, hi, shape):
    x = A.SArr.fresh('rnd', shape)
    return x


def r_uniform(lo=0.0, hi=1.0, size=None):
    if size is not None:
        return r_uniform_arr(lo, hi, A.as_shape(size))
    x = C.real('rnd')
    C.assume(z3.And(x.t >= TR(lo), x.t <= TR(hi)))
    return x


def r_gauss(mu=0, sigma=1, size=None):
    if size is not None:
        return A.SArr.fresh('gauss', A.as_shape(size))
    x = C.real('gauss')
    note_draw('gauss', x)
    return x


def r_randn(*sh):
    if not sh:
        return C.real('gauss')
    return A.SArr.fresh('gauss', tuple(A.as_dim(s) for s in sh))


def r_rand(*sh):
    if not sh:
        return r_random()
    a = A.SArr.fresh('rnd', tuple(A.as_dim(s) for s in sh))
    f = a.buf.decl
    C.forall(len(sh), lambda *ix: z3.And(f(*[T(i) for i in ix]) >= 0, f(*[T(i) for i in ix]) < 1))
    return a


def r_choice(l):
    n, get = Q.seq_of(l)
    if isinstance(n, int):
        if n == 0:
            raise IndexError('Cannot choose from an empty sequence')
    elif C.branch(T(n) <= 0):
        raise IndexError('Cannot choose from an empty sequence')
    i = C.int('choice')
    C.assume(z3.And(i.t >= 0, i.t < T(n)))
    note_draw('choice', i)
    if isinstance(n, int):
        j = C.concretize(i.t)
        return get(j)
    return get(i)


def r_randint(lo, hi=None, size=None):
    """python random.randint: both ends included"""
    if size is not None:
        raise Unsupported('randint size')
    i = C.int('randint')
    C.assume(z3.And(i.t >= T(lo), i.t <= T(hi)))
    return i


def np_randint(lo, hi=None, size=None):
    if hi is None:
        lo, hi = 0, lo
    if size is not None:
        raise Unsupported('randint size')
    i = C.int('randint')
    C.assume(z3.And(i.t >= T(lo), i.t < T(hi)))
    return i


def r_randrange(lo, hi=None):
    return np_randint(lo, hi)


def fresh_perm(n):
    """p, q with p o q = q o p = id on [0,n)"""
    p, q = C.fun('perm', Int, Int), C.fun('perminv', Int, Int)
    nt = T(n)

    def fact(i):
        i = T(i)
        return z3.Implies(z3.And(i >= 0, i < nt),
                          z3.And(p(i) >= 0, p(i) < nt, q(i) >= 0, q(i) < nt, p(q(i)) == i, q(p(i)) == i))
    C.forall(1, fact)
    C.ghost.setdefault('perms', []).append((p, q, S(nt)))
    return p, q


def _argsort(a, *x, **k):
    if x or k:
        raise Unsupported('argsort with options')
    a = A._arr1(A.asarray(a) if not isinstance(a, A.SArr) else a)
    n = a.shape[0]
    # assumed: sorting the indices of a permutation gives its inverse
    for p, q, m in C.ghost.get('index_perms', []):
        j = C.int('as')
        if C.entails(sym_implies(sym_and(j >= 0, j < n), sym_and(S(a.at(j)) == S(p(T(j))), n == m))):
            C.assumptions.add('argsort of a permutation of 0..n-1 is its inverse')
            return A.SArr.make((n,), lambda i: q(T(i[0])), 'I')
    p, q = fresh_perm(n)
    C.forall(2, lambda i, j: sym_implies(sym_and(i >= 0, i < j, j < n),
                                         S(a.at(S(p(T(i))))) <= S(a.at(S(p(T(j)))))))
    C.havoced = True
    return A.SArr.make((n,), lambda i: p(T(i[0])), 'I')


def r_permutation(x):
    if isinstance(x, (int, Sym)):
        n = x
        p, q = fresh_perm(n)
        r = A.SArr.make((n,), lambda i: p(i[0]), 'I')
        r.__dict__['perm'] = (p, q)
        return r
    n, get = Q.seq_of(x)
    p, q = fresh_perm(n)
    l = SList.from_fn(n, lambda i: get(S(p(T(i)))))
    l.perm = (p, q)
    return l.to_array() if not isinstance(n, int) or n else A.zeros(0)


def r_shuffle(x):
    if not isinstance(x, SList):
        raise Unsupported('shuffle of %s' % type(x).__name__)
    if x.items is not None:
        items = list(x.items)
        n = len(items)
        if n > 4:
            raise Unsupported('shuffle of a long concrete list')
        out = []
        rest = list(items)
        while rest:
            k = 0
            while k < len(rest) - 1 and C.choose():
                k += 1
            out.append(rest.pop(k))
        x.set_state((out, None, None))
        return
    p, q = fresh_perm(x.n)
    get = x.get
    x.set_state((None, x.n, lambda i: get(S(p(T(i))))))
    x.perm = (p, q)


def r_sample(x, k):
    """k different positions of x, in any order"""
    n, get = Q.seq_of(x)
    if C.branch(z3.Or(T(k) < 0, T(k) > T(n))):
        raise ValueError('Sample larger than population or is negative')
    f = C.fun('sample', Int, Int)
    kt, nt = T(k), T(n)
    C.forall(1, lambda p: z3.Implies(z3.And(T(p) >= 0, T(p) < kt), z3.And(f(T(p)) >= 0, f(T(p)) < nt)))
    C.forall(2, lambda p, q: z3.Implies(z3.And(T(p) >= 0, T(p) < T(q), T(q) < kt), f(T(p)) != f(T(q))))
    if isinstance(n, int) and isinstance(k, int):
        return SList([get(C.concretize(f(z3.IntVal(i)))) for i in range(k)])
    r = SList.from_fn(k, lambda p: get(S(f(T(p)))))
    r.sample = f
    return r


def make_random(numpy_flavour):
    m = ShadowModule('numpy.random' if numpy_flavour else 'random')
    m.__dict__.update(random=r_random, rand=r_rand, randn=r_randn, choice=r_choice, shuffle=r_shuffle,
                      permutation=r_permutation, normal=r_gauss, gauss=r_gauss, uniform=r_uniform,
                      randint=np_randint if numpy_flavour else r_randint, randrange=r_randrange, sample=r_sample,
                      seed=lambda *a: None, random_sample=r_random, normalvariate=r_gauss)
    return m


def make_math():
    import math
    m = ShadowModule('math')
    m.isnan, m.isinf, m.isfinite = _finite(False), _finite(False), _finite(True)
    for n in ('exp', 'tanh', 'log', 'sqrt', 'sin', 'cos', 'tan'):
        def mk(n):
            e = A.elementwise(n)

            def f(x):
                if isinstance(x, (Sym,)):
                    if n in ('sqrt', 'log'):
                        if C.branch(TR(x) < 0 if n == 'sqrt' else TR(x) <= 0):
                            raise ValueError('math domain error')
                    return e(x)
                return getattr(math, n)(x)
            return f
        setattr(m, n, mk(n))
    m.__dict__.update(floor=_mfloor, ceil=_mceil, pi=math.pi, e=math.e, fabs=abs, pow=_pow)
    return m


class LogModule(ShadowModule):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: None


def s_reduce(f, xs, *init):
    if Q.is_symbolic(xs):
        raise Unsupported('reduce over a symbolic sequence')
    return functools.reduce(f, list(xs), *init)


def s_chain(*xs):
    if any(Q.is_symbolic(x) for x in xs):
        r = SList()
        for x in xs:
            r = r + SList.coerce(x)
        return r
    return itertools.chain(*xs)


def make_modules():
    np = make_numpy()
    npr = make_random(True)
    np.__dict__['random'] = npr
    sp = make_numpy()
    sp.__name__ = 'scipy'
    sp.__dict__['random'] = npr
    sp.__dict__.update(rand=r_rand, randn=r_randn)
    la = ShadowModule('scipy.linalg')
    la.__dict__['norm'] = _nonneg_norm
    np.__dict__['linalg'] = la
    sp.__dict__['linalg'] = la
    it = ShadowModule('itertools')
    it.__dict__.update({n: getattr(itertools, n) for n in ('count', 'product', 'combinations', 'islice', 'cycle',
                                                             'repeat', 'permutations', 'groupby', 'takewhile')})
    it.__dict__['chain'] = s_chain
    it.__dict__['izip'] = Q.szip
    ft = ShadowModule('functools')
    ft.__dict__.update(reduce=s_reduce, wraps=functools.wraps, partial=functools.partial)
    import copy as _copy
    mods = {'numpy': np, 'numpy.random': npr, 'scipy': sp, 'scipy.random': npr, 'scipy.linalg': la,
            'numpy.linalg': la, 'random': make_random(False), 'math': make_math(), 'logging': LogModule('logging'),
            'itertools': it, 'functools': ft, 'warnings': LogModule('warnings')}
    for n in ('scipy.stats', 'scipy.stats.distributions', 'scipy.sparse', 'scipy.ndimage', 'scipy.optimize', 'scipy.cluster',
              'scipy.cluster.vq', 'pylab', 'numpy.matlib', 'matplotlib', 'pickle', 'csv', 'socket', 'struct', 'gc',
              'subprocess', 'threading', 'imp', 'xml', 'xml.dom', 'xml.dom.minidom'):
        mods[n] = ShadowModule(n)
        if '.' in n and n.rsplit('.', 1)[0] in mods:
            setattr(mods[n.rsplit('.', 1)[0]], n.rsplit('.', 1)[1], mods[n])
    for n in ('operator', 'collections', 'copy', 'time', 'os', 'os.path', 'sys', 'string', 'inspect', 'types', 're',
              '__future__', 'abc', 'fractions', 'datetime'):
        __import__(n)
        mods[n] = sys.modules[n]
    return mods


# ------------------------------------------------------------------ the loader

STDLIB_OK = {'heapq', 'bisect', 'numbers', 'contextlib', 'enum', 'textwrap', 'weakref', 'io', 'platform',
             'hashlib', 'dataclasses', 'typing', 'traceback', 'unittest', 'tempfile', 'glob', 'shutil',
             'decimal', 'statistics', 'queue', 'signal', 'importlib', 'distutils', 'uuid'}


class Loader(object):
    def __init__(self, repo=None):
        self.clean = {}
        self.repo = repo or REPO
        self.mods = {}
        self.ext = make_modules()
        self.sources = {}
        ns = types.SimpleNamespace(loop=R.loop, while_=R.while_, comp=R.comp, SList=SList, TDict=_dict_display, TSet=TSet,
                                   eager=lambda q: q in C.eager, setattr=R.pv_setattr, augattr=R.augattr, strmod=R.strmod, Ret=R.Ret,
                                   is_ret=R.is_ret, BRK=R.BRK)
        import builtins
        b = dict(builtins.__dict__)
        b.update({'__pv__': ns, '__import__': self.imp, 'int': sh_int, 'float': sh_float, 'bool': sh_bool,
                  'list': sh_list, 'tuple': sh_tuple, 'dict': sh_dict, 'set': sh_set, 'range': sh_range,
                  'len': Q.slen, 'enumerate': Q.senumerate, 'zip': Q.szip, 'reversed': Q.sreversed, 'map': Q.smap,
                  'filter': sh_filter, 'sum': Q.ssum, 'max': Q.smax, 'min': Q.smin, 'any': Q.sany, 'all': Q.sall,
                  'sorted': Q.ssorted, 'isinstance': sh_isinstance, 'abs': sh_abs, 'round': sh_round,
                  'print': sh_print, 'type': sh_type, 'str': sh_strt, 'pow': sh_pow, 'setattr': sh_setattr,
                  'iter': sh_iter, 'divmod': sh_divmod})
        self.builtins = b

    def path(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py'), True
        if os.path.isfile(p + '.py'):
            return p + '.py', False
        return None, None

    def exists(self, name):
        return self.path(name)[0] is not None

    def load(self, name, execute=True):
        """module object; a package is executed lazily"""
        m = self.mods.get(name)
        if m is None:
            p, pkg = self.path(name)
            if p is None:
                raise ModuleNotFoundError('No module named %r' % name)
            m = types.ModuleType(name)
            m.__file__ = p
            m.__package__ = name if pkg else name.rpartition('.')[0]
            if pkg:
                m.__path__ = [os.path.dirname(p)]
            m.__dict__['__builtins__'] = self.builtins
            m.__pv_state__ = 0
            m.__pv_pkg__ = pkg
            self.mods[name] = m
            par, _, leaf = name.rpartition('.')
            if par:
                setattr(self.load(par, False), leaf, m)
        if execute and m.__pv_state__ == 0:
            par = name.rpartition('.')[0]
            if par and self.load(par, False).__pv_state__ == 0:
                # like python: packages first (a package that needs a missing library is left partial)
                try:
                    self.load(par)
                except ImportError:
                    pass
                if m.__pv_state__ != 0:
                    return m
                if name not in self.mods:
                    return self.load(name)
            m.__pv_state__ = 1
            p = m.__file__
            src = ''
            if os.path.isfile(p):
                with open(p, encoding='utf-8', errors='replace') as f:
                    src = f.read()
            self.sources[name] = src
            code = transform.transform(src, name, p)
            try:
                exec(code, m.__dict__)
            except BaseException:
                if m.__pv_pkg__:
                    m.__pv_state__ = 2
                else:
                    self.mods.pop(name, None)
                raise
            m.__pv_state__ = 2
            self.clean[name] = dict(m.__dict__)
        return m

    def restore(self):
        """module variables as after loading (specifications replace functions by contracts)"""
        for name, d in self.clean.items():
            if name in self.mods:
                self.mods[name].__dict__.update(d)

    def imp(self, name, glob=None, loc=None, fromlist=(), level=0):
        if level:
            pkg = glob.get('__package__') or ''
            parts = pkg.split('.')
            if level > 1:
                parts = parts[:-(level - 1)]
            name = '.'.join(parts + ([name] if name else []))
        # `from pkg.__init__ import *`
        if name.endswith('.__init__'):
            name = name[:-len('.__init__')]
        root = name.split('.')[0]
        if root == 'pybrain':
            m = self.load(name)
            if not fromlist:
                return self.load(root, False)
            for f in fromlist:
                if f != '*' and not hasattr(m, f) and m.__pv_pkg__ and self.exists(name + '.' + f):
                    self.load(name + '.' + f)
                elif f != '*' and m.__pv_pkg__ and self.exists(name + '.' + f):
                    q = self.load(name + '.' + f, False)
                    if q.__pv_state__ == 0 and not q.__pv_pkg__:
                        self.load(name + '.' + f)
            return m
        if name in self.ext:
            if not fromlist and '.' in name:
                return self.ext[root]
            return self.ext[name]
        if root in STDLIB_OK:
            m = __import__(name, None, None, ['x'] if fromlist else [])
            return m
        raise ImportError('No module named %s' % name)

    def get(self, modname, attr):
        m = self.load(modname)
        o = m
        for a in attr.split('.'):
            o = getattr(o, a)
        return o
