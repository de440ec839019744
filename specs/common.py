"""shared vocabulary of the specifications"""
import z3
from pyvc.core import C, Sym, S, T, TR, TI, TB, ite, sym_and, sym_or, sym_not, sym_implies, Unsupported, PathEnd, simp
from pyvc.driver import task
from pyvc import arr as A
from pyvc import reals
from pyvc.arr import SArr
from pyvc.seq import SList, slen, Seq
from pyvc import sums as _sums
from pyvc.runtime import LoopSpec, All, _map_terms
from pyvc.seq import subst_value

MOD = 'pybrain.structure.modules.'
CON = 'pybrain.structure.connections.'


def Sum(n, f):
    """sum of f(k) for 0 <= k < n"""
    return S(_sums.Sum(n, lambda k: f(S(k))))


def dim(name='n', lo=1):
    n = C.int(name, show=True)
    C.assume(n >= lo)
    return n


def index(n, name='k', lo=0):
    k = C.int(name, show=True)
    C.assume(sym_and(k >= lo, k < n))
    return k


def at(a, *i):
    return S(a.at(*i))


def vec(name, *shape):
    return SArr.fresh(name, tuple(shape))


def ivec(name, *shape):
    return SArr.fresh(name, tuple(shape), 'I')


def diff(out, inp):
    """derivative of the term out with respect to the (atomic) term inp"""
    return S(simp(reals.diff(TR(out), TR(inp))))


def diff_at(f, x):
    """derivative of the function f at the term x"""
    v = z3.Real('dv~')
    d = reals.diff(TR(f(S(v))), v)
    return S(z3.substitute(d, (v, TR(x))))


def inv(x):
    """1/x for a term known to be non-zero"""
    return S(z3.RealVal(1) / TR(x))


def bounded(x, lo=-500, hi=500):
    return sym_and(x > lo, x < hi)


def induction(t, name, P, n):
    """rule of induction: from P(0) and P(m) -> P(m+1) for 0 <= m < n, conclude P(n)
    (both premises are obligations)"""
    t.prove('lemma %s: base' % name, P(S(z3.IntVal(0))), kind='aux')
    m = C.int('m')
    with supposing(sym_and(m >= 0, m < n)):
        t.prove('lemma %s: step' % name, sym_implies(P(m), P(m + 1)), kind='aux')
    C.assume(P(n))


class supposing(object):
    """assumptions for the obligations inside only"""

    def __init__(self, *conds):
        self.conds = conds

    def __enter__(self):
        self.saved = C.pc
        C.pc = list(C.pc)
        for c in self.conds:
            C.pc.append(simp(TB(c)))

    def __exit__(self, *a):
        C.pc = self.saved


def generalize(t, name, nvars, P, by=None):
    """what is proved of arbitrary integers (by: a lemma used for these) holds for all"""
    vs = [C.int('any') for _ in range(nvars)]
    saved = C.pc
    C.pc = list(C.pc)
    try:
        if by is not None:
            by(*vs)
        t.prove('lemma %s' % name, P(*vs), kind='aux')
    finally:
        C.pc = saved
    C.forall(nvars, P)


class Elem(object):
    """an element of a symbolic sequence, known by its attributes"""

    def __init__(self, **k):
        self.__dict__.update(k)

    def __pv_map__(self, f):
        return self.__pv_with(lambda v: _map_terms(v, f))

    def __pv_subst__(self, k, t):
        return self.__pv_with(lambda v: subst_value(v, k, t))

    def __pv_with(self, g):
        r = self.__class__.__new__(self.__class__)
        r.__dict__.update({a: g(v) for a, v in self.__dict__.items()})
        return r
