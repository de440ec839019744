"""Symbolic values, path exploration, verification conditions.

The verifier executes the real (mechanically transformed) Python code with
symbolic proxies.  Every conditional on a symbolic value forks the path; every
contract clause reached at the end of a path is a verification condition
`path condition => clause`, discharged by z3 (cvc5 as second opinion).
"""
import math
import time
from fractions import Fraction

import z3


class PathEnd(BaseException):
    """The current path is finished (infeasible, or cut)."""


class Unsupported(BaseException):
    """The code left the subset the verifier understands: undecided, never a
    violation."""


class RealTypeError(TypeError):
    """A TypeError the real program would raise too (modelled, not internal)."""


Int, Real, Bool = z3.IntSort(), z3.RealSort(), z3.BoolSort()


# --------------------------------------------------------------------------
#  terms
# --------------------------------------------------------------------------

def num_term(f):
    if isinstance(f, bool):
        return z3.BoolVal(f)
    if isinstance(f, int):
        return z3.IntVal(f)
    if isinstance(f, Fraction):
        return z3.RealVal(str(f.numerator)) / z3.RealVal(str(f.denominator)) if f.denominator != 1 else z3.RealVal(str(f.numerator))
    if isinstance(f, float):
        if math.isinf(f) or math.isnan(f):
            raise Unsupported("infinite or nan constant in a symbolic term")
        if f == int(f):
            return z3.RealVal(str(int(f)))
        return z3.RealVal(repr(f))
    raise Unsupported("not a number: %r" % (type(f),))


def T(x):
    """python number / Sym / z3 -> z3 term"""
    if isinstance(x, Sym):
        return x.t
    if isinstance(x, z3.ExprRef):
        return x
    if hasattr(x, '__pv_scalar__'):
        return T(x.__pv_scalar__())
    try:
        import numpy
        if isinstance(x, numpy.generic):
            x = x.item()
    except ImportError:
        pass
    return num_term(x)


def TR(x):
    """as a Real term"""
    t = T(x)
    s = t.sort()
    if s == Real:
        return t
    if s == Int:
        if z3.is_int_value(t):
            return z3.RealVal(t.as_string())
        if z3.is_app_of(t, z3.Z3_OP_ITE) and z3.is_int_value(t.arg(1)) and z3.is_int_value(t.arg(2)):
            return z3.If(t.arg(0), z3.RealVal(t.arg(1).as_string()), z3.RealVal(t.arg(2).as_string()))
        return z3.ToReal(t)
    return z3.If(t, z3.RealVal(1), z3.RealVal(0))


def TI(x):
    """as an arithmetic term (bool -> int)"""
    t = T(x)
    if t.sort() == Bool:
        if z3.is_true(t):
            return z3.IntVal(1)
        if z3.is_false(t):
            return z3.IntVal(0)
        return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    return t


def TB(x):
    """as a Bool term (truth value)"""
    if x is None:
        return z3.BoolVal(False)
    t = T(x)
    if t.sort() == Bool:
        return t
    return t != 0


def balance(a, b):
    a, b = TI(a), TI(b)
    if a.sort() != b.sort():
        a, b = TR(a), TR(b)
    return a, b


def S(t):
    """wrap a z3 term; numerals become python numbers"""
    if not isinstance(t, z3.ExprRef):
        return t
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return Sym(t)


def simp(t):
    return z3.simplify(t)


def SS(t):
    """simplify and wrap"""
    return S(z3.simplify(t))


_INF = float('inf')


def _isinf(x):
    return isinstance(x, float) and (math.isinf(x) or math.isnan(x))


def py_floordiv(a, b):
    a, b = balance(a, b)
    if a.sort() == Int:
        if z3.is_int_value(b) and b.as_long() > 0:
            return a / b
        # python floor division, z3 div is euclidean
        return z3.If(b > 0, a / b, (-a) / (-b))
    return z3.ToReal(z3.ToInt(a / b))


def py_mod(a, b):
    a, b = balance(a, b)
    if a.sort() == Int:
        if z3.is_int_value(b) and b.as_long() > 0:
            return a % b
        return a - b * py_floordiv(a, b)
    return a - b * z3.ToReal(z3.ToInt(a / b))


def py_int(t):
    """int(): truncation"""
    t = TI(t)
    if t.sort() == Int:
        return t
    s = z3.simplify(t)
    if z3.is_mul(s) and s.num_args() == 2:
        # a position drawn as int(random() * n): any integer in [0, n)
        for a, b in ((s.arg(0), s.arg(1)), (s.arg(1), s.arg(0))):
            if z3.is_to_real(b) and z3.is_app(a) and a.decl().name().startswith('rnd') and C.entails(z3.And(a >= 0, a < 1, b > 0)):
                f = z3.Function('drawn', Real, Int, Int)(a, b.arg(0))
                C.axiom(z3.And(f >= 0, f < b.arg(0)))
                return f
    return z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))


class Sym(object):
    """symbolic number or boolean"""
    __slots__ = ('t',)
    __array_priority__ = 10

    def __init__(self, t):
        self.t = t

    # -- numpy scalar look-alike
    shape = ()
    ndim = 0
    size = 1

    def item(self):
        return self

    def copy(self):
        return self

    @property
    def is_int(self):
        return self.t.sort() == Int

    @property
    def is_bool(self):
        return self.t.sort() == Bool

    @property
    def dtype(self):
        return self.t.sort()

    def flatten(self):
        from .arr import from_list
        return from_list([self])

    def _bin(self, o, f, inf=None):
        if o is None or isinstance(o, (str, tuple, dict)) or hasattr(o, '__pv_nonscalar__'):
            return NotImplemented
        if _isinf(o):
            if inf is None:
                raise Unsupported('arithmetic with infinity')
            return inf
        a, b = balance(self.t, o)
        return S(f(a, b))

    def __add__(self, o):
        if isinstance(o, (int, float)) and o == 0 and not isinstance(o, float):
            return self if not self.is_bool else S(TI(self))
        return self._bin(o, lambda a, b: a + b, inf=o)
    def __radd__(self, o):
        if isinstance(o, int) and o == 0 and not self.is_bool:
            return self
        return self._bin(o, lambda a, b: b + a, inf=o)
    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, inf=-o if isinstance(o, float) else None)
    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a, inf=o)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o):
        return self._bin(o, lambda a, b: b * a)

    def __truediv__(self, o):
        if o is None or isinstance(o, str) or hasattr(o, '__pv_nonscalar__'):
            return NotImplemented
        if _isinf(o):
            return 0.0
        C.nonzero(o)
        return S(TR(self) / TR(o))

    def __rtruediv__(self, o):
        if o is None or isinstance(o, str) or hasattr(o, '__pv_nonscalar__'):
            return NotImplemented
        C.nonzero(self)
        return S(TR(o) / TR(self))

    def __floordiv__(self, o):
        if hasattr(o, '__pv_nonscalar__'):
            return NotImplemented
        C.nonzero(o)
        return SS(py_floordiv(self, o))

    def __rfloordiv__(self, o):
        C.nonzero(self)
        return SS(py_floordiv(o, self))

    def __mod__(self, o):
        if hasattr(o, '__pv_nonscalar__'):
            return NotImplemented
        C.nonzero(o)
        return SS(py_mod(self, o))

    def __rmod__(self, o):
        if isinstance(o, str):
            return o
        C.nonzero(self)
        return SS(py_mod(o, self))

    def __divmod__(self, o): return (self // o, self % o)
    def __rdivmod__(self, o): return (o // self, o % self)

    def __pow__(self, o):
        return sym_pow(self, o)

    def __rpow__(self, o):
        return sym_pow(o, self)

    def __neg__(self): return S(-TI(self))
    def __pos__(self): return self

    def __abs__(self):
        t = TI(self)
        return S(z3.If(t >= 0, t, -t))

    def _cmp(self, o, f, inf=None):
        if hasattr(o, '__pv_nonscalar__'):
            return NotImplemented
        if _isinf(o):
            return inf(o)
        a, b = balance(self.t, o)
        return SS(f(a, b))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, lambda o: o > 0)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, lambda o: o > 0)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, lambda o: o < 0)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, lambda o: o < 0)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, dict)):
            return False
        if hasattr(o, '__pv_nonscalar__'):
            return NotImplemented
        if not isinstance(o, (Sym, int, float, Fraction, z3.ExprRef)) and not hasattr(o, 'item'):
            return NotImplemented
        if _isinf(o):
            return False
        if isinstance(o, Sym) and self.is_bool and o.is_bool:
            return SS(self.t == o.t)
        a, b = balance(self.t, o)
        return SS(a == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return sym_not(r)

    def __hash__(self):
        raise Unsupported('hash of a symbolic value (symbolic key in a native dict/set)')

    def __and__(self, o):
        if self.is_bool and (isinstance(o, bool) or (isinstance(o, Sym) and o.is_bool)):
            return SS(z3.And(self.t, TB(o)))
        return sym_bitop('and', self, o)
    __rand__ = __and__

    def __or__(self, o):
        if self.is_bool and (isinstance(o, bool) or (isinstance(o, Sym) and o.is_bool)):
            return SS(z3.Or(self.t, TB(o)))
        return sym_bitop('or', self, o)
    __ror__ = __or__

    def __xor__(self, o):
        if self.is_bool and (isinstance(o, bool) or (isinstance(o, Sym) and o.is_bool)):
            return SS(z3.Xor(self.t, TB(o)))
        return sym_bitop('xor', self, o)
    __rxor__ = __xor__

    def __rshift__(self, o):
        if isinstance(o, int):
            return self // (2 ** o)
        return self // sym_pow(2, o)

    def __lshift__(self, o):
        return self * sym_pow(2, o)

    def __invert__(self):
        if self.is_bool:
            return sym_not(self)
        return -self - 1

    def __bool__(self):
        return C.branch(TB(self))

    def __index__(self):
        if self.t.sort() == Real:
            raise RealTypeError('a float cannot be interpreted as an integer')
        return C.concretize(TI(self))

    def __int__(self):
        return C.concretize(py_int(self))

    def __float__(self):
        raise Unsupported('float() of a symbolic value outside the shadow builtins')

    def __round__(self, nd=None):
        raise Unsupported('round of symbolic')

    def __repr__(self):
        return 'Sym(%s)' % (str(self.t)[:200],)

    def __str__(self):
        return '<sym>'

    def __format__(self, spec):
        return '<sym>'

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported('pickle of symbolic')


def sym_not(x):
    if isinstance(x, bool):
        return not x
    return SS(z3.Not(TB(x)))


def sym_and(*xs):
    return SS(z3.And(*[TB(x) for x in xs])) if xs else True


def sym_or(*xs):
    return SS(z3.Or(*[TB(x) for x in xs])) if xs else False


def sym_implies(a, b):
    return SS(z3.Implies(TB(a), TB(b)))


def ite(c, a, b):
    """symbolic if-then-else over scalars"""
    if isinstance(c, bool):
        return a if c else b
    c = TB(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    ta, tb = T(a), T(b)
    if ta.sort() != tb.sort():
        ta, tb = balance(ta, tb)
    return S(z3.If(c, ta, tb))


import os
DEBUG = os.environ.get('PYVC_DEBUG')
POW2 = z3.Function('pow2', Int, Int)
POWR = z3.Function('powr', Real, Real, Real)


def sym_pow(a, b):
    if isinstance(b, float) and b == int(b):
        r = sym_pow(a, int(b))
        return S(TR(r))
    if isinstance(b, int) and not isinstance(b, bool):
        if 0 <= b <= 8:
            t = TI(a)
            if b == 0:
                return 1
            r = t
            for _ in range(b - 1):
                r = r * t
            return S(r)
        if -4 <= b < 0:
            return S(1 / TR(sym_pow(a, -b)))
    if isinstance(b, float) and b == 0.5:
        return C.fn1('sqrt', a)
    if isinstance(a, int) and a == 2 and isinstance(b, Sym) and b.is_int:
        C.pow2_fact(b.t)
        return S(POW2(b.t))
    ta, tb = TR(a), TR(b)
    return S(POWR(ta, tb))


def sym_bitop(op, a, b):
    f = z3.Function('bit_' + op, Int, Int, Int)
    a, b = TI(a), TI(b)
    if a.sort() != Int or b.sort() != Int:
        raise RealTypeError('bit operation on floats')
    # single bits are exact
    C.axiom(z3.Implies(z3.And(a >= 0, a <= 1, b >= 0, b <= 1),
                       f(a, b) == {'and': z3.If(z3.And(a == 1, b == 1), 1, 0),
                                   'or': z3.If(z3.Or(a == 1, b == 1), 1, 0),
                                   'xor': z3.If(a == b, 0, 1)}[op]))
    C.axiom(z3.Implies(z3.And(a >= 0, b >= 0), f(a, b) >= 0))
    return S(f(a, b))


# --------------------------------------------------------------------------
#  explorers and context
# --------------------------------------------------------------------------

class Explorer(object):
    """depth-first exploration by re-execution with recorded decisions"""

    def __init__(self):
        self.work = [[]]
        self.trace = None
        self.pos = 0

    def next(self):
        if not self.work:
            return False
        self.trace = self.work.pop()
        self.pos = 0
        return True


class Ob(object):
    def __init__(self, name, kind):
        self.name, self.kind = name, kind
        self.vcs = 0
        self.discharged = 0
        self.refuted = []
        self.unknown = []
        self.backends = {}

    @property
    def status(self):
        if self.refuted:
            return 'refuted'
        if self.unknown:
            return 'unknown'
        return 'proved' if self.vcs else 'empty'


class Ctx(object):
    def __init__(self):
        self.reset_all()

    def reset_all(self, task='?', timeout=8000, branch_timeout=1500, max_paths=400, deadline=None):
        self.task = task
        self.timeout = timeout
        self.branch_timeout = branch_timeout
        self.max_paths = max_paths
        self.deadline = deadline
        self.obs = {}
        self.unsupported = []
        self.assumptions = set()
        self.covers = {}
        self.paths = 0
        self.solver_time = 0.0
        self.queries = 0
        self.contracts = {}
        self.loop_specs = {}
        self.inlined = set()
        self.eager = set()      # generator functions collected when called
        self.start_path()

    def start_path(self):
        self.lin = None
        self.ints = None
        self.pc = []
        self.axs = []
        self.axs_seen = set()
        self.pc_marks = []
        self.counters = {}
        self.undo = []
        self.explorers = getattr(self, 'explorers', [])[:1]
        self.sums = []          # (id, args(list of z3), n term)
        self.sum_seen = set()
        self.input_funs = set()
        self.closures = []      # universally quantified facts (closures)
        self.flat_tags = {}
        self.havoced = False    # a loop or call abstraction is in this path
        self.hints = []
        self.depth = 0
        self.model_vars = {}
        self.ghost = {}
        self.fn_terms = []
        self.loop_visits = {}
        self.events = []
        self.alloc = 0
        self.born = {}
        self.loopctx = []       # (index term, identity, draw counter) of the enclosing summarised loops
        self.muted = False

    # -- names
    def fresh_name(self, base):
        n = self.counters.get(base, 0)
        self.counters[base] = n + 1
        return '%s!%d' % (base, n)

    def in_loop(self, base):
        # inside the body of a summarised loop an unknown is a function of the iteration
        ks, ident, cnt = [k for k, _, _ in self.loopctx], self.loopctx[-1][1], self.loopctx[-1][2]
        cnt[0] += 1
        return '%s@%s.%d' % (base, ident, cnt[0]), ks

    def drawn(self, base, sort):
        n, ks = self.in_loop(base)
        return Sym(z3.Function(n, *([Int] * len(ks) + [sort]))(*ks))

    def int(self, base='i', show=False):
        if self.loopctx:
            return self.drawn(base, Int)
        n = self.fresh_name(base)
        v = Sym(z3.Int(n))
        if show:
            self.model_vars[base] = v.t
        return v

    def real(self, base='x', show=False):
        if self.loopctx:
            return self.drawn(base, Real)
        v = Sym(z3.Real(self.fresh_name(base)))
        if show:
            self.model_vars[base] = v.t
        return v

    def bool(self, base='b', show=False):
        if self.loopctx:
            return self.drawn(base, z3.BoolSort())
        v = Sym(z3.Bool(self.fresh_name(base)))
        if show:
            self.model_vars[base] = v.t
        return v

    def fun(self, base, *sorts):
        if self.loopctx:
            n, ks = self.fresh_name(base + '@'), [k for k, _, _ in self.loopctx]
            return Family(z3.Function(n, *([Int] * len(ks) + list(sorts))), ks)
        return z3.Function(self.fresh_name(base), *sorts)

    def input_fun(self, base, *sorts):
        """a function that stands for arbitrary input data"""
        f = self.fun(base, *sorts)
        self.input_funs.add(f.name())
        return f

    # -- facts
    def assume(self, cond):
        t = TB(cond)
        t = z3.simplify(t)
        if z3.is_true(t):
            return
        self.pc.append(t)
        if z3.is_false(t):
            raise PathEnd()

    def axiom(self, t):
        """a fact valid in every state (lemma instance)"""
        k = t.get_id()
        if k in self.axs_seen:
            return
        self.axs_seen.add(k)
        self.axs.append(t)

    def nonzero(self, o):
        """division: fork ZeroDivisionError when the divisor may be zero"""
        if isinstance(o, (int, float)):
            if o == 0:
                raise ZeroDivisionError('division by zero')
            return
        t = T(o)
        if self.branch(TB(S(TI(t) == 0))):
            raise ZeroDivisionError('division by zero')

    def pow2_fact(self, t):
        self.axiom(z3.Implies(t >= 0, POW2(t) >= 1))
        self.axiom(z3.Implies(t >= 1, POW2(t) == 2 * POW2(t - 1)))
        self.axiom(z3.Implies(t >= 0, POW2(t + 1) == 2 * POW2(t)))
        self.axiom(POW2(z3.IntVal(0)) == 1)

    # -- solving
    def _solve(self, extra, timeout, axs=True, closures=False):
        s = z3.Solver()
        s.set('timeout', int(timeout))
        for f in self.pc:
            s.add(f)
        if axs:
            for f in self.axs:
                s.add(f)
        for f in extra:
            s.add(f)
        if closures:
            for q in self.closures:
                s.add(q.formula())
        t0 = time.time()
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.solver_time += time.time() - t0
        self.queries += 1
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time limit of the task')
        return r, s

    def feasible(self, t):
        """may over-approximate: an infeasible path only costs time"""
        if self.int_unsat(t):
            return False
        r, _ = self._solve([t], self.branch_timeout)
        return r != z3.unsat

    def int_unsat(self, t):
        """unsatisfiable already with the facts about integers"""
        from .reduce import pure_int
        if pure_int(t):
            if self.ints is None:
                self.ints = z3.Solver(), []
            s, have = self.ints
            s.set('timeout', 500)
            want = [f for f in self.pc if pure_int(f)] + [f for f in self.axs if pure_int(f)]
            k = 0
            while k < len(have) and k < len(want) and have[k].eq(want[k]):
                k += 1
            if k < len(have):
                s.pop(len(have) - k)
                del have[k:]
            for f in want[k:]:
                s.push()
                s.add(f)
                have.append(f)
            t0 = time.time()
            r = s.check(t)
            self.solver_time += time.time() - t0
            self.queries += 1
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time limit of the task')
            return r == z3.unsat
        return False

    def entails(self, cond, timeout=None):
        t = z3.simplify(TB(cond))
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        r, _ = self._solve([z3.Not(t)], timeout or self.branch_timeout)
        return r == z3.unsat

    def branch(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        ex = self.explorers[-1]
        if ex.pos < len(ex.trace):
            d = ex.trace[ex.pos]
            ex.pos += 1
            if len(d) == 2 and d[1]:
                self.pc.append(t if d[0] else z3.Not(t))
            return d[0]
        nt = z3.simplify(z3.Not(t))
        if self.int_unsat(t):
            can_t, can_f = False, True
        elif self.int_unsat(nt):
            can_t, can_f = True, False
        else:
            can_t = self.feasible(t)
            can_f = not can_t or self.feasible(nt)
            if can_t and can_f and self.closures:
                # instances of the quantified facts at the indices that occur
                from .reduce import instances
                ext = []
                instances(self, t, ext)
                for again in (True, False):
                    if not ext:
                        break
                    can_t = self._solve(ext + [t], self.branch_timeout)[0] != z3.unsat
                    can_f = not can_t or self._solve(ext + [nt], self.branch_timeout)[0] != z3.unsat
                    if not (can_t and can_f and again):
                        break
                    if len(ext) > 12:
                        break
                    more = []
                    instances(self, z3.And(*ext), more)
                    if not more:
                        break
                    ext += more
        if can_t and can_f:
            ex.work.append(ex.trace[:ex.pos] + [(False, True)])
            ex.trace = ex.trace[:ex.pos] + [(True, True)]
            ex.pos += 1
            self.pc.append(t)
            return True
        d = can_t
        ex.trace = ex.trace[:ex.pos] + [(d, False)]
        ex.pos += 1
        return d

    def choose(self):
        """nondeterministic boolean (both alternatives explored)"""
        ex = self.explorers[-1]
        if ex.pos < len(ex.trace):
            d = ex.trace[ex.pos]
            ex.pos += 1
            return d[0]
        ex.work.append(ex.trace[:ex.pos] + [(False, False)])
        ex.trace = ex.trace[:ex.pos] + [(True, False)]
        ex.pos += 1
        return True

    def concretize(self, t, cap=24):
        """value of an integer term, forking over its (few) possible values"""
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        for _ in range(cap):
            # deterministic candidate: smallest via model
            ex = self.explorers[-1]
            r, s = self._solve([], self.branch_timeout)
            if r == z3.unsat:
                raise PathEnd()
            if r != z3.sat:
                raise Unsupported('cannot enumerate the values of an index')
            v = s.model().eval(t, model_completion=True).as_long()
            # is the range small at all?
            if _ == 0 and ex.pos >= len(ex.trace):
                r2, s2 = self._solve([z3.Or(t > v + cap, t < v - cap)], self.branch_timeout)
                if r2 != z3.unsat:
                    raise Unsupported('unbounded symbolic value used as a concrete index')
            # candidates must be the same on re-execution: scan around
            if ex.pos < len(ex.trace) and len(ex.trace[ex.pos]) == 3:
                v = ex.trace[ex.pos][2]
                d = ex.trace[ex.pos]
                ex.pos += 1
                if d[0]:
                    self.pc.append(t == v)
                    return v
                self.pc.append(t != v)
                continue
            if self.feasible(t != v):
                ex.work.append(ex.trace[:ex.pos] + [(False, True, v)])
            ex.trace = ex.trace[:ex.pos] + [(True, True, v)]
            ex.pos += 1
            self.pc.append(t == v)
            return v
        raise Unsupported('too many values')

    # -- verification conditions
    def ob(self, name, kind='post'):
        if name not in self.obs:
            self.obs[name] = Ob(name, kind)
        return self.obs[name]

    def prove(self, name, cond, kind='post', assume_after=True):
        """the clause `cond` must hold here"""
        if self.muted:
            return True
        ob = self.ob(name, kind)
        ob.vcs += 1
        t = z3.simplify(TB(cond))
        if z3.is_true(t):
            ob.discharged += 1
            ob.backends['simplifier'] = ob.backends.get('simplifier', 0) + 1
            return True
        ok, backend, detail = self._discharge(t)
        if ok:
            ob.discharged += 1
            ob.backends[backend] = ob.backends.get(backend, 0) + 1
        elif ok is False:
            ob.refuted.append(dict(detail, havoc=self.havoced))
        else:
            ob.unknown.append(detail)
        if assume_after and not z3.is_false(t):
            if kind != 'post':
                self.pc.append(t)
        elif z3.is_false(t):
            raise PathEnd()
        return ok

    def _discharge(self, t):
        from . import sums, reduce as R
        t0 = time.time()
        try:
            t = R.reduce(self, t)
            if z3.is_true(t):
                return True, 'simplifier', None
            dens = R.ring_valid(t)
            if dens is not None and all(self.entails(S(d) != 0) for d in dens):
                return True, 'polynomial normal form', None
            if DEBUG:
                print('not ring valid:', t)
        finally:
            self.solver_time += time.time() - t0
        neg = z3.Not(t)
        r, s = self._solve([neg], min(self.timeout, 3000))
        if r == z3.unsat:
            return True, 'z3', None
        # lemma instances on demand: sums, quantified facts
        more = sums.extensionality(self, [neg])
        if self.sums and sums.nonneg_lemmas():
            r, s = self._solve([neg] + more, self.timeout)
            if r == z3.unsat:
                return True, 'z3', None
        if more or self.closures:
            r, s = self._solve([neg] + more, self.timeout, closures=True)
            if r == z3.unsat:
                return True, 'z3', None
        elif r != z3.sat:
            r, s = self._solve([neg], self.timeout)
            if r == z3.unsat:
                return True, 'z3', None
        if r == z3.sat:
            m = s.model()
            vals = {}
            for k, v in self.model_vars.items():
                try:
                    vals[k] = str(m.eval(v, model_completion=True))
                except z3.Z3Exception:
                    pass
            return False, None, {'goal': str(t)[:1500], 'model': vals,
                                 'exact': self.exact([neg]),
                                 'model_text': str(m)[:1500]}
        if self.cvc5_unsat([neg] + more):
            return True, 'cvc5', None
        return None, None, {'goal': str(t)[:1500], 'reason': s.reason_unknown()}

    def exact(self, extra):
        """may a counter-model be taken at face value? (only arbitrary inputs are
        uninterpreted, nothing was abstracted)"""
        if self.havoced or self.closures:
            return False
        seen, st = set(), list(self.pc) + list(extra)
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                return False
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args():
                if x.decl().name() not in self.input_funs:
                    return False
            st.extend(x.children())
        return True

    def cvc5_unsat(self, extra):
        try:
            import cvc5
        except ImportError:
            return False
        s = z3.Solver()
        for f in self.pc + self.axs + list(extra):
            s.add(f)
        for q in self.closures:
            s.add(q.formula())
        txt = s.to_smt2().replace('(check-sat)', '')
        t0 = time.time()
        try:
            slv = cvc5.Solver()
            slv.setOption('tlimit-per', str(int(self.timeout)))
            slv.setLogic('ALL')
            p = cvc5.InputParser(slv)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'vc')
            sm = p.getSymbolManager()
            while True:
                cmd = p.nextCommand()
                if cmd.isNull():
                    break
                cmd.invoke(slv, sm)
            r = slv.checkSat()
            return r.isUnsat()
        except Exception:
            return False
        finally:
            self.solver_time += time.time() - t0

    def cover(self, name, cond=True):
        """reachability: some path must reach this with a satisfiable state"""
        if self.covers.get(name):
            return
        r, _ = self._solve([TB(cond)], self.timeout)
        self.covers[name] = (r == z3.sat) or (self.covers.get(name) or False)
        if r == z3.unknown:
            self.covers.setdefault(name + ' (unknown)', True)
            self.covers[name] = True

    def forall(self, *a, **k):
        q = Quant(*a, **k)
        self.closures.append(q)
        return q

    # -- uninterpreted real functions with axioms
    def fn1(self, name, x):
        from . import reals
        return reals.apply(self, name, x)

    # -- undo log (used to run a loop body more than once)
    def log(self, undo):
        self.undo.append(undo)

    def rollback(self, mark):
        while len(self.undo) > mark:
            self.undo.pop()()


class Family(object):
    """an unknown function that depends on the iteration it was made in"""

    def __init__(self, f, ks):
        self.f, self.ks = f, ks

    def __call__(self, *a):
        return self.f(*(self.ks + [T(x) for x in a]))

    def name(self):
        return self.f.name()

    def arity(self):
        return self.f.arity() - len(self.ks)


class Quant(object):
    """forall i_1..i_n in [lo,hi): body(i)"""

    def __init__(self, nvars, body, sorts=None, pattern=None):
        self.nvars, self.body, self.pattern = nvars, body, pattern

    def formula(self):
        vs = [z3.Int('q!%d' % i) for i in range(self.nvars)]
        b = TB(self.body(*[Sym(v) for v in vs]))
        if vs and self.pattern:
            # the terms whose occurrence gives an instance
            ps = [z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p for p in self.pattern(*vs)]
            return z3.ForAll(vs, b, patterns=ps) if ps else z3.ForAll(vs, b)
        return z3.ForAll(vs, b) if vs else b

    def inst(self, *ts):
        C.axiom_pc(TB(self.body(*[S(T(t)) for t in ts])))


def _axiom_pc(self, t):
    self.pc.append(t)


Ctx.axiom_pc = _axiom_pc

C = Ctx()


# --------------------------------------------------------------------------
#  nested exploration: evaluate a callable on all its paths
# --------------------------------------------------------------------------

class PathResult(object):
    __slots__ = ('conds', 'value', 'exc', 'extra', 'axs')


def explore(fn, capture=None, max_paths=64):
    """run fn on all paths from the current state; heap effects are rolled back.
    Returns list of PathResult (conditions relative to the current pc)."""
    ex = Explorer()
    out = []
    C.explorers.append(ex)
    base_pc = len(C.pc)
    base_cl = len(C.closures)
    try:
        while ex.next():
            mark = len(C.undo)
            saved_pc = C.pc
            C.pc = list(saved_pc)
            saved_counters = dict(C.counters)
            r = PathResult()
            r.exc, r.value, r.extra = None, None, None
            keep = True
            try:
                r.value = fn()
                if capture:
                    r.extra = capture()
            except PathEnd:
                keep = False
            except Exception as e:      # an exception of the program
                r.exc = e
                if capture:
                    r.extra = capture()
            finally:
                r.conds = C.pc[base_pc:]
                C.pc = saved_pc
                C.rollback(mark)
            if keep:
                out.append(r)
            if len(out) > max_paths:
                raise Unsupported('too many paths in a nested evaluation')
    finally:
        C.explorers.pop()
    return out


def merge_values(pairs):
    """[(cond, value)] -> one value (ite chain); the conditions are exhaustive"""
    assert pairs
    v = pairs[-1][1]
    for c, w in reversed(pairs[:-1]):
        v = merge2(c, w, v)
    return v


def merge2(c, a, b):
    if a is b:
        return a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge2(c, x, y) for x, y in zip(a, b))
    from .arr import SArr, merge_arr
    if isinstance(a, SArr) and isinstance(b, SArr):
        return merge_arr(c, a, b)
    from .seq import Seq, SList, seq_of
    if isinstance(a, (Seq, SList)) and type(a) is type(b) and (isinstance(a, Seq) or (a.items is None and b.items is None)):
        (n, f), (m, g) = seq_of(a), seq_of(b)
        ln = n if (T(n).eq(T(m))) else ite(S(c), n, m)
        get = lambda i: merge2(c, f(i), g(i))
        return Seq(ln, get) if isinstance(a, Seq) else SList.from_fn(ln, get)
    if isinstance(a, (bool, int, float, Fraction, Sym)) and isinstance(b, (bool, int, float, Fraction, Sym)):
        if not isinstance(a, Sym) and not isinstance(b, Sym) and a == b and type(a) is type(b):
            return a
        return ite(S(c), a, b)
    if hasattr(a, '__pv_merge__'):
        return a.__pv_merge__(c, b)
    if hasattr(b, '__pv_merge__'):
        return b.__pv_merge__(z3.Not(c), a)
    if a == b and isinstance(a, (str, type(None))):
        return a
    raise Unsupported('cannot merge %s and %s' % (type(a).__name__, type(b).__name__))


def pure(fn):
    """evaluate fn on all paths and merge the result into one value"""
    if C.depth > 12:
        raise Unsupported('nesting')
    C.depth += 1
    try:
        rs = explore(fn)
    finally:
        C.depth -= 1
    if not rs:
        raise PathEnd()
    bad = [r for r in rs if r.exc is not None]
    if bad:
        # decide (in the outer path) whether we are on an exceptional path
        for r in bad:
            if C.branch(z3.And(*r.conds) if r.conds else z3.BoolVal(True)):
                raise r.exc
        rs = [r for r in rs if r.exc is None]
        if not rs:
            raise PathEnd()
    return merge_values([(z3.And(*r.conds) if r.conds else z3.BoolVal(True), r.value) for r in rs])
