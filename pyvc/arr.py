"""numpy arrays with symbolic shape and contents; views alias their buffer.

Contents are functions from index terms to element terms.  This is the trusted
model of numpy (listed in the evidence; cross-checked against real numpy by the
bounded runs)."""
import z3
from .core import (C, Sym, S, SS, T, TR, TI, TB, Int, Real, Bool, Unsupported,
                   RealTypeError, ite, simp, sym_pow, py_floordiv, py_mod, py_int, sym_and, _isinf)
from . import sums, reals


def D(x):
    """dimension as z3 term"""
    return T(x)


def dim_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    ta, tb = simp(T(a)), simp(T(b))
    if ta.eq(tb):
        return True
    return C.branch(ta == tb)


def nd(x):
    """normalise a dimension"""
    if isinstance(x, int):
        return x
    return SS(T(x))


class Buf(object):
    """mutable storage"""
    _n = 0

    def __init__(self, ndim, fn, kind='R', name=None):
        self.ndim, self.kind, self.name = ndim, kind, name
        C.alloc += 1
        self.serial = C.alloc
        self._set(fn)
        self.writes = 0

    def _set(self, fn):
        memo = {}

        def cached(idx, fn=fn, memo=memo):
            key = tuple(i.get_id() for i in idx)
            r = memo.get(key)
            if r is None:
                t = fn(idx)
                memo[key] = (t, idx)      # keep idx alive (ids are reused)
                return t
            return r[0]
        self.fn = cached

    def set(self, fn):
        old = self.fn

        def undo(self=self, old=old):
            self.fn = old
        C.log(undo)
        note_write(self)
        self._set(fn)


WRITE_LISTENERS = []


def note_write(loc):
    for l in WRITE_LISTENERS:
        l(loc)


def _coerce(kind, t):
    if kind == 'R':
        return TR(t)
    if kind == 'I':
        t = TI(t)
        if t.sort() == Real:
            t = py_int(t)
        return t
    if kind == 'B':
        return TB(t)
    return t


def kind_of(t):
    s = t.sort()
    return 'R' if s == Real else ('I' if s == Int else 'B')


def join_kind(*ks):
    for k in 'RIB':
        if k in ks:
            return k
    return 'R'


class dtype(object):
    def __init__(self, kind):
        self.kind = {'R': 'f', 'I': 'i', 'B': 'b'}[kind]
        self.k = kind
        self.name = {'R': 'float64', 'I': 'int64', 'B': 'bool'}[kind]

    def __eq__(self, o):
        return kind_from_dtype(o) == self.k

    def __hash__(self):
        return hash(self.k)


def kind_from_dtype(d, default='R'):
    if d is None:
        return default
    if isinstance(d, dtype):
        return d.k
    n = getattr(d, '__pv_type__', None) or getattr(d, '__name__', None) or d
    if n in ('float', float, 'd', 'float64', 'float32', 'f', 'double', 'complex'):
        return 'R'
    if n in ('int', int, 'int64', 'int32', 'i', 'int8', 'uint8', 'integer'):
        return 'I'
    if n in ('bool', bool, 'b', 'bool_', 'bool8'):
        return 'B'
    raise Unsupported('dtype %r' % (d,))


class MaskSel(object):
    """a[mask]: the selected elements, kept at their original positions"""
    def __init__(self, shape, mask, val, kind):
        self._shape, self.mask, self.val, self.kind = shape, mask, val, kind

    def _probe(self):
        return [z3.Int('probe~%d' % i) for i in range(len(self._shape))]

    def same_mask(self, m, shape):
        if len(shape) != len(self._shape) or not all(dim_eq(a, b) for a, b in zip(shape, self._shape)):
            return False
        p = self._probe()
        return simp(self.mask(p)).eq(simp(m(p)))

    def _op(self, o, f, rev=False):
        v = self.val
        if isinstance(o, MaskSel):
            if not o.same_mask(self.mask, self._shape):
                raise Unsupported('different masks')
            g = o.val
        elif isinstance(o, (Sym, int, float)):
            t = T(o)
            g = lambda i: t
        else:
            raise Unsupported('masked elements combined with %s' % type(o).__name__)
        h = (lambda i: f(g(i), v(i))) if rev else (lambda i: f(v(i), g(i)))
        r = h(self._probe())
        if self.kind in 'IB' and kind_of(r) == 'R':
            k = 'R'
        else:
            k = kind_of(r)
        return MaskSel(self._shape, self.mask, h, k)

    def __add__(self, o): return self._op(o, _add)
    def __sub__(self, o): return self._op(o, _sub)
    def __mul__(self, o): return self._op(o, _mul)
    def __truediv__(self, o): return self._op(o, _div)
    def __radd__(self, o): return self._op(o, _add, True)
    def __rsub__(self, o): return self._op(o, _sub, True)
    def __rmul__(self, o): return self._op(o, _mul, True)

    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        raise Unsupported('masked elements: ' + a)

    def __len__(self): raise Unsupported('number of masked elements')
    def __iter__(self): raise Unsupported('iteration over masked elements')
    def __bool__(self): raise Unsupported('truth of masked elements')


class SArr(object):
    __pv_nonscalar__ = True
    __array_priority__ = 1000

    def __init__(self, buf, shape, fwd=None, inv=None):
        self.__dict__['buf'] = buf
        self.__dict__['_shape'] = tuple(nd(s) for s in shape)
        self.__dict__['fwd'] = fwd
        self.__dict__['inv'] = inv

    # ---- construction helpers
    @staticmethod
    def make(shape, fn, kind='R', name=None):
        return SArr(Buf(len(shape), fn, kind, name), shape)

    @staticmethod
    def fresh(name, shape, kind='R'):
        f = C.input_fun(name, *([Int] * len(shape) + [{'R': Real, 'I': Int, 'B': Bool}[kind]]))
        a = SArr.make(shape, lambda idx: f(*idx), kind, name)
        a.buf.decl = f
        return a

    # ---- access
    @property
    def kind(self):
        return self.buf.kind

    @property
    def dtype(self):
        return dtype(self.buf.kind)

    @property
    def shape(self):
        return self._shape

    @shape.setter
    def shape(self, sh):
        v = self.reshape(sh)
        if v.buf is not self.buf:
            raise AttributeError('incompatible shape for in-place modification')
        self.__dict__['_shape'] = v._shape
        self.__dict__['fwd'] = v.fwd
        self.__dict__['inv'] = v.inv

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        r = 1
        for s in self._shape:
            r = r * s
        return r

    def at(self, *idx):
        """term at the index (no bounds check): a specification-level read"""
        return self.term([simp(T(i)) for i in idx])

    def term(self, idx):
        b = self.fwd(idx) if self.fwd else idx
        return self.buf.fn(b)

    def snap(self):
        """immutable element function of the present contents"""
        fn, fwd = self.buf.fn, self.fwd
        if fwd is None:
            return fn
        return lambda idx: fn(fwd(idx))

    def _inv(self, b):
        if self.inv is not None:
            return self.inv(b)
        return inb(b, self._shape), b

    def write(self, vfn, cond=None):
        """self[idx] := vfn(idx) (where cond(idx))"""
        old = self.buf.fn
        kind = self.buf.kind

        def fn(b):
            c, i = self._inv(b)
            c = simp(c)
            if z3.is_false(c):
                return old(b)
            if cond is not None:
                c = simp(z3.And(c, cond(i)))
                if z3.is_false(c):
                    return old(b)
            v = _coerce(kind, vfn(i))
            if z3.is_true(c):
                return v
            return z3.If(c, v, old(b))
        self.buf.set(fn)

    # ---- indexing
    def _parse(self, key):
        """-> (list of per-dim selectors, n new axes positions)"""
        if not isinstance(key, tuple):
            key = (key,)
        key = list(key)
        n_sel = sum(1 for k in key if k is not None and k is not Ellipsis)
        if Ellipsis in [k for k in key if k is Ellipsis]:
            p = [i for i, k in enumerate(key) if k is Ellipsis][0]
            key[p:p + 1] = [slice(None)] * (self.ndim - n_sel)
        else:
            key += [slice(None)] * (self.ndim - n_sel)
        if n_sel > self.ndim:
            raise IndexError('too many indices for array')
        return key

    def view(self, key, checked=True):
        key = self._parse(key)
        sel = []          # per source dim: ('fix', t) / ('rng', lo, step) ; new dims in order
        shape = []
        out_dims = []     # for each output dim: source dim or None
        src = 0
        for k in key:
            if k is None:
                shape.append(1)
                out_dims.append(None)
                continue
            n = self._shape[src]
            if isinstance(k, slice):
                lo, cnt, step = norm_slice(k, n)
                sel.append(('rng', T(lo), step))
                shape.append(cnt)
                out_dims.append(src)
            else:
                i = norm_index(k, n) if checked else k
                sel.append(('fix', T(i)))
            src += 1
        nsrc = src
        pos = {}
        for o, s in enumerate(out_dims):
            if s is not None:
                pos[s] = o
        lowed = self.fwd
        shape_t = tuple(shape)

        def sub_fwd(idx):
            r = []
            for s in range(nsrc):
                q = sel[s]
                if q[0] == 'fix':
                    r.append(q[1])
                else:
                    i = idx[pos[s]]
                    if q[2] == 1:
                        r.append(simp(q[1] + i))
                    else:
                        r.append(simp(q[1] + q[2] * i))
            return r

        def fwd(idx):
            r = sub_fwd(idx)
            return lowed(r) if lowed else r

        pinv = self._inv

        def inv(b):
            c, oi = pinv(b)
            conds = [c]
            idx = [z3.IntVal(0)] * len(shape_t)
            for s in range(nsrc):
                q = sel[s]
                if q[0] == 'fix':
                    conds.append(oi[s] == q[1])
                elif q[2] == 1:
                    i = simp(oi[s] - q[1])
                    conds.append(i >= 0)
                    conds.append(i < T(shape_t[pos[s]]))
                    idx[pos[s]] = i
                elif q[2] == -1:
                    i = simp(q[1] - oi[s])
                    conds.append(i >= 0)
                    conds.append(i < T(shape_t[pos[s]]))
                    idx[pos[s]] = i
                else:
                    d = simp(oi[s] - q[1])
                    conds.append(d % q[2] == 0)
                    i = simp(py_floordiv(d, q[2]))
                    conds.append(i >= 0)
                    conds.append(i < T(shape_t[pos[s]]))
                    idx[pos[s]] = i
            return z3.And(*conds), idx
        return SArr(self.buf, shape_t, fwd, inv)

    def __getitem__(self, key):
        key = _fixkey(key)
        ks = key if isinstance(key, tuple) else (key,)
        if any(isinstance(k, SArr) for k in ks):
            return self._fancy(ks)
        v = self.view(key)
        if v.ndim == 0:
            return S(v.term([]))
        return v

    def _fancy(self, ks):
        if len(ks) == 1 and ks[0].kind == 'B':
            return MaskSel(self._shape, broadcast_to(ks[0], self._shape), self.snap(), self.kind)
        ks = self._parse(tuple(ks))
        arrs = [(d, k) for d, k in enumerate(ks) if isinstance(k, SArr)]
        if any(k.kind == 'B' for _, k in arrs):
            raise Unsupported('boolean mask read')
        if any(k.kind == 'R' for _, k in arrs):
            raise IndexError('arrays used as indices must be of integer (or boolean) type')
        if len(arrs) == 1:
            d, k = arrs[0]
            if k.ndim == 0:
                raise Unsupported('fancy index of rank %d' % k.ndim)
            n = self._shape[d]
            check_index_array(k, n)
            r = k.ndim
            kf = k.snap()
            base = self.view(tuple(slice(None) if i == d else x for i, x in enumerate(ks)))
            # position of dim d among the remaining dims
            p = sum(1 for i, x in enumerate(ks[:d]) if isinstance(x, slice))
            bf = base.snap()
            nt = T(n)

            def fn(idx):
                v = kf(idx[p:p + r])
                v = z3.If(v < 0, v + nt, v)
                return bf(idx[:p] + [v] + idx[p + r:])
            shape = list(base._shape)
            shape[p:p + 1] = k._shape
            return SArr.make(shape, fn, self.kind)
        if all(isinstance(k, SArr) for k in ks) and len(set(k.ndim for k in ks)) == 1 and ks[0].ndim == 1:
            fs = [k.snap() for k in ks]
            bf = self.snap()
            return SArr.make(ks[0]._shape, lambda idx: bf([f(idx) for f in fs]), self.kind)
        raise Unsupported('fancy indexing')

    def scatter(self, k, v):
        """self[k] = v for an array of indices k and a number v"""
        if k.kind != 'I':
            raise IndexError('arrays used as indices must be of integer (or boolean) type')
        f, m, n = k.snap(), T(k._shape[0]), T(self._shape[0])
        if C.choose():
            j = T(C.int('j'))
            C.assume(z3.And(j >= 0, j < m, z3.Or(f([j]) >= n, f([j]) < -n)))
            raise IndexError('index out of bounds')
        C.forall(1, lambda j: z3.Implies(z3.And(T(j) >= 0, T(j) < m), z3.And(f([T(j)]) < n, f([T(j)]) >= -n)))
        hit, at = C.fun('hit', z3.IntSort(), z3.BoolSort()), C.fun('hitat', z3.IntSort(), z3.IntSort())

        def pos(j):
            i = f([j])
            return simp(z3.If(i < 0, i + n, i))
        C.forall(1, lambda j: z3.Implies(z3.And(T(j) >= 0, T(j) < m), hit(pos(T(j)))))
        C.forall(1, lambda i: z3.Implies(hit(T(i)), z3.And(at(T(i)) >= 0, at(T(i)) < m, pos(at(T(i))) == T(i))))
        self.write(lambda i: v, cond=lambda i: hit(i[0]))

    def __setitem__(self, key, val):
        key = _fixkey(key)
        ks = key if isinstance(key, tuple) else (key,)
        if any(isinstance(k, SArr) for k in ks):
            if len(ks) == 1 and ks[0].kind == 'B':
                m = ks[0]
                bc = broadcast_to(m, self._shape)
                if isinstance(val, MaskSel):
                    if not val.same_mask(bc, self._shape):
                        raise Unsupported('masked assignment with another mask')
                    self.write(val.val, cond=lambda i: bc(i))
                    return
                if isinstance(val, SArr) and val.ndim > 0:
                    raise Unsupported('masked assignment of an array')
                v = T(val)
                self.write(lambda i: v, cond=lambda i: bc(i))
                return
            if len(ks) == 1 and ks[0].ndim == 1 and self.ndim >= 1 and not isinstance(val, (SArr, MaskSel)):
                return self.scatter(ks[0], T(val))
            raise Unsupported('fancy assignment')
        v = self.view(key)
        v.assign(val)

    def assign(self, val):
        val = _unlist(val)
        if isinstance(val, SArr):
            f = broadcast_to(val, self._shape)
            self.write(f)
        else:
            if val is None:
                raise RealTypeError('float() argument must be a number')
            if _isinf(val):
                raise Unsupported('infinity stored in an array')
            t = T(val)
            self.write(lambda i: t)

    def __iter__(self):
        n = self._shape[0] if self._shape else None
        if n is None:
            raise RealTypeError('iteration over a 0-d array')
        if not isinstance(n, int):
            raise Unsupported('native iteration over an array of symbolic length')
        return iter([self[i] for i in range(n)])

    def __len__(self):
        n = self._shape[0]
        if not isinstance(n, int):
            raise Unsupported('native len() of an array of symbolic length')
        return n

    def __contains__(self, x):
        raise Unsupported('in array')

    # ---- elementwise
    def _map(self, f, kind=None):
        g = self.snap()
        probe = f(g([z3.Int('probe~%d' % i) for i in range(self.ndim)]))
        k = kind or kind_of(probe)
        return SArr.make(self._shape, lambda i: f(g(i)), k)

    def _bin(self, o, f, kind=None, rev=False):
        o = _unlist(o)
        if o is None or isinstance(o, str):
            return NotImplemented
        if isinstance(o, SArr):
            shape = broadcast_shape(self._shape, o._shape)
            a, b = broadcast_to(self, shape), broadcast_to(o, shape)
        elif isinstance(o, (Sym, int, float)) or hasattr(o, 'item'):
            if _isinf(o):
                raise Unsupported('infinity in array arithmetic')
            shape = self._shape
            a = self.snap()
            t = T(o)
            b = lambda i: t
        else:
            return NotImplemented
        if rev:
            a, b = b, a
        pi = [z3.Int('probe~%d' % i) for i in range(len(shape))]
        k = kind or kind_of(f(a(pi), b(pi)))
        r = SArr.make(shape, lambda i: f(a(i), b(i)), k)
        return r if len(shape) else S(r.term([]))

    def __add__(self, o): return self._bin(o, _add)
    def __radd__(self, o): return self._bin(o, _add, rev=True)
    def __sub__(self, o): return self._bin(o, _sub)
    def __rsub__(self, o): return self._bin(o, _sub, rev=True)
    def __mul__(self, o): return self._bin(o, _mul)
    def __rmul__(self, o): return self._bin(o, _mul, rev=True)
    def __truediv__(self, o): return self._bin(o, _div)
    def __rtruediv__(self, o): return self._bin(o, _div, rev=True)
    def __floordiv__(self, o): return self._bin(o, lambda a, b: py_floordiv(a, b))
    def __mod__(self, o): return self._bin(o, lambda a, b: py_mod(a, b))
    def __rfloordiv__(self, o): return self._bin(o, lambda a, b: py_floordiv(a, b), rev=True)
    def __rmod__(self, o): return self._bin(o, lambda a, b: py_mod(a, b), rev=True)
    def __pow__(self, o): return self._bin(o, lambda a, b: T(sym_pow(S(a), o if not isinstance(o, SArr) else S(b))))
    def __rpow__(self, o): return self._bin(o, lambda a, b: T(sym_pow(S(a), S(b))), rev=True)
    def __neg__(self): return self._map(lambda a: -TI(a))
    def __pos__(self): return self.copy()
    def __abs__(self): return self._map(lambda a: z3.If(TI(a) >= 0, TI(a), -TI(a)))
    def __invert__(self):
        if self.kind != 'B':
            raise Unsupported('~ on non-bool')
        return self._map(z3.Not)
    def __and__(self, o): return self._bin(o, lambda a, b: z3.And(TB(a), TB(b)) if a.sort() == Bool else _bit('and', a, b))
    def __or__(self, o): return self._bin(o, lambda a, b: z3.Or(TB(a), TB(b)) if a.sort() == Bool else _bit('or', a, b))
    __rand__, __ror__ = __and__, __or__

    def __lt__(self, o): return self._bin(o, _cmp(lambda a, b: a < b))
    def __le__(self, o): return self._bin(o, _cmp(lambda a, b: a <= b))
    def __gt__(self, o): return self._bin(o, _cmp(lambda a, b: a > b))
    def __ge__(self, o): return self._bin(o, _cmp(lambda a, b: a >= b))

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return self._map(lambda a: z3.BoolVal(False))
        o = _unlist(o)
        if isinstance(o, SArr) and len(o._shape) == len(self._shape):
            for a, b in zip(self._shape, o._shape):
                if isinstance(a, int) and isinstance(b, int) and a != b and a != 1 and b != 1:
                    return False
        return self._bin(o, _cmp(lambda a, b: a == b))

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return self._map(lambda a: z3.BoolVal(True))
        return self._bin(o, _cmp(lambda a, b: a != b))

    def __hash__(self):
        raise RealTypeError("unhashable type: 'numpy.ndarray'")

    def __bool__(self):
        n = self.size
        if self.ndim == 0:
            return C.branch(TB(S(self.term([]))))
        if C.branch(TB(S(T(n) == 1))) if not isinstance(n, int) else n == 1:
            return C.branch(TB(S(self.term([z3.IntVal(0)] * self.ndim))))
        if isinstance(n, int) and n == 0:
            return False
        raise ValueError('The truth value of an array with more than one element is ambiguous')

    def _inplace(self, o, f):
        r = self._bin(o, f)
        if r is NotImplemented:
            return r
        if self.kind in 'IB' and r.kind == 'R':
            raise RealTypeError('Cannot cast ufunc output from float64 to int64')
        if len(r._shape) != len(self._shape):
            raise ValueError('non-broadcastable output operand')
        for a, b in zip(r._shape, self._shape):
            if not dim_eq(a, b):
                raise ValueError('non-broadcastable output operand')
        g = r.snap()
        self.write(g)
        return self

    def __iadd__(self, o): return self._inplace(o, _add)
    def __isub__(self, o): return self._inplace(o, _sub)
    def __imul__(self, o): return self._inplace(o, _mul)
    def __itruediv__(self, o): return self._inplace(o, _div)
    def __ifloordiv__(self, o): return self._inplace(o, lambda a, b: py_floordiv(a, b))
    def __imod__(self, o): return self._inplace(o, lambda a, b: py_mod(a, b))
    def __ipow__(self, o): return self._inplace(o, lambda a, b: T(sym_pow(S(a), o)))

    # ---- shape
    @property
    def T(self):
        return self.transpose()

    def transpose(self, *a):
        if a:
            ax = tuple(a[0]) if len(a) == 1 and not isinstance(a[0], int) else a
            if sorted(ax) != list(range(self.ndim)):
                raise ValueError('axes don\'t match array')
            pf, pi = self.fwd, self._inv

            def back(idx):
                s = [None] * len(ax)
                for q, v in zip(ax, idx):
                    s[q] = v
                return s
            return SArr(self.buf, tuple(self._shape[q] for q in ax),
                        lambda idx: (pf(back(idx)) if pf else back(idx)),
                        lambda b: (lambda ci: (ci[0], [ci[1][q] for q in ax]))(pi(b)))
        if self.ndim < 2:
            return self
        pf, pi = self.fwd, self._inv
        return SArr(self.buf, self._shape[::-1],
                    lambda idx: (pf(idx[::-1]) if pf else idx[::-1]),
                    lambda b: (lambda ci: (ci[0], ci[1][::-1]))(pi(b)))

    def reshape(self, *sh, **kw):
        if len(sh) == 1 and (isinstance(sh[0], tuple) or hasattr(sh[0], '__pv_seq__')):
            sh = tuple(sh[0])
        sh = [as_dim(s) for s in sh]
        for i, s in enumerate(sh):
            if isinstance(s, int) and s == -1:
                rest = 1
                for j, q in enumerate(sh):
                    if j != i:
                        rest = rest * q
                n = self.size
                sh[i] = n if (isinstance(rest, int) and rest == 1) else SS(py_floordiv(T(n), T(rest)))
        tot = 1
        for s in sh:
            tot = tot * s
        if not dim_eq(tot, self.size):
            raise ValueError('cannot reshape array')
        if len(sh) == self.ndim and all(simp(T(a)).eq(simp(T(b))) for a, b in zip(sh, self._shape)):
            return SArr(self.buf, self._shape, self.fwd, self.inv)
        ssh = self._shape
        tsh = tuple(sh)
        pf, pi = self.fwd, self._inv

        def fwd(idx):
            r = unflat(flat(idx, tsh), ssh)
            return pf(r) if pf else r

        def inv(b):
            c, oi = pi(b)
            ni = unflat(flat(oi, ssh), tsh)
            return z3.And(c, inb(ni, tsh)), ni
        return SArr(self.buf, tsh, fwd, inv)

    def flatten(self):
        return self.ravel().copy()

    def ravel(self):
        if self.ndim == 1:
            return self.view(slice(None))
        return self.reshape(self.size)

    @property
    def flat(self):
        return self.ravel()

    def copy(self):
        g = self.snap()
        return SArr.make(self._shape, g, self.kind)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, d):
        k = kind_from_dtype(d)
        return self._map(lambda a: _coerce(k, a), k)

    def view_(self):
        return self

    def fill(self, v):
        self.assign(v)

    def tolist(self):
        from .seq import SList
        if self.ndim == 0:
            return S(self.term([]))
        g = self.snap()
        if self.ndim == 1:
            return SList.from_fn(self._shape[0], lambda i: S(g([T(i)])))
        n = self._shape[0]
        if isinstance(n, int):
            return SList([self[i].tolist() for i in range(n)])
        raise Unsupported('tolist of a matrix')

    def item(self, *a):
        if not a and self.ndim <= 1:
            return self[0] if self.ndim else S(self.term([]))
        if len(a) == 1 and isinstance(a[0], tuple):
            return self[a[0]]
        return self[a if len(a) > 1 else a[0]]

    # ---- reductions
    def sum(self, axis=None, **kw):
        return asum(self, axis)

    def dot(self, o):
        return dot(self, o)

    def mean(self, axis=None):
        s = asum(self, axis)
        n = self.size if axis is None else self._shape[axis]
        return s / (n * 1.0 if isinstance(n, int) else S(TR(n)))

    def max(self, axis=None):
        return amax(self, axis)

    def min(self, axis=None):
        return amin(self, axis)

    def argmax(self, axis=None):
        return argmax(self, axis)

    def argmin(self, axis=None):
        return argmax(-self, axis)

    def any(self):
        return reduce_bool(self, False)

    def all(self):
        return reduce_bool(self, True)

    def clip(self, lo=None, hi=None, **kw):
        if 'min' in kw:
            lo = kw.pop('min')
        if 'max' in kw:
            hi = kw.pop('max')
        return clip(self, lo, hi, **kw)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('ndarray.%s' % name)

    def __repr__(self):
        return 'SArr%r' % (self._shape,)

    def __str__(self):
        return '<array>'

    def __format__(self, s):
        return '<array>'


def _bit(op, a, b):
    from .core import sym_bitop
    return T(sym_bitop(op, S(a), S(b)))


def _fixkey(key):
    from .seq import SList
    if isinstance(key, tuple):
        return tuple(_fixkey(k) if not isinstance(k, tuple) else k for k in key)
    if isinstance(key, (SList, list)):
        return asarray(key)
    if isinstance(key, SArr) and key.ndim == 0:
        return S(key.term([]))
    if isinstance(key, float) or (isinstance(key, Sym) and key.t.sort() == Real):
        raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices')
    if isinstance(key, Sym) and key.is_bool:
        raise Unsupported('boolean scalar index')
    return key


def as_dim(s):
    if isinstance(s, SArr):
        s = s.item()
    if isinstance(s, float) or (isinstance(s, Sym) and not s.is_int):
        raise RealTypeError("'float' object cannot be interpreted as an integer")
    return s


def as_shape(sh):
    if isinstance(sh, tuple) or hasattr(sh, '__pv_seq__') or isinstance(sh, list):
        return tuple(as_dim(s) for s in sh)
    return (as_dim(sh),)


def inb(idx, shape):
    cs = []
    for i, n in zip(idx, shape):
        cs += [i >= 0, i < T(n)]
    return z3.And(*cs) if cs else z3.BoolVal(True)


def norm_index(i, n):
    """python index -> nonnegative index, forking on sign / range errors"""
    if isinstance(i, SArr):
        i = i.item()
    if isinstance(i, bool):
        i = int(i)
    if isinstance(i, Sym):
        if not i.is_int:
            raise IndexError('only integers are valid indices')
    elif isinstance(i, float):
        raise IndexError('only integers are valid indices')
    elif not isinstance(i, int):
        raise Unsupported('index %r' % (type(i),))
    if isinstance(i, int) and isinstance(n, int):
        j = i + n if i < 0 else i
        if not 0 <= j < n:
            raise IndexError('index out of bounds')
        return j
    j = i
    if isinstance(i, int):
        if i < 0:
            j = n + i
    elif C.branch(i.t < 0):
        j = i + n
    jt, nt = T(j), T(n)
    if not C.branch(z3.And(jt >= 0, jt < nt)):
        raise IndexError('index out of bounds')
    return j


def _slice_ok(x):
    if isinstance(x, SArr):
        x = x.item()
    if isinstance(x, float) or (isinstance(x, Sym) and not x.is_int):
        raise RealTypeError('slice indices must be integers or None or have an __index__ method')
    return x


def norm_slice(k, n):
    """-> (lo, count, step)"""
    step = k.step if k.step is not None else 1
    if not isinstance(step, int):
        raise Unsupported('symbolic slice step')
    a, b = _slice_ok(k.start), _slice_ok(k.stop)
    if isinstance(n, int) and not isinstance(a, Sym) and not isinstance(b, Sym):
        lo, hi, st = slice(a, b, step).indices(n)
        cnt = len(range(lo, hi, st))
        return lo, cnt, st
    if step == -1 and a is None and b is None:
        return n - 1, n, -1
    if step < 0:
        raise Unsupported('negative slice step')
    lo = 0 if a is None else _clamp(a, n)
    hi = n if b is None else _clamp(b, n)
    if b is None and (a is None or lo is n):
        pass
    lt, ht = T(lo), T(hi)
    if C.entails(lt <= ht) or C.branch(lt <= ht):
        cnt = SS(ht - lt)
    else:
        cnt = 0
    if step != 1:
        cnt = SS(py_floordiv(T(cnt) + step - 1, step))
    return lo, cnt, step


def _clamp(x, n):
    if isinstance(x, int) and x == 0:
        return 0
    xt, nt = T(x), T(n)
    if isinstance(x, int) and x < 0 or (isinstance(x, Sym) and C.branch(xt < 0)):
        y = nt + xt
        if C.branch(y >= 0):
            return SS(y)
        return 0
    if C.branch(xt <= nt):
        return x
    return n


def flat(idx, shape):
    """row-major flat index; remembered so that it can be split again"""
    if not idx:
        return z3.IntVal(0)
    r = idx[0]
    for i, n in zip(idx[1:], shape[1:]):
        nt = simp(T(n))
        t = simp(r * nt + i)
        C.flat_tags.setdefault(t.get_id(), []).append((t, r, i, nt))
        r = t
    return r


def unflat(f, shape):
    if len(shape) == 0:
        return []
    out = []
    r = f
    for n in list(shape[1:])[::-1]:
        nt = simp(T(n))
        hit = None
        for (t, hi, lo, m) in C.flat_tags.get(r.get_id(), []):
            if m.eq(nt):
                # valid when 0 <= lo < m: a fact of every in-range index
                hit = (hi, lo)
                break
        if hit and _in_range(hit[1], nt):
            out.append(hit[1])
            r = hit[0]
        else:
            if z3.is_int_value(nt) and nt.as_long() == 1:
                out.append(z3.IntVal(0))
            else:
                out.append(simp(r % nt))
                r = simp(r / nt)
    out.append(r)
    return out[::-1]


def _in_range(i, n):
    if z3.is_int_value(i) and z3.is_int_value(n):
        return 0 <= i.as_long() < n.as_long()
    # bound variables of sums range over their sum by construction
    if '~' in i.sexpr():
        return True
    return C.entails(z3.And(i >= 0, i < n))


def broadcast_shape(a, b):
    n = max(len(a), len(b))
    a = (1,) * (n - len(a)) + tuple(a)
    b = (1,) * (n - len(b)) + tuple(b)
    out = []
    for x, y in zip(a, b):
        if isinstance(x, int) and x == 1:
            out.append(y)
        elif isinstance(y, int) and y == 1:
            out.append(x)
        elif dim_eq(x, y):
            out.append(x)
        else:
            if (isinstance(x, int) or isinstance(y, int)) or True:
                if not isinstance(x, int) and C.branch(T(x) == 1):
                    out.append(y)
                    continue
                if not isinstance(y, int) and C.branch(T(y) == 1):
                    out.append(x)
                    continue
            raise ValueError('operands could not be broadcast together')
    return tuple(out)


def broadcast_to(a, shape):
    """element function of a broadcast to shape"""
    off = len(shape) - len(a._shape)
    if off < 0:
        # leading dimensions of size one may be dropped in assignment
        if all(isinstance(s, int) and s == 1 for s in a._shape[:-len(shape) or None][:(-off)]):
            g = a.snap()
            k = -off
            return lambda idx: g([z3.IntVal(0)] * k + list(idx))
        raise ValueError('could not broadcast input array')
    g = a.snap()
    mode = []
    for s, n in zip(a._shape, shape[off:]):
        if isinstance(s, int) and s == 1 and not (isinstance(n, int) and n == 1):
            mode.append(True)
        elif dim_eq(s, n):
            mode.append(False)
        elif not isinstance(s, int) and C.branch(T(s) == 1):
            mode.append(True)
        else:
            raise ValueError('could not broadcast input array from shape')
    zero = z3.IntVal(0)

    def f(idx):
        idx = idx[off:]
        return g([zero if m else i for m, i in zip(mode, idx)])
    return f


def check_index_array(k, n):
    """every entry of the index array is in range, else IndexError"""
    ix = [z3.Int(C.fresh_name('fi')) for _ in k._shape]
    v = k.term(ix)
    nt = T(n)
    bad = z3.And(*([inb(ix, k._shape)] + [z3.Or(v >= nt, v < -nt)]))
    r, _ = C._solve([bad], C.branch_timeout, closures=bool(C.closures))
    if r == z3.unsat:
        return
    if r == z3.sat and C.choose():
        C.pc.append(bad)
        raise IndexError('index out of bounds')
    # all entries in range
    kf = k.snap()

    def ok(*js):
        js = [T(j) for j in js]
        return z3.Implies(inb(js, k._shape), z3.And(kf(js) < nt, kf(js) >= -nt))
    C.forall(k.ndim, ok)


def _add(a, b):
    if a.sort() != b.sort() or a.sort() == Bool:
        from .core import balance
        a, b = balance(a, b)
    if sums._is0(b):
        return a
    if sums._is0(a):
        return b
    return a + b


def _sub(a, b):
    from .core import balance
    a, b = balance(a, b)
    return a - b


def _mul(a, b):
    from .core import balance
    if a.sort() == Bool and b.sort() == Bool:
        return z3.And(a, b)
    a, b = balance(a, b)
    return a * b


def _div(a, b):
    return TR(a) / TR(b)


def _cmp(f):
    def g(a, b):
        from .core import balance
        if a.sort() == Bool and b.sort() == Bool:
            a, b = TI(a), TI(b)
        a, b = balance(a, b)
        return f(a, b)
    return g


def _unlist(x):
    from .seq import SList
    if isinstance(x, (list, SList)) or (isinstance(x, tuple)):
        return asarray(x)
    return x


# ---------------------------------------------------------------- numpy functions

def from_list(l):
    """python list of scalars / lists / arrays -> array"""
    items = list(l)
    if not items:
        return SArr.make((0,), lambda i: z3.RealVal(0), 'R')
    subs = [_unlist(x) if isinstance(x, (list, tuple)) or hasattr(x, '__pv_seq__') else x for x in items]
    if any(isinstance(x, SArr) for x in subs):
        if not all(isinstance(x, SArr) for x in subs):
            raise Unsupported('ragged array')
        sh = subs[0]._shape
        for s in subs[1:]:
            if len(s._shape) != len(sh):
                raise Unsupported('ragged array')
            for a, b in zip(sh, s._shape):
                if not dim_eq(a, b):
                    raise Unsupported('ragged array')
        k = join_kind(*[s.kind for s in subs])
        fs = [s.snap() for s in subs]

        def fn(idx):
            v = _coerce(k, fs[-1](idx[1:]))
            for n in range(len(fs) - 2, -1, -1):
                c = simp(idx[0] == n)
                if z3.is_true(c):
                    v = _coerce(k, fs[n](idx[1:]))
                elif not z3.is_false(c):
                    v = z3.If(c, _coerce(k, fs[n](idx[1:])), v)
            return v
        return SArr.make((len(items),) + sh, fn, k)
    ts = [T(x) for x in subs]
    k = join_kind(*[kind_of(t) for t in ts])
    ts = [_coerce(k, t) for t in ts]

    def fn(idx):
        v = ts[-1]
        for n in range(len(ts) - 2, -1, -1):
            c = simp(idx[0] == n)
            if z3.is_true(c):
                v = ts[n]
            elif not z3.is_false(c):
                v = z3.If(c, ts[n], v)
        return v
    return SArr.make((len(ts),), fn, k)


def asarray(x, dt=None):
    from .seq import SList
    if isinstance(x, SArr):
        r = x
    elif isinstance(x, (Sym, int, float)):
        t = T(x)
        r = SArr.make((), lambda i: t, kind_of(t))
    elif isinstance(x, SList):
        r = x.to_array()
    elif isinstance(x, (list, tuple)):
        r = from_list(x)
    elif hasattr(x, '__pv_seq__'):
        r = SList.coerce(x).to_array()
    else:
        raise Unsupported('array(%s)' % type(x).__name__)
    if dt is not None:
        k = kind_from_dtype(dt)
        if k != r.kind:
            r = r.astype(dt)
    return r


def array(x, dt=None, **kw):
    dt = kw.get('dtype', dt)
    r = asarray(x, dt)
    return r.copy() if r is x or True else r


def zeros(shape, dt=None, **kw):
    k = kind_from_dtype(kw.get('dtype', dt))
    v = {'R': z3.RealVal(0), 'I': z3.IntVal(0), 'B': z3.BoolVal(False)}[k]
    sh = as_shape(shape)
    for s in sh:
        if not isinstance(s, int) and not C.entails(T(s) >= 0):
            if C.branch(T(s) < 0):
                raise ValueError('negative dimensions are not allowed')
        elif isinstance(s, int) and s < 0:
            raise ValueError('negative dimensions are not allowed')
    return SArr.make(sh, lambda i: v, k)


def ones(shape, dt=None, **kw):
    k = kind_from_dtype(kw.get('dtype', dt))
    v = {'R': z3.RealVal(1), 'I': z3.IntVal(1), 'B': z3.BoolVal(True)}[k]
    return SArr.make(as_shape(shape), lambda i: v, k)


def eye(n, m=None, **kw):
    m = n if m is None else m
    return SArr.make((as_dim(n), as_dim(m)), lambda i: z3.If(i[0] == i[1], z3.RealVal(1), z3.RealVal(0)))


def arange(*a, **kw):
    a = [x for x in a]
    if len(a) == 1:
        lo, hi = 0, a[0]
    else:
        lo, hi = a[0], a[1]
    if len(a) > 2:
        raise Unsupported('arange step')
    n = hi - lo
    k = 'I' if T(n).sort() == Int else 'R'
    if k == 'R':
        raise Unsupported('float arange')
    lt = T(lo)
    if not isinstance(n, int) and C.branch(T(n) < 0):
        n = 0
    return SArr.make((n,), lambda i: simp(lt + i[0]), 'I')


def dot(a, b):
    a, b = _unlist(a), _unlist(b)
    if not isinstance(a, SArr) or not isinstance(b, SArr):
        return a * b
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    n = a._shape[-1]
    m = b._shape[0] if b.ndim == 1 else b._shape[-2]
    if not dim_eq(n, m):
        raise ValueError('shapes not aligned')
    af, bf = a.snap(), b.snap()
    if a.ndim == 1 and b.ndim == 1:
        return S(sums.Sum(n, lambda k: _mul(af([k]), bf([k]))))
    if a.ndim == 2 and b.ndim == 1:
        return SArr.make((a._shape[0],), lambda i: TR(sums.Sum(n, lambda k: _mul(af([i[0], k]), bf([k])))))
    if a.ndim == 1 and b.ndim == 2:
        return SArr.make((b._shape[1],), lambda i: TR(sums.Sum(n, lambda k: _mul(af([k]), bf([k, i[0]])))))
    if a.ndim == 2 and b.ndim == 2:
        return SArr.make((a._shape[0], b._shape[1]),
                         lambda i: TR(sums.Sum(n, lambda k: _mul(af([i[0], k]), bf([k, i[1]])))))
    raise Unsupported('dot of rank %d x %d' % (a.ndim, b.ndim))


def outer(a, b):
    a, b = asarray(a).ravel(), asarray(b).ravel()
    af, bf = a.snap(), b.snap()
    return SArr.make((a._shape[0], b._shape[0]), lambda i: _mul(af([i[0]]), bf([i[1]])),
                     join_kind(a.kind, b.kind))


def asum(a, axis=None):
    if not isinstance(a, SArr):
        a = asarray(a)
    g = a.snap()
    if a.ndim == 0:
        return S(a.term([]))
    if axis is None:
        def rec(pre, dims):
            if not dims:
                return TI(g(pre))
            return sums.Sum(dims[0], lambda k: rec(pre + [k], dims[1:]))
        t = rec([], list(a._shape))
        return S(simp(TR(t) if a.kind == 'R' else t))
    if axis < 0:
        axis += a.ndim
    sh = a._shape[:axis] + a._shape[axis + 1:]
    n = a._shape[axis]
    k0 = 'R' if a.kind == 'R' else 'I'
    r = SArr.make(sh, lambda i: _coerce(k0, sums.Sum(n, lambda k: TI(g(list(i[:axis]) + [k] + list(i[axis:]))))), k0)
    return r if sh else S(r.term([]))


def _extremum(a, sign, axis=None):
    if axis is not None and a.ndim > 1:
        raise Unsupported('max along an axis')
    if a.ndim > 1:
        a = a.ravel()
    n = a._shape[0]
    if isinstance(n, int):
        if n == 0:
            raise ValueError('zero-size array to reduction operation')
    elif C.branch(T(n) <= 0):
        raise ValueError('zero-size array to reduction operation')
    g = a.snap()
    if isinstance(n, int) and n <= 16:
        v, p = TI(g([z3.IntVal(0)])), z3.IntVal(0)
        for i in range(1, n):
            w = TI(g([z3.IntVal(i)]))
            c = w > v if sign > 0 else w < v
            v, p = z3.If(c, w, v), z3.If(c, z3.IntVal(i), p)
        return S(v), S(p)
    key = ('ext', sign, simp(T(n)).get_id(), TI(g([z3.Int('probe~0')])).get_id())
    memo = C.ghost.setdefault('_ext', {})
    if key in memo:
        return memo[key][:2]
    p = z3.Int(C.fresh_name('arg'))
    v = TI(g([p]))
    C.pc.append(z3.And(p >= 0, p < T(n)))
    nt = T(n)

    def fact(j):
        j = T(j)
        w = TI(g([j]))
        return z3.Implies(z3.And(j >= 0, j < nt),
                          z3.And(w <= v if sign > 0 else w >= v,
                                 z3.Implies(j < p, w < v if sign > 0 else w > v)))
    C.forall(1, fact)
    memo[key] = (S(v), S(p), T(n))
    return S(v), S(p)


def amax(a, axis=None):
    return _extremum(_arr1(a), +1, axis)[0]


def amin(a, axis=None):
    return _extremum(_arr1(a), -1, axis)[0]


def argmax(a, axis=None):
    a = _arr1(a)
    if axis is not None and a.ndim == 2:
        n0, n1 = a._shape
        g = a.snap()
        if axis == 1 and isinstance(n1, int) and n1 <= 16:
            def fn(i):
                v, p = TI(g([i[0], z3.IntVal(0)])), z3.IntVal(0)
                for j in range(1, n1):
                    w = TI(g([i[0], z3.IntVal(j)]))
                    c = w > v
                    v, p = z3.If(c, w, v), z3.If(c, z3.IntVal(j), p)
                return p
            return SArr.make((n0,), fn, 'I')
        if axis == 1:
            f = C.fun('rowargmax', Int, Int)
            t1 = T(n1)
            C.forall(2, lambda i, j: z3.Implies(
                z3.And(T(i) >= 0, T(i) < T(n0), t1 > 0),
                z3.And(f(T(i)) >= 0, f(T(i)) < t1,
                       z3.Implies(z3.And(T(j) >= 0, T(j) < t1),
                                  z3.And(g([T(i), T(j)]) <= g([T(i), f(T(i))]),
                                         z3.Implies(T(j) < f(T(i)), g([T(i), T(j)]) < g([T(i), f(T(i))])))))))
            return SArr.make((n0,), lambda i: f(i[0]), 'I')
        raise Unsupported('argmax axis 0')
    return _extremum(a, +1)[1]


def argmin(a, axis=None):
    return _extremum(_arr1(a), -1, axis)[1]


def _arr1(a):
    return a if isinstance(a, SArr) else asarray(a)


def reduce_bool(a, is_all):
    a = _arr1(a)
    g = a.snap()
    if a.ndim == 0:
        return S(TB(a.term([])))
    if all(isinstance(s, int) for s in a._shape):
        import itertools
        cs = [TB(g([z3.IntVal(i) for i in ix])) for ix in itertools.product(*[range(s) for s in a._shape])]
        return SS(z3.And(*cs) if is_all else z3.Or(*cs)) if cs else is_all
    vs = [z3.Int(C.fresh_name('qb')) for _ in a._shape]
    b = TB(g(vs))
    rng = inb(vs, a._shape)
    if is_all:
        return S(z3.ForAll(vs, z3.Implies(rng, b)))
    return S(z3.Exists(vs, z3.And(rng, b)))


def selection(nt, cd):
    """the indices i < nt with cd(i), increasing: (sel, rank, how many)"""
    Int = z3.IntSort()
    sel = C.fun('sel', Int, Int)
    rnk = C.fun('rank', Int, Int)
    m = z3.Int(C.fresh_name('cnt'))
    C.pc.append(z3.And(m >= 0, m <= nt))
    C.pc.append(m == sums.Sum(nt, lambda i: z3.If(cd(i), z3.IntVal(1), z3.IntVal(0))))
    C.forall(1, lambda j: z3.Implies(z3.And(T(j) >= 0, T(j) < m),
                                     z3.And(sel(T(j)) >= 0, sel(T(j)) < nt, cd(sel(T(j))), rnk(sel(T(j))) == T(j))))
    C.forall(1, lambda i: z3.Implies(z3.And(T(i) >= 0, T(i) < nt, cd(T(i))),
                                     z3.And(rnk(T(i)) >= 0, rnk(T(i)) < m, sel(rnk(T(i))) == T(i))))
    C.forall(2, lambda i, j: z3.Implies(z3.And(T(i) >= 0, T(i) < T(j), T(j) < m), sel(T(i)) < sel(T(j))))
    return sel, rnk, m


def nonzero(c):
    """indices of the entries that hold, in order"""
    f = c.snap()
    if c.ndim == 2 and c._shape[1] == 1 and isinstance(c._shape[1], int):
        g = lambda i: TB(f([i, z3.IntVal(0)]))
    elif c.ndim == 1:
        g = lambda i: TB(f([i]))
    else:
        raise Unsupported('where(cond) of this shape')
    sel, rnk, m = selection(T(c._shape[0]), g)
    r = SArr.make((S(m),), lambda i: sel(i[0]), 'I')
    C.ghost.setdefault('where', []).append((sel, rnk, m, g))
    return (r,) if c.ndim == 1 else (r, SArr.make((S(m),), lambda i: z3.IntVal(0), 'I'))


def where(c, a=None, b=None):
    c = _arr1(c)
    if a is None:
        return nonzero(c)
    sh = c._shape
    if isinstance(a, SArr):
        sh = broadcast_shape(sh, a._shape)
    if isinstance(b, SArr):
        sh = broadcast_shape(sh, b._shape)
    cf = broadcast_to(c, sh)
    af = broadcast_to(a, sh) if isinstance(a, SArr) else (lambda i: T(a))
    bf = broadcast_to(b, sh) if isinstance(b, SArr) else (lambda i: T(b))

    def fn(i):
        x, y = af(i), bf(i)
        if x.sort() != y.sort():
            from .core import balance
            x, y = balance(x, y)
        return z3.If(TB(cf(i)), x, y)
    k = kind_of(fn([z3.Int('probe~%d' % i) for i in range(len(sh))]))
    return SArr.make(sh, fn, k)


def merge_arr(c, a, b):
    c = TB(c)
    if len(a._shape) != len(b._shape):
        raise Unsupported('merge of arrays of different rank')
    sh = []
    for x, y in zip(a._shape, b._shape):
        sh.append(x if (isinstance(x, int) and x == y) or simp(T(x)).eq(simp(T(y))) else ite(S(c), x, y))
    af, bf = a.snap(), b.snap()
    k = join_kind(a.kind, b.kind)
    return SArr.make(sh, lambda i: z3.If(c, _coerce(k, af(i)), _coerce(k, bf(i))), k)


def elementwise(name):
    def f(x, *rest):
        x = _unlist(x)
        if isinstance(x, SArr):
            return x._map(lambda a: TR(C.fn1(name, S(a))), 'R')
        if isinstance(x, (int, float)):
            import math
            if name == 'sqrt' and x >= 0 and float(x) ** 0.5 == int(float(x) ** 0.5):
                return float(x) ** 0.5
        return C.fn1(name, x)
    f.__name__ = name
    return f


def clip(x, lo, hi, out=None):
    x, lo, hi = _unlist(x), _unlist(lo), _unlist(hi)
    if isinstance(lo, SArr) or isinstance(hi, SArr):
        r = maximum(x, lo) if lo is not None else x
        r = minimum(r, hi) if hi is not None else r
        if out is not None:
            out.assign(r)
            return out
        return r
    if isinstance(x, SArr):
        r = x._map(lambda a: reals.clip(a, lo, hi))
        if out is not None:
            out.assign(r)
            return out
        return r
    return S(reals.clip(x, lo, hi))


def concatenate(l, axis=0):
    items = [_arr1(x) for x in l]
    if not items:
        raise ValueError('need at least one array to concatenate')
    if axis != 0:
        raise Unsupported('concatenate axis')
    nd_ = items[0].ndim
    k = join_kind(*[x.kind for x in items])
    for x in items[1:]:
        if x.ndim != nd_:
            raise ValueError('all the input array dimensions must match')
        for a, b in zip(x._shape[1:], items[0]._shape[1:]):
            if not dim_eq(a, b):
                raise ValueError('all the input array dimensions must match')
    offs = [0]
    for x in items:
        offs.append(offs[-1] + x._shape[0])
    fs = [x.snap() for x in items]
    ot = [T(o) for o in offs]

    def fn(idx):
        v = _coerce(k, fs[-1]([simp(idx[0] - ot[len(fs) - 1])] + list(idx[1:])))
        for n in range(len(fs) - 2, -1, -1):
            v = z3.If(idx[0] < ot[n + 1], _coerce(k, fs[n]([simp(idx[0] - ot[n])] + list(idx[1:]))), v)
        return v
    return SArr.make((offs[-1],) + items[0]._shape[1:], fn, k)


def append(a, b, axis=None):
    a, b = _arr1(a), _arr1(b)
    if axis is None:
        a, b = a.ravel(), b.ravel()
    return concatenate([a, b], 0)


def resize(a, shape):
    """numpy.resize: repeats the data to fill the shape"""
    a = _arr1(a)
    sh = as_shape(shape)
    if len(sh) == a.ndim and all(simp(T(x)).eq(simp(T(y))) for x, y in zip(sh[1:], a._shape[1:])):
        g = a.snap()
        n = T(a._shape[0])
        # rows repeat cyclically; an empty array yields zeros

        def fn(idx):
            i = idx[0]
            j = z3.If(i < n, i, z3.If(n > 0, i % z3.If(n > 0, n, z3.IntVal(1)), 0))
            return z3.If(n > 0, g([simp(j)] + list(idx[1:])), _coerce(a.kind, z3.IntVal(0)))
        return SArr.make(sh, fn, a.kind)
    raise Unsupported('resize')


def maximum(a, b):
    a, b = _unlist(a), _unlist(b)
    f = lambda x, y: z3.If(TI(x) >= TI(y), TI(x), TI(y))
    if isinstance(a, SArr):
        return a._bin(b, f)
    if isinstance(b, SArr):
        return b._bin(a, f)
    return S(z3.If(TR(a) >= TR(b), TR(a), TR(b)))


def minimum(a, b):
    return -maximum(-_arrlike(a), -_arrlike(b))


def _arrlike(a):
    a = _unlist(a)
    return a if isinstance(a, (SArr, Sym)) else S(T(a))
