"""Run-time support of the transformed code: loops, comprehensions, logging."""
import operator
import os
import z3
from .core import (C, Sym, S, SS, T, TR, TI, TB, Int, Real, Bool, Unsupported, PathEnd,
                   RealTypeError, ite, simp, merge2, merge_values, explore, pure)
from . import arr as A
from . import seq as Q
from . import sums
from .seq import SList, TDict, TSet, Seq

BRK = object()


class Ret(object):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


def is_ret(r):
    return isinstance(r, Ret)


class Poison(object):
    """a value the verifier does not track; any use leaves the subset"""

    def __init__(self, why='untracked loop variable'):
        object.__setattr__(self, 'why', why)

    def __getattr__(self, n):
        raise Unsupported(self.why)

    def _bad(self, *a, **k):
        raise Unsupported(object.__getattribute__(self, 'why'))
    __add__ = __radd__ = __sub__ = __mul__ = __rmul__ = __truediv__ = __lt__ = __gt__ = __le__ = __ge__ = _bad
    __eq__ = __ne__ = __bool__ = __iter__ = __len__ = __getitem__ = __setitem__ = __call__ = __rsub__ = _bad
    __hash__ = object.__hash__


_MISSING = object()


def pv_setattr(o, name, v):
    d = getattr(o, '__dict__', None)
    logging = d is not None and not isinstance(getattr(type(o), name, None), property)
    if logging and not isinstance(o, type):
        old = d.get(name, _MISSING)

        def undo():
            if old is _MISSING:
                d.pop(name, None)
            else:
                d[name] = old
        if not d:
            C.alloc += 1
            C.born[id(o)] = (C.alloc, o)      # its first attribute: the object is new
        C.log(undo)
        A.note_write(('attr', o, name))
    setattr(o, name, v)


_IOP = {'Add': operator.iadd, 'Sub': operator.isub, 'Mult': operator.imul, 'Div': operator.itruediv,
        'FloorDiv': operator.ifloordiv, 'Mod': operator.imod, 'Pow': operator.ipow,
        'BitOr': operator.ior, 'BitAnd': operator.iand, 'BitXor': operator.ixor,
        'LShift': operator.ilshift, 'RShift': operator.irshift, 'MatMult': operator.imatmul}


def augattr(o, name, op, v):
    pv_setattr(o, name, _IOP[op](getattr(o, name), v))


def strmod(fmt, args):
    def has(x):
        if isinstance(x, (Sym, A.SArr, SList, Poison)):
            return True
        if isinstance(x, (tuple, list)):
            return any(has(y) for y in x)
        return False
    if has(args):
        return fmt
    return fmt % args


def comp(kind, it, f):
    it = iterable(it)
    if Q.is_symbolic(it):
        n, get = Q.seq_of(it)
        if kind not in ('list', 'gen'):
            raise Unsupported('symbolic set/dict comprehension')

        def one(v):
            r = list(f([v]))
            if len(r) != 1:
                raise Unsupported('filtering comprehension')
            return r[0]
        serial, writes, muted = C.alloc, [], C.muted
        lst = writes.append
        A.WRITE_LISTENERS.append(lst)
        C.muted = True
        try:
            Q.freeze(n, get, one)
        except Unsupported as e:
            if 'filtering' in str(e):
                C.muted = muted
                return filter_comp(n, get, f)
            raise
        finally:
            C.muted = muted
            A.WRITE_LISTENERS.remove(lst)
        if any(isinstance(w, tuple) and C.born.get(id(w[1]), (0,))[0] <= serial or
               not isinstance(w, tuple) and getattr(w, 'serial', 0) <= serial for w in writes):
            if kind != 'list':
                raise Unsupported('generator expression with effects')
            # the effects (undone above) count: a loop that appends
            res = SList([])

            def body(v):
                res.append(one(v))
            auto_loop(('comp', 'comprehension', 0), n, get, body, [], lambda env: None)
            return res
        return Q.freeze(n, get, one)
    if kind == 'list':
        return SList(f(it))
    if kind == 'set':
        return TSet(f(it))
    if kind == 'dict':
        return TDict(f(it))
    return f(it)


def filter_comp(n, get, f):
    """[e(v) for v in seq if c(v)] : the strictly increasing selection of the
    indices that satisfy c"""
    k = z3.Int(C.fresh_name('fx'))
    saved = C.pc
    C.pc = list(saved) + [k >= 0, k < T(n)]
    try:
        rs = explore(lambda: list(f([get(Sym(k))])))
    finally:
        C.pc = saved
    ys = [r for r in rs if r.exc is None and len(r.value) == 1]
    ns = [r for r in rs if r.exc is None and len(r.value) == 0]
    if rs and len(ns) == len(rs):
        return SList([])
    if any(r.exc is not None for r in rs) or len(ys) + len(ns) != len(rs) or not ys:
        raise Unsupported('filtering comprehension: %s' % [(r.exc, len(r.value) if r.exc is None else 0, r.conds) for r in rs])
    cond = z3.Or(*[z3.And(*r.conds) if r.conds else z3.BoolVal(True) for r in ys])
    val = merge_values([(z3.And(*r.conds) if r.conds else z3.BoolVal(True), r.value[0]) for r in ys])
    def cd(i):
        return z3.substitute(cond, (k, i))
    sel, rnk, m = A.selection(T(n), cd)
    r = SList.from_fn(S(m), lambda j: Q.subst_value(val, k, sel(T(j))))
    r.sel = (sel, rnk, m, cd)
    r.src = (n, cd, lambda i: Q.subst_value(val, k, T(i))), r.state()
    return r


# ------------------------------------------------------------------ loops

def grab(getter):
    d = {}
    for n, f in getter:
        try:
            d[n] = f()
        except NameError:
            pass
    return d


def iterable(x):
    """an object with an __iter__ of its own gives what that returns"""
    f = getattr(type(x), '__iter__', None)
    if C.eager and getattr(f, '__code__', None) is not None and not getattr(x, '__pv_seq__', False) and not isinstance(x, (SList, A.SArr, Seq)):
        return x.__iter__()
    return x


def loop(key, it, body, getter, setter):
    it = iterable(it)
    spec = C.loop_specs.get(key) or C.loop_specs.get(key[1:])
    if spec is not None:
        r = spec_loop(spec, key, Q.seq_of(it), body, getter, setter)
        if r is not NotImplemented:
            return r
    if Q.is_symbolic(it):
        n, get = Q.seq_of(it)
        return auto_loop(key, n, get, body, getter, setter)
    for v in (it if not isinstance(it, SList) or it.items is None else _live(it)):
        r = body(v)
        if r is not None:
            return r
    return None


def _live(l):
    """python list iteration semantics (list may grow or shrink)"""
    i = 0
    while l.items is not None and i < len(l.items):
        yield l.items[i]
        i += 1
    if l.items is None:
        raise Unsupported('list became symbolic while being iterated')


def while_(key, cond, body, getter, setter):
    spec = C.loop_specs.get(key) or C.loop_specs.get(key[1:])
    if spec is not None:
        return spec_loop(spec, key, None, body, getter, setter, cond)
    i = 0
    forks0 = len(C.explorers[-1].trace)
    while cond():
        r = body()
        if r is not None:
            return r
        i += 1
        if i > 64 and len(C.explorers[-1].trace) > forks0:
            raise Unsupported('while loop without invariant: %s' % (key,))
        if i > 5000:
            raise Unsupported('while loop')
    return None


class LoopState(object):
    """what a loop specification sees"""

    def __init__(self, k, n, get, env, entry, outer=None):
        self.k, self.n, self.get, self.env, self.entry, self.outer = k, n, get, env, entry, outer or {}

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        try:
            return self.env[name]
        except KeyError:
            if name in self.outer:
                return self.outer[name]       # a variable the loop does not assign
            raise Unsupported('loop invariant names a variable that is not there: %s' % name)


class LoopSpec(object):
    """inv(L) -> [(name, cond)];  modifies(L) -> [Buf | SList | SArr | (obj, attr)]"""

    def __init__(self, inv, modifies=None, sorts=None, decreases=None, only_symbolic=True):
        self.inv, self.modifies, self.sorts = inv, modifies, sorts or {}
        self.only_symbolic = only_symbolic


class All(object):
    """universally quantified clause of an invariant: for all integers, f(*integers)"""

    def __init__(self, nvars, f, pattern=None):
        self.nvars, self.f, self.pattern = nvars, f, pattern

    def goal(self):
        return self.f(*[C.int('all') for _ in range(self.nvars)])

    def assume(self):
        vs = [z3.Int(C.fresh_name('qv')) for _ in range(self.nvars)]
        t = TB(self.f(*[S(v) for v in vs]))
        ps = [p if isinstance(p, (list, tuple)) else [p] for p in self.pattern(*vs)] if self.pattern else None
        put = lambda t, a: z3.substitute(t, *[(v, T(x)) for v, x in zip(vs, a)])
        C.forall(self.nvars, lambda *a: put(t, a), pattern=(lambda *a: [[put(p, a) for p in q] for q in ps]) if ps else None)


def _assume(c):
    if isinstance(c, All):
        c.assume()
    else:
        C.assume(c)


def _goal(c):
    return c.goal() if isinstance(c, All) else c


def fresh_like(v, base, sort=None):
    if sort == 'real':
        return C.real(base)
    if sort == 'int':
        return C.int(base)
    if sort == 'bool':
        return C.bool(base)
    if callable(sort):
        return sort(v)
    if isinstance(v, bool) or (isinstance(v, Sym) and v.is_bool):
        return C.bool(base)
    if isinstance(v, int) or (isinstance(v, Sym) and v.is_int):
        return C.int(base)
    if isinstance(v, float) or isinstance(v, Sym):
        return C.real(base)
    if isinstance(v, A.SArr):
        return A.SArr.fresh(base, v._shape, v.kind)
    if isinstance(v, tuple):
        return tuple(fresh_like(x, base) for x in v)
    return Poison()


def int_elements():
    f = C.fun('element', z3.IntSort(), z3.IntSort())
    return lambda i: Sym(f(T(i)))


class Refill(object):
    """modifies entry: the list has any length and elements"""

    def __init__(self, lst, maker=None):
        self.target, self.maker = lst, maker or int_elements

    def __call__(self):
        n = C.int('length')
        C.assume(n >= 0)
        self.target.items, self.target.n, self.target.get = None, n, self.maker()


class Havoc(object):
    """modifies entry: `fn` gives the target any state"""

    def __init__(self, target, fn):
        self.target, self.fn = target, fn

    def __call__(self):
        self.fn()


def _havoc_loc(m):
    if isinstance(m, A.SArr):
        m = m.buf
    if isinstance(m, A.Buf):
        f = C.fun('hv', *([Int] * m.ndim + [{'R': Real, 'I': Int, 'B': Bool}[m.kind]]))
        m.set(lambda idx: f(*idx))
    elif isinstance(m, tuple) and len(m) == 2:
        o, a = m
        pv_setattr(o, a, fresh_like(getattr(o, a), a))
    elif isinstance(m, tuple) and len(m) == 3:      # (obj, attr, fresh maker)
        pv_setattr(m[0], m[1], m[2]())
    elif isinstance(m, SList):
        raise Unsupported('havoc of a list needs a maker')
    elif callable(m):
        m()
    else:
        raise Unsupported('modifies clause')


def spec_loop(spec, key, ng, body, getter, setter, cond=None):
    n, get = ng if ng else (None, None)
    if n is not None and isinstance(n, int) and spec.only_symbolic:
        return NotImplemented
    if n is not None and isinstance(n, int):
        get = [get(i) for i in range(n)].__getitem__
    entry = grab(getter)
    import sys
    outer = sys._getframe(2).f_locals

    def st(k):
        return LoopState(k, n, get, grab(getter), entry, outer)
    tag = '%s loop %d' % (key[1], key[2])
    for nm, c in spec.inv(st(0)):
        C.prove('%s: invariant %s holds on entry' % (tag, nm), _goal(c), kind='aux')
    mods = spec.modifies(st(0)) if spec.modifies else []

    def havoc():
        C.havoced = True
        new = {}
        for nm, v in entry.items():
            new[nm] = fresh_like(v, nm, spec.sorts.get(nm))
        for nm, _ in getter:
            if nm not in entry:
                new[nm] = Poison('loop-local variable %s' % nm)
        setter(new)
        fresh.extend(v for nm, v in new.items() if callable(spec.sorts.get(nm)))
        for m in mods:
            _havoc_loc(m)
    fresh = []
    if C.choose():
        havoc()
        if isinstance(n, int):
            # few rounds: one after the other
            k = 0
            while k < n - 1 and not C.choose():
                k += 1
            if n == 0:
                raise PathEnd()
        else:
            k = C.int('k')
            C.assume(k >= 0)
            if n is not None:
                C.assume(k < n)
        for nm, c in spec.inv(st(k)):
            _assume(c)
        if cond is not None:
            if not cond():
                raise PathEnd()
        C.cover(tag + ': body reachable')
        allowed = set(id(v) for v in fresh)
        for m in mods:
            if isinstance(m, A.SArr):
                m = m.buf
            m = getattr(m, 'target', m)
            allowed.add(id(m) if not isinstance(m, tuple) else (id(m[0]), m[1]))
        writes = []
        serial = C.alloc
        lst = lambda loc: writes.append(loc)
        A.WRITE_LISTENERS.append(lst)
        try:
            r = body(get(k)) if n is not None else body()
        finally:
            A.WRITE_LISTENERS.remove(lst)
        if r is not None:
            return r
        for w in writes:
            wid = id(w) if not isinstance(w, tuple) else (id(w[1]), w[2])
            if wid in allowed or '*' in allowed:
                continue
            if not isinstance(w, tuple) and getattr(w, 'serial', 0) > serial:
                continue
            if any(callable(m) and not hasattr(m, 'target') for m in mods):
                continue
            raise Unsupported('loop writes outside its modifies clause')
        for nm, c in spec.inv(st(k + 1)):
            C.prove('%s: invariant %s is preserved' % (tag, nm), _goal(c), kind='aux')
        raise PathEnd()
    havoc()
    kk = n
    if n is None:
        kk = C.int('k')
        C.assume(kk >= 0)
    for nm, c in spec.inv(st(kk)):
        _assume(c)
    if cond is not None:
        if cond():
            raise PathEnd()
    return None


# ------------------------------------------------------------------ automatic summaries

class Loc(object):
    def __init__(self, kind, ref, name):
        self.kind, self.ref, self.name = kind, ref, name


def _locid(w):
    if isinstance(w, tuple):
        return ('attr', id(w[1]), w[2])
    return ('heap', id(w))


def _consts_of(t):
    out, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        st.extend(x.children())
    return out


def auto_loop(key, n, get, body, getter, setter):
    entry = grab(getter)
    names = [x for x, _ in getter]
    k = z3.Int(C.fresh_name('k'))
    nt = T(n)
    rng = [k >= 0, k < nt]
    serial0 = C.alloc
    tag = '%s loop %d' % (key[1], key[2])

    locs = {}
    for x in names:
        locs[('local', x)] = Loc('local', x, x)
    sorts = {}
    entry_heap = {}

    def entry_of(l):
        if l.kind == 'local':
            return entry.get(l.ref, _MISSING)
        return entry_heap[id(l)]

    def read(l, env):
        if l.kind == 'local':
            return env.get(l.ref, _MISSING)
        if l.kind == 'buf':
            return l.ref.fn
        if l.kind == 'list':
            return l.ref.state()
        if l.kind == 'attr':
            return getattr(l.ref[0], l.ref[1], _MISSING)

    def write_state(vals):
        env = {}
        for l, v in vals:
            if v is _MISSING:
                if l.kind == 'local':
                    env[l.ref] = Poison('unbound loop variable %s' % l.ref)
                continue
            if l.kind == 'local':
                env[l.ref] = v
            elif l.kind == 'buf':
                l.ref.set(v)
            elif l.kind == 'list':
                l.ref.set_state(v)
            elif l.kind == 'attr':
                pv_setattr(l.ref[0], l.ref[1], v)
        setter(env)

    def make_cur(l):
        """fresh unknown current value, and the set of its symbol names"""
        v = entry_of(l)
        nm = C.fresh_name('cur_' + str(l.name).replace(' ', '_'))
        if l.kind == 'buf':
            b = l.ref
            f = z3.Function(nm, *([Int] * b.ndim + [{'R': Real, 'I': Int, 'B': Bool}[b.kind]]))
            return ('buf', f, (lambda idx: f(*idx)), {nm})
        if l.kind == 'list':
            c = z3.Int(nm)
            l.ref.oplog = []

            def g(j):
                raise Unsupported('reads an element of a list under construction in a loop')
            return ('list', c, (None, Sym(c), g), {nm})
        if v is _MISSING:
            return ('none', None, _MISSING, set())
        so = sorts.get(id(l))
        if isinstance(v, (bool, int, float, Sym)):
            s = so if so is not None else (Real if A._isinf(v) else T(v).sort())
            c = z3.Const(nm, s)
            return ('scalar', c, Sym(c), {nm})
        if isinstance(v, A.SArr):
            f = z3.Function(nm, *([Int] * v.ndim + [{'R': Real, 'I': Int, 'B': Bool}[so or v.kind]]))
            return ('arr', f, A.SArr.make(v._shape, lambda idx: f(*idx), so or v.kind), {nm})
        return ('opaque', None, v, set())

    def run_with(vals):
        def go():
            lctx[2][0] = 0
            write_state(vals)
            for l in locs.values():
                if l.kind == 'list':
                    l.ref.oplog = []
            return body(get(Sym(k)))
        return go

    muted = C.muted
    lctx = (k, C.fresh_name('lc'), [0])
    drew = [0]
    for attempt in range(10):
        cur = {id(l): make_cur(l) for l in locs.values()}
        found = []
        lst = found.append
        A.WRITE_LISTENERS.append(lst)
        saved_pc = C.pc
        C.pc = list(saved_pc) + rng
        C.muted = True
        mark = len(C.undo)

        def capture():
            env = grab(getter)
            out = {}
            for l in list(locs.values()):
                if l.kind == 'list':
                    out[id(l)] = list(l.ref.oplog or [])
                else:
                    out[id(l)] = read(l, env)
            return out
        C.loopctx.append(lctx)
        try:
            rs = explore(run_with([(l, cur[id(l)][2]) for l in locs.values()]), capture)
        finally:
            C.loopctx.pop()
            A.WRITE_LISTENERS.remove(lst)
            C.pc = saved_pc
            C.muted = muted
            C.rollback(mark)
            for l in locs.values():
                if l.kind == 'list':
                    l.ref.oplog = None
            setter({x: entry[x] for x in entry})
        new = False
        for w in found:
            i = _locid(w)
            if i in locs:
                continue
            if not isinstance(w, tuple) and getattr(w, 'serial', 0) > serial0:
                continue
            if isinstance(w, A.Buf):
                l = Loc('buf', w, w.name or 'buf')
                entry_heap[id(l)] = w.fn
            elif isinstance(w, SList):
                l = Loc('list', w, 'list')
                entry_heap[id(l)] = w.state()
            elif isinstance(w, tuple):
                l = Loc('attr', (w[1], w[2]), w[2])
                entry_heap[id(l)] = getattr(w[1], w[2], _MISSING)
            else:
                raise Unsupported('%s: loop mutates a %s' % (tag, type(w).__name__))
            locs[i] = l
            new = True
        if not new:
            # sorts
            again = False
            for l in locs.values():
                if cur[id(l)][0] in ('scalar', 'arr'):
                    for r in rs:
                        if r.exc is None and r.value is None:
                            v = r.extra[id(l)]
                            if cur[id(l)][0] == 'scalar' and isinstance(v, (Sym, int, float)) and not A._isinf(v):
                                s0, s1 = cur[id(l)][1].sort(), T(v).sort()
                                if s0 != s1 and s1 == Real and s0 == Int:
                                    sorts[id(l)] = Real
                                    again = True
                                elif s0 != s1 and s0 == Bool and s1 == Int:
                                    sorts[id(l)] = Int
                                    again = True
            if not again:
                break
    else:
        raise Unsupported('%s: write set does not stabilise' % tag)

    normal = [r for r in rs if r.exc is None and r.value is None]
    abnormal = [r for r in rs if not (r.exc is None and r.value is None)]
    if not normal:
        # every iteration leaves the loop: the first one decides
        if C.branch(nt > 0):
            return body(get(0))
        return None

    def pcond(r):
        return z3.And(*r.conds) if r.conds else z3.BoolVal(True)

    # ---- transitions (merged over the normal paths)
    # phi: id(loc) -> function(kterm) -> value
    phi = {}
    trans = {}

    def build_trans():
        for l in locs.values():
            kd = cur[id(l)][0]
            if id(l) in phi:
                continue
            if kd == 'list':
                ops = [r.extra[id(l)] for r in normal]
                trans[id(l)] = ('list', ops)
            elif kd == 'buf':
                fns = [r.extra[id(l)] for r in normal]
                ph = [z3.Int('b~%d' % i) for i in range(l.ref.ndim)]
                trans[id(l)] = ('buf', ph, merge_terms([(pcond(r), f(ph)) for r, f in zip(normal, fns)]))
            else:
                vs = [r.extra[id(l)] for r in normal]
                if any(v is _MISSING for v in vs):
                    trans[id(l)] = ('poison',)
                    continue
                try:
                    ps = [(pcond(r), v) for r, v in zip(normal, vs)]
                    if all(isinstance(v, Sym) or type(v) is int for v in vs) and len({T(v).sort().name() for v in vs}) == 1:
                        v = S(merge_terms([(c, T(v)) for c, v in ps]))
                    else:
                        v = merge_values(ps)
                    trans[id(l)] = ('val', v)
                except Unsupported:
                    trans[id(l)] = ('poison',)

    def merge_terms(ps):
        # the conditions of the normal paths are exhaustive: the group with the most
        # involved condition becomes the default
        groups = {}
        for c, v in ps:
            v = simp(v)
            groups.setdefault(v.get_id(), (v, []))[1].append(c)
        gs = [(v, simp(z3.Or(*cs)) if len(cs) > 1 else cs[0]) for v, cs in groups.values()]
        gs.sort(key=lambda g: (sum(x in allsyms for x in _consts_of(g[1])), len(g[1].sexpr())))
        t = gs[-1][0]
        for v, c in gs[-2::-1]:
            t = z3.If(c, v, t)
        return t
    allsyms = {}
    for l in locs.values():
        for x in cur[id(l)][3]:
            allsyms[x] = id(l)
    build_trans()

    unsolved = dict((id(l), l) for l in locs.values())
    def subst_solved(t):
        """replace current values of solved locations by their closed form at k"""
        for _ in range(6):
            ns = _consts_of(t)
            todo = [allsyms[x] for x in ns if x in allsyms and allsyms[x] in phi]
            if not todo:
                return t
            for lid in todo:
                kd, sym = cur[lid][0], cur[lid][1]
                val = phi[lid](k)
                if kd == 'scalar':
                    if isinstance(val, Poison):
                        return t
                    w = T(val)
                    if w.sort() != sym.sort():
                        w = TR(w)
                    t = z3.substitute(t, (sym, w))
                elif kd == 'list':
                    t = z3.substitute(t, (sym, T(val[1] if val[0] is None else len(val[0]))))
                elif kd == 'buf':
                    nd_ = sym.arity()
                    vs = [z3.Int('v~%d' % i) for i in range(nd_)]
                    bt = val(vs)
                    bt = z3.substitute(bt, *[(vs[i], z3.Var(i, Int)) for i in range(nd_)]) if nd_ else bt
                    t = z3.substitute_funs(t, (sym, bt))
                elif kd == 'arr':
                    nd_ = sym.arity()
                    vs = [z3.Int('v~%d' % i) for i in range(nd_)]
                    bt = val.snap()(vs)
                    bt = z3.substitute(bt, *[(vs[i], z3.Var(i, Int)) for i in range(nd_)]) if nd_ else bt
                    t = z3.substitute_funs(t, (sym, bt))
        return t

    def free_of_unsolved(t):
        return not any(x in allsyms and allsyms[x] not in phi for x in _consts_of(t))

    def at(t, j):
        return z3.substitute(t, (k, T(j)))

    prefix = []      # solved integer accumulators (delta term)

    def solve(l):
        lid = id(l)
        kd, sym = cur[lid][0], cur[lid][1]
        tr = trans[lid]
        if tr[0] == 'poison':
            phi[lid] = lambda j: Poison('loop variable %s' % l.name)
            return True
        if kd == 'list':
            ops = tr[1]
            if all(len(o) == 1 and o[0][0] == 'append' for o in ops):
                try:
                    v = merge_values([(pcond(r), o[0][1]) for r, o in zip(normal, ops)])
                except Unsupported:
                    raise Unsupported('%s: appended values cannot be merged' % tag)
                v2 = _map_terms(v, subst_solved)
                if not _all_terms(v2, free_of_unsolved):
                    return False
                st0 = entry_of(l)
                base = SList()
                base.items, base.n, base.get = st0
                bn = T(base.pv_len())

                def ph_(j):
                    r = base + SList.from_fn(S(simp(T(j))), lambda q: Q.subst_value(v2, k, T(q)))
                    return (None, r.pv_len(), r._getter()) if r.items is None else r.state()
                phi[lid] = ph_
                return True
            if all(len(o) == 0 for o in ops):
                phi[lid] = lambda j: entry_of(l)
                return True
            if len(ops) > 1 and all(len(o) <= 1 and all(x[0] == 'append' for x in o) for o in ops):
                return solve_filter(l, ops)
            raise Unsupported('%s: list operations %s' % (tag, [[x[0] for x in o] for o in ops]))
        if kd == 'buf':
            ph, t = tr[1], tr[2]
            t = simp(subst_solved(t))
            c = sym(*ph)
            r = solve_array(l, t, c, ph, sym, entry_of(l))
            if r is None:
                return False
            phi[lid] = r
            return True
        v = tr[1]
        if kd == 'none':
            v2 = _map_terms(v, subst_solved)
            if _all_terms(v2, free_of_unsolved):
                def tmp(j, v2=v2):
                    return Q.subst_value(v2, k, simp(T(j) - 1))
                phi[lid] = tmp
                l.temp = True
                return True
            return False
        if kd == 'opaque':
            e = entry_of(l)
            if v is e:
                phi[lid] = lambda j: e
                return True
            v2 = _map_terms(v, subst_solved)
            if _all_terms(v2, free_of_unsolved):
                phi[lid] = lambda j, v2=v2: Q.subst_value(v2, k, simp(T(j) - 1))
                l.temp = True
                return True
            return False
        if kd == 'arr':
            if not isinstance(v, A.SArr) or v.ndim != sym.arity():
                phi[lid] = lambda j: Poison('array variable %s' % l.name)
                return True
            ph = [z3.Int('b~%d' % i) for i in range(v.ndim)]
            t = simp(subst_solved(v.term(ph)))
            e = entry_of(l)
            r = solve_array(l, t, sym(*ph), ph, sym, e.snap())
            if r is None:
                if free_of_unsolved(t):
                    phi[lid] = lambda j: Poison('array temp')
                    return True
                return False
            phi[lid] = lambda j: A.SArr.make(e._shape, r(j), e.kind)
            return True
        # scalar
        if not isinstance(v, (Sym, int, float)) or A._isinf(v):
            phi[lid] = lambda j: Poison('variable %s' % l.name)
            return True
        t = T(v)
        if t.sort() != sym.sort():
            if sym.sort() == Real:
                t = TR(t)
            else:
                t = TI(t)
        t = simp(subst_solved(t))
        e = entry_of(l)
        if t.eq(sym):
            phi[lid] = lambda j: e
            return True
        if sym.sort() != Bool:
            d = simp(t - sym, ) if t.sort() == sym.sort() else None
            if d is not None:
                d = _cancel(t, sym)
                if d is not None and free_of_unsolved(d) and sym.decl().name() not in _consts_of(d):
                    e0 = T(e) if sym.sort() == T(e).sort() else TR(e)

                    def acc(j, d=d, e0=e0):
                        s = sums.Sum(simp(T(j)), lambda q: at(d, q))
                        if s.sort() != e0.sort():
                            s = TI(s) if s.sort() == Bool else s
                            if e0.sort() == Real:
                                s = TR(s)
                            elif s.sort() == Real:
                                return S(TR(e0) + s)
                        return SS(e0 + s)
                    phi[lid] = acc
                    if sym.sort() == Int:
                        prefix.append((l, d, acc))
                    return True
        if free_of_unsolved(t) and sym.decl().name() not in _consts_of(t):
            def tmp(j, t=t, e=e):
                j = simp(T(j))
                w = S(at(t, simp(j - 1)))
                if z3.is_int_value(j):
                    return e if j.as_long() == 0 else w
                if A._isinf(e):
                    return w
                return ite(SS(j > 0), w, e)
            phi[lid] = tmp
            return True
        return False

    def solve_filter(l, ops):
        """conditional append: the selected iterations, in order"""
        ys = [(r, o) for r, o in zip(normal, ops) if len(o) == 1]
        c = simp(subst_solved(z3.Or(*[pcond(r) for r, _ in ys])))
        v = merge_values([(pcond(r), o[0][1]) for r, o in ys])
        v2 = _map_terms(v, subst_solved)
        if not free_of_unsolved(c) or not _all_terms(v2, free_of_unsolved):
            return False
        st0 = entry_of(l)
        if not (st0[0] is not None and len(st0[0]) == 0):
            raise Unsupported('conditional append to a non-empty list')
        sel, rnk = C.fun('fsel', Int, Int), C.fun('frank', Int, Int)

        def cd(i):
            return z3.substitute(c, (k, i))

        def ph_(j):
            m = sums.Sum(simp(T(j)), lambda q: z3.If(cd(q), z3.IntVal(1), z3.IntVal(0)))
            jt = T(j)
            C.forall(1, lambda i: z3.Implies(z3.And(T(i) >= 0, T(i) < jt, cd(T(i))),
                                             z3.And(rnk(T(i)) >= 0, rnk(T(i)) < m, sel(rnk(T(i))) == T(i))))
            C.forall(1, lambda p: z3.Implies(z3.And(T(p) >= 0, T(p) < m),
                                             z3.And(sel(T(p)) >= 0, sel(T(p)) < jt, cd(sel(T(p))))))
            C.forall(2, lambda p, q: z3.Implies(z3.And(T(p) >= 0, T(p) < T(q), T(q) < m), sel(T(p)) < sel(T(q))))
            r = SList.from_fn(S(m), lambda p: Q.subst_value(v2, k, sel(T(p))))
            r.sel = (sel, None, m, cd)
            return r.state() if r.items is None else (None, S(m), r.get)
        phi[id(l)] = ph_
        return True

    def solve_array(l, t, c, ph, sym, e):
        nm = sym.name()
        if t.eq(c):
            return lambda j: e
        kindR = c.sort()
        # accumulation
        if kindR != Bool:
            d = _cancel(t, c)
            if d is not None and free_of_unsolved(d) and nm not in _consts_of(d):
                def acc(j, d=d):
                    jt = simp(T(j))

                    def fn(idx):
                        s = sums.Sum(jt, lambda q: z3.substitute(d, (k, q), *list(zip(ph, idx))))
                        return e(idx) + (TR(s) if kindR == Real else s)
                    return fn
                return acc
        # region assignment
        old = z3.Const('old~', kindR)
        for o in _apps_of(t, nm):
            # a read of the element that is being written
            if o.eq(c):
                continue
            ne = z3.Or(*[x != y for x, y in zip(o.children(), ph)])
            saved = C.pc
            C.pc = list(saved) + rng
            try:
                r_, _ = C._solve([ne, t != c], C.branch_timeout)
            finally:
                C.pc = saved
            if r_ == z3.unsat:
                t = z3.substitute(t, (o, c))
        if kindR == Bool:
            tt = z3.substitute(t, (c, old))
            t1, t0 = z3.substitute(tt, (old, z3.BoolVal(True))), z3.substitute(tt, (old, z3.BoolVal(False)))
            w, v = simp(z3.Not(z3.And(t1, z3.Not(t0)))), simp(tt)
        else:
            sp = _split(t, c, nm)
            if sp is None:
                return None
            w, v = sp
            if w is None:
                return None
            w, v = simp(w), simp(z3.substitute(v, (c, old)))
        # (the only iteration that writes an element finds there what the loop found)
        if not free_of_unsolved(w) or not free_of_unsolved(v) or nm in _consts_of(w) or nm in _consts_of(v):
            return None
        owner = find_owner(w, ph)
        if owner is None:
            return None

        def reg(j):
            jt = simp(T(j))

            def fn(idx):
                o = owner(idx)
                sub = [(k, o)] + list(zip(ph, idx)) + [(old, e(idx))]
                cc = simp(z3.And(o >= 0, o < jt, z3.substitute(w, *sub)))
                if z3.is_false(cc):
                    return e(idx)
                return z3.If(cc, z3.substitute(v, *sub), e(idx))
            return fn
        return reg

    def find_owner(w, ph):
        """the only iteration that can write index b, as a function of b"""
        # (1) some index is k + const
        saved = C.pc
        C.pc = list(saved) + rng
        try:
            for i, b in enumerate(ph):
                # b == k + c  for a constant c independent of k and b ?
                k2 = z3.Int('k2~')
                # uniqueness and linear form: take c = value of b-k from the equalities in w
                for q in _conjuncts(w):
                    if z3.is_eq(q):
                        lhs, rhs = q.children()
                        if lhs.sort() != Int:
                            continue
                        dlt = simp(lhs - rhs)
                        r = _solve_lin(dlt, k)
                        if r is not None and b.get_id() in [x.get_id() for x in sums._free_ints(r)]:
                            return lambda idx, r=r: simp(z3.substitute(r, *list(zip(ph, idx))))
            for q in _equalities(w):
                r = _solve_lin(simp(q.arg(0) - q.arg(1)), k)
                if r is None or not any(b.get_id() in [x.get_id() for x in sums._free_ints(r)] for b in ph):
                    continue
                r_, _ = C._solve([w, r != k], C.branch_timeout)
                if r_ == z3.unsat:
                    return lambda idx, r=r: simp(z3.substitute(r, *list(zip(ph, idx))))
            # (2) consecutive ranges [P(k), P(k)+d(k))
            for (pl, d, acc) in prefix:
                P = T(acc(Sym(k)))
                for i, b in enumerate(ph):
                    r_, _ = C._solve([w, z3.Not(z3.And(P <= b, b < P + d))], C.branch_timeout)
                    if r_ == z3.unsat:
                        r2, _ = C._solve([d < 0], C.branch_timeout)
                        if r2 != z3.unsat:
                            continue
                        return _range_owner(acc, d, i)
        finally:
            C.pc = saved
        return None

    def _range_owner(acc, d, i):
        # sound choice function: own(b) is an iteration whose range holds b, if any
        keyo = ('own', T(acc(Sym(z3.Int('k~own')))).get_id(), nt.get_id())
        own = C.ghost.setdefault(keyo, None)
        if own is None:
            own = C.fun('own', Int, Int)
            C.ghost[keyo] = own
        P0, Pn = T(acc(0)), T(acc(Sym(nt)))
        done = set()

        def f(idx):
            b = idx[i]
            o = own(b)
            if b.get_id() not in done and '~' not in b.sexpr():
                done.add(b.get_id())
                Po, Pn_ = T(acc(Sym(o))), T(acc(Sym(nt)))
                C.axiom(z3.Implies(z3.And(nt > 0, P0 <= b, b < Pn_),
                                   z3.And(o >= 0, o < nt, Po <= b, b < Po + at(d, o))))
                # own is the unique one: prefix sums are monotone
                T(acc(Sym(simp(o + 1))))
                sums.nonneg_lemmas()
            return o
        return f

    for refinement in range(4):
        progress = True
        before = len(unsolved)
        saved_pc = C.pc
        C.pc = list(saved_pc) + rng
        try:
            while unsolved and progress:
                progress = False
                for lid, l in list(unsolved.items()):
                    if solve(l):
                        del unsolved[lid]
                        progress = True
        finally:
            C.pc = saved_pc
        known = [l for l in locs.values() if id(l) in phi and not getattr(l, 'temp', False) and cur[id(l)][0] != 'none']
        if not any(l.kind != 'local' for l in unsolved.values()) or not known or (refinement and len(unsolved) == before):
            break
        # run the body again, now that the start of iteration k is partly known
        saved_pc = C.pc
        C.pc = list(saved_pc) + rng
        C.muted = True
        mark = len(C.undo)
        C.loopctx.append(lctx)
        try:
            vals = [(l, phi[id(l)](Sym(k)) if l in known else cur[id(l)][2]) for l in locs.values()]
            rs = explore(run_with(vals), capture)
        finally:
            C.loopctx.pop()
            C.pc = saved_pc
            C.muted = muted
            C.rollback(mark)
            for l in locs.values():
                if l.kind == 'list':
                    l.ref.oplog = None
            setter({x: entry[x] for x in entry})
        normal = [r for r in rs if r.exc is None and r.value is None]
        if not normal:
            break
        build_trans()
    if unsolved:
        # variables that only other untracked variables need
        for lid, l in list(unsolved.items()):
            if l.kind == 'local':
                phi[lid] = (lambda nm: (lambda j: Poison('loop variable %s without closed form' % nm)))(l.name)
                del unsolved[lid]
        bad = [l for l in unsolved.values()]
        if bad and os.environ.get('PYVC_DEBUG'):
            for l in bad:
                print('NOCLOSED', l.name, trans[id(l)])
        if bad:
            raise Unsupported('%s: no closed form for %s' % (tag, [str(l.name) for l in bad]))

    def state_at(j):
        vals = []
        for l in locs.values():
            if getattr(l, 'temp', False):
                # defined in the body: value of the last iteration, if there was one
                e = entry_of(l)
                jj = simp(T(j))
                if z3.is_int_value(jj) and jj.as_long() == 0:
                    vals.append((l, e if e is not _MISSING else _MISSING))
                else:
                    vals.append((l, phi[id(l)](j) if C.entails(jj > 0) or e is _MISSING else Poison('maybe-unassigned %s' % l.name)))
            else:
                vals.append((l, phi[id(l)](Sym(T(j)) if not isinstance(j, int) else j)))
        return vals

    # ---- verification pass: obligations inside the body at a generic iteration
    saved_pc = C.pc
    C.pc = list(saved_pc) + rng
    mark = len(C.undo)
    entry_now = grab(getter)
    C.loopctx.append(lctx)
    try:
        vals_k = state_at(Sym(k))
        rs2 = explore(run_with(vals_k), capture)
    finally:
        C.loopctx.pop()
        C.pc = saved_pc
        C.rollback(mark)
        for l in locs.values():
            if l.kind == 'list':
                l.ref.oplog = None
        setter({x: entry[x] for x in entry})
    ab = [r for r in rs2 if not (r.exc is None and r.value is None)]
    if ab:
        abn = z3.Or(*[pcond(r) for r in ab])
        abf = lambda j: z3.substitute(abn, (k, T(j)))
        if C.choose():
            C.assume(z3.And(*rng))
            if not C.feasible(abn):
                raise PathEnd()
            C.assume(abn)
            C.forall(1, lambda j: z3.Implies(z3.And(T(j) >= 0, T(j) < k), z3.Not(abf(j))))
            write_state(state_at(Sym(k)))
            lctx[2][0] = 0
            C.loopctx.append(lctx)
            try:
                r = body(get(Sym(k)))
            finally:
                C.loopctx.pop()
            if r is None:
                raise PathEnd()
            return r
        C.forall(1, lambda j: z3.Implies(z3.And(T(j) >= 0, T(j) < nt), z3.Not(abf(j))))
    if not C.entails(nt > 0):
        if not C.branch(nt > 0):
            return None          # nothing executed
    write_state(state_at(Sym(nt) if not isinstance(n, int) else n))
    return None


def _equalities(t):
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_eq(x) and x.arg(0).sort() == Int:
            out.append(x)
        st.extend(x.children())
    return out


def _apps_of(t, nm):
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args() and x.decl().name() == nm:
            out.append(x)
        st.extend(x.children())
    return out


def _conjuncts(t):
    if z3.is_and(t):
        out = []
        for c in t.children():
            out += _conjuncts(c)
        return out
    return [t]


def _solve_lin(d, k):
    """d == 0  with d = +-k + r  ->  k as a term"""
    if not sums._contains(d, k):
        return None
    c1 = simp(d - k)
    if not sums._contains(c1, k):
        return simp(-c1)
    c2 = simp(d + k)
    if not sums._contains(c2, k):
        return c2
    return None


def _cancel(t, c):
    """t - c when c cancels syntactically, also inside If"""
    if t.eq(c):
        return z3.RealVal(0) if c.sort() == Real else z3.IntVal(0)
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        cond, a, b = t.children()
        if sums._contains(cond, c):
            return None
        x, y = _cancel(a, c), _cancel(b, c)
        if x is None or y is None:
            return None
        return z3.If(cond, x, y)
    if not sums._contains(t, c):
        return None
    d = z3.simplify(t - c, som=True)
    if sums._contains(d, c):
        return None
    return d


def _split(t, c, nm):
    """t = If-tree over leaves that are c or free of c -> (written?, value)"""
    if t.eq(c):
        return z3.BoolVal(False), c
    if nm not in _consts_of(t):
        return z3.BoolVal(True), t
    if not z3.is_app_of(t, z3.Z3_OP_ITE):
        return z3.BoolVal(True), t
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        cond, a, b = t.children()
        if nm in _consts_of(cond):
            return z3.BoolVal(True), t
        x, y = _split(a, c, nm), _split(b, c, nm)
        if x is None or y is None:
            return None
        va = x[1] if not z3.is_false(x[0]) else y[1]
        vb = y[1] if not z3.is_false(y[0]) else x[1]
        if va.eq(c):
            v = vb
        elif vb.eq(c):
            v = va
        else:
            v = z3.If(cond, va, vb)
        return simp(z3.If(cond, x[0], y[0])), v
    return None


def _map_terms(v, f):
    if isinstance(v, Sym):
        return S(f(v.t))
    if isinstance(v, tuple):
        return tuple(_map_terms(x, f) for x in v)
    if isinstance(v, A.SArr):
        g = v.snap()
        return A.SArr.make(v._shape, lambda idx: f(g(idx)), v.kind)
    if isinstance(v, SList):
        if v.items is not None:
            return SList([_map_terms(x, f) for x in v.items])
        return SList.from_fn(_map_terms(v.n, f) if isinstance(v.n, Sym) else v.n, lambda i: _map_terms(v.get(i), f))
    if isinstance(v, Seq):
        return Seq(_map_terms(v.n, f), lambda i: _map_terms(v.get(i), f))
    if hasattr(v, '__pv_map__'):
        return v.__pv_map__(f)
    return opaque(v)


def opaque(v):
    for x in getattr(v, '__dict__', {}).values():
        if isinstance(x, Sym) and any(str(y).startswith('k!') for y in sums._free_ints(x.t)):
            raise Unsupported('an object made in a loop outlives its iteration')
    return v


def _all_terms(v, p):
    if isinstance(v, Sym):
        return p(v.t)
    if isinstance(v, tuple):
        return all(_all_terms(x, p) for x in v)
    if isinstance(v, A.SArr):
        return p(v.term([z3.Int('b~%d' % i) for i in range(v.ndim)]))
    if isinstance(v, SList) and v.items is None:
        return _all_terms(v.get(Sym(z3.Int('b~9'))), p)
    if isinstance(v, SList):
        return all(_all_terms(x, p) for x in v.items)
    if isinstance(v, Seq):
        return _all_terms(v.n, p) and _all_terms(v.get(Sym(z3.Int('b~9'))), p)
    return True
