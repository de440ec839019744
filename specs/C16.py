"""Validation measures equal their definitions and use every sample once."""
from .common import *
from . import C08 as seqs
from pyvc.runtime import pv_setattr as put

V = 'pybrain.tools.validation'
ASSUMPTIONS = ['numpy.random.permutation(n) returns some permutation of 0..n-1; array_split cuts into consecutive parts as equal as possible',
               'cross-validation: 2 to 4 folds (any number of samples)',
               'copy.deepcopy of the trainer gives an independent trainer', 'the module answers a step as a function of the steps since its last reset']
BOUNDED_ONLY = ['testOnSequenceData, other numbers of folds, real networks and trainers: bounded harness']


def cls(t, name):
    return t.cls(V, name)


@task('C16', 'classificationPerformance', functions=[V + '.Validator.classificationPerformance'])
def _(t):
    n = dim('n')
    a, b = ivec('output', n), ivec('target', n)
    r = t.call('classificationPerformance', cls(t, 'Validator').classificationPerformance, a, b)
    t.prove('fraction of equal labels', r * n == Sum(n, lambda k: ite(at(a, k) == at(b, k), 1, 0)))
    m = dim('m')
    C.assume(m != n)
    t.raises('lists of different length', AssertionError, cls(t, 'Validator').classificationPerformance, a, ivec('other', m))


def mse(two, weighted):
    @task('C16', 'MSE of %s%s' % ('tables' if two else 'vectors', ' with importance' if weighted else ''), functions=[V + '.Validator.MSE'])
    def _(t):
        n = dim('n')
        shape = (n, dim('width')) if two else (n,)
        a, b, w = vec('output', *shape), vec('target', *shape), vec('importance', *shape)
        size = shape[0] * shape[1] if two else n
        fa, fb, fw = a.flatten(), b.flatten(), w.flatten()
        keep = [a.copy(), b.copy(), w.copy()]
        total = Sum(size, lambda k: at(fw, k))
        if weighted:
            C.assume(total > 0)
        r = t.call('MSE', cls(t, 'Validator').MSE, a, b, *([w] if weighted else []))
        d = lambda k: (at(fa, k) - at(fb, k)) * (at(fa, k) - at(fb, k))
        if weighted:
            t.prove('weighted average of the squared differences', r * total == Sum(size, lambda k: d(k) * at(fw, k)))
        else:
            t.prove('average of the squared differences', r * size == Sum(size, d))
        i = [index(s) for s in shape]
        for x, y in zip((a, b, w), keep):
            t.prove('the arguments stay as they are', at(x, *i) == at(y, *i))
        m = dim('m')
        C.assume(m != n)
        other = vec('other', m, *shape[1:])
        t.raises('different shapes', AssertionError, cls(t, 'Validator').MSE, a, other)
        t.raises('weights of another shape', AssertionError, cls(t, 'Validator').MSE, a, b, other)


for _two in (False, True):
    for _w in (False, True):
        mse(_two, _w)


@task('C16', 'ESS', functions=[V + '.Validator.ESS'])
def _(t):
    n = dim('n')
    a, b = vec('output', n), vec('target', n)
    r = t.call('ESS', cls(t, 'Validator').ESS, a, b)
    t.prove('sum of the squared differences', r == Sum(n, lambda k: (at(a, k) - at(b, k)) * (at(a, k) - at(b, k))))


class Module(object):
    """answers the k-th step since the r-th reset, given x(r, k), with out(r, k)"""

    def __init__(self, t, nin, nout, x, steps):
        self.O = C.input_fun('out', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.RealSort())
        self.t, self.nin, self.nout, self.x, self.steps = t, nin, nout, x, steps
        self.resets, self.pos = S(z3.IntVal(0)), S(z3.IntVal(0))

    def reset(self):
        put(self, 'resets', self.resets + 1)
        put(self, 'pos', S(z3.IntVal(0)))

    def activate(self, inp):
        C.prove('the module is reset first', self.resets >= 1)
        r, p = self.resets - 1, self.pos
        j = index(self.nin, 'j')
        C.prove('the module is given the inputs in order', at(inp, j) == self.x(r, p, j))
        put(self, 'pos', p + 1)
        return SArr.make((self.nout,), lambda k: self.O(T(r), T(p), T(k[0])), 'R')


@task('C16', 'calculateModuleOutput', functions=[V + '.ModuleValidator.calculateModuleOutput'])
def _(t):
    n, nin, nout = dim('n'), dim('indim'), dim('outdim')
    ds = t.cls('pybrain.datasets.supervised', 'SupervisedDataSet')(nin, nout)
    X = vec('X', n, nin)
    ds.data['input'], ds.data['target'] = X, vec('Y', n, nout)
    ds.endmarker['input'] = ds.endmarker['target'] = n
    X0, Y0 = X.copy(), ds.data['target'].copy()
    m = Module(t, nin, nout, lambda r, p, j: at(X0, p, j), n)
    r = t.call('calculateModuleOutput', cls(t, 'ModuleValidator').calculateModuleOutput, m, ds)
    i, j, c = index(n, 'i'), index(nout, 'j'), index(nin, 'c')
    t.prove('one output per sample', sym_and(slen(r) == n, m.pos == n, m.resets == 1))
    t.prove('the outputs in order', at(r, i, j) == S(m.O(z3.IntVal(0), T(i), T(j))))
    t.prove('the data set is kept', sym_and(at(ds.data['input'], i, c) == at(X0, i, c), at(ds.data['target'], i, j) == at(Y0, i, j)))

    def val(out, tar, *rest):
        t.prove('target and output are compared', sym_and(slen(out) == n, slen(tar) == n, at(tar, i, j) == at(Y0, i, j),
                                                            at(out, i, j) == S(m.O(z3.IntVal(1), T(i), T(j))), len(rest) == 0))
        return C.real('judged') if False else judged
    judged = C.real('judged')
    t.prove('the judgement is returned', t.call('validate', cls(t, 'ModuleValidator').validate, val, m, ds) == judged)


def sequential(importance):
    @task('C16', 'calculateModuleOutput: sequences' + (' with importance' if importance else ''),
          functions=[V + '.ModuleValidator._calculateModuleOutputSequential', V + '.ModuleValidator.validate'])
    def _(t):
        s = seqs.State(t)
        ds, n, ns = s.ds, s.n, s.ns
        nout = dim('outdim')
        C.assume(n >= 1)
        m = Module(t, s.dims['input'], nout, lambda r, p, j: at(s.old['input'], s.st(r) + p, j), n)

        def outer(L):
            k = L.k
            done = ite(k == 0, 0, ite(k < ns, s.st(k), n))
            return [('outputs of the sequences so far', sym_and(slen(L.outputs) == done, m.resets == k))] + grid(L, k, done)

        def grid(L, k, done):
            q = lambda i, p, j: sym_implies(sym_and(i >= 0, i < k, p >= 0, s.st(i) + p < s.end(i), j >= 0, j < nout),
                                            at(L.outputs._getter()(s.st(i) + p), j) == S(m.O(T(i), T(p), T(j))))
            return [('in order', All(3, q))] if not (isinstance(k, int) and k == 0) else []

        def forget(L):
            f = C.fun('outputs', z3.IntSort(), z3.IntSort(), z3.RealSort())
            L.outputs.set_state((None, C.int('outputs'), lambda i: SArr.make((nout,), lambda k: f(T(i), k[0]), 'R')))
        C.eager = {'SequentialDataSet.__iter__'}
        C.loop_specs[('ModuleValidator._calculateModuleOutputSequential', 0)] = LoopSpec(outer, modifies=lambda L: [
            lambda: forget(L), (m, 'resets'), (m, 'pos')])
        r = t.call('calculateModuleOutput', cls(t, 'ModuleValidator').calculateModuleOutput, m, ds)
        i, j = index(ns, 'sequence'), index(nout, 'j')
        p = C.int('p')
        C.assume(sym_and(p >= 0, p < s.end(i) - s.st(i)))
        t.prove('one output per sample', slen(r) == n)
        t.prove('reset before every sequence', m.resets == ns)
        t.prove('the outputs in order', at(r, s.st(i) + p, j) == S(m.O(T(i), T(p), T(j))))


sequential(False)


@task('C16', 'ends and starts of sequences', functions=[V + '.SequenceHelper.' + f for f in ('getSequenceEnds', 'getSequenceStarts', 'getSequenceEndsImportance')])
def _(t):
    s = seqs.State(t)
    ds, n, ns = s.ds, s.n, s.ns
    C.assume(n >= 1)
    helper = cls(t, 'SequenceHelper')
    i = index(ns, 'i')
    ends = t.call('getSequenceEnds', helper.getSequenceEnds, ds)
    t.prove('one end per sequence', slen(ends) == ns)
    t.prove('ends', at(ends, i) == s.end(i) - 1)
    starts = t.call('getSequenceStarts', helper.getSequenceStarts, ds)
    t.prove('one start per sequence', slen(starts) == ns)
    t.prove('starts', at(starts[i], 0) == s.st(i))
    w = t.call('getSequenceEndsImportance', helper.getSequenceEndsImportance, ds)
    p = C.int('p')
    C.assume(sym_and(p >= s.st(i), p < s.end(i)))
    t.prove('one weight per sample', slen(w) == n)
    t.prove('only the last sample of every sequence counts', at(w, p) == ite(p == s.end(i) - 1, 1, 0))
    s.unchanged('helpers')


def cross(folds, epochs):
    @task('C16', 'CrossValidator: %d folds%s' % (folds, ', epochs' if epochs else ''), functions=[V + '.CrossValidator.' + f for f in ('validate', 'setArgs', '__init__')])
    def _(t):
        nin, nout, n = dim('indim'), dim('outdim'), C.int('samples', show=True)
        C.assume(n > folds)
        ds = t.cls('pybrain.datasets.supervised', 'SupervisedDataSet')(nin, nout)
        X, Y = vec('X', n, nin), vec('Y', n, nout)
        ds.data['input'], ds.data['target'] = X, Y
        ds.endmarker['input'] = ds.endmarker['target'] = n
        X0, Y0 = X.copy(), Y.copy()
        made = []

        class Trainer(object):
            def __init__(self):
                self.module, self.data, self.trained = object(), None, []

            def __deepcopy__(self, memo):
                made.append(Trainer())
                return made[-1]

            def setData(self, d):
                self.data = d

            def train(self):
                self.trained.append((self.data, 1))

            def trainEpochs(self, k):
                self.trained.append((self.data, k))
        tr, tests, scores = Trainer(), [], [C.real('score') for _ in range(folds)]

        def val(module, d):
            tests.append((module, d))
            return scores[len(tests) - 1]
        k = C.int('epochs')
        C.assume(k >= 1)
        kw = dict(max_epochs=k) if epochs else {}
        v = cls(t, 'CrossValidator')(tr, ds, folds, val, **kw)
        r = t.call('validate', v.validate)
        t.prove('average of the folds', r * folds == sum(scores[1:], scores[0]))
        t.prove('every fold is tested once with its own trainer', S(z3.BoolVal(
            len(tests) == len(made) == folds and not tr.trained and tr.data is None and
            all(m is x.module and x.data is not None and [d for d, _ in x.trained] == [x.data] for x, (m, _) in zip(made, tests)))))
        t.prove('trained as long as asked', sym_and(*[x.trained[0][1] == (k if epochs else 1) for x in made]))
        pi, inv, size = C.ghost['perms'][-1]
        start = S(z3.IntVal(0))
        j, c, d = index(n, 'sample'), index(nin, 'c'), index(nout, 'd')
        tested = []
        for x, (_, test) in zip(made, tests):
            m = slen(test)
            train = x.data
            t.prove('fold and rest make up the data', sym_and(m >= 1, m + slen(train) == n))
            a = index(m, 'a')
            t.prove('a sample of the fold', sym_and(at(test['input'], a, c) == at(X0, S(pi(T(start + a))), c),
                                                     at(test['target'], a, d) == at(Y0, S(pi(T(start + a))), d)))
            b = index(n - m, 'b')
            where = ite(b < start, b, b + m)
            t.prove('a sample outside the fold', sym_and(at(train['input'], b, c) == at(X0, S(pi(T(where))), c),
                                                          at(train['target'], b, d) == at(Y0, S(pi(T(where))), d)))
            start = start + m
        t.prove('the folds make up the data', start == n)
        t.prove('the data set is kept', sym_and(at(ds['input'], j, c) == at(X0, j, c), at(ds['target'], j, d) == at(Y0, j, d), slen(ds) == n))


for _f in (2, 3, 4):
    cross(_f, _f == 2)
