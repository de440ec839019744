"""Back-propagation training moves along the summed gradient of its data.

BackpropTrainer._calcDerivs is under contract for sequences of any length: it feeds the
samples in order to the module and hands back, last first, exactly (target - output),
weighted by the importance, once per sample. train() (also of RPropMinusTrainer) is
verified against that contract for any number of sequences and any order of presentation.
The module and the gradient descender are used through their contracts (C03, C10)."""
from .common import *
from pyvc.runtime import Refill, pv_setattr as put

def exists(f):
    e = z3.Int('e~')
    return S(z3.Exists([e], TB(f(S(e)))))


B = 'pybrain.supervised.trainers.backprop.BackpropTrainer.'
RP = 'pybrain.supervised.trainers.rprop.RPropMinusTrainer.'
ASSUMPTIONS = ['the module keeps its contract: activate stores the output of the step, backActivate adds the gradient of the '
               'handed error (C03, C04, C06)', 'the gradient descender keeps its contract (C10)',
               'random.shuffle permutes; sums do not depend on the order of their terms']
BOUNDED_ONLY = ['the split of trainUntilConvergence, the classes of testOnClassData and the agreement of the accumulated derivatives with numeric gradients of whole networks: bounded harness']


def net(t, T_, nin, nout, npar, inputs):
    """a module by contract; records what it is given"""
    out = vec('out', T_, nout)
    grad = C.input_fun('grad', z3.IntSort(), z3.IntSort(), z3.RealSort())

    class Module(object):
        indim, outdim, paramdim = nin, nout, npar

        def __init__(self):
            self.outputbuffer = SArr.make((T_, nout), lambda i: z3.RealVal(0), 'R')
            self.params = vec('params', npar)
            self.derivs = vec('derivs', npar)
            self.step, self.fresh = C.int('stale'), False
            self.err = vec('noerr', T_, nout)
            self.seen = SArr.make((T_,), lambda i: z3.IntVal(0), 'I')

        def reset(self):
            put(self, 'step', S(z3.IntVal(0)))
            put(self, 'fresh', True)

        def activate(self, x):
            C.prove('a step is stored for every sample only', self.step < T_)
            k = index(slen(x), 'ki')
            C.prove('samples are activated in order', sym_and(slen(x) == nin, at(x, k) == at(inputs, self.step, k)))
            s0 = self.step
            self.outputbuffer[s0] = SArr.make((nout,), lambda i: T(S(out.at(s0, S(i[0])))), 'R')
            r = self.outputbuffer[s0].copy()
            put(self, 'step', s0 + 1)
            return r

        def backActivate(self, e):
            C.prove('one error per activated step', self.step >= 1)
            put(self, 'step', self.step - 1)
            t0 = self.step
            C.prove('error of the right size', slen(e) == nout)
            self.err[t0] = e
            self.seen[t0] = self.seen[t0] + 1
            self.derivs += SArr.make((npar,), lambda i: grad(T(t0), T(i[0])), 'R')
    return Module(), out, grad


def calc(weighted):
    @task('C20', '_calcDerivs' + (': with importance' if weighted else ''), functions=[B + '_calcDerivs'])
    def _(t):
        n, nin, nout, npar = dim('length'), dim('indim'), dim('outdim'), dim('paramdim')
        X, Y, W = vec('inputs', n, nin), vec('targets', n, nout), vec('weights', n, nout)
        m, out, grad = net(t, n, nin, nout, npar, X)
        cls = t.cls('pybrain.supervised.trainers.backprop', 'BackpropTrainer')

        class Trainer(cls):
            def __init__(self):
                self.module = m
        tr = Trainer()
        d0, p0 = m.derivs.copy(), m.params.copy()
        X0, Y0, W0 = X.copy(), Y.copy(), W.copy()
        seq = Seq(n, (lambda i: (X[i], Y[i], W[i])) if weighted else (lambda i: (X[i], Y[i])))
        e, p = t.call('_calcDerivs', tr._calcDerivs, seq)
        w = (lambda i, j: at(W0, i, j)) if weighted else (lambda i, j: 1)
        i, j, k = index(n, 'i'), index(nout, 'j'), index(npar, 'k')
        t.prove('every sample is back-activated once', sym_and(m.step == 0, m.seen[i] == 1))
        t.prove('the error handed back is target minus output, weighted',
                at(m.err, i, j) == (at(Y0, i, j) - at(out, i, j)) * w(i, j))
        t.prove('derivatives gain the gradient of every sample',
                at(m.derivs, k) == at(d0, k) + Sum(n, lambda q: S(grad(T(q), T(k)))))
        t.prove('error is half the weighted squared output error',
                e == Sum(n, lambda q: Sum(nout, lambda r: (at(Y0, q, r) - at(out, q, r)) * (at(Y0, q, r) - at(out, q, r)) * w(q, r))) / 2)
        t.prove('weight is the sum of the importances', p == Sum(n, lambda q: Sum(nout, lambda r: w(q, r))))
        t.prove('parameters and data are left alone', sym_and(at(m.params, k) == at(p0, k), at(Y, i, j) == at(Y0, i, j),
                                                            at(W, i, j) == at(W0, i, j)))
        c = index(nin, 'c')
        t.prove('inputs are left alone', at(X, i, c) == at(X0, i, c))


calc(False)
calc(True)




def setting(t, mod, name, online=False):
    ns, npar = dim('sequences'), dim('paramdim')
    D = C.input_fun('D', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.RealSort())
    E, P = vec('E', ns), vec('P', ns)
    q = z3.Int('q~')
    C.assume(S(z3.ForAll([q], T(at(P, S(q))) >= 1)))
    induction(t, 'the total weight is positive', lambda mm: S(Sum(mm, lambda j: at(P, j))) >= mm, ns)
    g = dict(ns=ns, npar=npar, D=D, E=E, P=P)

    class Module(object):
        paramdim = npar

        def __init__(self):
            self.params, self.derivs = vec('params', npar), vec('derivs', npar)
            self.sets = 0

        def resetDerivatives(self):
            self.derivs *= 0

        def _setParameters(self, p, owner=None):
            C.prove('full vector of parameters', slen(p) == npar)
            self.params[:] = p
            put(self, 'sets', self.sets + 1)
    m = Module()

    class Descent(object):
        momentum, alpha, alphadecay, rprop = 0., .1, 1., False

        def __init__(self):
            self.calls = S(z3.IntVal(0))
            self.given = vec('given', npar)
            self.result = vec('result', npar)

        def init(self, x):
            pass

        def __call__(self, gradient, error=None):
            C.prove('gradient of the size of the parameters', slen(gradient) == npar)
            if online:
                k = index(npar, 'kd')
                C.prove('a step follows the gradient of one sequence',
                        at(gradient, k) == g['expected'](k))
            put(self, 'calls', self.calls + 1)
            self.given[:] = gradient
            r = SArr.fresh('stepped', (npar,))
            self.result[:] = r
            return r
    desc = Descent()

    class Data(object):
        def _provideSequences(self):
            return Seq(ns, lambda i: Elem(i=i))

        def __len__(self):
            return 7        # any positive number
    real = t.cls(mod, name)
    wd = C.real('weightdecay')

    class Trainer(real):
        verbose, weightdecay, batchlearning = False, wd, not online
        epoch = totalepochs = 0

        def __init__(self):
            self.module, self.ds, self.descent = m, Data(), desc
            self.count = S(z3.IntVal(0))
            self.visited = SArr.make((ns,), lambda i: z3.IntVal(-1), 'I')

        def _calcDerivs(self, seq):
            if online:
                C.prove('sequences in the order of presentation', seq.i == order(g, True)(self.count))
            else:
                self.visited[self.count] = seq.i
            i, v = seq.i, (self.count if online else S(z3.IntVal(0)))
            g['expected'] = lambda k: S(D(T(v), T(i), T(k))) - wd * at(m.params, k)
            self.module.derivs += SArr.make((npar,), lambda k: D(T(v), T(i), T(k[0])), 'R')
            put(self, 'count', self.count + 1)
            return at(E, i), at(P, i)
    g.update(tr=Trainer(), m=m, desc=desc, wd=wd)
    return g


def order(g, shuffled):
    """the order of presentation"""
    if not shuffled:
        return lambda i: i
    ps = C.ghost.get('perms', [])
    if len(ps) != 1:
        raise Unsupported('the order of presentation is not one permutation')
    p = ps[0][0]

    def law(f):
        C.assume(Sum(g['ns'], lambda i: f(S(p(T(i))))) == Sum(g['ns'], f))
    g['law'] = law
    return lambda i: S(p(T(i)))


def batch(mod, name, shuffled, decays):
    @task('C20', '%s.train: batch' % name, functions=['%s.%s.train' % (mod, name)])
    def _(t):
        g = setting(t, mod, name)
        tr, m, desc, ns, npar = g['tr'], g['m'], g['desc'], g['ns'], g['npar']
        p0 = m.params.copy()
        r = t.call('train', tr.train)
        k, i = index(npar, 'k'), index(ns, 'i')
        o = order(g, shuffled)
        if shuffled:
            for f in (lambda q: at(g['E'], q), lambda q: at(g['P'], q), lambda q: S(g['D'](z3.IntVal(0), T(q), T(k)))):
                g['law'](f)
        t.prove('every sequence is visited', sym_and(tr.count == ns, tr.visited[i] == o(i)))
        t.prove('one gradient step', desc.calls == 1)
        summed = Sum(ns, lambda q: S(g['D'](z3.IntVal(0), T(q), T(k))))
        t.prove('the step follows the summed gradient', at(desc.given, k) == (summed - g['wd'] * at(p0, k) if decays else summed))
        t.prove('the parameters are the result of the step', sym_and(at(m.params, k) == at(desc.result, k), m.sets == 1))
        t.prove('reported error is the average', r * Sum(ns, lambda q: at(g['P'], q)) == Sum(ns, lambda q: at(g['E'], q)))
        t.prove('the data set is kept', tr.ds is not None and tr.epoch == 1 and tr.totalepochs == 1)


batch('pybrain.supervised.trainers.backprop', 'BackpropTrainer', True, False)
batch('pybrain.supervised.trainers.rprop', 'RPropMinusTrainer', False, True)


@task('C20', 'BackpropTrainer.train: online', functions=[B + 'train'])
def _(t):
    g = setting(t, 'pybrain.supervised.trainers.backprop', 'BackpropTrainer', online=True)
    tr, m, desc, ns, npar = g['tr'], g['m'], g['desc'], g['ns'], g['npar']

    def inv(L):
        o = order(g, True)
        return [('derivatives start at zero', All(1, lambda k: sym_implies(sym_and(k >= 0, k < npar), at(m.derivs, k) == 0))),
                ('parameters are the result of the last step',
                 All(1, lambda k: sym_implies(sym_and(k >= 0, k < npar, L.k >= 1), at(m.params, k) == at(desc.result, k)))),
                ('one step per sequence', sym_and(tr.count == L.k, desc.calls == L.k)),
                ('errors add up', L.errors == Sum(L.k, lambda q: at(g['E'], o(q)))),
                ('weights add up', L.ponderation == Sum(L.k, lambda q: at(g['P'], o(q))))]
    C.loop_specs[('BackpropTrainer.train', 1)] = LoopSpec(inv, modifies=lambda L: [
        m.derivs, m.params, desc.given, desc.result, (tr, 'count'), (desc, 'calls')], sorts={'errors': 'real', 'ponderation': 'real'})
    r = t.call('train', tr.train)
    for f in (lambda q: at(g['E'], q), lambda q: at(g['P'], q)):
        order(g, True)
        g['law'](f)
    k = index(npar, 'k')
    t.prove('one step per sequence', sym_and(desc.calls == ns, tr.count == ns))
    t.prove('the parameters are the result of the last step', at(m.params, k) == at(desc.result, k))
    t.prove('reported error is the average', r * Sum(ns, lambda q: at(g['P'], q)) == Sum(ns, lambda q: at(g['E'], q)))


@task('C20', 'testOnData', functions=[B + 'testOnData'])
def _(t):
    ns = dim('sequences')
    E, P = vec('E', ns), vec('P', ns)
    q = z3.Int('q~')
    C.assume(S(z3.ForAll([q], T(at(P, S(q))) >= 1)))
    induction(t, 'the total weight is positive', lambda mm: S(Sum(mm, lambda j: at(P, j))) >= mm, ns)

    class Module(object):
        def __init__(self):
            self.resets = S(z3.IntVal(0))

        def reset(self):
            put(self, 'resets', self.resets + 1)

        def activate(self, x):
            raise Unsupported('not called here')
    m = Module()

    class Data(object):
        def reset(self):
            pass

        def _provideSequences(self):
            return Seq(ns, lambda i: Elem(i=i))

        def _evaluateSequence(self, f, seq, verbose=False):
            C.prove('evaluates the module', f == m.activate)
            return at(E, seq.i), at(P, seq.i)
    cls = t.cls('pybrain.supervised.trainers.backprop', 'BackpropTrainer')

    class Trainer(cls):
        def __init__(self):
            self.module, self.ds = m, Data()
    tr = Trainer()
    r = t.call('testOnData', tr.testOnData)
    t.prove('the module is reset before every sequence', m.resets == ns)
    t.prove('error is the weighted average', r * Sum(ns, lambda q: at(P, q)) == Sum(ns, lambda q: at(E, q)))


@task('C20', 'trainUntilConvergence', functions=[B + 'trainUntilConvergence'], limit=200)
def _(t):
    """training and testing by their contracts: an epoch changes the parameters (to anything), a test
    returns a number that depends on the parameters"""
    npar = dim('parameters')
    I, R_ = z3.IntSort(), z3.RealSort()
    P, V, E = C.input_fun('parameters after', I, I, R_), C.input_fun('validation error after', I, R_), C.input_fun('training error of', I, R_)
    mod = 'pybrain.supervised.trainers.backprop'
    cls = t.cls(mod, 'BackpropTrainer')
    rounded = C.fun('rounded', R_, R_)
    t.L.mods[mod].round = lambda x, nd=None: S(rounded(T(x)))

    class Set(object):
        def __len__(self):
            return 7        # any positive number
    whole, training, validation = Set(), Set(), Set()

    class Module(object):
        pass
    m = Module()
    m.params = SArr.make((npar,), lambda i: P(z3.IntVal(0), T(i[0])), 'R')
    maxe = C.int('maxEpochs', show=True)
    C.assume(maxe >= 0)

    class Trainer(cls):
        def __init__(self):
            self.module, self.ds, self.verbose = m, whole, False
            self.trained = S(z3.IntVal(0))

        def train(self):
            C.prove('trained on the training data', S(z3.BoolVal(self.ds is training)))
            put(self, 'trained', self.trained + 1)
            v = self.trained
            m.params[:] = SArr.make((npar,), lambda i: P(T(v), T(i[0])), 'R')
            return S(E(T(v)))

        def testOnData(self, dataset=None, verbose=False):
            C.prove('tested on the validation data', S(z3.BoolVal(dataset is validation)))
            return S(V(T(self.trained)))
    tr = Trainer()

    def reals():
        f = C.fun('error', I, R_)
        return lambda i: S(f(T(i)))
    val = lambda j: S(V(T(j)))
    par = lambda v, i: S(P(T(v), T(i)))

    def inv(L):
        k, b = L.k, L.bestepoch
        ve, te = tr.validationErrors, tr.trainingErrors
        get = ve._getter()
        inside = lambda i: sym_and(i >= 0, i < npar)
        return [('epochs are counted', sym_and(L.epochs == k, tr.trained == k, S(TI(slen(te))) == k, S(TI(slen(ve))) == k + 1)),
                ('within the limit', sym_or(k == 0, k < maxe)),
                ('the validation errors', All(1, lambda j: sym_implies(sym_and(j >= 0, j <= k), get(j) == val(j)))),
                ('current parameters', All(1, lambda i: sym_implies(inside(i), at(m.params, i) == par(k, i)))),
                ('the best epoch', sym_implies(k >= 1, sym_and(b >= 0, b < k, L.bestverr == val(b + 1)))),
                ('its parameters', All(1, lambda i: sym_implies(sym_and(k >= 1, inside(i)), at(L.bestweights, i) == par(b + 1, i)))),
                ('no epoch was better', All(1, lambda j: sym_implies(sym_and(j >= 1, j <= k), val(j) >= L.bestverr)))]
    C.loop_specs[('BackpropTrainer.trainUntilConvergence', 0)] = LoopSpec(
        inv, modifies=lambda L: [m.params, (tr, 'trained'), Refill(tr.validationErrors, reals), Refill(tr.trainingErrors, reals)],
        sorts={'epochs': 'int', 'bestepoch': 'int', 'bestverr': 'real', 'bestweights': lambda v: vec('bestweights', npar)})
    t.call('trainUntilConvergence', tr.trainUntilConvergence, maxEpochs=maxe, trainingData=training, validationData=validation)
    i, j = index(npar, 'i'), C.int('j')
    t.prove('at most as many epochs as asked for, but one', sym_and(tr.trained >= 1, sym_or(tr.trained <= maxe, tr.trained == 1)))
    t.prove('the data set is restored', S(z3.BoolVal(tr.ds is whole)))
    t.prove('parameters with the smallest validation error are kept',
            exists(lambda b: sym_and(b >= 1, b <= tr.trained, S(z3.ForAll([z3.Int('j~')], z3.Implies(z3.And(z3.Int('j~') >= 1, z3.Int('j~') <= T(tr.trained)), V(z3.Int('j~')) >= V(T(b))))),
                                     at(m.params, i) == par(b, i))))
