"""planted bugs (see tools/plant.py); every demo fails with the change and passes without"""
BUGS = []


def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


bug('C04-lstm-forget-peephole', 'C04', [('pybrain/structure/modules/lstm.py',
    'self.stateError[self.offset] += self.forgetgateError[self.offset+1] * self.forgetgatePeepWeights',
    'self.stateError[self.offset] += self.forgetgateError[self.offset+1] * self.ingatePeepWeights')], '''
from pybrain.structure import LSTMLayer, LinearLayer, RecurrentNetwork, IdentityConnection
from numpy import array
a, l = LinearLayer(4), LSTMLayer(1, peepholes=True)
n = RecurrentNetwork(); n.addInputModule(a); n.addOutputModule(l); n.addConnection(IdentityConnection(a, l)); n.sortModules()
n._setParameters(array([.3, -.7, .2]))
xs = [array([.5, .2, .9, -.3]), array([-.1, .4, .3, .8]), array([.2, .1, -.6, .5])]
def out(x0):
    n.reset()
    return [n.activate(x)[0] for x in [x0] + xs[1:]][-1]
def grad(i):
    h = 1e-5
    d = array([0., 0, 0, 0]); d[i] = h
    return (out(xs[0] + d) - out(xs[0] - d)) / (2 * h)
num = [grad(i) for i in range(4)]
out(xs[0])
n.backActivate([1.]); n.backActivate([0.]); got = n.backActivate([0.])
assert all(abs(g - w) < 1e-6 for g, w in zip(got, num)), (got, num)
''', 'an LSTM layer with peepholes back-propagated over at least two steps, with forget weights that differ from the input weights',
    'the error handed back in time through the forget gate peephole uses the input gate weights')

bug('C04-mdlstm-second-dimension', 'C04', [('pybrain/structure/modules/mdlstm.py',
    '''                self.forgetgatePeepDerivs[size*i:size*(i+1)] += (self.forgetgateError[self.offset, size*i:size*(i+1)]
                                                                 * laststates[size*i:size*(i+1)])''',
    '''                self.forgetgatePeepDerivs[size*i:size*(i+1)] += (self.forgetgateError[self.offset, size*i:size*(i+1)]
                                                                 * laststates[:size])''')], '''
from pybrain.structure.modules.mdlstm import MDLSTMLayer
from numpy import array, zeros
l = MDLSTMLayer(1, 2, True)
p = array([.3, -.7, .2, .5])
x = array([.5, .2, .9, -.3, .4, .7, -1.1])
def out(q):
    l._setParameters(q.copy())
    return l.activate(x)[0]
num = []
for i in range(4):
    d = zeros(4); d[i] = 1e-5
    num.append((out(p + d) - out(p - d)) / 2e-5)
out(p); l.resetDerivatives(); l.backActivate(array([1., 0.]))
assert all(abs(a - b) < 1e-6 for a, b in zip(l.derivs, num)), (l.derivs, num)
''', 'a multi-dimensional LSTM layer with peepholes and at least two dimensions',
    'the gradient of the second forget gate peephole uses the state of the first dimension')

bug('C04-relu-output-gate', 'C04', [('pybrain/structure/modules/relulayer.py',
    'inerr[:] = outerr * (inbuf > 0)', 'inerr[:] = outerr * (outbuf >= 0)')], '''
from pybrain.structure.modules.relulayer import ReluLayer
from numpy import array
l = ReluLayer(2)
l.activate([1., -1.])
assert list(l.backActivate(array([2., 3.]))) == [2., 0.]
''', 'a negative input to a rectified unit', 'errors pass through units that are switched off')

bug('C04-partial-sigmoid-prime', 'C04', [('pybrain/structure/modules/gate.py',
    'inerr[:dim] -= sigmoidPrime(in0) * in1 * out1', 'inerr[:dim] -= sigmoidPrime(in0) * in1 * out0')], '''
from pybrain.structure.modules.gate import DoubleGateLayer
from numpy import array
l = DoubleGateLayer(1)
x = array([.3, .8])
e = array([.5, -1.5])
def f(v):
    return float((l.activate(v) * e).sum())
h = 1e-5
num = (f(x + [h, 0]) - f(x - [h, 0])) / (2 * h)
l.activate(x)
got = l.backActivate(e)
assert abs(got[0] - num) < 1e-6, (got, num)
''', 'a double gate layer whose two output halves receive different errors',
    'the gate error of the complementary output is computed with the error of the other half')

bug('C05-slice-offset-lost', 'C05', [('pybrain/structure/connections/connection.py',
    '''            self.inSliceFrom += inmod.outOffset
            self.inSliceTo += inmod.outOffset''',
    '''            self.inSliceFrom += inmod.outOffset
            self.inSliceTo = self.inSliceFrom + inmod.outdim''')], '''
from pybrain.structure import LinearLayer, FullConnection
from pybrain.structure.moduleslice import ModuleSlice
a, b = LinearLayer(6), LinearLayer(2)
s = ModuleSlice(a, outSliceFrom=1, outSliceTo=5)
c = FullConnection(s, b, inSliceFrom=1, inSliceTo=3)
assert (c.inSliceFrom, c.inSliceTo, c.indim) == (2, 4, 2), (c.inSliceFrom, c.inSliceTo, c.indim)
''', 'a module slice as sender together with explicit slice bounds of the connection',
    'the connection ignores its own upper bound and reads beyond its slice')

bug('C05-permutation-backward-blocks', 'C05', [('pybrain/structure/connections/permutation.py',
    '''        outerr = outerr.reshape(self.indim // self.blocksize, self.blocksize)
        outerr = permute(outerr, self.invpermutation)''',
    '''        outerr = outerr.reshape(self.indim // self.blocksize, self.blocksize)
        outerr = permute(outerr, self.permutation)''')], '''
from pybrain.structure import LinearLayer
from pybrain.structure.connections.permutation import PermutationConnection
a, b = LinearLayer(6), LinearLayer(6)
c = PermutationConnection(a, b, [1, 2, 0], 2)
a.outputbuffer[0] = [1, 2, 3, 4, 5, 6]
c.forward()
assert list(b.inputbuffer[0]) == [3, 4, 5, 6, 1, 2]
b.inputerror[0] = b.inputbuffer[0]
c.backward()
assert list(a.outputerror[0]) == [1, 2, 3, 4, 5, 6], a.outputerror[0]
''', 'a permutation that is not its own inverse (at least three blocks)',
    'errors travel back along the permutation instead of its inverse')

bug('C10-momentum-survives-init', 'C10', [('pybrain/auxiliary/gradientdescent.py',
    '            self.momentumvector = zeros(len(values))',
    '            if self.momentumvector is None or len(self.momentumvector) != len(values):\n'
    '                self.momentumvector = zeros(len(values))')], '''
from pybrain.auxiliary.gradientdescent import GradientDescent
from numpy import array
g = GradientDescent(); g.alpha, g.momentum = 1., .5
g.init(array([0.])); g(array([4.]))
g.init(array([0.]))
assert list(g(array([1.]))) == [1.]
''', 'momentum and a second init with the same number of values', 'the momentum of the previous run leaks into the next one')

bug('C10-rprop-bounds-one-step-late', 'C10', [('pybrain/auxiliary/gradientdescent.py',
    '''            rprop_theta = rprop_theta.clip(min=self.deltamin, max=self.deltamax)
''', '''            rprop_theta = rprop_theta.clip(min=self.deltamin)
            rprop_theta[self.rprop_theta >= self.deltamax * self.etaplus] = self.deltamax
''')], '''
from pybrain.auxiliary.gradientdescent import GradientDescent
from numpy import array
g = GradientDescent(); g.rprop = True
g.init(array([0.]))
last = 0.
for i in range(40):
    new = float(g(array([1.]))[0])
    assert new - last <= 5. + 1e-9, (i, new - last)
    last = new
''', 'many steps in the same direction, up to the maximal step size', 'one step beyond the upper bound is taken')

bug('C06-result-is-a-view', 'C06', [('pybrain/structure/networks/recurrent.py',
    '''            return self.outputbuffer[self.offset - 1].copy()''',
    '''            return self.outputbuffer[self.offset - 1]''')], '''
from pybrain.structure import LinearLayer, FullConnection, RecurrentNetwork
from numpy import ones
n = RecurrentNetwork(); a, b = LinearLayer(1), LinearLayer(1)
n.addInputModule(a); n.addOutputModule(b); n.addConnection(FullConnection(a, b)); n.sortModules(); n._setParameters(ones(1))
r = n.activate([3.])
n.reset()
assert r[0] == 3., r
''', 'a caller that keeps the returned array over a reset', 'results of a recurrent network alias its buffers')

bug('C06-grow-loses-component', 'C06', [('pybrain/structure/networks/network.py',
    '''        for m in self.modules:
            m._growBuffers()
        super(Network, self)._growBuffers()''',
    '''        for m in self.modules:
            if len(m.inputbuffer) <= self.offset + 1:
                m._resetBuffers(2 * len(m.inputbuffer)) if self.offset > 15 else m._growBuffers()
        super(Network, self)._growBuffers()''')], '''
from pybrain.structure import LinearLayer, FullConnection, RecurrentNetwork
from numpy import ones
n = RecurrentNetwork(); a, b = LinearLayer(1), LinearLayer(1)
n.addInputModule(a); n.addOutputModule(b); n.addConnection(FullConnection(a, b)); n.sortModules(); n._setParameters(ones(1))
for i in range(40): n.activate([1.])
n.resetDerivatives()
for i in range(40): n.backActivate([1.])
assert n.derivs[0] == 40., n.derivs
''', 'a sequence of more than sixteen steps', 'the components lose their history when the buffers grow late')

bug('C01-nested-network-copy', 'C01', [('pybrain/structure/networks/network.py',
    '''            x._setParameters(self.params[index:index + x.paramdim], self)''',
    '''            part = self.params[index:index + x.paramdim]
            x._setParameters(part.copy() if isinstance(x, Network) else part, self)''')], '''
from pybrain.structure import LinearLayer, FullConnection, FeedForwardNetwork
from numpy import ones
i = FeedForwardNetwork(); a, b = LinearLayer(1), LinearLayer(1)
i.addInputModule(a); i.addOutputModule(b); c = FullConnection(a, b); i.addConnection(c); i.sortModules()
o = FeedForwardNetwork(); x = LinearLayer(1)
o.addInputModule(x); o.addOutputModule(i); d = FullConnection(x, i); o.addConnection(d); o.sortModules()
o.params[:] = 3.
assert c.params[0] == 3. and o.activate([2.])[0] == 18.
''', 'a network used as module of another network', 'parameters of an inner network are detached from the flat vector')

bug('C01-mutate-detaches', 'C01', [('pybrain/structure/parametercontainer.py',
    '''        self._params += randn(self.paramdim)*self.mutationStd''',
    '''        self._params = self._params + randn(self.paramdim)*self.mutationStd''')], '''
from pybrain.tools.shortcuts import buildNetwork
n = buildNetwork(2, 1, bias=False)
n.mutate()
n.params[:] = 0.
assert n.activate([1., 2.])[0] == 0.
''', 'writing through the flat vector after a mutation', 'mutation replaces the shared storage')

bug('C01-reset-spares-recurrent', 'C01', [('pybrain/structure/networks/recurrent.py',
    '''        for c in self.recurrentConns:
            if c.paramdim and not isinstance(c, SharedConnection):
                yield c

    def''',
    '''        for c in self.recurrentConns:
            if c.paramdim and not isinstance(c, SharedConnection) and c.inmod in self.modulesSorted[:-1]:
                yield c

    def''')], '''
from pybrain.structure import LinearLayer, FullConnection, RecurrentNetwork
n = RecurrentNetwork(); a, b = LinearLayer(1), LinearLayer(1)
n.addInputModule(a); n.addOutputModule(b); n.addConnection(FullConnection(a, b)); r = FullConnection(b, a)
n.addRecurrentConnection(r); n.sortModules()
assert len(n.params) == 2
n.params[:] = 4.
assert r.params[0] == 4.
''', 'a recurrent connection that leaves the last module', 'its weights are not part of the flat vector')

MPF = 'pybrain/structure/evolvables/maskedparameters.py'
bug('C18-repaired-bit-not-applied', 'C18', [(MPF, """            self.mask[ind] = True

        self._applyMask()
""", """            self.mask[ind] = True
            return

        self._applyMask()
""")], """
import random
from numpy import array
from pybrain.structure.parametercontainer import ParameterContainer
from pybrain.structure.evolvables.maskedparameters import MaskedParameters
for seed in range(200):
    random.seed(seed)
    pc = ParameterContainer(2)
    pc._setParameters(array([1., 2.]))
    m = MaskedParameters(pc, maskFlipProbability=.5)
    for _ in range(3):
        m.topologyMutate()
        assert list(pc.params) == [v if b else 0 for v, b in zip(m.maskableParams, m.mask)], (list(pc.params), list(m.mask), list(m.maskableParams))
""", 'a topology mutation that turns every bit off, so that one has to be turned on again',
    'after the repair of an empty mask the container still holds the values of the old mask')

bug('C18-random-mask-one-too-many', 'C18', [(MPF, """        over = len(onbits) - self.maxComplexity
        if over > 0:
            for i in sample(onbits, over):""", """        over = len(onbits) - self.maxComplexity
        if over > 0:
            for i in sample(onbits, min(over, self.maxComplexity)):""")], """
import random
from pybrain.structure.parametercontainer import ParameterContainer
from pybrain.structure.evolvables.maskedparameters import MaskedParameters
random.seed(3)
for n in range(1, 9):
    for mx in range(1, n + 1):
        for _ in range(30):
            m = MaskedParameters(ParameterContainer(n), maxComplexity=mx, maskOnProbability=.1)
            assert sum(m.mask) <= mx, (n, mx, list(m.mask))
""", 'a random mask with more than twice as many bits on as allowed',
    'the mask exceeds the maximal complexity')

bug('C18-cheap-copy-of-stale-base', 'C18', [('pybrain/structure/evolvables/cheaplycopiable.py', """    def copy(self):
        self.__stored._params[:] = self._params
""", """    def copy(self):
""")], """
from numpy import array
from pybrain.structure import LinearLayer, FullConnection
from pybrain.structure.evolvables.cheaplycopiable import CheaplyCopiable
c = FullConnection(LinearLayer(2), LinearLayer(1))
c._setParameters(array([1., 2.]))
c.indim, c.outdim = 2, 1
a = CheaplyCopiable(c)
b = a.copy()
b.mutate()
d = a.copy()
assert list(a.params) == [1., 2.]
assert list(d.params) == [1., 2.], list(d.params)
""", 'two copies of one module, one mutated before the other is copied again',
    'a copy gets the parameters of whichever sibling was changed last')

BPF = 'pybrain/supervised/trainers/backprop.py'
bug('C20-importance-as-mask', 'C20', [(BPF, """                self.module.backActivate(outerr * importance)""",
    """                self.module.backActivate(outerr * (importance != 0))""")], """
from numpy import array
from pybrain.datasets import ImportanceDataSet
from pybrain.structure import LinearLayer, FullConnection, FeedForwardNetwork
from pybrain.supervised.trainers import BackpropTrainer
n = FeedForwardNetwork(); a, b = LinearLayer(1), LinearLayer(2)
n.addInputModule(a); n.addOutputModule(b); n.addConnection(FullConnection(a, b)); n.sortModules()
n._setParameters(array([0., 0.]))
ds = ImportanceDataSet(1, 2)
ds.addSample([1.], [1., 1.], [0., 2.])
BackpropTrainer(n, ds, learningrate=.5, batchlearning=True).train()
assert abs(n.params[0]) < 1e-9 and abs(n.params[1] - 1.) < 1e-9, n.params
""", 'importance values other than zero and one', 'the gradient is not weighted with the importance')

bug('C20-test-without-reset', 'C20', [(BPF, """        for seq in dataset._provideSequences():
            self.module.reset()
            e, i = dataset""", """        self.module.reset()
        for seq in dataset._provideSequences():
            e, i = dataset""")], """
from numpy import array
from pybrain.datasets import SequentialDataSet
from pybrain.structure import LinearLayer, FullConnection, RecurrentNetwork
from pybrain.supervised.trainers import BackpropTrainer
n = RecurrentNetwork(); a, b = LinearLayer(1), LinearLayer(1)
n.addInputModule(a); n.addOutputModule(b); n.addConnection(FullConnection(a, b)); n.addRecurrentConnection(FullConnection(b, b)); n.sortModules()
n._setParameters(array([1., 1.]))
ds = SequentialDataSet(1, 1)
for _ in range(2):
    ds.newSequence(); ds.addSample([1.], [1.])
assert abs(BackpropTrainer(n, ds).testOnData()) < 1e-12
""", 'testing a recurrent network on more than one sequence', 'the state of one sequence leaks into the error of the next')

bug('C20-stale-derivatives', 'C20', [(BPF, """        self.module.resetDerivatives()
        errors = 0
        ponderation = 0.
        shuffled""", """        if not self.batchlearning or self.epoch > 0:
            self.module.resetDerivatives()
        errors = 0
        ponderation = 0.
        shuffled""")], """
from numpy import array
from pybrain.datasets import SupervisedDataSet
from pybrain.structure import LinearLayer, FullConnection, FeedForwardNetwork
from pybrain.supervised.trainers import BackpropTrainer
n = FeedForwardNetwork(); a, b = LinearLayer(1), LinearLayer(1)
n.addInputModule(a); n.addOutputModule(b); n.addConnection(FullConnection(a, b)); n.sortModules()
n._setParameters(array([0.]))
ds = SupervisedDataSet(1, 1)
ds.addSample([1.], [1.])
BackpropTrainer(n, ds, learningrate=.5, batchlearning=True).train()
assert abs(n.params[0] - .5) < 1e-9
BackpropTrainer(n, ds, learningrate=.5, batchlearning=True).train()
assert abs(n.params[0] - .75) < 1e-9, n.params
""", 'a second trainer in batch mode on a network trained before', 'derivatives of an earlier training enter the first step')

DSF = 'pybrain/datasets/dataset.py'
bug('C07-first-index', 'C07', [(DSF, """        if index == None:
            # no index given""", """        if not index:
            # no index given""")], """
from pybrain.datasets import SupervisedDataSet
ds = SupervisedDataSet(1, 1)
for k in range(4):
    ds.addSample([k], [k])
ds.getSample(2)
assert ds.getSample(0)[0][0] == 0, ds.getSample(0)
""", 'asking for sample 0 after the marker has moved', 'another sample is returned')

bug('C07-last-batch-too-long', 'C07', [(DSF, """        stopindexes = chain(stopindexes, [len(self)])""",
    """        stopindexes = chain(stopindexes, [number_of_batches * n])""")], """
from pybrain.datasets import SupervisedDataSet
ds = SupervisedDataSet(1, 1)
for k in range(7):
    ds.addSample([k], [k])
b = [x[0] for y in ds.batches('input', 4) for x in y]
assert b == list(range(7)), b
""", 'a batch size that does not divide the length, with spare storage behind the last sample', 'the last batch contains rows nobody added')

bug('C07-shorter-field', 'C07', [(DSF, """        self.data[label] = as_arr
        self.endmarker[label] = as_arr.shape[0]""", """        self.data[label] = as_arr
        self.endmarker[label] = max(self.endmarker.get(label, 0), as_arr.shape[0])""")], """
from numpy import zeros
from pybrain.datasets.dataset import DataSet
ds = DataSet()
ds.addField('a', 1)
for k in range(3):
    ds.append('a', [k])
ds.setField('a', zeros((1, 1)))
ds.append('a', [5.])
assert len(ds['a']) == 2 and ds['a'][1][0] == 5, ds['a']
""", 'replacing a field by a shorter one and appending afterwards', 'rows nobody appended lie in between')

SQF = 'pybrain/datasets/sequential.py'
bug('C08-single-sample-sequence', 'C08', [(SQF, """        if length != 0:
            if ravel""", """        if length > 1:
            if ravel""")], """
from pybrain.datasets import SequentialDataSet
ds = SequentialDataSet(1, 1)
for k in range(3):
    ds.newSequence()
    for j in range(k + 1):
        ds.addSample([k], [j])
assert [len(list(s)) for s in ds] == [1, 2, 3], [len(list(s)) for s in ds]
""", 'a first sequence of exactly one sample', 'the first two sequences are merged')

bug('C08-removal-spares-later-starts', 'C08', [(SQF, """            if val > seqstart:
                self.data""", """            if val > seqstart and i <= index + 1:
                self.data""")], """
from pybrain.datasets import SequentialDataSet
ds = SequentialDataSet(1, 1)
for k in range(4):
    ds.newSequence()
    for j in range(2):
        ds.addSample([k], [j])
ds.removeSequence(0)
assert [[int(x[0]) for x, y in s] for s in ds] == [[1, 1], [2, 2], [3, 3]]
""", 'removing a sequence with at least two sequences after it', 'the boundaries of later sequences move')

CLF = 'pybrain/datasets/classification.py'
bug('C09-zero-importance', 'C09', [('pybrain/datasets/importance.py', """            importance = ones(len(target))
        self.appendLinked""", """            importance = ones(len(target))
        elif not sum(importance):
            importance = ones(len(target))
        self.appendLinked""")], """
from pybrain.datasets import ImportanceDataSet
ds = ImportanceDataSet(1, 2)
ds.addSample([1], [2, 3], [0, 0])
assert ds['importance'].tolist() == [[0, 0]], ds['importance']
""", 'a sample whose weights are all zero', 'the sample counts fully')
bug('C09-sum-over-columns', 'C09', [('pybrain/datasets/reinforcement.py', """            sums[n, :] = sum(self._getSequenceField(n, field), 0)""",
"""            sums[n, :] = self._getSequenceField(n, field).sum()""")], """
from pybrain.datasets import ReinforcementDataSet
ds = ReinforcementDataSet(2, 1)
ds.addSample([1, 2], [3], 4)
ds.addSample([5, 6], [7], 8)
assert ds.getSumOverSequences('reward').tolist() == [[12]]
assert ds.getSumOverSequences('state').tolist() == [[6, 8]], ds.getSumOverSequences('state')
""", 'a field with more than one column', 'sums run over the columns too')
bug('C09-share-rounded-up', 'C09', [('pybrain/datasets/supervised.py', """        separator = int(len(self) * proportion)""",
"""        separator = len(self) - int(len(self) * (1. - proportion))""")], """
from pybrain.datasets import SupervisedDataSet
ds = SupervisedDataSet(1, 1)
for k in range(7):
    ds.addSample([k], [k])
a, b = ds.splitWithProportion(.5)
assert (len(a), len(b)) == (3, 4), (len(a), len(b))
""", 'a share that is not a whole number of samples', 'the share is rounded up')
bug('C09-class-of-another-column', 'C09', [(CLF, """            newtarg[i, int(oldtarg[i])] = bounds[1]""",
"""            newtarg[i, min(int(oldtarg[i]), self.indim)] = bounds[1]""")], """
from pybrain.datasets import ClassificationDataSet
ds = ClassificationDataSet(1, 1, nb_classes=4)
for k in range(4):
    ds.addSample([k], [k])
ds._convertToOneOfMany()
assert ds['target'].tolist() == [[int(i == j) for j in range(4)] for i in range(4)], ds['target']
""", 'more classes than inputs', 'high classes collapse')

MZ = 'pybrain/rl/environments/mazes/'
bug('C14-left-view-mirrored', 'C14', [(MZ + 'polarmaze.py', """        res[4 - self.perseusDir:] = obs[:self.perseusDir]""",
"""        res[4 - self.perseusDir:] = obs[:self.perseusDir][::-1]""")], """
from scipy import array
from pybrain.rl.environments.mazes import PolarMaze
m = PolarMaze(array([[1, 1, 1, 1], [1, 0, 0, 1], [1, 1, 1, 1]]), (1, 2), initPos=[(1, 1)])
want = [1, 0, 1, 1]
for d in range(4):
    m.perseusDir = d
    assert list(m.getSensors()) == want[d:] + want[:d], (d, m.getSensors())
""", 'looking south or west', 'walls behind are reported on the wrong side')
bug('C14-goal-with-step-limit', 'C14', [(MZ + 'tasks/maze.py', """        return self.env.perseus == self.env.goal or POMDPTask.isFinished(self)""",
"""        if self.maxSteps:
            return POMDPTask.isFinished(self)
        return self.env.perseus == self.env.goal""")], """
from pybrain.rl.environments.mazes.tasks.maze import TrivialMaze
t = TrivialMaze(maxSteps=50)
t.performAction(1)
assert not t.isFinished()
t.performAction(1)
assert t.isFinished()
""", 'a task with a step limit', 'reaching the goal does not end the episode')
bug('C14-start-cells-shared', 'C14', [(MZ + 'maze.py', """            self.initPos = self._freePos()
""", """            self.__class__.initPos = self._freePos()
""")], """
from scipy import array
from pybrain.rl.environments.mazes import Maze
a = Maze(array([[1, 1, 1, 1], [1, 0, 0, 1], [1, 1, 1, 1]]), (1, 2))
b = Maze(array([[1, 1, 1, 1], [1, 1, 0, 1], [1, 1, 0, 1], [1, 1, 1, 1]]), (1, 2))
assert b.perseus == (2, 2), b.perseus
""", 'a second maze without configured start cells', 'it starts at cells of the first one')

UT = 'pybrain/utilities.py'
bug('C15-block-of-first-width', 'C15', [(UT, """        d = dims[i]
        m = l[i]
        res[index:index + d, index:index + d] = m
        index += d
""", """        m = l[i]
        res[index:index + dims[i], index:index + dims[i]] = m
        index = (i + 1) * dims[i]
""")], """
from scipy import array
from pybrain.utilities import blockList2Matrix
m = blockList2Matrix([array([[1., 2.], [3., 4.]]), array([[5.]]), array([[6., 7.], [8., 9.]])])
assert m[2, 2] == 5 and m[3, 4] == 7 and m[4, 3] == 8, m
""", 'blocks of different sizes', 'later blocks land at the wrong place')
bug('C15-draw-of-zero-probability', 'C15', [(UT, """        if s > r:
            return i
""", """        if s >= r:
            return i
""")], """
from pybrain import utilities
utilities.random = lambda: 0.
assert utilities.drawIndex([0., .5, .5]) == 1
""", 'a draw of exactly zero and a first index of probability zero', 'an index of probability zero is returned')
bug('C15-nearly-maximal', 'C15', [(UT, """            if v == m:
                best.append(i)
""", """            if v >= m - 1e-9:
                best.append(i)
""")], """
from pybrain import utilities
utilities.choice = lambda l: l[-1]
assert utilities.drawGibbs([2., 2. - 1e-12], 0) == 0
""", 'values that nearly tie', 'a position that is not maximal is drawn')
bug('C15-exp-bounded-above-only', 'C15', [('pybrain/tools/functions.py', """    return exp(clip(x, -500, 500))""",
"""    return exp(clip(x, -50, 500))""")], """
from scipy import array, exp
from pybrain.tools.functions import safeExp
assert abs(safeExp(-60.) / exp(-60.) - 1) < 1e-9
""", 'strongly negative arguments', 'the exponential is cut off far inside its range')
bug('C15-gray-of-wide-codes', 'C15', [(UT, """        gi = (g >> i) % 2
""", """        gi = (g >> min(i, 15)) % 2
""")], """
from pybrain.utilities import int2gray, gray2int
for v in (5, 70000, 123456):
    assert gray2int(int2gray(v), 20) == v, v
""", 'codes of more than 16 bits', 'high bits are lost')

VA = 'pybrain/tools/validation.py'
bug('C16-last-fold-trains-on-itself', 'C16', [(VA, """            train_perms_idxs.pop(i)
""", """            train_perms_idxs.pop(min(i, n_folds - 2))
""")], """
from pybrain.datasets import SupervisedDataSet
from pybrain.tools.validation import CrossValidator
ds = SupervisedDataSet(1, 1)
for k in range(7):
    ds.addSample([k], [k])
class Trainer(object):
    module = None
    def setData(self, d):
        Trainer.data = set(d['input'].ravel())
    def train(self):
        pass
def val(m, d):
    assert not Trainer.data & set(d['input'].ravel()), 'tested on training data'
    return 1.
CrossValidator(Trainer(), ds, 3, val).validate()
""", 'the last fold', 'the last fold is part of its own training data')
bug('C16-weights-of-mean-one', 'C16', [(VA, """        mse = dot(squared_error, importance) / sum(importance)
""", """        mse = dot(squared_error, importance) / len(importance)
""")], """
from scipy import array
from pybrain.tools.validation import Validator
r = Validator.MSE(array([1., 2.]), array([0., 0.]), array([3., 1.]))
assert abs(r - 7 / 4.) < 1e-12, r
""", 'importance weights whose mean is not one', 'the weighted error is not normalised')
bug('C16-short-sequence-without-reset', 'C16', [(VA, """            module.reset()
            for i in range(len(seq)):
""", """            if len(seq) > 1 or not outputs:
                module.reset()
            for i in range(len(seq)):
""")], """
from pybrain.datasets import SequentialDataSet
from pybrain.tools.validation import ModuleValidator
from scipy import array
ds = SequentialDataSet(1, 1)
for k in range(3):
    ds.newSequence()
    ds.addSample([1], [1])
class M(object):
    s = 0
    def reset(self):
        self.s = 0
    def activate(self, x):
        self.s += 1
        return array([self.s])
out = ModuleValidator.calculateModuleOutput(M(), ds)
assert out.ravel().tolist() == [1, 1, 1], out
""", 'sequences of one sample', 'the module remembers the previous sequence')
VB = 'pybrain/rl/learners/valuebased/'
bug('C12-updates-across-episodes', 'C12', [(VB + 'q.py', """        for seq in samples:
            # information from the previous episode (sequence)
            # should not influence the training on this episode
            self.laststate = None
            self.lastaction = None
            self.lastreward = None

""", """        # information from previous calls should not influence the training
        self.laststate = None
        self.lastaction = None
        self.lastreward = None

        for seq in samples:
""")], """
from pybrain.datasets import ReinforcementDataSet
from pybrain.rl.learners.valuebased import ActionValueTable, Q
m = ActionValueTable(2, 1)
m.initialize(0.)
ds = ReinforcementDataSet(1, 1)
for k in range(2):
    ds.newSequence()
    ds.addSample([k], [0], [5])
l = Q()
l.module, l.dataset = m, ds
l.learn()
assert list(m.params) == [0, 0], m.params
""", 'more than one episode', 'the last step of an episode is updated from the first of the next one')
bug('C12-trace-one-step-early', 'C12', [(VB + 'qlambda.py', """            lbda = self.qlambda ** (states.shape[0] - 1 - i)
""", """            lbda = self.qlambda ** (states.shape[0] // 2 * 2 - 1 - i) if i else 1.
""")], """
from pybrain.datasets import ReinforcementDataSet
from pybrain.rl.learners.valuebased import ActionValueTable, QLambda
m = ActionValueTable(3, 1)
m.initialize(0.)
ds = ReinforcementDataSet(1, 1)
for k in range(3):
    ds.addSample([k], [0], [1])
l = QLambda(.5, 0., .5)
l.module, l.dataset = m, ds
l.learn()
assert list(m.params) == [.25, .5, 0], m.params
""", 'episodes of odd length', 'the weights of the trace are shifted')
bug('C12-nearly-greedy', 'C12', [(VB + 'interface.py', """        action = where(values == max(values))[0]
""", """        action = where(abs(values - max(values)) <= 1e-8 * abs(values).sum())[0]
""")], """
from pybrain.rl.learners.valuebased import ActionValueTable
m = ActionValueTable(1, 3)
m._setParameters([1e9, 1., 2.])
m.updateValue(0, 0, -1e9)
assert set(m.getMaxAction(0) for _ in range(60)) == set([2])
""", 'values of very different size', 'an action that is not the best is called greedy')

RL = 'pybrain/rl/'
bug('C13-discount-from-the-end', 'C13', [(RL + 'environments/episodic.py', """            self.cumreward += power(self.discount, self.samples) * self.getReward()
""", """            self.cumreward = self.discount * (self.cumreward + self.getReward())
""")], """
from pybrain.rl.environments.episodic import EpisodicTask
from pybrain.rl.environments.environment import Environment
class E(Environment):
    indim = outdim = 1
    n = 0
    def getSensors(self): return [self.n]
    def performAction(self, a): self.n += 1
    def reset(self): self.n = 0
class T(EpisodicTask):
    discount = .5
    def isFinished(self): return self.env.n >= 2
    def getReward(self): return float(self.env.n * 8)
t = T(E())
t.reset()
t.performAction([0]); t.performAction([0])
assert t.getTotalReward() == .5 * 8 + .25 * 16, t.getTotalReward()
""", 'a discounted episode with different rewards', 'rewards are discounted from the end of the episode')
bug('C13-first-episode-not-reset', 'C13', [(RL + 'experiments/episodic.py', """                self.task.reset()
                while""", """                if dummy > 0 or self.task.isFinished():
                    self.task.reset()
                while""")], """
from pybrain.rl.environments.episodic import EpisodicTask
from pybrain.rl.environments.environment import Environment
from pybrain.rl.experiments import EpisodicExperiment
class E(Environment):
    indim = outdim = 1
    n = 0
    def getSensors(self): return [self.n]
    def performAction(self, a): self.n += 1
    def reset(self): self.n = 0
class T(EpisodicTask):
    def isFinished(self): return self.env.n >= 5
    def getReward(self): return 1.
class A(object):
    def integrateObservation(self, o): pass
    def getAction(self): return [0]
    def giveReward(self, r): pass
    def newEpisode(self): pass
x = EpisodicExperiment(T(E()), A())
x.doInteractions(2)
assert [len(r) for r in x.doEpisodes(2)] == [5, 5]
""", 'single interactions before the episodes', 'the first episode continues where the interactions stopped')
bug('C13-logs-unexplored-action', 'C13', [(RL + 'agents/learning.py', """        if self.learning:
            self.lastaction = self.learner.explore(self.lastobs, self.lastaction)

        return self.lastaction
""", """        action = self.lastaction
        if self.learning:
            action = self.learner.explore(self.lastobs, self.lastaction)

        return action
""")], """
from scipy import array
from pybrain.rl.agents import LearningAgent
from pybrain.structure import LinearLayer
class L(object):
    def explore(self, s, a): return a + 1
a = LearningAgent(LinearLayer(1), L())
a.newEpisode = None
a.integrateObservation(array([3.]))
act = a.getAction()
a.giveReward(array([1.]))
assert list(a.history['action'][0]) == list(act) == [4.], a.history['action']
""", 'a learner that explores', 'the log holds the action before the exploration')
OP = 'pybrain/optimization/optimizer.py'
bug('C11-best-array-shared', 'C11', [(OP, """                self.bestEvaluable = evaluable.copy()
""", """                self.bestEvaluable = evaluable if self._wasUnwrapped else evaluable.copy()
""")], """
from scipy import array
from pybrain.optimization.optimizer import ContinuousOptimizer
class O(ContinuousOptimizer):
    def _additionalInit(self):
        self.x = self._initEvaluable.copy()
    def _learnStep(self):
        self.x -= 1.
        self._oneEvaluation(self.x)
from pybrain.structure.parametercontainer import ParameterContainer
pc = ParameterContainer(1)
pc._setParameters([0.])
o = O(lambda x: -abs(x.params[0] + 2.), pc, maxLearningSteps=6)
best, f = o.learn()
assert f == 0. and best.params[0] == -2., (best, f)
""", 'an optimizer that moves its point in place', 'the reported best point moves on with the search')
bug('C11-direction-set-again', 'C11', [(OP, """            if opp is not self._wasOpposed: 
""", """            if opp:
""")], """
from scipy import array
from pybrain.optimization.optimizer import BlackBoxOptimizer
class O(BlackBoxOptimizer):
    mustMaximize = True
    def _learnStep(self):
        for v in (3., -1., 2.):
            e = self._initEvaluable.copy()
            e._setParameters([v])
            self._oneEvaluation(e)
o = O(lambda x: x[0], array([0.]), minimize=True, maxLearningSteps=1)
o.minimize = True
best, f = o.learn()
assert f == -1. and best[0] == -1., (best, f)
""", 'the direction is set to the same value once more', 'the objective is negated twice')
bug('C11-best-of-the-previous-objective', 'C11', [(OP, """        self.bestEvaluation = None
""", """        if self.numEvaluations == 0:
            self.bestEvaluation = None
""")], """
from scipy import array
from pybrain.optimization import HillClimber
o = HillClimber(lambda x: 100., array([0.]), maxLearningSteps=1)
o.learn()
o.setEvaluator(lambda x: 1., array([5.]))
best, f = o.learn(2)
assert f == 1., f
""", 'a second objective', 'the best value of the first objective is reported for the second')
ND = 'pybrain/tools/nondominated.py'
bug('C17-merged-fronts-forget-equality', 'C17', [(ND, """        if len(part1) >= l // 3 or len(part2) >= l // 3:
            return _non_dominated_front_arr(part1 + part2, key, allowequality)
        else:
            return _non_dominated_front_merge_arr(""", """        if len(part1) >= l // 3 or len(part2) >= l // 3:
            return _non_dominated_front_arr(part1 + part2, key)
        else:
            return _non_dominated_front_merge_arr(""")], """
from pybrain.tools.nondominated import non_dominated_front
# a long front in which every second one is beaten in the second objective only
fit = dict((i, (i // 2 if i < 120 else 0, -(i // 2) + (i >= 60 and i % 2))) for i in range(120))
items = [i for i in range(0, 60, 2)] + [i for i in range(60, 120, 2)] + [i for i in range(1, 60, 2)] + [i for i in range(61, 120, 2)]
front = non_dominated_front(items, key=lambda i: fit[i], allowequality=False)
for a in front:
    for b in front:
        assert a == b or not all(x <= y for x, y in zip(fit[a], fit[b])), (fit[a], fit[b])
""", 'more than 100 individuals, a large front, allowequality=False and ties across the halves', 'the joined front holds dominated individuals')
bug('C17-front-larger-than-the-rest', 'C17', [('pybrain/optimization/populationbased/multiobjective/nsga2.py', """        if len(front) > remaining:
""", """        if len(front) > survivors:
""")], """
from pybrain.optimization.populationbased.multiobjective.nsga2 import nsga2select
pop = [(0, 0), (1, 2), (2, 1)]
r = nsga2select(pop, dict((p, p) for p in pop), 2)
assert len(r) == 2, r
""", 'a later front that fits into the population but not into what is left of it', 'more survivors than asked for')
bug('C17-second-slope-starts-at-zero', 'C17', [('pybrain/tools/rankingfunctions.py', """                res[i] = ranks[i] + (ranks[i] - transitionpoint) * self.bilinearFactor
""", """                res[i] = (ranks[i] - transitionpoint) * (1. + self.bilinearFactor)
""")], """
from scipy import array
from pybrain.tools.rankingfunctions import BilinearRanking
w = BilinearRanking()(array([1., 2., 3., 4., 5.]))
assert list(w) == sorted(w), w
""", 'individuals next to the transition point', 'the better one gets the smaller weight')
TPG = 'pybrain/rl/environments/twoplayergames/'
bug('C19-suicide-of-a-group-accepted', 'C19', [(TPG + 'capturegame.py', """                if len(self.liberties[self.groups[n]]) > 1:
                    return False
""", """                if len(self.liberties[self.groups[n]]) > 1 or not self.suicideenabled:
                    return False
""")], """
from pybrain.rl.environments.twoplayergames import CaptureGame
g = CaptureGame(3, suicideenabled=False)
for c, p in ((1, (0, 0)), (-1, (1, 0)), (-1, (0, 2)), (-1, (1, 1))):
    assert g.doMove(c, p)
assert g.winner is None
assert not g.isLegal(1, (0, 1)), 'leaves its own group without liberties'
""", 'suicide disabled and the last liberty of an own group', 'the suicidal move is accepted')
bug('C19-rows-as-wide-as-high', 'C19', [(TPG + 'gomoku.py', """                        or next[1] < 0 or next[1] >= self.size[1]
                        or self.b[next] != color):
""", """                        or next[1] < 0 or next[1] >= self.size[0]
                        or self.b[next] != color):
""")], """
from pybrain.rl.environments.twoplayergames import GomokuGame
g = GomokuGame((5, 9))
for j in (4, 5, 6, 7):
    assert g.doMove(1, (3, j))
assert g.doMove(1, (3, 8)) and g.winner == 1, g.winner
""", 'a board that is not square', 'lines in the columns beyond the number of rows do not win')
bug('C19-draw-counts-own-pairs', 'C19', [(TPG + 'pente.py', """                                  + 2 * (self.pairsTaken[self.BLACK] + self.pairsTaken[self.WHITE])):
""", """                                  + 2 * (self.pairsTaken[c] + self.pairsTaken[c])):
""")], """
import random
from pybrain.rl.environments.twoplayergames.pente import PenteGame
rng = random.Random(1)
n = 0
for trial in range(4000):
    g = PenteGame((5, 5))
    c = 1
    while not g.gameOver():
        free = [p for p in g.b if g.b[p] == 0]
        assert free, 'no free cell, but undecided'
        calm = [p for p in free if not g._fiveRow(c, p)]
        g.doMove(c, rng.choice(calm or free))
        c = -c
    if g.winner == g.DRAW:
        n += 1
        assert not [p for p in g.b if g.b[p] == 0], 'a draw with free cells'
assert n
""", 'a full board after captures by both players in different number', 'a full board is not a draw (or a draw is declared early)')
NETW = 'pybrain/structure/networks/'
bug('C02-parallel-connections-counted-once', 'C02', [(NETW + 'network.py', """            graph[c.inmod].append(c.outmod)
            # Update the count of incoming arcs in outnode.
            graph[c.outmod][0] += 1
""", """            # Update the count of incoming arcs in outnode.
            if c.outmod not in graph[c.inmod]:
                graph[c.outmod][0] += 1
            graph[c.inmod].append(c.outmod)
""")], """
from pybrain.structure import FeedForwardNetwork, LinearLayer, FullConnection
n = FeedForwardNetwork()
a, b, c, d = [LinearLayer(2, name=x) for x in 'abcd']
n.addInputModule(a); n.addModule(b); n.addModule(c); n.addOutputModule(d)
# two connections from b to d; c comes after b and before d
for x, y in ((a, b), (b, d), (b, d), (b, c), (c, d)):
    n.addConnection(FullConnection(x, y))
n.sortModules()
s = n.modulesSorted
assert len(s) == 4 and s.index(c) < s.index(d), s
""", 'two connections between the same modules, the receiver having another sender later in the order', 'a module is sorted before one of its senders')
bug('C02-cycle-behind-a-root', 'C02', [(NETW + 'network.py', """        if graph:
            raise""", """        if graph and not self.modulesSorted:
            raise""")], """
from pybrain.structure import FeedForwardNetwork, LinearLayer, FullConnection
from pybrain.structure.networks.network import NetworkConstructionException
n = FeedForwardNetwork()
a, b, c = [LinearLayer(1, name=x) for x in 'abc']
n.addInputModule(a); n.addModule(b); n.addOutputModule(c)
for x, y in ((a, b), (b, c), (c, b)):
    n.addConnection(FullConnection(x, y))
try:
    n.sortModules()
except NetworkConstructionException:
    pass
else:
    raise SystemExit('cycle accepted: %s' % n.modulesSorted)
""", 'a cycle in a network that also has modules outside of it', 'the network is accepted with modules missing from its list')
bug('C02-output-size-of-gates', 'C02', [(NETW + 'network.py', """            self.outdim += m.outdim
""", """            self.outdim += m.indim if m in self.inmodules else m.outdim
""")], """
from pybrain.structure import FeedForwardNetwork, GateLayer
n = FeedForwardNetwork()
g = GateLayer(2)
n.addInputModule(g); n.addOutputModule(g)
n.sortModules()
assert (n.indim, n.outdim) == (4, 2) and n.outputbuffer.shape == (1, 2), (n.indim, n.outdim)
""", 'a module that is input and output module at once and whose sizes differ', 'the output size of the network is wrong')
bug('C03-forgotten-inputs-stay', 'C03', [(NETW + 'recurrent.py', """            for m in self.modules:
                m.shift(-1)
            offset -= 1
""", """            for m in self.modules.difference(self.inmodules):
                # the input modules get a new input anyway
                m.shift(-1)
            for m in self.inmodules:
                m.offset -= 1
            offset -= 1
""")], """
from pybrain.structure import RecurrentNetwork, LinearLayer, FullConnection
def net(forget):
    n = RecurrentNetwork(forget=forget)
    a, b = LinearLayer(1, name='a'), LinearLayer(1, name='b')
    n.addInputModule(a); n.addOutputModule(b)
    f, r = FullConnection(a, b, name='f'), FullConnection(a, b, name='r')
    n.addConnection(f); n.addRecurrentConnection(r)
    n.sortModules()
    f.params[:], r.params[:] = [2.], [3.]
    n.reset()
    return n
p, q = net(False), net(True)
for x in [1., 4., -2., 5.]:
    y, z = p.activate([x])[0], q.activate([x])[0]
    assert y == z, (x, y, z)
""", 'a network that forgets old steps and has a recurrent connection that leaves an input module', 'the connection delivers a stale value')
bug('C03-returned-error-is-a-view', 'C03', [(NETW + 'recurrent.py', """        return self.inputerror[self.offset].copy()
""", """        return self.inputerror[self.offset]
""")], """
from pybrain.structure import RecurrentNetwork, LinearLayer, FullConnection
n = RecurrentNetwork()
a, b = LinearLayer(1, name='a'), LinearLayer(1, name='b')
n.addInputModule(a); n.addOutputModule(b)
f = FullConnection(a, b, name='f')
n.addConnection(f)
n.sortModules()
f.params[:] = [2.]
n.reset()
n.activate([1.])
e = n.backActivate([3.])
assert list(e) == [6.], e
n.reset()
assert list(e) == [6.], e
""", 'keeping the error that back-activation returned until after the next reset', 'the kept error changes')
bug('C03-first-row-of-nested-error', 'C03', [(NETW + 'feedforward.py', """            inerr[index:index + m.indim] = m.inputerror[offset]
""", """            inerr[index:index + m.indim] = m.inputerror[0]
""")], """
from pybrain.structure import FeedForwardNetwork, RecurrentNetwork, LinearLayer, FullConnection
i = FeedForwardNetwork(name='inner')
a, b = LinearLayer(1, name='a'), LinearLayer(1, name='b')
i.addInputModule(a); i.addOutputModule(b)
f = FullConnection(a, b, name='f'); i.addConnection(f); i.sortModules()
n = RecurrentNetwork()
x = LinearLayer(1, name='x')
n.addInputModule(x); n.addOutputModule(i)
g = FullConnection(x, i, name='g'); n.addConnection(g); n.sortModules()
f.params[:], g.params[:] = [2.], [3.]
n.activate([1.]); n.activate([1.])
e = n.backActivate([1.])
assert e[0] == 6., e
assert g.derivs[0] == 2., g.derivs
""", 'back-activation of a feed-forward network nested in a recurrent one after several steps', 'the error of the first row is passed on')

bug('C10-original-modified', 'C10', [('pybrain/auxiliary/gradientdescent.py', """        assert isinstance(values, ndarray)
        self.values = values.copy()
""", """        assert isinstance(values, ndarray)
        self.values = values.view()
""")], """
import numpy as np
from pybrain.auxiliary import GradientDescent
x = np.zeros(3)
g = GradientDescent()
g.init(x)
g(np.ones(3))
assert not x.any(), x
""", 'keeping the array that the descent was initialized with', 'the descent steps change the array of the caller')
bug('C13-cut-off-above-only', 'C13', [('pybrain/rl/environments/task.py', """                    r = clip(r, l[0], l[1])
""", """                    r = min(r, l[1])
""")], """
from pybrain.rl.environments.task import Task
t = Task(None)
t.setScaling(None, [(-2., 2.), (0., 10.)])
assert list(t.denormalize([1.5, -1.])) == [2., 0.]
assert list(t.denormalize([-1.5, -3.])) == [-2., 0.], t.denormalize([-1.5, -3.])
""", 'an action below -1 with limits set', 'it is mapped outside of the limits')
bug('C17-constrained-crowding-of-last-objective', 'C17', [('pybrain/tools/nondominated.py', """            distances[ind] += (fitnesses[pre][0][i] - fitnesses[post][0][i]) / normalization
""", """            distances[ind] = max(distances[ind], (fitnesses[pre][0][i] - fitnesses[post][0][i]) / normalization)
""")], """
from pybrain.tools.nondominated import const_crowding_distance
f = {1: ((0., 10.), True, [0.]), 2: ((1., 6.), True, [0.]), 3: ((6., 5.), True, [0.]), 4: ((10., 0.), True, [0.])}
d = const_crowding_distance(f.keys(), f)
assert abs(d[2] - 1.1) < 1e-9 and abs(d[3] - 1.5) < 1e-9, dict(d)
assert d[1] > 1e50 and d[4] > 1e50
""", 'the constrained variant with several objectives', 'the crowding distance is the largest share of an objective and not the sum')
bug('C17-infeasible-by-first-constraint', 'C17', [('pybrain/tools/nondominated.py', """                cii = abs(sum(c[ii]))
                cij = abs(sum(c[ij]))
""", """                cii = abs(c[ii]).max()
                cij = abs(c[ij]).max()
""")], """
from pybrain.tools.nondominated import const_non_dominated_front
f = {1: ((0., 0.), False, [-2., -2.]), 2: ((0., 0.), False, [-3., 0.])}
assert const_non_dominated_front([1, 2], key=f.get) == {2}
""", 'infeasible individuals that violate several constraints', 'the one with the smaller largest violation counts as better')
bug('C18-visible-values-of-the-container', 'C18', [('pybrain/structure/evolvables/maskedparameters.py', """                    x[paramcount] = self.maskableParams[i]
""", """                    x[paramcount] = self.pcontainer.params[i]
""")], """
import numpy as np
from pybrain.structure import FeedForwardNetwork
from pybrain.structure.parametercontainer import ParameterContainer
from pybrain.structure.evolvables.maskedparameters import MaskedParameters
m = MaskedParameters(ParameterContainer(4), maskOnProbability=1.)
m._setParameters(np.arange(1., 5.))
c = m.copy()
c._setParameters(-np.arange(1., 5.))
assert list(m.params) == [1., 2., 3., 4.], m.params
assert list(c.params) == [-1., -2., -3., -4.], c.params
""", 'two copies, which share the container, with different values', 'the one that was not set last shows the values of the other one')
bug('C20-rising-errors-keep-last-weights', 'C20', [('pybrain/supervised/trainers/backprop.py', """                if min(new) > max(old):
                    self.module.params[:] = bestweights
                    break
""", """                if min(new) > max(old):
                    break
""")], """
import numpy as np
from pybrain.structure import FeedForwardNetwork, LinearLayer, FullConnection
from pybrain.datasets import SupervisedDataSet
from pybrain.supervised import BackpropTrainer
n = FeedForwardNetwork()
a, b = LinearLayer(1, name='a'), LinearLayer(1, name='b')
n.addInputModule(a); n.addOutputModule(b)
f = FullConnection(a, b, name='f')
n.addConnection(f)
n.sortModules()
f.params[:] = [0.]
tr, va = SupervisedDataSet(1, 1), SupervisedDataSet(1, 1)
tr.addSample([1.], [1.])
va.addSample([1.], [.1])
t = BackpropTrainer(n, tr, learningrate=.1)
t.trainUntilConvergence(trainingData=tr, validationData=va, continueEpochs=3)
assert len(t.validationErrors) == 6
assert abs(f.params[0] - .1) < 1e-9, f.params
""", 'training that is ended because the validation errors have risen', 'the module keeps the last parameters and not the best ones')
