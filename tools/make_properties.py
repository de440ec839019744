"""writes /verif/properties.jsonl (one place to edit the texts)"""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = state
    if observe: a['observe_at'] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': qtext},
                  why_tests_cant=why, anchors=a))

ST = 'pybrain/structure/'
prop('C01', 'Flat parameter and derivative vectors alias the components\' own',
     'The flat parameter vector of a sorted network is the concatenation of the parameter vectors of all its trainable modules and '
     'connections, in one fixed order and without gaps or overlaps, and the flat derivative vector is laid out the same way; every entry '
     'is shared storage, so a value written through the network is what the component computes with, and a value written through the '
     'component is what the network reports. Assigning a full vector of parameters (array or list) replaces exactly those values, '
     'resetting derivatives zeroes all of them and touches no parameter, and only the owner of a component\'s storage may replace it. '
     'A copy of a network starts with equal parameters and shares no storage of parameters or derivatives with the original.',
     ['configurations', 'histories', 'inputs'],
     'every combination of component parameter counts, every order of construction, and every later sequence of reads and writes through either side',
     'The doctests build a handful of fixed nets and look at a few printed numbers; aliasing must hold for every layout of parameter blocks and after every write.',
     [ST + 'parametercontainer.py', ST + 'networks/network.py', ST + 'modules/lstm.py', ST + 'evolvables/evolvable.py'],
     [('ParameterContainer', ST + 'parametercontainer.py'), ('Network._sort, _setParameters, _setDerivatives', ST + 'networks/network.py')])
prop('C02', 'Network construction orders the modules topologically or refuses',
     'Once a network has been sorted, its module list contains every module that was added exactly once and every forward connection '
     'leads from an earlier module to a later one; a network whose forward connections contain a cycle is rejected with a network '
     'construction error. The total input and output sizes of the network are the sums over its input and output modules in the '
     'order in which they were added, and connections registered as recurrent never constrain the order. Sorting leaves the set of '
     'modules and of connections unchanged.',
     ['configurations', 'inputs'],
     'every finite graph of modules and connections, added in any order',
     'The tests sort a few small fixed graphs, cyclic ones hardly at all; the claim is about every directed graph and every insertion order.',
     [ST + 'networks/network.py', ST + 'networks/recurrent.py', 'pybrain/tools/shortcuts.py'],
     [('Network._topologicalSort, _sort', ST + 'networks/network.py')])
prop('C03', 'Networks compute the composition of their parts, and its gradient',
     'Activating a feed-forward network gives the external input to its input modules, feeds every module the sum of what its incoming '
     'connections deliver, and returns the outputs of its output modules in the order they were added; a recurrent network additionally '
     'adds, at every step after a reset, what its recurrent connections deliver from the previous step. Back-activating an output error '
     'adds to the derivative vector the products of that error with the partial derivatives of the outputs (through time for recurrent '
     'nets, last step first) and returns the error with respect to the inputs; the error of a softmax layer is taken at its input. '
     'Results depend only on the parameters and the inputs since the last reset (for a feed-forward network: since the call of '
     'activate). This holds for shared weights, slices, nested networks (those with a memory inside recurrent networks only) and '
     'after copying; a network that forgets old steps computes the same outputs.',
     ['configurations', 'inputs', 'histories'],
     'every network graph, parameter vector, input sequence and error sequence',
     'The doctests compare a few numeric gradients of a few fixed nets; the chain rule must hold for all graphs, parameters and inputs.',
     [ST + 'networks/feedforward.py', ST + 'networks/recurrent.py', ST + 'networks/network.py', ST + 'modules/module.py'],
     [('FeedForwardNetworkComponent', ST + 'networks/feedforward.py'), ('RecurrentNetworkComponent', ST + 'networks/recurrent.py')])
prop('C04', 'Layers compute their defined functions and the matching derivatives',
     'For every input (components within +-500) each layer type outputs its defined function: identity, logistic, hyperbolic tangent, '
     'x/(1+|x|), max(0,x), constant one for the bias, logistic gating, component-wise product, complementary gating, and the LSTM cell '
     'equations with optional peepholes. For these deterministic differentiable layers the propagated error is the transposed Jacobian '
     'of that function times the output error, and for layers with parameters the derivative vector is increased by the matching parameter gradient. '
     'A softmax layer outputs positive numbers that sum to one and are proportional to the exponentials of its inputs.',
     ['inputs', 'configurations'],
     'every layer size, every real input vector in range, every output error',
     'The doctests print a few values for a few inputs; a formula or a sign that is wrong only off the sampled region is not seen.',
     [ST + 'modules/' + f for f in ('linearlayer.py', 'sigmoidlayer.py', 'tanhlayer.py', 'softsign.py', 'relulayer.py', 'biasunit.py', 'softmax.py', 'gate.py', 'lstm.py', 'mdlstm.py')] + ['pybrain/tools/functions.py'],
     [('_forwardImplementation / _backwardImplementation of each layer', ST + 'modules/')])
prop('C05', 'Connections apply their linear map, its transpose and its gradient',
     'Every connection adds to the buffer of the receiving module the product of its weight matrix with the connected part of the sending '
     'module\'s output: a full matrix, the identity, a diagonal, a matrix without its diagonal, a permutation of blocks, or one shared '
     'weight vector for several connections. Back-propagating adds the transposed product to the sender\'s error and the outer product of '
     'sent output and received error to the derivatives of exactly the weights that take part. Only the configured slices of the two '
     'modules are read and written, and size mismatches are refused at construction.',
     ['inputs', 'configurations'],
     'every pair of module sizes, every legal slice, every weight vector, input and error',
     'The doctests use a few small fixed sizes; the index arithmetic must be right for every size, slice and block.',
     [ST + 'connections/' + f for f in ('connection.py', 'full.py', 'fullnotself.py', 'identity.py', 'linear.py', 'permutation.py', 'shared.py', 'subsampling.py')] + [ST + 'moduleslice.py'],
     [('_forwardImplementation / _backwardImplementation of each connection', ST + 'connections/'), ('ModuleSlice', ST + 'moduleslice.py')])
prop('C06', 'Module buffers keep the history of activations and are cleared by reset',
     'Activating a module stores input and output of each step and returns a copy of the output, so later steps, resets or writes to the '
     'returned array change nothing already reported or stored; a sequential module keeps one slot per step since its last reset, in order and '
     'for any number of steps. Reset returns a module to the behaviour of a fresh one with the same parameters. Activating or '
     'back-activating with a vector of the wrong length (other than one, which numpy spreads) is refused without changing the stored buffers.',
     ['histories', 'inputs'],
     'every number of activations, resets and back-activations in any order, for every module size',
     'The tests activate a few steps; buffer growth, shifting and clearing must be right after any history.',
     [ST + 'modules/module.py', ST + 'modules/neuronlayer.py', ST + 'modules/statedependentlayer.py', ST + 'networks/recurrent.py'],
     [('Module.activate, backActivate, reset, _growBuffers', ST + 'modules/module.py')])
prop('C07', 'Data set fields stay equally long and keep what was appended, in order',
     'After any sequence of appends the linked fields of a data set all have the same length, which is the length of the data set, and '
     'reading a field (or the sample at an index) returns exactly the values appended, in order, whatever internal storage growth took '
     'place; clearing empties it and a wrongly sized vector is refused. Appending to linked fields adds one row to each of them, '
     'iteration visits every sample once in order, and a batch iteration visits every sample exactly once. '
     'A copy is equal and independent.',
     ['histories', 'inputs'],
     'every sequence of field additions, appends, clears and reads, of any length and field width',
     'The doctests append a few samples; storage doubling and the bookkeeping of end markers must be right for any number of operations.',
     ['pybrain/datasets/dataset.py'],
     [('DataSet', 'pybrain/datasets/dataset.py')])
prop('C08', 'Sequential data sets partition their samples into the added sequences',
     'The sequences of a sequential data set are consecutive, do not overlap and together contain all samples: the n-th sequence has '
     'exactly the samples added between the n-th and the following start of a sequence, in order. The number of sequences, their lengths, '
     'iteration over sequences and over the samples of a sequence agree with that partition, and clearing or removing one sequence '
     'leaves the others intact. Starting a new sequence while the current one is still empty does not create another one.',
     ['histories', 'inputs'],
     'every sequence of sample additions, new-sequence calls, removals, clears and reads',
     'The doctests hold a few tiny sequences; index bookkeeping must be right for every number and length of sequences.',
     ['pybrain/datasets/sequential.py'],
     [('SequentialDataSet', 'pybrain/datasets/sequential.py')])
prop('C09', 'Supervised and classification data sets split and convert without loss',
     'Splitting a data set by a proportion gives two data sets that together contain every sample exactly once with input and target still paired, the first holding '
     'the requested share rounded down. Converting class targets to one-of-many and back gives the original classes, the class histogram counts every '
     'sample once, and splitting by class separates exactly the samples of that class. Importance weights stay attached to their samples, '
     'and returns computed from stored rewards are the sums of the rewards of each episode.',
     ['inputs', 'histories'],
     'every number of samples, dimension, class assignment, proportion and random draw',
     'A doctest shows one tiny data set; pairing and counting must hold for all contents and every random permutation.',
     ['pybrain/datasets/supervised.py', 'pybrain/datasets/classification.py', 'pybrain/datasets/importance.py', 'pybrain/datasets/reinforcement.py'],
     [('SupervisedDataSet, ClassificationDataSet, ReinforcementDataSet', 'pybrain/datasets/')])
prop('C10', 'Gradient descent applies exactly the documented update rule',
     'Plain gradient descent ascends: each step adds learning rate times gradient plus momentum times the previous step to the values, '
     'and the learning rate is multiplied by its decay after every step. Resilient propagation moves every coordinate by its own step '
     'size in the direction of the gradient\'s sign, multiplying that step by its increase or decrease factor according to whether the sign of '
     'the gradient was kept or flipped (after a flip the remembered gradient counts as zero), always within the configured bounds. The gradient and the initial values handed in are not modified, '
     'and re-initialising forgets all earlier steps.',
     ['histories', 'inputs', 'configurations'],
     'every sequence of gradients, every dimension and every setting of the parameters',
     'No test compares the updates; a wrong sign or a stale momentum term still "learns" on sampled problems.',
     ['pybrain/auxiliary/gradientdescent.py'],
     [('GradientDescent', 'pybrain/auxiliary/gradientdescent.py')])
prop('C11', 'Black-box optimizers report the best point they evaluated',
     'After any sequence of evaluations of a scalar objective without noise (finite values, no re-evaluation options) the reported best evaluation is the best (largest, or smallest when '
     'minimizing, a direction chosen before the first evaluation) of all values seen so far, and the reported best evaluable is one at which the objective returned that value; later evaluations or mutations do not '
     'alter the stored one. Flipping between minimization and maximization only negates the objective internally and reports values in the user\'s '
     'own sign, as learning returns them. The number of evaluations counts every call, recorded evaluations and evaluables are kept in order, and learning stops no later than the evaluation '
     'budget, the step budget or the desired value demands.',
     ['histories', 'inputs', 'configurations'],
     'every objective function, sequence of candidate points and combination of direction, wrapping and stopping options',
     'Tests run some optimizers on one function; bookkeeping must hold for every sequence of values, including ties and sign flips.',
     ['pybrain/optimization/optimizer.py', 'pybrain/optimization/hillclimber.py', 'pybrain/rl/environments/functions/transformations.py'],
     [('BlackBoxOptimizer', 'pybrain/optimization/optimizer.py')])
prop('C12', 'Tabular value learners perform their temporal-difference update',
     'Learning from episodes changes the value of each visited state-action pair that is followed by another step by learning rate times the temporal-difference '
     'error of the algorithm - with the largest next value for Q-learning, the value of the action actually taken next for SARSA - '
     'in the order of the experience and never across episodes, and leaves every other entry of the table untouched. Q(lambda) '
     'walks the steps of an episode backwards, the error of a step being weighted by the trace decay to the power of its distance from the end, until that weight is negligible. The greedy '
     'action of a state is one whose table value is maximal for that state, and the table rows belong to states, its columns to actions.',
     ['histories', 'inputs', 'configurations'],
     'every table, episode, learning rate, discount factor and tie between actions',
     'The tests only check that learning runs; the update formula must be right for every transition.',
     ['pybrain/rl/learners/valuebased/q.py', 'pybrain/rl/learners/valuebased/sarsa.py', 'pybrain/rl/learners/valuebased/qlambda.py', 'pybrain/rl/learners/valuebased/interface.py', 'pybrain/structure/modules/table.py'],
     [('Q.learn, SARSA.learn, QLambda.learn', 'pybrain/rl/learners/valuebased/'), ('ActionValueTable', 'pybrain/rl/learners/valuebased/interface.py')])
prop('C13', 'Agents and experiments follow the interaction protocol and log it faithfully',
     'In every interaction the agent first receives the observation, then chooses an action, then receives the reward of that action, and '
     'a logging agent appends exactly one sample holding those three (the observation, which the environment does not change afterwards, and the action the reward belongs to); with logging switched off nothing is recorded. '
     'Running n interactions performs exactly n of them, running n episodes performs n complete episodes each starting from a '
     'reset, and an episodic task accumulates the sum of its rewards since its last reset (with a discount, the n-th reward times the n-th power of the discount). A task with limits presents each observation '
     'mapped linearly from its limits to -1..1 and maps actions back from -1..1 (cut off there) to their limits; without limits both are passed on as they are. Out-of-order '
     'calls are refused.',
     ['histories', 'inputs'],
     'every sequence of interactions, episodes and resets, for any environment and task',
     'A few experiments are run in tests without checking the log; the protocol must hold for any length of history.',
     ['pybrain/rl/agents/logging.py', 'pybrain/rl/agents/learning.py', 'pybrain/rl/experiments/experiment.py', 'pybrain/rl/experiments/episodic.py', 'pybrain/rl/environments/task.py', 'pybrain/rl/environments/episodic.py'],
     [('Experiment, EpisodicExperiment', 'pybrain/rl/experiments/'), ('LoggingAgent', 'pybrain/rl/agents/logging.py')])
prop('C14', 'Maze environments never leave the free cells and move as commanded',
     'From any free cell a movement action leads to the neighbouring cell in that direction if that cell is free and leaves the position unchanged otherwise (the outside of a maze counts as wall), '
     'so the perseus never stands in a wall or outside the maze. Sensors report exactly which neighbouring cells '
     'are walls, resets start at a configured start cell, and the goal reward is given exactly on reaching the goal cell, which ends the episode; the fully observable task tells all cells apart.',
     ['histories', 'inputs', 'configurations'],
     'every maze topology, position, action sequence and random draw',
     'The examples use a few mazes; containment must hold in every maze whatever the action sequence.',
     ['pybrain/rl/environments/mazes/maze.py', 'pybrain/rl/environments/mazes/polarmaze.py', 'pybrain/rl/environments/mazes/tasks/'],
     [('Maze.performAction, _moveInDir, getSensors', 'pybrain/rl/environments/mazes/maze.py')])
prop('C15', 'Numerical and collection helpers meet their documented definitions',
     'The helper functions return what they document for every legal argument: one-of-n coding, Gray coding and triangular packing are undone by their '
     'inverses, drawing an index from a probability vector only ever returns an index of positive '
     'probability and drawing at temperature zero only one of a largest value, linear scaling maps monotonously onto the given interval, permuting by blocks is a permutation that '
     'puts the blocks one after another, block matrices hold their components in place, and the rank of a value is the number of values ordered before it. '
     'The logistic function, the safe exponential, the semilinear and expln functions and their derivatives agree with their mathematical definitions within the representable range. '
     'No helper changes its argument.',
     ['inputs'],
     'every argument in the documented domain',
     'The doctests show single examples of some helpers; the identities are over all arguments.',
     ['pybrain/utilities.py', 'pybrain/tools/functions.py'],
     [('utilities', 'pybrain/utilities.py'), ('functions', 'pybrain/tools/functions.py')])
prop('C16', 'Validation measures equal their definitions and use every sample once',
     'The classification performance of two equally long label lists is the fraction of positions at which they agree, the mean squared '
     'error is the (importance weighted) average of the squared differences over all entries; both refuse lists of different shape. A module is judged by its outputs for all inputs of '
     'the data set in order, reset before every sequence. Cross-validation trains and tests on disjoint parts, which together are the data set, every sample being tested exactly once, '
     'and averages the results of the folds.',
     ['inputs', 'configurations'],
     'every pair of output and target arrays, every number of folds and samples',
     'No test compares the measures to their definition for general inputs.',
     ['pybrain/tools/validation.py'],
     [('Validator, ModuleValidator, CrossValidator', 'pybrain/tools/validation.py')])
prop('C17', 'Ranking functions and Pareto sorting respect the order of the fitnesses',
     'Every deterministic fitness shaping function maps a list of at least two fitnesses to weights that never put a worse individual above a better one (for top-linear ranking, the top fraction '
     'holds more than one individual; top selection chooses the whole number of individuals that the top fraction holds), and the rank of an individual is the number '
     'of individuals ordered before it (equal ones in the order of their positions). Tournament selection credits exactly one individual per tournament, a single worst individual never and a best one at least once. '
     'One individual dominates another if it is smaller in every objective (with allowequality=False: smaller or equal in every objective). Non-dominated filtering returns exactly the members that no other '
     'member dominates (with allowequality=False, one representative of those with equal fitness), and non-dominated sorting puts every individual into exactly one front, with no member dominated by one of its own or a later front. '
     'The constrained variants do the same, where objectives decide between feasible ones, a feasible one comes before an infeasible one, and of infeasible ones the smaller violation (absolute sum of the constraint values) is first, with one representative of equal violations in a front. '
     'Selection by fitness (genetic algorithms, evolution strategies, coevolution) keeps the stated number of individuals, whose fitness is at least that of every discarded one; NSGA-II selection keeps '
     'the stated number of different individuals, none of them dominated by a discarded one, and of a front that does not fit those of the largest crowding distance (sum over the objectives of the '
     'distance between both neighbours relative to the range; boundary points first).',
     ['inputs'],
     'every population, fitness assignment, number of objectives, and tie',
     'The tests use tiny hand-picked populations.',
     ['pybrain/tools/rankingfunctions.py', 'pybrain/tools/nondominated.py', 'pybrain/optimization/populationbased/es.py', 'pybrain/optimization/populationbased/multiobjective/nsga2.py'],
     [('rankingfunctions', 'pybrain/tools/rankingfunctions.py'), ('nondominated', 'pybrain/tools/nondominated.py')])
prop('C18', 'Masked parameters stay zero where masked and survive unmasking',
     'After every operation the parameters of the wrapped container (which copies share) are the remembered values where the mask of the masked object operated on is on and zero where it is off, and the visible '
     'parameter vector is exactly the unmasked values in order, its length the number of bits that are on. '
     'Random masks and topology mutations never exceed the maximal complexity and never leave a mask empty. The probability of bits being on (or flipped) is '
     'obeyed: with probability one as many bits as allowed are on, with probability zero only the one that has to be. Setting '
     'parameters changes only unmasked values, mutation adds noise of the given deviation to all values and changes no mask, and copies have independent masks and values. '
     'A cheap copy of a module computes what the module computes with the values of that copy.',
     ['histories', 'inputs'],
     'every container size, mask, complexity bound, and sequence of mutations and assignments, for every random draw',
     'A doctest samples a few mutations; the invariant must survive every history and every draw.',
     ['pybrain/structure/evolvables/maskedparameters.py', 'pybrain/structure/evolvables/cheaplycopiable.py'],
     [('MaskedParameters', 'pybrain/structure/evolvables/maskedparameters.py')])
prop('C19', 'Two-player games enforce their rules',
     'In an undecided game, a move of a colour is accepted exactly when the rules allow it (a free point of the board; in the capture game with suicide disabled, not a suicidal one), and a '
     'refused move changes nothing. An accepted move is counted and changes exactly the cells the rules say: its own point, and in pente the pairs it captures, which are removed and counted '
     '(a deciding move only marks its own point). In the capture game a move that leaves an enemy group without liberties wins, and otherwise one that leaves its own group without liberties, or resigning, loses; '
     'in gomoku and pente the game is won exactly when five or more stones of one colour are lined up (or five pairs are captured), and drawn exactly when the board is full. '
     'Group and liberty bookkeeping of the capture game agrees with the stones on the board after every history of undecided moves. Two players of one game alternate.',
     ['histories', 'inputs'],
     'every legal sequence of moves on every board size',
     'Tests play a few random games without an independent oracle for the rules.',
     ['pybrain/rl/environments/twoplayergames/' + f for f in ('capturegame.py', 'gomoku.py', 'pente.py', 'twoplayergame.py')],
     [('CaptureGame.doMove', 'pybrain/rl/environments/twoplayergames/capturegame.py'), ('GomokuGame.doMove', 'pybrain/rl/environments/twoplayergames/gomoku.py')])
prop('C20', 'Back-propagation training moves along the summed gradient of its data',
     'One epoch of batch training visits every sequence of the data set exactly once, accumulates the error gradient of all its samples and applies one '
     'gradient step; online training applies one step per sequence. The reported error is the weighted average of half the squared output '
     'error over all samples, and importance weights scale error and gradient of their own output component only. Training modifies '
     'only the parameters of the module; the data set is left unchanged. Training until convergence trains at least one epoch and at most the given number, on the training part only, and ends with the parameters of '
     'the epoch (not the start) that gave the smallest error on the validation part.',
     ['inputs', 'histories', 'configurations'],
     'every data set, weighting, network, and order of presentation',
     'The tests check that an error decreases; a dropped or doubled sample still decreases it.',
     ['pybrain/supervised/trainers/backprop.py', 'pybrain/supervised/trainers/trainer.py'],
     [('BackpropTrainer.train, _calcDerivs', 'pybrain/supervised/trainers/backprop.py')])
if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p) + '\n')
    print(len(P))
