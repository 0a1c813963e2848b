#!/usr/bin/env python3
"""Single source of properties.jsonl (run: python3 tools_props.py)."""
import json, os
V = 'bayespy/inference/vmp/'
N = V + 'nodes/'
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(
            files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=None)))


prop('C01', 'The lower bound never decreases, whatever the update schedule',
     'Starting from any initialisation of any model built from the library\'s nodes, updating the nodes one at a time in any order and with any repetition never decreases the variational lower bound reported for the model (beyond rounding). '
     'This also holds when the schedule is driven through the inference engine, when some data are missing, and for a model whose data were changed before the schedule started.',
     ['schedules', 'configurations', 'histories'],
     'every sequence of single-node updates up to the stated depth, for every model of the zoo, every listed initialisation and mask, with the bound read after each step',
     'Existing tests update nodes in one fixed order on one or two hand-made models and compare a few numbers; none quantifies over schedules, and a wrong cached message or a stale moment only shows for some orders.',
     [V + 'vmp.py', N + 'stochastic.py', N + 'expfamily.py', N + 'node.py'],
     [('coordinate update from parents and children messages', N + 'expfamily.py: ExponentialFamily._update_distribution_and_lowerbound'),
      ('per-node bound terms', N + 'expfamily.py: ExponentialFamily.lower_bound_contribution'),
      ('sum of the terms', V + 'vmp.py: VB.compute_lowerbound')],
     [('u, phi, g, f', 'moments, natural parameters and normalisers of a factor', N + 'expfamily.py')],
     ['VB.compute_lowerbound()', 'VB.loglikelihood_lowerbound()', 'VB.L'])

prop('C02', 'The bound never exceeds the log evidence and exact posteriors are exact',
     'For every model and every state reached by updates, the reported lower bound is at most the true log probability of the observed data. '
     'When the model has one latent variable with conjugate children, one update makes that variable\'s distribution the exact posterior and the bound equal to the exact log evidence.',
     ['inputs', 'configurations', 'schedules'],
     'every conjugate prior/likelihood pair over a grid of parameters, observations, plate layouts and missing-data patterns, and every small discrete network (all observations), against exact enumeration or closed-form evidence',
     'Tests check individual message formulas at one or two points, or bounds that the same code produced; none compares the bound with an independently computed evidence over all observation patterns.',
     [N + 'expfamily.py', N + 'gaussian.py', N + 'gamma.py', N + 'beta.py', N + 'dirichlet.py', N + 'wishart.py', N + 'poisson.py', N + 'categorical.py'],
     [('bound terms', N + 'expfamily.py: lower_bound_contribution'),
      ('messages to parents', N + '*.py: compute_message_to_parent'),
      ('log-normalisers', N + '*.py: compute_cgf_from_parents / compute_moments_and_cgf')],
     (), ['VB.compute_lowerbound()', 'node.get_moments()'])

prop('C03', 'Densities, moments and normalisers of every distribution are the true ones',
     'For every distribution node and every valid parameter value, the log density reported for a value is the true log density of that distribution, it is what an observed node contributes to the lower bound, and it normalises to one. '
     'The expectations a node reports are those of the distribution whose parameters it holds, whether the node was initialised from its prior, from explicit parameters, from a value or by an update.',
     ['inputs', 'configurations'],
     'every distribution family over a grid of parameters (shape, rate, dimensionality 0-2, number of categories/trials), every support point for discrete families, a grid of points for continuous ones, and every way of initialising the node',
     'Tests pin moments and densities for a few parameter values per family, mostly in one dimension with scalar plates.',
     [N + x for x in ('gaussian.py', 'gamma.py', 'wishart.py', 'beta.py', 'dirichlet.py', 'bernoulli.py', 'binomial.py', 'categorical.py', 'multinomial.py', 'poisson.py', 'exponential.py', 'expfamily.py')],
     [('fixed moments and base measure', N + '*.py: compute_fixed_moments_and_f'),
      ('moments from natural parameters', N + '*.py: compute_moments_and_cgf'),
      ('logpdf', N + 'expfamily.py: ExponentialFamily.logpdf')],
     (), ['node.get_moments()', 'node.logpdf(x)', 'node.pdf(x)', 'node.lower_bound_contribution()'])

prop('C04', 'Every update is the exact optimum; gradients are those of the bound',
     'After a node is updated, its factor maximises the lower bound given the other factors: the bound computed at any other parameters of that factor is not higher. '
     'The gradient a node reports equals the derivative of the lower bound with respect to its parameters in every direction, its natural gradient vanishes exactly after an update, and a full-length natural gradient step equals an update.',
     ['configurations', 'inputs'],
     'every node of every zoo model, every state on a short update history, every coordinate direction of its parameters, compared with finite differences of the model\'s own bound',
     'Tests check Riemannian/Euclidean gradients for a handful of nodes in isolation at random points, not for every node as part of a model.',
     [N + 'expfamily.py', V + 'vmp.py', N + 'stochastic.py'],
     [('Riemannian gradient', N + 'expfamily.py: get_riemannian_gradient'),
      ('Euclidean gradient', N + '*.py: compute_gradient'),
      ('gradient step', V + 'vmp.py: VB.gradient_step')],
     (), ['VB.get_gradients()', 'node.get_gradient()', 'VB.gradient_step()', 'VB.compute_lowerbound()'])

prop('C05', 'Plates mean replication: broadcasting equals the explicit replicated model',
     'A model written with plates, in which parents and children may lack a plate, have it with length one or with full length, gives the same factors and lower bound as the model in which every variable is written out element by element. '
     'The inferred plates of a node are the broadcast of its parents\' plates, and explicitly given plates that are consistent with them never change the result.',
     ['configurations', 'inputs'],
     'every assignment of plate shapes (absent, one, full) for up to three plate axes to each of the variables of each two- and three-layer model family, with all results compared with the scalar-by-scalar model',
     'Tests check particular plate combinations for particular nodes; the product of per-parent plate layouts is never covered, and a wrong sum or a missing multiplier over a broadcast axis shows only for some of them.',
     [N + 'node.py', N + 'expfamily.py', 'bayespy/utils/misc.py'],
     [('summing messages over plates not in the parent', N + 'node.py: Node._message_to_parent / _total_plates / broadcasting_multiplier'),
      ('plates from parents', N + 'node.py: Node.__get_parent_plates / _plates_from_parents')],
     (), ['node.plates', 'node.get_moments()', 'VB.compute_lowerbound()'])

prop('C06', 'Missing data: a masked element is exactly an absent observation',
     'Whatever the missing-data mask and whatever values stand at masked positions, inference gives the same factors and lower bound as the model from which the missing observations were left out. '
     'Masked values influence neither other variables nor the lower bound, and observed elements never change.',
     ['inputs', 'configurations'],
     'every boolean mask (all 2^n) for every small model family, including masks that broadcast, several fillers for masked values, and one or two plate axes',
     'Tests use one or two masks per node; whether a mask leaks depends on how it propagates through deterministic nodes and broadcast plates, which differs per mask.',
     [N + 'node.py', N + 'stochastic.py', N + 'expfamily.py', N + 'mixture.py', N + 'dot.py'],
     [('mask propagation to parents', N + 'node.py: Node._update_mask / _compute_weights_to_parent'),
      ('masked messages', N + 'node.py: Node._message_to_parent'),
      ('masked moments', N + 'stochastic.py: _set_moments / _update_mask')],
     (), ['node.observe(x, mask=...)', 'node.get_moments()', 'VB.compute_lowerbound()'])

prop('C07', 'Observation histories: only the final observations and factors matter',
     'For any sequence of observing, re-observing with other data or another mask, un-observing, initialising and updating nodes, the result of subsequent inference depends only on the final observations and the current factors of the unobserved variables, as if the model had been built and observed that way at once. '
     'An update or an initialisation never overwrites the value of an observed element, and a variable that is no longer observed takes part in inference as a latent variable again.',
     ['histories'],
     'every sequence of observe(data1|data2, mask none|partial|full), unobserve, initialise and update operations on the nodes of small models up to the stated depth',
     'Tests observe once, right after construction; re-observation, un-observation and mask changes leave stale masks, moments or cached messages only after specific sequences.',
     [N + 'stochastic.py', N + 'expfamily.py', N + 'node.py'],
     [('observe/unobserve', N + 'stochastic.py: Stochastic.observe / unobserve'),
      ('masked overwrite', N + 'stochastic.py: Distribution/_set_moments, expfamily.py: _set_moments_and_cgf'),
      ('mask recomputation', N + 'node.py: Node._update_mask')],
     [('observed', 'mask of observed elements', N + 'stochastic.py')],
     ['node.observe()', 'node.unobserve()', 'node.get_moments()', 'VB.compute_lowerbound()'])

prop('C08', 'Saving and loading at any point continues inference exactly',
     'Saving the state at any point of any history and loading it into a freshly built model of the same structure (or into the same model later) restores every saved factor, the bound history and the iteration count, so that continuing inference produces exactly the numbers the uninterrupted run produces. '
     'Restoring a subset of nodes touches only those nodes, automatic saves contain the state at the iteration they were made, and saved files keep the user\'s data.',
     ['histories', 'crash_points', 'configurations'],
     'every save point of every run of the zoo models (explicit save, automatic save at every interval), every subset of loaded nodes, fresh or already-used target model',
     'The tests save and load one small model once; equality of the continuation over all save points, node families and partial loads is not covered.',
     [V + 'vmp.py', N + 'stochastic.py', N + 'expfamily.py', 'bayespy/utils/misc.py'],
     [('VB.save / VB.load', V + 'vmp.py: VB.save, VB.load, VB.set_autosave'),
      ('node state to HDF5', N + 'stochastic.py: Stochastic.save/load, expfamily.py: save/load')],
     (), ['VB.save()', 'VB.load()', 'VB.L', 'VB.iter', 'node.get_moments()'])

prop('C09', 'The inference loop keeps exact books and stops exactly when it should',
     'Every run of the inference engine performs at most the requested number of iterations, updates the requested nodes in the requested order in every iteration, and records for each iteration exactly one lower bound value equal to the model\'s bound at that time, with iteration counts and histories continuing across successive runs. '
     'It stops early exactly when the relative change of the bound between two successive iterations falls below the requested tolerance, calls the user\'s callback once per iteration, and saves automatically at the configured interval only; printing and logging options change none of this.',
     ['schedules', 'histories', 'configurations'],
     'every combination of repeat, tolerance, node subset/order, callback, annealing and autosave options over sequences of up to three successive runs, and every short sequence of bound trajectories supplied by a scripted environment',
     'Tests run the loop once with default options; bookkeeping across several runs, resizing, convergence on the first or last iteration and decreasing bounds are not covered.',
     [V + 'vmp.py'],
     [('main loop', V + 'vmp.py: VB.update'), ('history arrays', V + 'vmp.py: VB.append_iterations / _end_iteration_step'),
      ('convergence', V + 'vmp.py: VB._end_iteration_step')],
     [('iter, L, cputime, l', 'iteration counter and histories', V + 'vmp.py')],
     ['VB.update()', 'VB.iter', 'VB.L', 'VB.l', 'VB.cputime', 'stdout'])

prop('C10', 'Indexing, taking, concatenating and tiling nodes act like array operations',
     'Applying an index expression, a take, a concatenation or another plate-manipulating operation to a node yields a node with exactly the plates and moments that the same operation on the corresponding array gives. '
     'Inference through such a node equals inference in the model in which the selected elements are connected directly, including elements selected several times or not at all, and with missing data.',
     ['inputs', 'configurations'],
     'every index tuple up to the stated size over integers, slices with any start/stop/step sign, new axes, ellipsis and (for take) index arrays, every axis, and every list of blocks for concatenation, for one to three plate axes incl. length-one axes, with all masks',
     'Tests try a list of hand-picked slices with one parent type and no masks or broadcast messages.',
     [N + 'node.py', N + 'take.py', N + 'concatenate.py', N + 'deterministic.py', N + 'gate.py'],
     [('Slice node', N + 'node.py: Slice'), ('Take', N + 'take.py'), ('Concatenate', N + 'concatenate.py'), ('tile', N + 'deterministic.py: tile')],
     (), ['node[...]', 'Take', 'Concatenate', 'node.plates', 'node.get_moments()'])

prop('C11', 'Linear-algebra nodes propagate exact Gaussian moments and messages',
     'A sum-product over named dimensions, a dot product, a sum or a concatenation of Gaussian (and Gaussian-gamma) variables and constants has exactly the mean and second moment implied by independence of its inputs, for every combination of keys, dimensionalities, plates and constants. '
     'Inference on an input given the others equals Bayesian linear regression on the equivalent explicit design matrix.',
     ['inputs', 'configurations'],
     'every key pattern up to three inputs and three keys (contracted, kept, shared), every plate layout, constants in any position, missing data, compared with brute-force index sums and dense regression',
     'Tests cover selected key patterns with fixed sizes; the einsum-like index bookkeeping has a case per key/plate pattern.',
     [N + 'dot.py', N + 'add.py', N + 'concat_gaussian.py', N + 'gaussian.py'],
     [('SumMultiply', N + 'dot.py: SumMultiply'), ('Add', N + 'add.py'), ('ConcatGaussian', N + 'concat_gaussian.py')],
     (), ['SumMultiply', 'Dot', 'Add', 'ConcatGaussian', 'node.get_moments()'])

prop('C12', 'Mixtures and gates select: a known assignment equals direct connection',
     'When the selecting variable is known, a mixture or gated node behaves, in every factor, message and bound term, like the model in which each element is connected directly to the component it selects. '
     'When it is uncertain, every log-density and message is the expectation of those over the selecting distribution, wherever the component axis stands and for every missing-data pattern.',
     ['inputs', 'configurations'],
     'every assignment of components to elements (all K^N), every admissible component axis, every mixed distribution family, nested and multi-way mixtures, all masks, and probability vectors for the uncertain case',
     'Tests check shapes and a few messages of Gaussian mixtures; no test enumerates assignments or component axes for the other families.',
     [N + 'mixture.py', N + 'gate.py', N + 'categorical.py', N + 'bernoulli.py'],
     [('Mixture', N + 'mixture.py'), ('Gate/Choose', N + 'gate.py'), ('MultiMixture', N + 'mixture.py')],
     (), ['Mixture', 'MultiMixture', 'Gate', 'Choose', 'VB.compute_lowerbound()'])

prop('C13', 'Discrete Markov chains equal exact path enumeration',
     'For a discrete Markov chain with any number of states and steps, any (possibly time-varying, degenerate or plate-dependent) initial and transition probabilities and any evidence attached to its steps, the single-step and pairwise state probabilities and the bound are exactly those obtained by summing over all paths. '
     'The same holds for a chain that is mixed over or connected to learned initial and transition distributions.',
     ['inputs', 'configurations'],
     'every chain with up to K states and N steps, probabilities on a grid incl. zeros, plates, every emission pattern and missing-data mask, compared with enumeration of all K^N paths',
     'Tests compare one or two chains with hand computations.',
     [N + 'categorical_markov_chain.py', 'bayespy/utils/random.py'],
     [('forward-backward', 'bayespy/utils/random.py: alpha_beta_recursion'),
      ('chain distribution', N + 'categorical_markov_chain.py: CategoricalMarkovChainDistribution')],
     (), ['CategoricalMarkovChain', 'node.get_moments()', 'VB.compute_lowerbound()'])

prop('C14', 'Gaussian Markov chains equal the dense joint Gaussian',
     'For a linear-Gaussian Markov chain with any state dimension, length, plates, inputs and any (constant, per-step, varying or switching) dynamics, the reported means, covariances and lag-one covariances and the bound equal those of the equivalent dense joint Gaussian. '
     'Messages to the dynamics, noise, initial state, inputs, weights and switches are those of the dense model, with missing data or not.',
     ['inputs', 'configurations'],
     'every chain with state dimension 1-2(3), length 2-4(5), dynamics broadcast or per-step, with/without inputs, every observation mask over time, varying and switching dynamics with all switch sequences, vs dense linear algebra',
     'Tests compare smoothing and messages in a few configurations; per-step/broadcast/plate combinations are only sampled.',
     [N + 'gaussian_markov_chain.py', 'bayespy/utils/linalg.py'],
     [('block-banded smoother', 'bayespy/utils/linalg.py: block_banded_solve'),
      ('chain distributions', N + 'gaussian_markov_chain.py')],
     (), ['GaussianMarkovChain', 'VaryingGaussianMarkovChain', 'SwitchingGaussianMarkovChain', 'node.get_moments()'])

prop('C15', 'Parameter-expansion rotations keep the model consistent and raise the bound',
     'Applying a rotation or translation speed-up to any supported set of nodes leaves every node in a valid, mutually consistent state, and the change of the lower bound predicted by the transformation equals the actual change. '
     'An optimised rotation never decreases the lower bound, and the predicted gradient is the derivative of the predicted bound.',
     ['inputs', 'configurations', 'histories'],
     'every supported rotation class (plain, ARD, with plates, subsets, multiple, Markov chains, varying/switching dynamics), every elementary rotation matrix of a fixed family, after every short history',
     'Tests check bound/gradient at one random matrix per class; consistency after the rotation and interplay with later updates is not covered.',
     [V + 'transformations.py', N + 'gaussian.py', N + 'gaussian_markov_chain.py'],
     [('rotations', V + 'transformations.py'), ('node.rotate', N + 'gaussian.py: GaussianARD.rotate, rotate_plates')],
     (), ['RotationOptimizer.rotate()', 'VB.compute_lowerbound()'])

prop('C16', 'Gradient-based and collapsed optimisation never lower the bound',
     'Every optimisation step offered besides plain updating (conjugate-gradient optimisation with or without natural gradients and collapsed nodes, pattern search, annealed updates after returning to the normal temperature) ends in a state whose lower bound is not lower than before, keeps the bookkeeping of iterations and bounds, and leaves the nodes in a state that could have been set directly. '
     'If no improving step exists the previous state is restored.',
     ['schedules', 'histories', 'configurations'],
     'every sequence of update / optimise / pattern-search calls up to the stated depth on small models, with every subset of collapsed nodes and both gradient types',
     'Only smoke-tested: two scenarios in the whole suite.',
     [V + 'vmp.py', 'bayespy/utils/optimize.py'],
     [('VB.optimize', V + 'vmp.py: VB.optimize'), ('VB.pattern_search', V + 'vmp.py: VB.pattern_search'), ('annealing', V + 'vmp.py: VB.set_annealing')],
     (), ['VB.optimize()', 'VB.pattern_search()', 'VB.set_annealing()', 'VB.compute_lowerbound()'])

prop('C17', 'Sampling draws from the node\'s distribution and changes nothing',
     'Drawing random samples from a node returns values of the right shape inside the support, distributed according to the node\'s current distribution, independently per plate element. '
     'Sampling, like every other read-only query (moments, densities, bounds, printing, plotting data), never changes the state of any node: the bound, moments and later updates are the same as if it had not been done.',
     ['inputs', 'histories', 'configurations'],
     'every distribution node, prior or posterior or observed, every query sequence up to the stated depth; for discrete samplers every answer of the random source on a fine grid, so that the exact probability of each outcome is computed',
     'Random sampling is only tested for shapes or not at all, and never for absence of side effects.',
     [N + 'expfamily.py', N + 'categorical.py', N + 'categorical_markov_chain.py', N + 'gaussian.py', N + 'gamma.py', 'bayespy/utils/random.py'],
     [('random()', N + '*.py: Distribution.random')],
     (), ['node.random()', 'node.get_moments()', 'VB.compute_lowerbound()', 'node.logpdf()'])

prop('C18', 'Stochastic inference: a plate multiplier equals replicating the data',
     'Declaring that a mini-batch stands for M copies of itself gives the same global updates, natural gradients and lower bound as a model in which the mini-batch is really replicated M times. '
     'This holds through every kind of node between the mini-batch and the global variables.',
     ['configurations', 'inputs'],
     'every multiplier layout (axes multiplied or not) for every zoo model with a data plate, multipliers 1..4, with missing data, compared with the physically tiled data set',
     'Two tests cover plates_multiplier, for a single model family.',
     [N + 'node.py', N + 'stochastic.py', N + 'expfamily.py', N + 'categorical_markov_chain.py', N + 'mixture.py'],
     [('plates_multiplier', N + 'node.py: plates_multiplier / broadcasting_multiplier'),
      ('scaled messages', N + 'node.py: _message_to_parent')],
     (), ['plates_multiplier=', 'VB.gradient_step()', 'VB.compute_lowerbound()'])

prop('C19', 'Invalid models and data are rejected, without partial effects',
     'Constructing a node with inconsistent plates or dimensions, invalid parameter domains, or with a random variable used as two parents of one node where independence is required, and observing (or initialising from) values or masks of the wrong shape, type or outside the support, and naming nodes the engine does not have, raises an error. '
     'A rejected call leaves every existing node, its mask, factors and children exactly as before, so inference continues as if it had not been made.',
     ['inputs', 'histories'],
     'every mutation (per argument: wrong shape, axis, sign, out of range value, dependent parent, wrong type) of every valid constructor and observe call of a catalogue of nodes, followed by comparison of all observable state and continued inference',
     'Tests assert that some errors are raised, for some nodes, and never look at the state afterwards.',
     [N + 'node.py', N + 'stochastic.py', N + 'expfamily.py', N + '*.py'],
     [('parent and plate validation', N + 'node.py: Node.__init__'), ('support validation', N + '*.py: compute_fixed_moments*')],
     (), ['constructors', 'node.observe()', 'VB.update()'])

prop('C20', 'Results do not depend on declaration order; deleted nodes leave no trace',
     'The lower bound and every factor depend only on the model, its data and the schedule: not on the order in which nodes are declared, created as children, listed to the engine, or on identifiers such as names. '
     'Deleting a node (with its dependants) leaves the rest of the model exactly as if it had never been created, and building additional models on shared constants or nodes that take no data never alters existing results.',
     ['histories', 'configurations'],
     'every permutation of creation and listing order for the models of the zoo, and every create/observe/delete sequence of extra children up to the stated depth',
     'Tests build each model in one order, and deletion is tested for one leaf.',
     [N + 'node.py', V + 'vmp.py'],
     [('child registration', N + 'node.py: _add_child/_remove_child/delete'), ('message summation', N + 'node.py: _message_from_children')],
     [('children', 'registered children', N + 'node.py')],
     ['VB(...)', 'node.delete()', 'VB.compute_lowerbound()'])

prop('C21', 'Array and linear-algebra utilities agree with dense references',
     'The numerical building blocks (broadcast sums of products, batched matrix products and solves, Cholesky helpers, block-banded solvers, log-sum-exp and normalisation, covariance functions, masking and shape helpers) return what their plain dense definition gives for every shape, axis and broadcasting combination, and never modify their arguments.',
     ['inputs'],
     'every combination of array ranks and axis lengths (absent, one, n) up to the stated size, every axis/ndim argument, compared with naive loops',
     'Tests check chosen shapes per function.',
     ['bayespy/utils/misc.py', 'bayespy/utils/linalg.py', 'bayespy/utils/random.py'],
     [('helpers', 'bayespy/utils/misc.py, bayespy/utils/linalg.py')],
     (), ['bayespy.utils.misc', 'bayespy.utils.linalg'])

prop('C22', 'Automatic conversions between variable types preserve meaning',
     'Wherever a variable of one type is accepted in place of another (a constant array, a Gaussian used as a scalar or joined with a precision, a gamma used as a diagonal precision matrix, a chain used as a sequence, a two-class category used as a binary, and compositions of these), the moments seen by the receiver are the expectations of the same quantity, and inference equals that in the model written with the required type directly. '
     'If a chain of conversions exists it is found, and otherwise the construction is rejected.',
     ['configurations', 'inputs', 'programs'],
     'every ordered pair of node types and every receiver type, every small graph of conversions, with plates, compared with the moments of the directly constructed variable',
     'Tests convert a few types; the converter search is exercised on three hand-made graphs.',
     [N + 'node.py', N + 'converters.py', N + 'gaussian.py', N + 'wishart.py', N + 'gamma.py', N + 'categorical.py'],
     [('converter search', N + 'node.py: Moments.get_converter / add_converter'), ('conversion nodes', N + 'gaussian.py, gamma.py, wishart.py')],
     (), ['node parents', 'node.get_moments()'])

prop('C23', 'Point-estimated parameters are optimised on the true bound',
     'A parameter that is estimated by a point value (a gamma shape, a Dirichlet concentration, maximum-likelihood nodes and their functions) contributes to the bound exactly the log prior density it is declared with, and messages it sends are those of the value it holds. '
     'Its update or gradient optimises the same lower bound the model reports, so that the bound never decreases and the optimum is a stationary point.',
     ['inputs', 'configurations', 'schedules'],
     'every declared prior and data grid, every schedule up to the stated depth, every function composition of the catalogue, against one-dimensional search over the bound',
     'Two tests cover a gamma shape fit and a maximum likelihood function.',
     [N + 'gamma.py', N + 'dirichlet.py', N + 'ml.py', N + 'point_estimate.py', N + 'deterministic.py'],
     [('GammaShape, Concentration', N + 'gamma.py, dirichlet.py'), ('MaximumLikelihood, Function', N + 'ml.py')],
     (), ['GammaShape', 'DirichletConcentration', 'MaximumLikelihood', 'VB.compute_lowerbound()'])

prop('C24', "Plots show the node's current distribution",
     'Every plot of a node (density curve, contour plot, function plot with error band, Hinton diagram, discrete time series, mixture and covariance ellipses, marginal matrix), drawn by a plotting function or through the plotter of the node or the engine, encodes the distribution the node holds at the time of plotting: each line, band, square, rectangle, ellipse or grid value is the mean, uncertainty, probability or density of exactly the plate element at its place, '
     'broadcasted plates are shown in full, and nothing is left out or shown twice. Plotting goes to the axes or figure that was given and changes no node.',
     ['configurations', 'inputs', 'histories'],
     'every plotting function, every supported node kind, all plate layouts with up to three axes, every time, row and column axis argument, every state and short engine history; the drawn artists are read back',
     'The tests of the repository draw nothing; documentation examples are only checked not to fail.',
     ['bayespy/plot.py', N + 'gaussian.py', 'bayespy/inference/vmp/vmp.py', N + 'node.py'],
     [('plotting functions', 'bayespy/plot.py: pdf, contour, plot, hinton, gaussian_mixture_2d, timeseries_categorical_mc'), ('plotters', 'bayespy/plot.py: Plotter; node.plot, VB.plot, VB.update(plot=)')],
     (), ['bayespy.plot', 'node.plot()', 'VB.plot()'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
