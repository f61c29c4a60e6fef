"""Writes properties.jsonl (kept as a script because JSON lines are unreadable)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': mech}})


prop('P01', 'Interconnection stays attached to its components through every edit',
     'After any history of adding storages, dissipations and ports, setting blocks of the structure matrix M, its '
     'conservative part J or its resistive part R, declaring connectors and moving components, the coefficient between two '
     'components is the one last specified for that pair, every component keeps its own constitutive law, and the '
     'dimensions, labels, block accessors and lists of variables all describe the same ordering. '
     'Setting one block changes no coefficient outside that block and its mirror, and M = J - R always holds with J '
     'skew-symmetric and R symmetric.',
     ['histories of edits', 'orders of components', 'block values'],
     'every history of edit operations on a model, with any number of components of each kind and any block values',
     'tests call each mutator once, on one model with a fixed order; the property is about all histories and permutations',
     ['pyphs/core/core.py', 'pyphs/core/structure/moves.py', 'pyphs/core/structure/indices.py',
      'pyphs/core/structure/dimensions.py', 'pyphs/core/structure/connectors.py'],
     ['block getters and setters of M, J and R', 'moving a component moves its row, column, symbol and law together'])
prop('P02', 'Connecting ports imposes the gyrating law and is the exact elimination',
     'When connections are resolved, the two ports of each connection of coefficient a obey u1 = -a y2 and u2 = a y1, and the '
     'resulting structure maps the remaining efforts to the remaining flows exactly as the original structure under these laws. '
     'A conservative structure stays conservative, the connected ports disappear, the result does not depend on the order of '
     'ports or connectors, and connections that have no unique solution are refused rather than producing a structure.',
     ['structures', 'sets of connections', 'orders of connectors'],
     'every structure matrix, every set of disjoint port pairs, every coefficient and every prior reordering',
     'tests only connect two ports of one example; singular or badly ordered connections never occur in them',
     ['pyphs/core/core.py', 'pyphs/core/structure/connectors.py', 'pyphs/core/maths/_matrices.py'],
     ['add_connector and connect', 'elimination of connected ports by matrix inversion'])
prop('P03', 'Adding two models juxtaposes them without coupling or loss',
     'The sum of two models with distinct symbols contains all storages, dissipations, ports, connectors, parameters, '
     'observers and substitutions of both, first those of the left operand then those of the right. Its energy and dissipation '
     'laws are those of the parts, each pair of components of one part keeps its coefficient, components of different parts '
     'are not coupled, and neither operand is changed.',
     ['pairs of models', 'histories before and after the sum'],
     'all pairs of models with disjoint symbols reached by any history, including models with pending connections',
     'tests add two fixed models and do not look at the cross blocks, the pending connectors or the operands afterwards',
     ['pyphs/core/core.py'], ['__add__ of cores: block-diagonal stacking per pair of variable kinds'])
prop('P04', 'Reordering and resistive reduction preserve the dynamics',
     'Separating linear from nonlinear components, or separable from coupled storages, only permutes components: laws and '
     'coefficients are unchanged, components classified as linear are exactly those whose law is linear, and the reported '
     'linear coefficients reproduce these laws. Eliminating linear dissipations yields a model whose states, remaining '
     'dissipations and outputs evolve exactly as those of the original model, and never eliminates a component the user '
     'asked to keep or whose law is not linear.',
     ['models', 'mixtures of linear and nonlinear laws', 'sets of dissipations to keep'],
     'every model with polynomial laws, any mixture of linear, affine, coupled and nonlinear components in any order',
     'tests run the reduction on a few examples and check only that it does not fail',
     ['pyphs/core/structure/splits.py', 'pyphs/core/structure/R.py', 'pyphs/core/structure/moves.py'],
     ['linear_nonlinear, monovar_multivar', 'reduce_z: Schur complement of the linear dissipations'])
prop('P05', 'Substituting, simplifying or inverting parameters never changes a value',
     'For any assignment of the free symbols, every law, structure coefficient, connection coefficient and observer of a model '
     'evaluates to the same number before and after applying substitutions from its dictionary (all of them or only the '
     'symbolic ones), simplifying, or replacing inverses of parameters, taking the dictionary into account. '
     'A substitution given by the caller replaces exactly the given symbols by the given values everywhere, and the '
     "caller's dictionary is not modified.",
     ['expressions', 'substitution dictionaries', 'chains of dependent parameters', 'histories'],
     'all histories of substitutions on models whose parameters depend on one another through chains of any length',
     'tests apply one flat substitution; chained, shared or pending symbols need histories of several steps',
     ['pyphs/core/tools/_substitutions.py', 'pyphs/core/tools/_subsinverse.py', 'pyphs/core/tools/_simplify.py',
      'pyphs/core/core.py'],
     ['substitute_core, subsinverse_core, simplify_core', 'add_parameters'])
prop('P06', 'Copies and reloaded models are faithful and independent',
     'A copy of a model, and a model loaded from a file written by saving it, show the same variables, laws, structure, '
     'connections, parameters, substitutions, observers and settings as the original at that moment. '
     'Afterwards no edit of one of them, including resolving its connections, is visible in the other.',
     ['models', 'histories interleaving edits of the original and of its copies'],
     'every model reached by a history, and every interleaving of later edits of original, copy and reloaded model',
     'aliasing shows only when a copy is edited after the fact and the other object is looked at again',
     ['pyphs/core/core.py'], ['__copy__, save and load over the list of copied attributes'])
prop('P07', 'Netlists survive editing, writing and reading unchanged',
     'After any history of adding, deleting, replacing and combining components, the netlist lists exactly the current '
     'components in order with their dictionary, kind, label, nodes and arguments, and writing it to a file and reading it back '
     'gives an equal netlist. Combining netlists leaves the operands unchanged, reading a file replaces the previous content, '
     'and the network built from a netlist has exactly one element per two-terminal line, between the nodes of that line.',
     ['netlists', 'edit histories', 'argument shapes'],
     'all histories of edits over every kind of component line the format can express',
     'tests write and read one or two example netlists and do not edit them',
     ['pyphs/graphs/netlists.py', 'pyphs/graphs/graph.py'],
     ['Netlist line format, parser and accessors'])
prop('P08', "A network's model obeys Kirchhoff's laws and every component's law",
     'Whenever a model is produced for a network of storages, resistors, sources, gyrators and transformers with a unique '
     'solution, the relation between its source inputs and outputs is the one implied by conservation at every node, '
     'uniqueness of potentials around every loop and the constitutive law of every component. '
     'In particular the structure without dissipation is conservative, and every component of the network is represented.',
     ['network topologies', 'component placements', 'component values'],
     'every connected network of these components over any number of nodes, with parallel and series branches, any '
     'orientation and any values',
     'tests build a dozen fixed circuits and check that no exception is raised',
     ['pyphs/graphs/graph.py', 'pyphs/graphs/analysis.py', 'pyphs/graphs/build.py', 'pyphs/graphs/tools.py',
      'pyphs/graphs/subgraph.py'],
     ['realizability analysis, incidence matrix partition, serial and parallel merging'])
prop('P09', 'Network analysis always terminates and accepts propagation-realizable networks',
     'Building a model from any network ends in finite time with either a model or an error, never with a model that '
     'contradicts the network. Every network whose edge controls are all determined by propagating potentials from the '
     'reference node and the imposed variables is accepted.',
     ['network topologies', 'orders of components'],
     'every network over the supported components, realizable or not',
     'non-termination and wrong acceptance occur on shapes nobody wrote a test for',
     ['pyphs/graphs/analysis.py', 'pyphs/graphs/graph.py', 'pyphs/graphs/tools.py'],
     ['GraphAnalysis.perform: iteration, set_edge_fc/ec, unlock'])
prop('P10', 'The model depends only on the network, not on how it is written',
     'Reordering the lines of a netlist, renaming its nodes, reversing the orientation of a storage or resistor, '
     'building the model a second time from the same object, assembling the network from parts and merging compatible '
     'components give, whenever they produce a model, models with the same input-output behaviour, up to the order of '
     'components. '
     'Building the model never alters the netlist it was built from.',
     ['networks', 'permutations', 'renamings', 'repetitions'],
     'every network with a model, and every permutation, renaming, reorientation or repetition',
     'it is a relation between several executions on related inputs, which no single test case states',
     ['pyphs/graphs/graph.py', 'pyphs/graphs/analysis.py', 'pyphs/graphs/build.py', 'pyphs/graphs/netlists.py'],
     ['Graph construction from Netlist, to_core'])
prop('P11', 'Every library component implements its documented law and is passive',
     'For all parameter values and all operating points, the storage, dissipation and connection laws of each component of '
     'the dictionary are the documented ones for the physical quantity of the given nodes and parameters, with gradients and '
     'signs consistent with the orientation of its edges. Storages have non-negative energy, and resistive components never '
     'deliver power.',
     ['components', 'parameter values', 'operating points'],
     'every component of the dictionaries, all admissible parameter values and operating points',
     'tests only instantiate components through a few examples, at nominal values',
     ['pyphs/dictionary/'], ['component classes of the dictionaries'])
prop('P12', 'Every simulated step satisfies the discrete-time model equations',
     'For each recorded time step of a simulation, the recorded state increment, dissipation variable and output are the '
     'structure matrix applied to the discrete gradient of the energy, the dissipation law and the input of that step, and the '
     'next state is the state plus the increment. This holds for every gradient scheme, theta value, sample rate and '
     'implicit/explicit splitting setting, up to the solver tolerance.',
     ['models', 'schemes', 'sample rates', 'input signals', 'time steps'],
     'all models, numerical settings, input sequences and steps on which the solver converges',
     'tests look at the end of a few simulations of fixed examples; the equations must hold at each step of all of them',
     ['pyphs/numerics/numerical_method/_method.py', 'pyphs/numerics/numerical_method/_discrete_calculus.py',
      'pyphs/numerics/numerical_core/_numerical_core.py', 'pyphs/numerics/simulations/simulation.py'],
     ['discrete gradient and structure evaluation', 'Newton iteration on the implicit part', 'state update'])
prop('P13', 'Simulations conserve energy exactly: stored + dissipated + delivered = 0',
     'With the discrete gradient, at every time step the variation of the stored energy between successive states equals minus '
     'the dissipated power minus the power at the ports, times the sampling period, for every model and input. '
     'With null input a passive model never gains energy, and the power quantities reported by the data reader satisfy the '
     'same balance.',
     ['models', 'initial states', 'input signals', 'time steps'],
     'every model, initial state, input and time step, with any amplitude and any sample rate on which the solver converges',
     'it is an exact identity over all trajectories; tests never compare energies',
     ['pyphs/numerics/numerical_method/_discrete_calculus.py', 'pyphs/numerics/numerical_method/_method.py',
      'pyphs/numerics/simulations/h5data/h5data.py'],
     ['discrete gradient', 'power balance in recorded data'])
prop('P14', 'Numerical functions evaluate exactly the symbolic expressions',
     'For every symbolic function of a model or of its numerical method, the generated numerical function returns, at every '
     'point, the value of the expression with the parameter values of the dictionary, whatever the order of its arguments, for '
     'scalars, vectors and matrices alike, and for single points as well as for series of points.',
     ['expressions', 'argument lists', 'evaluation points'],
     'all model functions and all evaluation points',
     'tests evaluate a few functions at zero and do not compare the values',
     ['pyphs/numerics/tools/_evaluation.py', 'pyphs/numerics/tools/_lambdify.py', 'pyphs/numerics/tools/_operation.py',
      'pyphs/numerics/tools/_operators.py', 'pyphs/numerics/numerical_core/_numerical_core.py'],
     ['lambdify, Operation evaluation, NumericalCore accessors'])
prop('P15', 'A simulation is determined by its own settings, inputs and initial state',
     'A simulation processes exactly the given input, parameter and initial-state values, in order, and records one entry per '
     'time step starting at its own initial state; the same settings give the same records whatever other simulations were '
     'created, configured or run before or in between. Re-initialising or re-running behaves as documented and never mixes '
     'data, settings or states of different runs; the '
     'objects the caller hands over are left as they were.',
     ['histories of simulations', 'input forms', 'settings'],
     'every interleaving of creating, initialising, configuring and running several simulations, for every form of input',
     'interference between simulations only shows in histories with several of them',
     ['pyphs/numerics/simulations/simulation.py', 'pyphs/numerics/simulations/h5data/h5data.py', 'pyphs/config.py'],
     ['Simulation.init and process', 'H5Data.init_data and h5dump'])
prop('P16', 'Recorded data are read back exactly, for every window and decimation',
     'Reading a recorded variable over any time window, decimation and component selection returns exactly the recorded values '
     'at the corresponding time steps, aligned with the reported times, and derived quantities are the defining combinations '
     'of the recorded ones at the same steps.',
     ['windows', 'decimations', 'selections', 'variables'],
     'all windows, decimations and selections of all variables',
     'tests read whole signals for plotting and never compare positions',
     ['pyphs/numerics/simulations/h5data/h5data.py', 'pyphs/numerics/simulations/h5data/tools.py',
      'pyphs/numerics/simulations/h5data/asciidata.py'],
     ['H5Data accessors with tslice and vslice'])
prop('P17', 'The generated C++ code computes what the Python method computes',
     'For every model and numerical setting, the generated C++ simulation, compiled and run on the same inputs, parameters and '
     'initial state, produces the same states, dissipation variables and outputs as the Python simulation, up to rounding.',
     ['models', 'settings', 'inputs'],
     'all models and settings the generator supports',
     'tests generate the code and never compile or run it',
     ['pyphs/numerics/cpp/', 'pyphs/numerics/simulations/simulation.py'],
     ['code generation of arguments, functions, operations and the execution order'])
prop('P18', 'Signal generators and wave files reproduce the requested signal exactly',
     'A generated signal has exactly the requested number of samples, starts and ends at the requested instants, repeats, '
     'fades and attenuates as requested, and each sample is the value of the requested waveform at its instant. '
     'Writing a signal to a wave file and reading it back gives the same sample rate, length and samples within quantisation.',
     ['signal parameters', 'sample rates', 'waveforms'],
     'every waveform, duration, frequency, amplitude, repetition and sample rate',
     'tests generate one signal of each kind and do not compare samples',
     ['pyphs/misc/signals/'], ['signalgenerator, wavwrite, wavread'])
prop('P19', 'The symbolic calculus of a model is exact',
     'For every model, the gradient and the hessian of the energy and the jacobian of the dissipation law are the derivatives '
     'with respect to the variables in their order, the efforts, outputs and dissipated power are the defining combinations of '
     'the laws and of the structure, and the free symbols of an expression are those its value depends on. The derivatives, '
     'inverses, products and sums of the library have the shape of their operands and the exact value for every argument, leave '
     'the operands unchanged, and refuse operands of incompatible shapes and matrices without inverse.',
     ['models', 'expressions', 'matrices'],
     'every differentiable expression, every matrix and every model',
     'tests differentiate a handful of quadratic energies',
     ['pyphs/core/maths/', 'pyphs/core/core.py', 'pyphs/core/structure/output.py', 'pyphs/core/tools/_free_symbols.py'],
     ['gradient, jacobian, hessian, inverse, matvecprod, sumvecs, output_function, Core.pd'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
