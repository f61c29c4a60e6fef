T = 'TLA+ specification, TLC model checking, TLC-generated behaviours replayed in the code, traces validated by TLC'
L = 'model_checking'
NOTES = {
 'P01': (T, L, 'The specification is explored exhaustively to depth 4 over small cores; its random behaviours (14 operations, 2 cores, up to 9 components) run on the real Core and every observation after every operation is checked by TLC with exact rational arithmetic.'),
 'P02': (T, L, 'As P01, with connection declarations and resolutions; singular connections must be refused.'),
 'P03': (T, L, 'As P01, with three cores, sums and pending connections.'),
 'P04': (T, L, 'As P01, plus the classification, permutation and elimination operations on polynomial laws; linear coefficients and the eliminated structure are compared exactly.'),
 'P05': (T, L, 'The parameter machine (free, run-time, dictionary, substituted parameters) is explored by random simulation with its invariants; 260 histories of 9 operations on two cores run on the real Core, every law, coefficient and observer is evaluated exactly after every operation and judged by TLC.'),
 'P06': (T, L, 'As P01, with copies, save/load and later edits; all cores are observed after every operation.'),

 'P07': (T, L, 'Netlists are specified as sequences of lines under add, delete, replace, sum, copy, write and read, explored exhaustively at small bounds; random histories of 30 operations over four netlists and three files run on the real Netlist, all netlists and the graphs built from them being observed after every operation and judged by TLC.'),
 'P08': (T, L, 'The Kirchhoff tableau, the structure determined by edge controls and the propagation are explored exhaustively on all small networks; about 1200 generated networks (up to 8 components, 5 nodes) are built with pyphs, half of them through netlists, and TLC compares their exact input-output response with the tableau.'),
 'P09': (T, L, 'Propagation is specified as a state machine, proved confluent on all small networks; about 2000 generated networks must end with a model or an error, and those TLC classifies as propagation-realizable must be accepted.'),
 'P10': (T, L, 'About 300 networks, each built in nine equivalent descriptions (permuted, renamed, reoriented, repeated, assembled from parts, merged); TLC compares the exact responses.'),
 'P11': (T, L, 'The laws of 35 dictionary components (storage energies, dissipation laws, transfers, sources, defaults) are specified as TLA+ expressions; generated component lines with parameter values, names, defaults and node labels are built through netlists and the resulting energies, laws and structures are evaluated at random points and judged by TLC. Fractional integrators and derivators and cantilever beams are judged by the exact transfer function of the driven model against the documented one.'),
 'P12': (T, L, 'The discrete-time equations (structure at the state, discrete gradient, theta scheme, splitting) are a TLA+ transition relation; random small models, settings and inputs generated by TLC are simulated with pyphs and every recorded step must be a step of the specification, within a tolerance accounting for the solver and the file format.'),
 'P13': (T, L, 'The specified scheme is checked to satisfy the exact energy balance; recorded simulations (random models, amplitudes, rates) and the powers of the data reader must satisfy it at every step.'),
 'P14': (T, L, 'Expressions are trees with an exact rational evaluation (elementary functions correctly rounded) in TLA+; generated expressions with permuted arguments, and all functions of generated models, methods and evaluations, are evaluated by the code at single points and series and every value is judged by TLC.'),
 'P15': (T, L, 'Creating, configuring, initialising, running and reading several simulations over shared cores and methods is a TLA+ machine whose runs are steps of the specified scheme; its random histories run on the real Simulation and TLC checks every record.'),
 'P16': (T, L, 'The reader (window, decimation, selection, derived quantities) is specified over abstract records; generated windows and selections are read from real files and TLC compares every value and its position.'),
 'P17': (T, L, 'Models, settings and inputs generated by TLC are simulated by the generated C++ code, compiled and run; every recorded step must be a step of the specified scheme, and models whose laws are random expressions must record their exact values, also after the parameters file is regenerated; both languages must agree under other settings of the iterative solver, converged or not.'),
 'P18': (T, L, 'Signals (silences, cycles, envelopes, ramps, waveforms) and wave files (fades, normalisation, quantisation) are specified sample by sample; about 500 random signals and files are produced by the code and every sample is judged by TLC.'),
 'P19': (T, L, 'Derivatives of expression trees are defined in TLA+ and checked there against difference quotients and commutation; generated expressions, matrices and models go through the calculus of pyphs and TLC evaluates the resulting expressions at random points, exactly, against the specified ones.'),
}
NA = {}
