NOT_APPLICABLE = []

TECH = 'runtime monitoring: seeded hostile workloads on the real code, '
NOTE = ('Exploration only: holds on the seeded executions actually observed (counts in the evidence file); trusts numpy and the '
        'independent reference formulas in /verif/qgmon/ref.py. ')

prop('T01', 'Operator constructors build exactly the operators they name',
     'For every admissible dimension or spin, with either storage flag, the number, ladder, Pauli, spin, identity, parity, displacement '
     'and squeezing operators have exactly the matrix elements of their textbook definition in the library\'s basis ordering (Fock states '
     'ascending, spin projections descending), and therefore obey the commutation and ladder relations, unitarity and parity laws. '
     'The storage flag only selects sparse or dense and never changes a value; a spin may be given by its quantum number or, with the '
     'flag, by its dimension.',
     ['inputs'], 'every dimension, spin (integer and half-integer), displacement/squeezing amplitude and storage flag',
     'Unit tests compare a few small dimensions; off-by-one, rounding or half-integer slips show only at particular dimensions or spins.',
     [QT + 'operators.py'],
     [('band matrices filled from closed-form elements', QT + 'operators.py'), ('isDim conversion between spin and dimension', QT + 'operators.py:Jp,Jm,Jz')],
     ['return values'], TECH + 'matrix-element oracle written from definitions', NOTE)

prop('T02', 'Unitary(H, t) is the propagator exp(-iHt)',
     'For every Hamiltonian, sparse or dense, and every time (zero, negative, tiny or large) the returned matrix equals exp(-iHt): it is '
     'unitary for Hermitian H, equals the identity at t=0, composes as U(s)U(t)=U(s+t), is inverted by reversing the time, conserves H, '
     'and keeps the storage type of H. Time defaults to one.',
     ['inputs'], 'every Hermitian matrix (degenerate, diagonal, zero, structured, random) and effective non-Hermitian ones, every time, both storage types',
     'Tests evaluate a handful of Hamiltonian/time pairs; the group law and unitarity are statements over all of them.',
     [QT + 'evolution.py'], [('matrix exponential per storage type', QT + 'evolution.py:Unitary')], ['return values'],
     TECH + 'spectral-decomposition oracle and group-law metamorphic checks', NOTE)

prop('T03', 'Open-system generators and propagators implement the Lindblad master equation',
     'For every Hamiltonian (or none), set of collapse operators (plain matrices, operator pairs or ready-made super-operators) and rates, '
     'the Liouvillian acting on the column-stacked density matrix equals the Lindblad right-hand side, rate by rate and operator by operator, '
     'and its exponential is the corresponding completely positive, trace-preserving map. Step-by-step evolution returns the initial density '
     'matrix followed by one valid density matrix per time step (exactly total time / step of them, also when the quotient is not exact in floating '
     'point), showing each of them once, in order, to the callback; the heat current is the trace of the evolved state\'s derivative with the '
     'Hamiltonian.',
     ['inputs'], 'every H, list of collapse operators in every accepted form, decay rates (zero, omitted), time grid and state, both storage types',
     'Tests use one or two collapse channels and fixed rates; ordering, transposition and factor errors are invisible for Hermitian or diagonal operators.',
     [QT + 'evolution.py', QT + 'thermodynamics.py'],
     [('super-operator building blocks', QT + 'evolution.py:_preSO,_postSO,_prepostSO,dissipator'), ('step loop', QT + 'evolution.py:evolveOpen')],
     ['return values', 'callback of evolveOpen'], TECH + 'master-equation oracle, complete-positivity/trace monitors, per-step callback trace', NOTE)

prop('T04', 'State constructors return exactly the normalised states they name',
     'For every dimension, excitation (integer, list, population or amplitude dictionary) and storage flag, basis states, superpositions, '
     'mixtures, Bell states and composite states have exactly the named amplitudes, in the given tensor order, with unit norm or trace. '
     'Normalisation keeps the ray, stacking a matrix into a vector (column by column) and back is the identity, and projectors of a basis resolve '
     'the identity.',
     ['inputs'], 'every dimension list, excitation specification (Python or numpy integers), weights and storage flag',
     'Tests fix small dimensions and real populations; the accepted input forms multiply out combinatorially.',
     [QT + 'states.py'], [('superPos/normalise', QT + 'states.py'), ('mat2Vec/vec2Mat ordering', QT + 'states.py')], ['return values'],
     TECH + 'amplitude-level oracle', NOTE)

prop('T05', 'Tensor products, traces, partial traces and inner products obey their algebra',
     'For any number of subsystems of any dimensions and any storage mix, the tensor product is the ordered Kronecker product (integers standing for '
     'identities), the partial trace equals the explicit sum over the discarded subsystems (kept ones in their original order) for kets and matrices, and '
     'embedding an operator puts identities of the given dimensions on the given sides. Trace, Hermitian conjugate, inner product <second|first>, outer '
     'product, norm and matrix powers/products equal their definitions.',
     ['inputs'], 'every list of subsystem dimensions, subset kept, operator and state, dense/csc/csr, Python or numpy integers',
     'Tests use two or three qubits; index-order mistakes only appear with unequal dimensions and non-contiguous subsets.',
     [QT + 'linearAlgebra.py', QT + 'operators.py'], [('einsum partial trace', QT + 'linearAlgebra.py:partialTrace'), ('recursive kron', QT + 'linearAlgebra.py:tensorProd')],
     ['return values'], TECH + 'explicit index-sum oracle', NOTE)

prop('T06', 'Measures on states equal their definitions and respect their bounds',
     'For every ket or density matrix, dense or sparse, expectation values, standard deviations, fidelities, entropies, purity, concurrence, trace distance, '
     'spectral norm and sorted eigen-decompositions equal their textbook definitions. Expectations of observables are real, and the values obey their '
     'bounds, symmetries and invariances (zero spread on eigenstates, separable states have zero concurrence, either half of a pure state has the same entropy).',
     ['inputs'], 'every state (pure, mixed, rank-deficient, diagonal) and observable, both storage types, kets and matrices mixed',
     'Tests check a few Bell and basis states; definitions must hold for arbitrary, e.g. complex, degenerate or rank-deficient inputs.',
     [QT + 'functions.py', QT + 'states.py'], [('ket to density matrix promotion', QT + 'functions.py'), ('eigenvalue based measures', QT + 'functions.py')],
     ['return values'], TECH + 'definition oracle plus invariance monitors', NOTE + 'Tolerances absorb the rounding of non-symmetric eigensolvers (1e-5 concurrence, 1e-4 Uhlmann fidelity).')

prop('T07', 'Wigner and Husimi functions are the phase-space representations of the state',
     'For every ket or density matrix, axis and scaling factor, entry (i, j) of the Wigner function is g^2/pi times the expectation of the displaced parity '
     'at alpha = g/2 (x_j + i y_i), and of the Husimi function g^2/4 times <alpha|rho|alpha>/pi. Both are linear in the state, integrate to a '
     'state-independent constant, and have the right marginal and sign/bound properties.',
     ['inputs'], 'every state, dimension, axis and scaling factor, both storage types',
     'There are no unit tests for these functions; the recursion mixes many matrix elements and errors show only with coherences between high levels.',
     [QT + 'quasiProbabilities.py'], [('iterative Wigner recursion', QT + 'quasiProbabilities.py:Wigner')], ['return values'],
     TECH + 'closed-form Laguerre oracle, marginal/normalisation monitors', NOTE + 'The overall constant of Wigner is the one of the pinned commit.')

prop('T08', 'Rotations, gates and model Hamiltonians equal their closed forms',
     'For every angle, axis (either letter case), spin and storage flag, qubit and spin rotations equal exp(-i angle J), compose additively and are unitary; CNOT, CPHASE and '
     'Hadamard are the named gates. The qubit-cavity, Rabi, Jaynes-Cummings and anti-Jaynes-Cummings Hamiltonians equal their documented formulas (qubit first), and the analytic '
     'Jaynes-Cummings propagator equals the exponential of that Hamiltonian at all times.',
     ['inputs'], 'every angle, axis, spin, phase, coupling, frequency, cavity dimension and storage flag',
     'Tests cover one analytic-JC parameter set and no rotations over generic angles.',
     [QT + 'spinRotations.py', QT + 'basicGates.py', QT + 'Hamiltonians.py'],
     [('half-angle formulas', QT + 'spinRotations.py'), ('closed-form JC blocks', QT + 'Hamiltonians.py:UJC')], ['return values'],
     TECH + 'exponential-of-generator oracle', NOTE)

prop('T09', 'Toolbox functions are pure and independent of storage format',
     'No toolbox function changes a matrix, list or dictionary it is given, and the value it returns is the same for dense, csc and csr storage and for integer, real or complex '
     'element types of the same inputs; where that is documented it is sparse for sparse and an array for array inputs, or as the flag asks. Functions keep no state between calls: overwriting a returned object never changes what a later call returns.',
     ['inputs', 'histories'], 'every toolbox function, admissible input, storage/element type, and repetition of calls after results were modified',
     'Tests call each function once with one storage type and never look at the inputs afterwards.',
     [QT + f for f in ('linearAlgebra.py', 'states.py', 'operators.py', 'evolution.py', 'functions.py', 'Hamiltonians.py', 'IPR.py', 'quasiProbabilities.py')],
     [('non-mutating array expressions', QT)], ['arguments before/after', 'return values'],
     TECH + 'input snapshots, cross-format comparison, poison-the-result and call again', NOTE)

prop('T10', 'Statistical and thermal functions equal their closed forms',
     'The random-matrix spacing and eigenvector densities equal their closed forms for each Dyson index, are normalised with the right mean for every dimension, and the Poissonian is '
     'normalised with mean lambda. Participation ratios and component statistics equal their definitions in any orthonormal basis and lie between 1 and the dimension; thermal occupation and '
     'qubit polarisation equal the Bose and Boltzmann averages for every frequency and temperature.',
     ['inputs'], 'every argument, dimension, Dyson index, ket, basis, frequency and temperature',
     'There are no unit tests for these functions.',
     [QT + 'rmtDistributions.py', QT + 'IPR.py', QT + 'eigenVecVal.py', QT + 'thermodynamics.py'], [('closed forms', QT + 'rmtDistributions.py')], ['return values'],
     TECH + 'numerical quadrature and definition oracle', NOTE)

prop('C02', 'The Hamiltonian of a system is always the sum of its current terms',
     'After any history of edits of a single, composite or nested composite system (frequency, operator, order or dimension changed; terms and couplings created, re-targeted, compounded, '
     'removed) and of reads in between, the total Hamiltonian of every system equals the sum, over its own and its sub-systems\' current terms and couplings, of frequency times the product of the '
     'operators (to their orders) placed at their systems\' positions in the tensor product. Nothing stale is ever returned, whichever caches earlier reads filled; an edit that is refused with an error changes nothing.',
     ['histories'], 'every tree of systems, set of terms and couplings, interleaving of edits through the public interface with reads of any part',
     'Caches are invalidated by notifications along parent/term links; which of them are warm depends on the whole history, tests read right after one edit.',
     [CL + f for f in ('QSystem.py', 'QTerms.py', 'baseClasses.py')],
     [('_paramUpdated notification of bound objects', CL + 'baseClasses.py:paramBoundBase'), ('matrix construction and caching', CL + 'QTerms.py:_constructMatrices'),
      ('sum over terms', CL + 'QSystem.py:totalHamiltonian')],
     ['totalHamiltonian of every system after every edit'], TECH + 'mirror of the edits evaluated with dense Kronecker products after every step', NOTE)

prop('C03', 'Dimensions and tensor positions follow every structural edit',
     'After any history of composing (+, -, n*, addSubSys, removeSubSys, constructors), nesting, detaching, re-attaching and resizing systems, the dimension of every system is the product of its current '
     'sub-systems\' dimensions, subSysDimensions lists them in order, and every operator acts at the position of its own system. A removed system leaves no coupling behind and is again a stand-alone system with its own '
     'dimension, terms and structure; n*system holds n independent identical systems.',
     ['histories'], 'every sequence of structural edits of nested composites of systems of any dimension, interleaved with reads',
     'Dimensions before/after are stored per system and pushed along the tree by each edit; only particular orders of nesting, reading and removing expose a missed push.',
     [CL + 'QSystem.py', CL + 'QTerms.py'], [('_dimsBefore/_dimsAfter bookkeeping', CL + 'QSystem.py'), ('addSubSys/removeSubSys', CL + 'QSystem.py:QuantumSystem')],
     ['dimension, subSysDimensions, subSys, superSys, totalHamiltonian of every system after every step'], TECH + 'explicit tree model audited after every step', NOTE,
     state=[('_dimsBefore/_dimsAfter', 'product of dimensions left/right of a system in its composite', CL + 'QSystem.py')])

prop('C04', 'A protocol\'s propagator is the ordered product of its current steps',
     'After any history of edits (parameters and structure of the systems, step size, ratio, gate angle/axis/phase/implementation, added steps, added updates) interleaved with reads of any protocol, unitary() of a protocol '
     'equals the time-ordered product of its steps\' propagators for the current parameters: free evolutions exp(-i H ratio dt), gates the rotations of their systems, '
     'repeated, nested and conjugated (.hc) steps included, and updates in force exactly while the step they belong to is computed. A protocol with a (prepared) time-dependency sweep of its own goes through the swept values, in order, within its propagator. Reading a propagator changes no parameter that is not swept so; a step declared fixed keeps its first propagator until released.',
     ['histories'], 'every system, protocol (steps shared between protocols, nested, repeated, conjugated, with updates) and interleaving of edits and reads',
     'Propagators are cached per step and shared between protocols; staleness depends on who was read when, which unit tests that compute once cannot see.',
     [CL + f for f in ('QPro.py', 'QGates.py', 'baseClasses.py', 'QSimBase.py')],
     [('getUnitary/unitary caching', CL + 'QPro.py:genericProtocol'), ('ordered product and flag hand-over between repeated steps', CL + 'QPro.py:qProtocol'), ('copyStep .hc', CL + 'QPro.py:copyStep'),
      ('rotation gates', CL + 'QGates.py')],
     ['unitary() of every protocol and of its steps'], TECH + 'mirror protocol evaluated with dense exponentials at every read', NOTE)

prop('C05', 'Initial states follow their current inputs and the structure they belong to',
     'After any history of input, dimension and structure edits interleaved with reads, the initial state of every system, composite and protocol equals the tensor product of the currently given inputs '
     '(integer, list, tuple, dictionary of populations, ket; per system or for a whole composite). A protocol or simulation uses its own input, else that of its system, else that of the simulation it is in; giving it one changes no system. An input that does not fit its '
     'dimension gives no state until the dimension fits again; a composite refuses inputs of the wrong length and keeps its state.',
     ['histories'], 'every tree of systems, every kind and level of input, every interleaving of input, dimension and structure edits with reads',
     'Each level caches a state object computed from an input that may be stored at another level; tests set the input once, before the first read.',
     [CL + f for f in ('QSimBase.py', 'QSystem.py', 'QPro.py', 'baseClasses.py')],
     [('initial state parameter and its bound inputs', CL + 'QSimBase.py:stateBase'), ('composite initial states', CL + 'QSystem.py')],
     ['initialState of every system, composite and protocol'], TECH + 'mirror of the inputs evaluated with Kronecker products at every read', NOTE)

prop('C06', 'Time parameters at every level follow their own values or the level above',
     'After any history of setting total time, step size, step count, samples and delStates at the levels simulation, system, protocol and step, each level reports its own value where it was given one and that of the next level '
     'otherwise; the step count is the number of steps of the step size that covers the total time, the time list is that grid, and a propagator read at any level uses the step size (and samples) in force at that moment.',
     ['histories'], 'every interleaving of time-parameter edits at all levels with reads of parameters and propagators',
     'Values are bound along chains of objects and step size/step count redefine each other; tests set them once in one order.',
     [CL + f for f in ('QSimBase.py', 'QSim.py', 'QPro.py', 'QSystem.py', 'baseClasses.py')],
     [('bound time parameters', CL + 'QSimBase.py:timeBase'), ('step size/step count', CL + 'QSimBase.py:stepCount')],
     ['totalTime, stepSize, stepCount, samples, delStates, timeList and unitary at every level'], TECH + 'mirror of the parameter chain after every edit', NOTE)

prop('C07', 'A simulation evolves every protocol from its own initial state by its own steps',
     'After run(), the stored states of every protocol in a simulation are U^k applied to its initial state for every k up to the step count, with U the propagator of that protocol for its own step size; with several samples '
     'the stored samples subdivide the step. This holds for single systems, protocols, and simulations of any number of systems and protocols in any order of linking; systems and protocols that are added, removed or replaced take part exactly while they '
     'are members, and states are kept exactly where delStates is false.',
     ['inputs', 'histories'], 'every set of systems and protocols, linking order, entry point (simulation, system or protocol), time parameters and samples',
     'Tests run one or two fixed models with one protocol; the evolution walks keys that are replaced while running and bound parameters at four levels.',
     [CL + f for f in ('QSim.py', 'modularSweep.py', 'QSimComp.py', 'QPro.py')],
     [('evolution loop', CL + 'modularSweep.py:timeEvolDefault'), ('membership of systems and protocols', CL + 'QSim.py:Simulation.addQSystems'), ('samples', CL + 'QPro.py')],
     ['stored states, compute calls and results of every run'], TECH + 'dense reference trajectories compared with every stored state', NOTE)

prop('C08', 'A sweep visits every point of its grid once with the values of that point',
     'For every set of sweeps, run() visits the points of the grid they span (sweeps that are not combinatorial advance together with the one before) once each, in order; at every point all swept attributes of all swept objects have '
     'the values of that point and the evolution uses them. The results have one entry per point, at the index of the point. Swept and unswept objects end in the state of the last point, and removing sweeps, swept systems or protocols leaves the rest of the grid.',
     ['inputs', 'histories'], 'every combination of sweeps (frequencies, terms, gate parameters, initial states, dimensions, times, custom functions, several systems, ranges, lists) on every simulation',
     'Index arithmetic and stale caches depend on number, order, length and kind of the sweeps; tests use at most two frequency sweeps.',
     [CL + f for f in ('QSweep.py', 'modularSweep.py', 'QSim.py', 'QRes.py')],
     [('index arithmetic of the grid', CL + 'QSweep.py:Sweep'), ('assignment of swept values', CL + 'QSweep.py:_sweep.runSweep'), ('result nesting', CL + 'QRes.py')],
     ['swept attributes and states at every compute call', 'results and states after the run'], TECH + 'trace monitor on compute calls (points, order, values) and dense reference trajectories', NOTE)

prop('C09', 'Parallel runs return exactly the results and states of sequential runs',
     'Running a simulation with p=True, with any number of workers, returns the same results and states, in the same grid order, as running it sequentially, for every grid and every set of computations, and again after further edits and further runs of '
     'either kind. Every point is computed once, in some worker.',
     ['inputs', 'schedules'], 'every simulation, grid size, worker count, number of points per worker and alternation of sequential and parallel runs',
     'Scheduling, chunking and pickling decide where each point is computed and which state a worker starts from; tests compare one fixed model.',
     [CL + f for f in ('modularSweep.py', 'QSim.py', 'QRes.py')],
     [('parallel evolution', CL + 'modularSweep.py:parallelEvol'), ('pool', CL + 'QSim.py:_poolMemory')],
     ['results and states of sequential and parallel runs', 'per-point logs written by the workers'], TECH + 'worker-side event logs with injected delays, compared with sequential runs and the reference', NOTE)

prop('C10', 'Running again gives the results of the current parameters, whatever came before',
     'Running the same simulation again without a change gives the same results and states; after any change of a parameter, operator, gate, time, initial state, sweep, protocol or cache, and after any other simulation was run or any propagator read, the next run gives the '
     'results of the present parameters. Nothing of earlier runs, of other sweep points or of other simulations enters.',
     ['histories'], 'every sequence of runs of one simulation with edits, reads and runs of other simulations in between',
     'Caches survive runs by design; only a change of the right object followed by a run of the right simulation shows a missed invalidation.',
     [CL + f for f in ('QSim.py', 'QPro.py', 'QSimBase.py', 'QSystem.py', 'QRes.py', 'modularSweep.py')],
     [('update flags across runs', CL + 'QPro.py'), ('reset of results', CL + 'QRes.py'), ('bound parameters', CL + 'QSimBase.py')],
     ['results, states and compute calls of every run'], TECH + 'mirror of all edits, every run compared with the dense reference of the present parameters', NOTE)

prop('C13', 'Open evolutions follow the Lindblad equation of the current dissipators',
     'The propagator of an open free evolution, step or protocol is the ordered product of the Lindblad exponentials of the current Hamiltonian and of all dissipators attached to the step, to its '
     'protocol or above, each acting at its system\'s tensor position with rate jRate*(nBar+type) of its bath, after any edit of rates, types, temperatures, baths, jump operators, systems, gates or '
     'times and whenever dissipators are added. Simulations evolve pure and mixed initial states with it, sweep point by sweep point. Every state is Hermitian, positive and of unit trace, and thermal '
     'baths relax to their Boltzmann populations.',
     ['inputs', 'histories'], 'every arrangement of dissipators and baths over systems, steps and nested protocols, every order of edits and reads, every sweep',
     'Rates and operators are cached on three levels (bath, dissipator, protocol); a missed invalidation or a transposed super-operator shows only for particular sequences and non-Hermitian operators.',
     [CL + f for f in ('environment.py', 'QPro.py', 'QGates.py', 'modularSweep.py')],
     [('rates and jump operators', CL + 'environment.py:dissipatorObj,thermalBath'), ('open steps', CL + 'QPro.py:getUnitary'), ('density-matrix evolution', CL + 'modularSweep.py')],
     ['propagators after every edit', 'states of every time and sweep point'], TECH + 'independent Lindblad generator on a mirror of all edits, density-matrix monitors', NOTE)

prop('C11', 'Protocol updates hold only while their protocol is computed and are undone',
     'The updates of a protocol, free evolution or gate (any key, one or several targets, overlapping updates, custom update functions or setup/setback) are in effect exactly while its propagator (or the '
     'samples of its steps) is computed: the protocol uses the updated values also for steps it shares, every other protocol uses the present ones. Whatever is read or run, in any order, every parameter '
     'afterwards, and whenever a computation is called, has the value the user or the sweep gave it, and changing an updated parameter in between loses nothing.',
     ['inputs', 'histories'], 'every combination of updates over (nested, shared, conjugated) steps, every order of reads, edits, runs and sweeps',
     'Updates, caches and update flags interact: a wrong restore order or a flag lost while restoring shows only for overlapping updates or shared steps read in a particular order.',
     [CL + f for f in ('QPro.py', 'baseClasses.py', 'modularSweep.py')],
     [('setup and setback around the computation', CL + 'QPro.py:Update,getUnitary'), ('flags of later steps', CL + 'QPro.py:_puValues'), ('samples', CL + 'modularSweep.py:timeEvolBase')],
     ['propagators', 'all parameters after every read and at every computation'], TECH + 'mirror with scoped updates, parameter monitor in compute hooks', NOTE)

prop('C12', 'Time-dependent parameters have the value of the current step in every run',
     'In every step of every run (of simulations, systems and protocols, with samples, sweeps and re-runs) a term\'s timeDependency function is called with the time at the end of that step, before the '
     'step\'s propagator is computed, for terms anywhere in the evolved system, and what it changes enters that very step of every protocol of that system. Time runs forward from the first step once per '
     'sweep point and run. The k-th value of a time-dependency sweep (list or function, of any parameter and several objects) holds in the k-th step.',
     ['inputs', 'histories'], 'every place of time-dependent terms, kind of run, function of time, list, sweep and re-run',
     'Time reaches terms through systems, protocols and bound simulations; tests use one system and one kind of run, where a wrong or stale time is often invisible.',
     [CL + f for f in ('QSystem.py', 'QTerms.py', 'QPro.py', 'QSim.py', 'QSimBase.py', 'modularSweep.py', 'QSweep.py')],
     [('time handed down', CL + 'QSystem.py:_timeDependency'), ('current time', CL + 'QSim.py:_currentTime'), ('lists per step', CL + 'modularSweep.py:timeDependent')],
     ['log of times given to the functions', 'states of every step'], TECH + 'time log monitor and stepwise mirror evolution', NOTE)

prop('C14', 'CSV files give back exactly the saved values, one file per result and point',
     'Rows of integers, floats or complex numbers, ragged or not, are read back from the file they are saved in with exactly the same values for every fitting data type option, and extreme values survive. '
     'Saving the results of a session writes every numeric result (scalars, arrays, averages) of every simulation, protocol and system into files named after its owner\'s result object, its key and the '
     'indices of the sweep point (of one width per level), with exactly the values in memory, and no two results share a file.',
     ['inputs'], 'every data shape, number type and value, every set of owners, keys and sweep shapes',
     'Tests only read two fixed files; lost precision, ragged rows, name collisions beyond ten points and number types appear only for particular data.',
     ['src/quanguru/extensions/saveReadCSV.py', 'src/quanguru/extensions/_helpers.py', CL + 'base.py'],
     [('rows', 'src/quanguru/extensions/saveReadCSV.py:saveCSV,readCSV'), ('files of nested results', 'src/quanguru/extensions/saveReadCSV.py:_recursiveSaveList')],
     ['files in a scratch folder'], TECH + 'round-trip oracle and file-set comparison', NOTE)

prop('C15', 'Copies of quantum systems are equal to the original and independent of it',
     'A copy of a single or (nested) composite system has the same structure, dimensions, terms, couplings (between its own sub-systems), Hamiltonian and initial state as the original at that moment, '
     'except for what is given to copy, and its own name and times. Afterwards no edit of either changes Hamiltonian, state, dimension or propagators of the other, whatever part was copied. n*system and '
     'system+system are composites of the system and such copies.',
     ['inputs', 'histories'], 'every system tree with terms and couplings, every part copied, every history of edits of copies and originals',
     'Shared lists, terms or caches between copy and original stay unnoticed until one of them is edited in a particular way.',
     [CL + f for f in ('QSystem.py', 'base.py', 'QSimBase.py')], [('copy of terms and members', CL + 'QSystem.py:copy,_copyOfSubSys'), ('sums', CL + 'QSystem.py:__rmul__,__add__')],
     ['Hamiltonian, state, dimension, propagator of every copy after every edit'], TECH + 'separate dense mirrors per copy', NOTE)

prop('C16', 'Standard couplings are the terms they name, whatever is edited around them',
     'JC, Rabi and Dicke couplings of a cavity with a qubit or spin, named in either order or found among the members, add g(a J+ + a^dag J-), g(a + a^dag) sigma_x and g(a + a^dag) J_x at the tensor positions of these two systems (JC with a system whose operator is number: g(a b^dag + a^dag b)), '
     'anywhere in a (nested) composite. They follow their one coupling strength, set or swept, and every later change of dimensions and members; removing the coupling, or a system it couples, removes all of it and nothing else.',
     ['histories'], 'every composite containing a cavity and a qubit or spin, every order of couplings and edits',
     'Tests make one coupling in one layout; order of arguments, position, nesting and later edits change what it becomes.',
     [CL + 'extensions/couplings.py', CL + 'QTerms.py', CL + 'QSystem.py'],
     [('couplings', CL + 'extensions/couplings.py:JC,Rabi,Dicke'), ('common frequency', CL + 'QTerms.py:frequency'), ('removal', CL + 'QSystem.py:removeTerm')],
     ['Hamiltonians after every edit', 'propagators and states of strength sweeps'], TECH + 'dense mirror of the named couplings under histories of edits', NOTE)

prop('C17', 'Names and aliases lead to their object and to no other',
     'Every object has a unique name of its own and any number of aliases; each of these, as text or name object, leads to exactly that object wherever names are accepted (look-up, members, terms, steps, sweeps, couplings, removal), '
     'and an unknown name, an alias already in use, or the name of an object that is gone is refused. The alias of a system, protocol or simulation names its results too (followed by Results). Dictionaries of named objects behave as ordinary ordered dictionaries whose keys are interchangeable with their aliases, even aliases given later. '
     'A pickled object carries its session with it: names in it lead to its own objects, and the original session is unaffected.',
     ['histories'], 'every sequence of creating, aliasing, looking up, deleting and pickling objects, and of dictionary operations',
     'Tests try single look-ups; confusion of objects depends on which names were given, repeated, dropped or looked up before.',
     [CL + 'base.py'],
     [('registry of names and weak references', CL + 'base.py:named'), ('names equal to aliases', CL + 'base.py:aliasClass'), ('alias keyed dictionary', CL + 'base.py:aliasDict')],
     ['returned objects', 'refusals', 'Hamiltonians after edits by name'], TECH + 'plain-dictionary model beside the real registry and dictionaries', NOTE)

prop('C18', 'Stored results are found unchanged, in order, under owner, key and point',
     'Whatever computations store during a run, in any of the provided ways, of any type, any number of times and into the results of any owner, is found after the run under that owner and key at its sweep point, unchanged and in the order of storing (a single value of a point stands for itself); '
     'averages are the means over their point, quantities calculated before or after the evolution are kept in order, and nothing else is there. '
     'This holds for single and multi process runs; a run starts from empty results unless it is told to keep the previous ones, which it then continues.',
     ['histories', 'inputs'], 'every choice of computations, keys, values, sweeps and sequence of runs',
     'Tests store one float per step in one run; types, multiplicities, owners and repeated or parallel runs multiply.',
     [CL + 'QRes.py', CL + 'baseClasses.py', CL + 'modularSweep.py', CL + 'QSim.py'],
     [('storing', CL + 'QRes.py:singleResult,resultsMethod,resAverage,calculated'), ('reshaping by sweeps', CL + 'QRes.py:_finalise'), ('returns of processes', CL + 'QRes.py:_organiseMultiProcRes'), ('kept results', CL + 'QSim.py:run')],
     ['resultsDict, states and calculated of every owner'], TECH + 'plain lists filled by the same computations in the specified order', NOTE)
prop('C19', 'What is refused or fails leaves everything as it was',
     'An edit that raises an error (impossible operators, orders, frequencies, dimensions, couplings, terms, initial states, sub-systems, circular structures, unknown names and keywords, times, sweeps, protocols) '
     'leaves Hamiltonians, states, dimensions, structure and later runs exactly as they were, and such impossible edits are refused. '
     'A run that is ended by an exception at any moment, from any user function or from the numerical layer, lets that exception reach the caller and leaves no trace: parameters have their values from before the run and later runs give the results of the present parameters.',
     ['fault_sequences', 'histories'], 'every moment and place of failure, every history of valid and refused edits',
     'Tests check that some errors are raised, never what is left behind by them, and interrupt no run.',
     [CL + 'QSystem.py', CL + 'QPro.py', CL + 'modularSweep.py', CL + 'QSim.py', CL + 'QSimBase.py', CL + 'QTerms.py', CL + 'base.py'],
     [('restoring updates', CL + 'updateBase.py, QPro.py'), ('structure edits', CL + 'QSystem.py:addSubSys,removeSubSys,terms'), ('initial states', CL + 'QSystem.py:initialState; QSimBase.py:initialState'), ('times', CL + 'QSimBase.py:timeBase')],
     ['totalHamiltonian, initialState, dimension, subSys, terms and states, results and computations of later runs'], TECH + 'injected exceptions and refused edits, followed by comparison with a mirror in which nothing had happened', NOTE)
prop('C20', 'The earlier system classes follow their current parts',
     'Composites of the earlier classes (qubits, spins, cavities, composite systems and couplings, made by constructors, +, n* and adding), after any history of changing frequencies, operators, orders, dimensions, terms, coupling strengths and coupling terms, '
     'and of adding and removing systems and couplings, have dimensions, propagators and total, free and coupling Hamiltonians that are the explicit sums over their current parts at their current positions; '
     'a system that is removed has its own Hamiltonian again and no influence on the composite it left, and copies are independent of their originals.',
     ['histories', 'inputs'], 'every composite and every history of edits',
     'The earlier classes have one integration test of a single simulation; the caches of every term, position and coupling must follow arbitrary histories.',
     [CL + 'QSys.py', CL + 'extensions/couplings.py'],
     [('caches and positions', CL + 'QSys.py:compQSystem._removeSubSysExc,updateDimension,_dimsBefore'), ('couplings', CL + 'QSys.py:qCoupling'), ('terms', CL + 'QSys.py:term,qSystem')],
     ['totalHam, freeHam, couplingHam, unitary, dimension, qSystems, qCouplings'], TECH + 'explicit sums of embedded operators of a mirror of the history', NOTE)
