"""Writes /verif/properties.jsonl."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=[observe]))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m) for n, m in state]
    P.append(d)

A = 'qmeq/approach/'
prop('P01', 'Compiled and pure-Python solvers give the same answer',
 'For every system and every option, an approach and its pure-Python counterpart report the same stationary state, currents, energy currents and heat currents (with or without phonon baths), and the compiled and pure-Python special functions and linear solvers agree. Agreement is to solver accuracy, for real and complex amplitudes, all indexings, any number of leads and baths and every principal-value option.',
 ['inputs', 'configurations'], 'All dot/lead/bath parameters, all indexings, principal value options, solver and kernel options accepted by both implementations.',
 'The tests compare both implementations on one or two fixed parameter sets with absolute tolerances around 1e-4..1e-10, so an error that needs complex amplitudes, three leads, a removed state or a particular option is not seen.',
 [A+'base/c_pauli.pyx', A+'base/c_lindblad.pyx', A+'base/c_redfield.pyx', A+'base/c_neumann1.pyx', A+'base/c_neumann2.pyx', A+'base/c_RTD.pyx', A+'elph/c_pauli.pyx', A+'elph/c_lindblad.pyx', A+'elph/c_redfield.pyx', A+'elph/c_neumann1.pyx', 'qmeq/specfunc/c_specfunc.pyx'],
 [('approach pairs', A+'{base,elph}/*.py and c_*.pyx'), ('kernel handlers', A+'kernel_handler.py, c_kernel_handler.pyx'), ('special functions', 'qmeq/specfunc/{specfunc,c_specfunc}*')],
 'builder.phi0, get_phi0, current, energy_current, heat_current after solve()')

prop('P02', 'The reported state is a normalised physical stationary state',
 'After a successful solve the reported stationary density matrix has unit trace, is Hermitian between exchanged labels, and is annihilated by the generator that was built; that generator conserves total probability for every state, and its populations block has non-negative transition rates for the rate-equation approach. Populations of the rate-equation approach lie in [0,1], and the density matrix of the Lindblad approach is positive semidefinite, also with phonon baths and after states were removed.',
 ['inputs', 'configurations'], 'All systems with a unique stationary state, all first-order and the second-order rate approaches, all option combinations.',
 'Tests compare a few currents and a few density matrix elements for one system; no test inspects trace, positivity or the generator for arbitrary parameters.',
 [A+'aprclass.py', A+'c_aprclass.pyx', A+'kernel_handler.py', A+'c_kernel_handler.pyx', A+'base/c_lindblad.pyx'],
 [('generator assembly', A+'c_kernel_handler.pyx set_matrix_element/set_matrix_element_pauli/add_element'), ('normalisation row and solver', A+'aprclass.py solve_kern')],
 'builder.kern, phi0 and get_phi0 after solve()')

prop('P03', 'Charge and energy balance at the leads, and heat is energy minus work',
 'In every stationary solution the particle currents of all leads sum to zero for every approach; the energy currents of all leads sum to zero without phonon baths for the rate equation, Lindblad, first-order von Neumann and (real amplitudes) RTD approaches, and up to grid accuracy for second-order von Neumann. For every approach and every lead, the reported heat current equals the energy current minus chemical potential times particle current, and spin-symmetric descriptions report both spin halves of the leads with equal values.',
 ['inputs', 'configurations'], 'All systems, leads, temperatures, biases, all approaches, phonon baths attached or not.',
 'Tests compare currents of a fixed two-lead set with stored numbers at a tolerance that hides leaks that appear only with three or more leads, complex amplitudes or unequal temperatures.',
 [A+'aprclass.py', A+'base/c_redfield.pyx', A+'base/c_neumann1.pyx', A+'base/c_lindblad.pyx', A+'base/c_pauli.pyx', A+'base/c_RTD.pyx', A+'base/neumann2.py'],
 [('current generation', A+'*/c_*.pyx generate_current'), ('heat current', A+'aprclass.py generate_heat_current')],
 'builder.current, energy_current, heat_current')

prop('P04', 'Equilibrium and the laws of thermodynamics',
 'With all leads (and baths) at one temperature and one chemical potential no particle, energy or heat current flows and the populations are the grand-canonical ones wherever the approach guarantees it; the approximate approaches deviate at most at the next order in the tunnel coupling. Under any bias or temperature difference, the total entropy production of the rate equation is non-negative, linear response coefficients of a two-lead rate equation obey Onsager reciprocity, and a dot coupled to one reservoir only takes that reservoir\'s equilibrium state.',
 ['inputs'], 'All systems, common temperature and chemical potential, couplings of any asymmetry, any bias for the second law.',
 'Detailed balance must hold for every pair of states and every lead at once; tests contain no equilibrium or entropy statement.',
 ['qmeq/specfunc/c_specfunc.pyx', A+'base/c_pauli.pyx', A+'base/c_lindblad.pyx', A+'base/c_redfield.pyx', A+'base/c_RTD.pyx', A+'elph/c_pauli.pyx'],
 [('Fermi and Bose factors', 'qmeq/specfunc/c_specfunc.pyx fermi_func, func_pauli'), ('rates', A+'base/c_pauli.pyx generate_fct')],
 'builder.phi0, current, energy_current, heat_current')

prop('P05', 'First-order approaches solve the master equation they are named after',
 'For the rate equation, Lindblad, Redfield and first-order von Neumann approaches, the reported stationary density matrix, particle currents and energy currents equal those of the corresponding master equation written independently in operator form in the eigenbasis of the dot, for every principal-value option. This covers any charge sector structure, coherences, complex amplitudes, unequal temperatures and asymmetric or finite bands, in every state indexing.',
 ['inputs', 'configurations'], 'All dots up to five levels with one to five leads, all itype options and indexings.',
 'The tests only pin a few regression numbers of the same implementation; an error shared by those numbers or visible only in other parameter ranges is outside their reach.',
 [A+'base/c_pauli.pyx', A+'base/c_lindblad.pyx', A+'base/c_redfield.pyx', A+'base/c_neumann1.pyx', 'qmeq/specfunc/c_specfunc.pyx'],
 [('rates and amplitudes', 'qmeq/specfunc/c_specfunc.pyx func_pauli, func_1vN'), ('generators', A+'base/c_*.pyx generate_kern, generate_coupling_terms'), ('currents', A+'base/c_*.pyx generate_current')],
 'builder.phi0 via get_phi0, current, energy_current')

prop('P06', 'Second-order approaches reproduce exactly solvable transport',
 'For dots without interaction, the second-order von Neumann approach converges to the exact (Landauer) particle and energy currents and occupation as iterations and grid are refined, for any level structure, hybridisation and bias. The RTD approach approaches the exact current with an error that shrinks at third order in the coupling, for a single level and for capacitively decoupled levels.',
 ['inputs', 'configurations'], 'All non-interacting dots with one or two levels, complex amplitudes, two or three leads, bias and temperature differences.',
 'Tests store one converged number at one parameter point; exactness must hold at every parameter.',
 [A+'base/c_neumann2.pyx', A+'base/neumann2.py', A+'base/c_RTD.pyx', 'qmeq/specfunc/specfunc.py'],
 [('2vN kernels and Hilbert transform', A+'base/c_neumann2.pyx, qmeq/specfunc/specfunc.py hilbert_fi'), ('RTD diagrams', A+'base/c_RTD.pyx, qmeq/specfunc/c_specfunc.pyx integralD/integralX')],
 'builder.current, energy_current, get_phi0 after solve()')

prop('P07', 'Many-body matrices are the second-quantised operators of the input',
 'In every indexing the many-body Hamiltonian, tunnelling and electron-phonon matrices equal the fermionic operators described by the single-particle input, including all anticommutation signs, Hermitian completion and every two-body matrix element. The reported eigenvalues and eigenvectors diagonalise that Hamiltonian with a unitary rotation within conserved sectors, the tunnelling and phonon matrices are transformed by the same rotation, and the spin-resolved indexings carry correct total and projected spin.',
 ['inputs', 'configurations'], 'All single-particle Hamiltonians, Coulomb elements, tunnelling and coupling amplitudes for up to six levels, in the Lin, charge, sz and ssq indexings, with and without the spin symmetry.',
 'Signs depend on the occupations in between; tests use one- and two-level systems where most signs are trivial.',
 ['qmeq/qdot.py', 'qmeq/leadstun.py', 'qmeq/baths.py', 'qmeq/indexing.py'],
 [('construct_ham_hopping/construct_ham_coulomb', 'qmeq/qdot.py'), ('construct_Tba, eigenstate rotation', 'qmeq/leadstun.py'), ('construct_Vbbp', 'qmeq/baths.py'), ('ssq construction', 'qmeq/indexing.py construct_ssq_matrix')],
 'system.qd.ham, Ea, vecslst, Tba0/Tba, Vbbp0/Vbbp')

prop('P08', 'State and matrix-element indexings are consistent bijections',
 'Every indexing enumerates each many-body configuration exactly once, grouped by the quantum numbers it advertises, and its state/label translations invert each other. The numbering of density matrix elements maps each allowed element of the reduced density matrix to exactly one slot and each slot to exactly one (conjugate pair of) element, for every set of removed states and coherences.',
 ['inputs', 'configurations'], 'All numbers of levels up to ten, all indexings and all removal patterns.',
 'Tests print a few tables for two and four levels.',
 ['qmeq/indexing.py'], [('state tables', 'qmeq/indexing.py construct_chargelst, sz_to_chargelst, ssq'), ('element maps', 'qmeq/indexing.py set_statesdm, StateIndexingDM/DMc set_mapping')],
 'system.si attributes and translation methods')

prop('P09', 'Physics does not depend on how the same system is described',
 'The stationary observables are invariant under a change of state indexing, relabelling of levels and leads, gauge phases and unitary rotations of the single-particle basis, splitting a lead into identical leads, a common shift of all energies and chemical potentials, and a rescaling of all energies; stating the spin symmetry instead of writing both spin halves changes nothing. Lead-resolved quantities follow the relabelling.',
 ['inputs', 'configurations'], 'All systems and all transformations in the list, every approach they apply to.',
 'Needs pairs of related runs over arbitrary systems; tests use a single description.',
 ['qmeq/indexing.py', 'qmeq/qdot.py', 'qmeq/leadstun.py', A+'base/', 'qmeq/specfunc/c_specfunc.pyx'],
 [('description to many-body matrices', 'qmeq/qdot.py, qmeq/leadstun.py'), ('energy differences and bands', 'qmeq/specfunc/c_specfunc.pyx')],
 'builder.current, energy_current, heat_current')

prop('P10', 'Changing parameters equals building the changed system afresh',
 'After any sequence of parameter additions and changes to the dot, leads or baths, interleaved with solves, the next solve reports the same energies, state and currents as a system freshly built from the final parameters. Add accumulates, change replaces, and untouched parameters keep their values.',
 ['histories', 'inputs'], 'All sequences of add/change/solve and solver-mode switches (energy-only, current-only) on all systems and approaches.',
 'Tests do at most two updates in a fixed order before one solve.',
 ['qmeq/builder/builder_base.py', 'qmeq/qdot.py', 'qmeq/leadstun.py', 'qmeq/baths.py', A+'aprclass.py'],
 [('add/change', 'qmeq/builder/builder_base.py add, change; qmeq/qdot.py; qmeq/leadstun.py; qmeq/baths.py'), ('caching between solves', A+'aprclass.py prepare_arrays, states_changed')],
 'builder.Ea, Tba, phi0, current after each solve()')

prop('P11', 'Numerical options never change the answer',
 'The choice of linear solver, symmetric or full generator storage, normalisation row, matrix-free solution, kernel copy and principal-value-storage options changes the cost and not the result: state and currents agree to solver accuracy with the default options. Options set before or between solves take effect from the next solve on.',
 ['configurations', 'histories'], 'All valid combinations of solver, symmetrised kernel, normalisation row, matrix-free mode, kernel copies, off-diagonal corrections, on all systems.',
 'Tests run a few combinations on one small system.',
 [A+'aprclass.py', A+'c_aprclass.pyx', 'qmeq/builder/funcprop.py', A+'kernel_handler.py', A+'c_kernel_handler.pyx'],
 [('solvers', A+'aprclass.py solve_kern, solve_matrix_free'), ('symq/norm_row', A+'c_kernel_handler.pyx'), ('option forwarding', 'qmeq/builder/builder_base.py, funcprop.py')],
 'builder.phi0, current for each option combination')

prop('P12', 'Restricting, restoring and switching state spaces is exact',
 'Removing states, Fock states or coherences solves exactly the master equation on the kept elements, and restoring all states returns the original results. Switching a live system between approaches gives the same result as building it with the target approach, whatever was solved before.',
 ['histories', 'configurations'], 'All removal criteria, sequences of remove/restore/switch/solve, all approaches and indexings.',
 'Tests remove states once in one order for one system.',
 ['qmeq/builder/builder_base.py', 'qmeq/builder/various.py', 'qmeq/indexing.py', A+'aprclass.py'],
 [('remove/restore', 'qmeq/builder/various.py remove_states, remove_coherences, use_all_states'), ('approach switch', 'qmeq/builder/builder_base.py change_kerntype, change_si')],
 'builder results after each operation')

prop('P13', 'Equivalent inputs give equal systems; inputs and instances stay isolated',
 'Lists, arrays, dictionaries and pre-assembled many-body matrices that describe the same system give the same results. Building, changing and solving never modifies the caller\'s containers, never alters another system, and solving again without changes repeats the result exactly.',
 ['inputs', 'histories'], 'All accepted input formats and builders, interleaved operation of several systems sharing the input containers.',
 'Tests pass fresh literals to one system at a time.',
 ['qmeq/builder/', 'qmeq/qdot.py', 'qmeq/leadstun.py', 'qmeq/baths.py'],
 [('input normalisation', 'qmeq/leadstun.py, qmeq/qdot.py, qmeq/baths.py make_*'), ('builders', 'qmeq/builder/builder.py, builder_elph.py')],
 'builder attributes and the caller\'s containers')

prop('P14', 'Special functions equal their mathematical definitions everywhere',
 'Fermi, Bose, digamma, principal-value, Hilbert-transform and fourth-order integral functions agree with their mathematical definitions to their documented accuracy over their whole argument range, including extreme, negative, degenerate and band-edge arguments, and never overflow to a wrong value.',
 ['inputs'], 'All real arguments in and far beyond the physical range; all signs and option values; compiled and pure-Python versions.',
 'Tests evaluate a handful of arguments.',
 ['qmeq/specfunc/specfunc.py', 'qmeq/specfunc/c_specfunc.pyx', 'qmeq/specfunc/specfunc_elph.py', 'qmeq/specfunc/c_specfunc_elph.pyx'],
 [('fermi/digamma/PV functions', 'qmeq/specfunc/c_specfunc.pyx'), ('Hilbert kernel', 'qmeq/specfunc/specfunc.py kernel_fredriksen, hilbert_fredriksen'), ('RTD integrals', 'qmeq/specfunc/c_specfunc.pyx integralD, integralX, delta_phi, BW_Ozaki')],
 'return values')

prop('P15', 'The second-order von Neumann iteration keeps its history and resumes exactly',
 'Solving with a given number of iterations in one call, in several resumed calls, or again after a restart gives identical states, currents and iteration records, and the record lists one entry per iteration in order. A change of parameters, bands or grid followed by a restart forgets the earlier solution completely.',
 ['histories'], 'All ways of splitting the iterations, restarts, grid changes and parameter changes in between.',
 'Tests run one uninterrupted solve.',
 [A+'base/neumann2.py', A+'base/c_neumann2.pyx', 'qmeq/builder/builder_base.py'],
 [('iteration driver', A+'base/neumann2.py solve, iterate, restart'), ('records', A+'base/neumann2.py Iterations2vN')],
 'builder.current, phi0, niter, iters')

prop('P16', 'The RTD approach is the next order on top of the rate equation',
 'RTD currents and populations deviate from the rate equation by an amount that vanishes faster than the leading order when all tunnel couplings are scaled down, uncoupled subsystems contribute additively, and its kernel columns conserve probability. Leads added with zero coupling change nothing, and currents of a spin-degenerate level depend on couplings only through their rates.',
 ['inputs', 'configurations'], 'All real-amplitude interacting systems, couplings scaled over decades, decoupled parts, idle leads, unequal temperatures.',
 'Tests pin a single regression point.',
 [A+'base/c_RTD.pyx', A+'base/RTD.py', 'qmeq/specfunc/c_specfunc.pyx'],
 [('fourth-order kernel', A+'base/c_RTD.pyx generate_kern/generate_row_*'), ('integrals', 'qmeq/specfunc/c_specfunc.pyx integralD, integralX')],
 'builder.current, phi0, kern')

prop('P17', 'Phonon baths act by the golden rule and thermalise the dot',
 'With phonon baths every first-order approach solves its master equation extended by the corresponding electron-phonon terms, as derived independently in operator form, including user spectral functions and band limits. Zero coupling or an empty bath reproduces the results without phonons, baths conserve charge, and a dot relaxed by baths and leads of a common temperature reaches that equilibrium.',
 ['inputs', 'configurations'], 'All dots, bath numbers, coupling matrices, spectral functions, bath temperatures, principal value options and approaches.',
 'Tests cover one double dot with fixed spectral functions.',
 [A+'elph/', 'qmeq/baths.py', 'qmeq/specfunc/specfunc_elph.py', 'qmeq/specfunc/c_specfunc_elph.pyx'],
 [('phonon rates', 'qmeq/specfunc/c_specfunc_elph.pyx'), ('generators', A+'elph/c_*.pyx')],
 'builder.phi0, current, energy_current')

prop('P18', 'The native extensions never touch memory they do not own',
 'For every accepted input, option and sequence of operations, the compiled approaches read and write only inside the arrays they were given, use no uninitialised or freed memory and no undefined arithmetic. Results do not depend on what the allocator returns.',
 ['inputs', 'configurations', 'histories'], 'All systems, approaches, options and operation sequences accepted by the builders.',
 'The extensions are compiled without bounds checks, so a stray access usually passes a test silently.',
 [A+'c_aprclass.pyx', A+'c_kernel_handler.pyx', A+'base/c_*.pyx', A+'elph/c_*.pyx', 'qmeq/specfunc/*.pyx', 'qmeq/wrappers/c_lapack.pyx'],
 [('raw array access', A+'c_kernel_handler.pyx'), ('LAPACK wrappers', 'qmeq/wrappers/c_lapack.pyx')],
 'address/undefined sanitizers, bounds-checked build, allocator poisoning')

prop('P19', 'Results do not depend on the number of threads',
 'Parallel sections give the same kernels, states and currents for any number of worker threads and any schedule, with no data race between them.',
 ['schedules', 'configurations'], 'All thread counts, schedules and systems for the approaches with parallel sections.',
 'Tests run with one thread on a system with a few states.',
 [A+'base/c_RTD.pyx', A+'c_kernel_handler.pyx', 'qmeq/specfunc/c_specfunc.pyx'],
 [('parallel kernel rows', A+'base/c_RTD.pyx prange'), ('per-thread kernel copies', A+'c_kernel_handler.pyx KernelHandlerRTD')],
 'builder.kern, phi0, current for several thread counts; thread sanitizer reports')

prop('P20', 'Element accessors and state listings report the solved state',
 'Asking for any element of the density matrix or of the tunnelling-resolved auxiliary state returns the value the solution holds for that pair, conjugate for exchanged labels, zero for elements that the approach or a removal excludes, in every indexing and approach. Sorting and printing of eigenstates list every considered state once with its energy, charge and decomposition, without changing the results.',
 ['inputs', 'configurations'], 'All pairs of states, approaches, indexings, removals and sort keys.',
 'Tests query a few elements for one system.',
 ['qmeq/builder/various.py', 'qmeq/indexing.py'], [('get_phi0/get_phi1', 'qmeq/builder/various.py'), ('sort_eigenstates/print_state', 'qmeq/builder/various.py')],
 'return values and printed listings')

prop('P21', 'Failures are contained and visible',
 'A solve that cannot succeed reports failure and leaves no stale or fabricated result behind: after a failed solve the success flag is false and observables are not those of an earlier solve, and once the cause is repaired the same object gives the correct result. Invalid input (unknown approach, option, bad shapes) is reported when given and never turns silently into a different calculation.',
 ['fault_sequences', 'histories', 'inputs'], 'Singular generators, injected solver failures at any call, invalid options; followed by repair.',
 'Tests never make a solve fail.',
 [A+'aprclass.py', 'qmeq/builder/validation.py', 'qmeq/builder/builder_base.py'],
 [('solver error handling', A+'aprclass.py solve_kern'), ('input validation', 'qmeq/builder/validation.py')],
 'builder.success, phi0, current; raised exceptions')

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
