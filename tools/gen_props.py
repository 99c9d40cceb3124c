#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))
M='doatools/model/'; E='doatools/estimation/'; F='doatools/performance/'
SH = 'every interleaving of callers sharing the objects, every point at which a call may be interrupted, every order of earlier calls'

p('C01','Steering matrices on shared arrays always follow the documented model',
  'For any array design, element type, source placement, wavelength and perturbation selection, the steering matrix a call returns (and its derivative matrix for 1D far-field sources) equals the documented phase-delay, spatial-response and perturbation model of that call\'s arguments. This holds whatever other callers do with the same array and source objects in any interleaving, including from inside a sensor-response callback, and whichever earlier calls or array derivations completed, failed or were interrupted part-way. Elements may be the built-in kinds or derived by the caller, and their responses to given directions follow their definition. Combinations documented as unsupported fail with an error instead of returning a matrix.',
  ['schedules','fault_sequences','histories','configurations'], SH,
  'Tests check a few fixed arrays in one thread, with no perturbed steering matrix at all (test_with_perturbations is empty) and no shared, repeated or interrupted use.',
  [M+'arrays.py',M+'sources.py',M+'perturbations.py',M+'array_elements.py'],
  [('ArrayDesign.steering_matrix',M+'arrays.py'),('SourcePlacement.phase_delay_matrix',M+'sources.py'),('ArrayPerturbation.perturb_*',M+'perturbations.py'),('ArrayElement.calc_spatial_response',M+'array_elements.py')],
  [('perturbations','perturbations attached to an array',M+'arrays.py')],['return value of ArrayDesign.steering_matrix'])

p('C02','Array designs are immutable; derived copies are isolated',
  'An array keeps reporting the geometry its design defines and the perturbations it was created with (nominal and actual locations, size, name, dimensions, perturbation parameters and known flags), whatever copies are derived from it. A perturbed copy carries its parent\'s perturbations with those of the same type replaced, a perturbation-free copy carries none, and neither changes its parent, siblings or descendants. This holds at every instant under concurrent derivation and after derivations rejected or interrupted part-way, and a caller writing into returned location arrays cannot change any array. Perturbations may be of the built-in kinds or derived by the caller from ArrayPerturbation; parameters that do not fit the array (wrong size, non-square coupling) are rejected when the array is created.',
  ['schedules','fault_sequences','histories','configurations'], SH+'; every tree of derivations',
  'Tests derive one chain of copies on a 5-element ULA and never look back at the parent, at siblings, at failed derivations or at concurrent ones.',
  [M+'arrays.py',M+'perturbations.py'],
  [('get_perturbed_copy / get_perturbation_free_copy',M+'arrays.py'),('geometry constructors',M+'arrays.py')],
  [('perturbation map','type -> perturbation, per array',M+'arrays.py'),('locations','nominal geometry',M+'arrays.py')],['public properties of ArrayDesign and its subclasses'])

p('C03','Source placements: slices and unit conversions are independent and faithful',
  'A subset, full slice or unit conversion of a source placement has exactly the selected locations (the same physical directions in the new unit, with the matching units and valid ranges) and is independent storage: writing into one never shows in the placement or grid it came from or in anything else derived from them. Spherical coordinates reported for any placement are those of its current locations relative to each reference point. Locations outside the valid range of the unit, and unknown units, are rejected with ValueError; indices of locations that do not exist and index arrays of several dimensions are rejected, too. This holds for every history of slicing, converting and writing by any number of interleaved callers, with interruptions at any point.',
  ['schedules','fault_sequences','histories'], SH+'; every sequence of index, slice, mask, list, convert and write operations',
  'Tests build each placement once and read it; they never write into a copy, chain derivations or interleave callers.',
  [M+'sources.py','doatools/utils/conversion.py'],
  [('SourcePlacement.__getitem__',M+'sources.py'),('as_unit',M+'sources.py'),('calc_spherical_coords',M+'sources.py')],
  [('locations','the ndarray of source locations',M+'sources.py')],['locations/units/valid_ranges/calc_spherical_coords'])

p('C04','Search grids stay consistent through lazy creation and refinement chains',
  'The points of a search grid are always the row-major Cartesian product of its axes, in its units, for every caller, even when first accesses race or one of them is interrupted. A grid refined at a coordinate, at any depth of a refinement chain, spans exactly the requested number of cells around it clipped to its parent, with the requested number of equal sub-intervals per cell, and is of the same kind and units. Refinement never changes the parent or any other grid.',
  ['schedules','fault_sequences','histories','configurations'], SH+'; every refinement chain over 1D, multi-range, 2D far-field and 2D near-field grids',
  'Tests refine a fresh far-field grid once, never a near-field or multi-range grid, never a refined grid, never racing with the lazy creation of the points.',
  [E+'grid.py'],[('lazy source placement',E+'grid.py'),('create_refined_axes_at',E+'grid.py')],
  [('cached source placement','created on first access',E+'grid.py')],['source_placement/axes/shape/units, create_refined_grid(s)_at'])

p('C05','Grid-based estimators return the spectrum of the covariance they were given',
  'Each call of a Bartlett, MVDR, MUSIC or Min-Norm estimator returns the spectrum documented for its array (with known perturbations only), wavelength, grid and the covariance matrix and source count of that very call. The result does not depend on caching being on or off, on earlier or concurrent calls on the same estimator, array or grid (including refined ones), or on calls that raised or were interrupted. A covariance matrix whose shape does not fit the array, or a source count the method cannot resolve, is rejected.',
  ['schedules','fault_sequences','histories','configurations'], SH+'; caching on/off; all grid kinds and array kinds',
  'Tests call a fresh estimator once or twice on one ideal covariance; the cache is never used with different inputs, faults or threads, and spectra are never compared with a reference.',
  [E+'core.py',E+'beamforming.py',E+'music.py',E+'min_norm.py'],
  [('cached atom matrix',E+'core.py'),('spectrum functions',E+'music.py, beamforming.py, min_norm.py')],
  [('atom matrix cache','steering matrix of the search grid',E+'core.py')],['estimate(..., return_spectrum=True)'])

p('C06','Peak selection is exact for whatever the peak finder reports',
  'A grid-based estimator is resolved exactly when its peak finder reports at least as many peaks as sources; its estimates are then that many of the highest reported peaks, as grid points in grid order, with the grid\'s type and units. Otherwise the estimates are None. This holds for any peak finder (any order, number, ties, one that raises or calls back into the estimator), for 1D and 2D grids and every grid-based estimator, and a failing peak finder leaves the estimator usable.',
  ['schedules','fault_sequences','inputs','configurations'], 'every behaviour of the peak-finder callback, including failure and re-entry, in every call history',
  'Tests only use the default finder on clean spectra with well separated peaks, so unresolved, tied, 2D, failing and re-entrant cases never occur.',
  [E+'core.py'],[('SpectrumBasedEstimatorBase._estimate',E+'core.py'),('find_peaks_simple',E+'core.py')],
  [('peak_finder','callback supplied by the caller',E+'core.py')],['(resolved, estimates, spectrum)'])

p('C07','Grid refinement improves each estimate locally and has no side effects',
  'With refinement on, every estimate lies within one cell of the grid peak it refines and inside the grid, has a spectrum value no lower than that peak on a uniform grid, and lies at the final resolution given by the requested density and number of iterations, at least as high as its neighbours there (in 2D, as its neighbours in the last refinement grid). The estimates stay ordered by their grid peak and the reported spectrum is still that of the original grid. Refinement, complete or interrupted at any point, changes no later or concurrent result of the same estimator or grid.',
  ['schedules','fault_sequences','histories','configurations'], SH+'; all grid kinds, densities, iteration counts',
  'One test refines one MUSIC result and checks only that the MSE falls.',
  [E+'core.py',E+'grid.py'],[('_refine_estimates',E+'core.py'),('create_refined_grids_at',E+'grid.py')],
  [('working locations','estimates updated in place',E+'core.py')],['estimate(..., refine_estimates=True)'])

p('C08','ML estimators return the optimiser\'s point for the documented objective',
  'For any covariance matrix and initial placement, an AML, CML or WSF estimator minimises its documented objective starting at the guess within the valid location ranges, and returns exactly the optimiser\'s final point as a placement of the guess\'s type and units, or unresolved with None when the optimiser reports failure. The objective value at a point depends only on that point and the call\'s inputs, in whatever order points are evaluated and whatever earlier calls on that estimator succeeded, failed or were interrupted. The guess is left untouched, and placements returned earlier, including the last-estimates copy, never change. The stochastic negative log-likelihood function returns log|S| + tr(S^-1 R) of its arguments at every scale.',
  ['schedules','fault_sequences','histories'], 'every evaluation order and outcome of the optimiser, every history of calls on one estimator, every interruption point, distinct estimators interleaved on one array',
  'There is no test of the ML estimators at all.',
  [E+'ml.py'],[('estimate',E+'ml.py'),('_eval_nll of AML/CML/WSF',E+'ml.py')],
  [('working estimates','reused and modified in place during optimisation',E+'ml.py'),('WSF weight matrix','prepared per call',E+'ml.py')],['calls crossing into scipy.optimize.minimize','estimate / get_last_estimates'])

p('C09','Sparse estimators never report a stale or failed solution as resolved',
  'Whenever a sparse-recovery estimator or regularised least-squares problem reports a solution, it is, to solver accuracy, an optimal solution of its documented convex program for the data and parameter of that call, whatever problems the same reusable object solved before. When the solver raises, is infeasible, stops early or returns an inaccurate point, the call raises or is unresolved, and nothing from that or an earlier problem leaks into this or any later result. An interrupted call leaves the object usable with the same guarantees.',
  ['fault_sequences','histories','configurations'], 'every sequence of problems, parameters and solver outcomes on a reused object, all formulations, 1D and 2D grids',
  'There is no test of the sparse estimators or the problem classes; solver failures never occur in tests.',
  [E+'sparse.py','doatools/optim/l1lsq.py'],[('parametrised reusable problem','doatools/optim/l1lsq.py'),('_get_sparse_spectrum',E+'sparse.py')],
  [('problem parameters and variable values','kept in the reusable problem object','doatools/optim/l1lsq.py')],['estimate / solve results','calls crossing into the convex solver'])

p('C10','Coarray weight functions and augmented covariances equal their definition',
  'For any 1D grid-based array, the weight function reports for every difference exactly the index pairs producing it, the sorted unique differences and weights, the central virtual-ULA size and the selection matrix; and the augmented covariance built from a matrix equals the documented redundancy-averaging construction for the requested method. Shared weight functions and builders give these answers to interleaved callers in every order of queries, after interrupted queries, and even if callers modify returned lists, arrays or matrices.',
  ['schedules','fault_sequences','histories','configurations'], SH,
  'Tests query two fixed arrays in one order and check one pipeline end to end; caches and aliasing are never exercised.',
  [M+'coarray.py',E+'coarray.py'],[('index map, lazily computed central size',M+'coarray.py'),('transform',E+'coarray.py')],
  [('index map','difference -> indices',M+'coarray.py'),('central ULA size','computed on first query',M+'coarray.py')],['WeightFunction1D and CoarrayACMBuilder1D results'])

p('C11','Snapshots are exactly A s + n for the samples the generators emitted',
  'One snapshot call draws the requested number of samples exactly once from the source generator and, if given, once from the noise generator, and returns the steering matrix times the emitted source samples plus the emitted noise; the sample covariance is that of the returned snapshots. Buffers owned by the generators are never modified or retained, and a generator that fails, is interrupted or calls back into the library makes that call fail or not affect it, leaving array, sources and generators reusable. Steering uses all perturbations, known or not.',
  ['schedules','fault_sequences','histories','configurations'], 'every behaviour of user-supplied generators (reused buffers, read-only data, failures, re-entry), every interleaving of callers sharing array and sources',
  'Tests only use the built-in generators and look at statistics; generator misbehaviour, buffer reuse and sharing are never exercised.',
  [M+'snapshots.py'],[('get_narrowband_snapshots',M+'snapshots.py')],[],['returned snapshots and covariance','emit calls on the SignalGenerator seam'])

p('C12','Random streams are reproducible and only random operations touch them',
  'After seeding NumPy\'s global generator, the same sequence of signal emissions and snapshot calls gives bit-identical results whatever happened before the seeding (including interrupted emissions) and whatever non-random library operations run in between or interleaved. Non-random operations leave the global generator state unchanged. Successive emissions, and emissions of different generators, use fresh draws.',
  ['schedules','fault_sequences','histories'], 'every history before the seed, every interleaving of deterministic operations with the emitting caller',
  'Tests seed once and check one statistic; a hidden buffer, cache or stray draw would not be noticed.',
  [M+'signals.py',M+'snapshots.py','doatools/utils/math.py'],[('randcn','doatools/utils/math.py'),('emit',M+'signals.py')],
  [('numpy global RNG','process-wide random stream','numpy.random')],['emitted samples; np.random.get_state()'])

p('C13','Simulated signals have the specified second-order statistics',
  'Over the randomness of the generator, complex stochastic signals are zero-mean, circularly symmetric, independent across snapshots and calls, and have the specified covariance whether given as a scalar, a power vector or a full (possibly complex or singular) matrix. Random-phase signals have exactly the specified amplitudes and independent phases uniform over the circle. Snapshot covariances accordingly converge to steering times source covariance times its conjugate transpose plus noise covariance.',
  ['histories','configurations'], 'all random streams (sampled by seed), all covariance specifications, dimensions, sample counts and call splits',
  'Tests check one diagonal covariance with a loose tolerance for one seed; circularity, independence, full matrices, scalar amplitudes and call splitting are not looked at.',
  [M+'signals.py','doatools/utils/math.py',M+'snapshots.py'],[('ComplexStochasticSignal, RandomPhaseSignal',M+'signals.py'),('randcn','doatools/utils/math.py')],[],['emit(), get_narrowband_snapshots()'])

p('C14','Root-MUSIC and ESPRIT give each call the answer of that call\'s covariance',
  'Root-MUSIC and ESPRIT recover the true directions from an exact uniform-linear-array covariance with resolvable sources, for every spacing, unit, displacement, formulation and row weighting, and for a noisy covariance return the directions of the documented algorithm; the estimates are reported in ascending order. Results depend only on that call\'s arguments, for any interleaving of callers sharing an estimator and covariance and after interrupted or failed calls. A result is reported as resolved only with finite locations inside the valid range.',
  ['schedules','fault_sequences','histories','configurations'], SH,
  'Tests use one ULA per estimator with tolerances of 1e-2 for ESPRIT, one unit and half-wavelength spacing only.',
  [E+'music.py',E+'esprit.py',M+'sources.py'],[('RootMUSIC1D.estimate',E+'music.py'),('Esprit1D.estimate',E+'esprit.py'),('from_z',M+'sources.py')],[],['(resolved, estimates)'])

p('C15','Source-number detectors minimise their criterion and find the sources in noise',
  'AIC, MDL and SORTE return the minimiser of their documented criterion for the eigenvalues, or covariance matrix, of that call, identically for either input form and for any interleaving or interruption of callers sharing the data. On simulated measurements with many snapshots and adequate signal-to-noise ratio, MDL and SORTE report the true number of sources and AIC never fewer.',
  ['schedules','fault_sequences','histories','inputs'], 'all noise realisations (sampled by seed), numbers of sensors, sources and snapshots',
  'Tests use one ideal eigenvalue vector and one noisy run.',
  [E+'source_number.py'],[('aic, mdl, sorte',E+'source_number.py')],[],['returned source numbers'])

p('C16','Performance bounds on shared arrays equal their definition',
  'The deterministic, stochastic and uncorrelated-source Cramer-Rao bounds and the MUSIC and coarray-MUSIC error covariances equal their defining expressions for the array (with its perturbations as selected), sources, powers, noise and snapshot count of that call, in full, diagonal or mean form and for every accepted way of giving the powers. This holds for any number of interleaved callers sharing arrays, sources and power matrices while others derive perturbed copies, and after interrupted calls.',
  ['schedules','fault_sequences','histories','configurations'], SH+'; all return modes, power forms, units, perturbations, spacings',
  'Tests compare one unperturbed half-wavelength array per bound with stored numbers.',
  [F+'crb.py',F+'mse.py',F+'utils.py'],[('crb_*_farfield_1d',F+'crb.py'),('ecov_*_1d',F+'mse.py')],[],['returned matrices'])

p('C17','Analytical performance predictions agree with simulated estimation errors',
  'Over the randomness of signals and noise with many snapshots, the empirical error covariance of (root-)MUSIC and of coarray MUSIC on simulated measurements agrees with the predicted asymptotic covariance for the same array, spacing, sources and powers. Maximum-likelihood estimates attain, and no consistent estimator significantly beats, the Cramer-Rao bound of the matching signal model.',
  ['histories','configurations'], 'all random streams (sampled by seed), arrays, spacings, sources, powers',
  'One test compares the diagonal for one nested array at half-wavelength spacing with 10% tolerance.',
  [F+'mse.py',F+'crb.py',M+'snapshots.py',E+'coarray.py',E+'music.py',E+'ml.py'],[('Monte Carlo pipeline',M+'snapshots.py'),('ecov_*, crb_*',F)],[],['empirical versus analytical covariance'])

p('C18','No operation ever modifies the data its caller passed in',
  'No library operation, whether it completes, fails or is interrupted, modifies a covariance matrix, snapshot matrix, eigenvalue vector, weight vector, power or perturbation array, angle array, grid axis, source placement or options dictionary supplied by the caller. Concurrent holders of the same data never observe it changed, not even temporarily while the operation is running.',
  ['schedules','fault_sequences','configurations'], 'every library operation, every instant during it, every interruption point',
  'Tests never compare inputs before and after a call, let alone during it.',
  [E+'preprocessing.py',E+'esprit.py',E+'sparse.py',E+'ml.py',E+'source_number.py',E+'coarray.py',M+'sources.py',M+'snapshots.py','doatools/utils/math.py',F+'utils.py'],
  [('copy-before-write in every operation','throughout')],[],['caller-owned arrays at every scheduling step'])

p('C19','An interrupted or failed call leaves every shared object fully usable',
  'If any library call is cut short at an arbitrary point (keyboard interrupt, allocation failure, numerical failure, cancellation), the exception reaches the caller, and every array, placement, grid, weight function, builder, estimator and optimisation problem involved afterwards gives the same results as a freshly created one. Repeating the interrupted call returns the correct result, at the latest on the first attempt after faults stop.',
  ['crash_points','fault_sequences','histories'], 'every interruption point inside every operation on warm or cold objects, several interruptions in a row',
  'No test interrupts anything.',
  [E+'core.py',E+'grid.py',E+'ml.py',E+'coarray.py',M+'coarray.py','doatools/optim/l1lsq.py',M+'arrays.py',M+'sources.py'],
  [('assign-after-compute in every lazy cache','core.py, grid.py, coarray.py'),('per-call re-initialisation of working state',E+'ml.py, l1lsq.py')],
  [('all lazily created or reused state','see C04, C05, C08, C09, C10','')],['results after the fault versus a fresh object'])

p('C20','Plotting draws the given data on the given axes and nothing else',
  'A plotting call with explicit axes draws exactly the supplied spectrum, estimates, ground truth, array elements or coarray there and nowhere else, whatever figure or axes is current in the plotting library and whatever was plotted, shown or interrupted before; without axes it creates and shows one new figure. Array and coarray plots show the nominal positions, plus the actual positions when location errors exist and are requested. Plotting never modifies the data, grid, array or random stream.',
  ['histories','fault_sequences','configurations'], 'every history of the plotting library\'s global state (current figure/axes), every interruption point',
  'There is no plotting test.',
  ['doatools/plotting/plot_spectrum.py','doatools/plotting/plot_array.py'],[('plot_spectrum*','doatools/plotting/plot_spectrum.py'),('plot_array, plot_coarray','doatools/plotting/plot_array.py')],
  [('pyplot current figure/axes','process-global','matplotlib.pyplot')],['artists on all live axes'])

p('C21','A missing or broken convex solver disables only the sparse estimators',
  'When the optional convex-optimisation package cannot be imported, everything except the sparse-recovery classes imports and works exactly as before, and constructing a sparse-recovery class raises RuntimeError.',
  ['configurations','fault_sequences'], 'every import-failure point of the optional dependency, every library operation afterwards',
  'The tests run only with the package installed.',
  ['doatools/optim/l1lsq.py',E+'sparse.py',E+'__init__.py'],[('guarded import','doatools/optim/l1lsq.py')],[('cvx_available','import outcome','doatools/optim/l1lsq.py')],['import and constructor outcomes'])

p('C22','End-to-end: simulated measurements yield the true source locations',
  'For simulated measurements of resolvable sources at adequate signal-to-noise ratio and snapshot count, each estimator returns the true source locations to within the accuracy its grid, method and noise level allow: 1D and 2D far-field and near-field MUSIC, MVDR, Bartlett and Min-Norm, root-MUSIC, ESPRIT, AML/CML/WSF, sparse covariance matching and group-sparse recovery. This includes arrays with known perturbations, coarray processing of more sources than sensors, and coherent sources after spatial smoothing. It holds for every random stream and campaign of calls on reused estimators, with individual calls lost to interruptions.',
  ['histories','fault_sequences','configurations'], 'all random streams (sampled by seed), array geometries, perturbations, units, source placements; interruptions between and inside calls',
  'Tests recover DOAs from ideal covariances of single fixed scenarios, only far-field 1D.',
  [E,M],[('whole pipeline: array -> snapshots -> covariance -> estimator',E)],[],['estimates versus true locations'])

p('N01','Angle-unit and coordinate conversions are mutually consistent',
  'Converting angular values between radians, degrees and sines and back returns the original values over the documented range, and Cartesian-to-spherical and azimuth-elevation-to-broadside conversions follow their definitions.',
  ['inputs'],'all real inputs in range','Tests sample a handful of values.',
  ['doatools/utils/conversion.py'],[('convert_angles, cart2spherical, ae2broad','doatools/utils/conversion.py')])
p('N02','Matrix helpers satisfy their defining identities',
  'Vectorisation, Khatri-Rao product, projection matrix, Cartesian product and tolerance-based unique rows satisfy their defining algebraic identities for all inputs.',
  ['inputs'],'all real and complex matrices','Tests sample a handful of matrices.',
  ['doatools/utils/math.py'],[('vec, khatri_rao, projm, cartesian, unique_rows','doatools/utils/math.py')])
p('N03','Spatial smoothing and l1-SVD satisfy their defining identities',
  'Forward (and forward-backward) spatial smoothing equals the average over the subarrays (and their conjugate-reversed copies) and stays Hermitian positive semidefinite; the reduced measurement matrix has the given rank and the signal-subspace Gram matrix of the input.',
  ['inputs'],'all covariance and snapshot matrices','Tests sample two fixed matrices; l1_svd has none.',
  [E+'preprocessing.py'],[('spatial_smooth, l1_svd',E+'preprocessing.py')])
p('N04','Malformed arguments are rejected with a clear error',
  'Constructors and estimators given arguments outside their documented domain (wrong shapes, out-of-range angles, unknown units, non-coprime pairs, non-square coupling matrices) raise ValueError or RuntimeError instead of computing with them.',
  ['inputs'],'all malformed inputs','Tests check no rejection paths.',
  [M,E],[('argument validation','throughout')])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for q in P:
        assert len(q['title'])<=80,(q['id'],len(q['title']))
        f.write(json.dumps(q,ensure_ascii=False)+'\n')
print(len(P))
