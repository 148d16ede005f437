import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,state=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
S='src/sparse_ir/'
prop('C01','Continuation kernels equal their closed form everywhere on their domain',
 'For every cutoff and every point of the domain, the logistic and the regularized bosonic kernel, and their even and odd symmetrised restrictions, return the documented closed-form value to rounding accuracy, without overflow or NaN. This holds for scalars and broadcast arrays alike, with or without the optional distances to the domain edges, and those distances are honoured where the point itself rounds to the edge. The weight functions equal 1 (fermions), 1/tanh(Lambda*y/2) (bosons, logistic) and 1/y (bosons, regularized).',
 ['inputs','configurations'],'all cutoffs, all (x, y) in the domain, all argument shapes, all precisions',
 'test_kernel compares each kernel with itself in another precision at Gauss nodes of six fixed kernels, so it never sees a wrong formula, scalars, the domain corners or the symmetrised kernels without explicit edge distances.',
 [S+'kernel.py'],[('closed-form evaluation with branch on sign of y',S+'kernel.py:LogisticKernel._compute, RegularizedBoseKernel._compute'),('symmetrised kernels',S+'kernel.py:ReducedKernel, _LogisticKernelOdd, _RegularizedBoseKernelOdd')],['kernel.LogisticKernel.__call__','kernel.RegularizedBoseKernel.__call__','get_symmetrized','weight_func'])
prop('C02','Singular value expansion reproduces the kernel for every configuration',
 'For every kernel, cutoff, accuracy target, expansion strategy and SVD strategy, the expansion returned reproduces the kernel pointwise to the requested accuracy. Left and right functions are orthonormal, singular values are positive and non-increasing, each triple satisfies the singular-value equation, and every left function is positive at the right edge. Different strategies agree on the same expansion, and centrosymmetric kernels give functions of alternating definite parity that matches the declared symmetry.',
 ['inputs','configurations'],'all kernels (built-in and user-defined) x cutoffs x accuracies x strategies x working precisions',
 'The tests only take the default strategy at three cutoffs and look at root counts and smoothness; no test checks the expansion against the kernel.',
 [S+'sve.py',S+'kernel.py',S+'_gauss.py',S+'svd.py'],[('discretisation and reconstruction',S+'sve.py:SamplingSVE'),('block diagonalisation',S+'sve.py:CentrosymmSVE'),('gauge',S+'sve.py:_canonicalize')],['sparse_ir.compute_sve','SVEResult.u/s/v'])
prop('C03','Truncation keeps exactly the singular triples it should',
 'Whatever combination of relative cutoff, maximum number, accuracy and maximum size is given, an expansion or a basis keeps exactly the leading singular triples that satisfy all of them, in the same order and with the same values as without truncation. A basis reports as significance its singular values relative to the largest, and as accuracy the relative size of the first discarded one (or of the last one if none was discarded).',
 ['inputs','configurations'],'all truncation parameters, including those falling exactly on, just below and just above a singular value',
 'Tests use the default truncation or one fixed accuracy, and only check that the accuracy is positive and no larger than the last significance.',
 [S+'sve.py',S+'basis.py'],[('truncation in compute',S+'sve.py:_truncate'),('part',S+'sve.py:SVEResult.part'),('accuracy',S+'basis.py:FiniteTempBasis.__init__')],['compute_sve(cutoff=, n_sv=)','SVEResult.part','FiniteTempBasis(eps=, max_size=)'])
prop('C04','IR coefficients of a pole give the exact propagator in time and frequency',
 'For every statistics, temperature, bandwidth and pole position within the bandwidth, expanding the pole with the singular values and real-frequency functions and evaluating the expansion in imaginary time or at any Matsubara frequency gives the analytically known propagator to the accuracy of the basis. Equivalently, the sum over l of u_l(tau) s_l v_l(omega) reproduces the continuation kernel in physical units.',
 ['inputs','configurations'],'all statistics, kernels, beta, wmax, accuracies, pole positions, times in [0, beta] and frequencies of either sign and any size',
 'Tests never compare with an analytic propagator; they only check noise amplification and self-consistency at beta = 1 or 2.',
 [S+'basis.py',S+'poly.py',S+'sve.py'],[('scaling to physical units',S+'basis.py:FiniteTempBasis.__init__'),('Fourier transform',S+'poly.py:PiecewiseLegendreFT')],['FiniteTempBasis.u, .s, .v, .uhat'])
prop('C05','Matsubara basis functions are the Fourier transform of the time functions',
 'For every basis function, or derivative or subset of basis functions, and every admissible integer frequency, however large and of either sign, the Matsubara-axis value is the Fourier integral of the imaginary-time function, on both sides of the point where the high-frequency expansion takes over. Values at opposite frequencies are complex conjugates, and functions of definite parity are purely real or purely imaginary.',
 ['inputs','configurations'],'all functions l, all frequencies, both statistics, all cutoffs, all switch-over points',
 'Tests compare at a dozen frequencies with stored irbasis data or check shapes; no test integrates the time function, nor looks across the switch-over for each function.',
 [S+'poly.py',S+'basis.py'],[('spherical Bessel transform',S+'poly.py:_compute_unl_inner, _phase_stable, _get_tnl'),('high-frequency expansion',S+'poly.py:_PowerModel, _power_moments'),('switch-over',S+'poly.py:PiecewiseLegendreFT.__call__')],['PiecewiseLegendreFT.__call__','FiniteTempBasis.uhat'],
 [('n_asymp','frequency from which the expansion is used',S+'poly.py:PiecewiseLegendreFT')])
prop('C06','Piecewise polynomial evaluation and differentiation are exact',
 'For every set of segments, polynomial order and coefficients, evaluating a piecewise Legendre function at any point of its interval, including segment boundaries and end points, gives the value of the polynomial of the segment containing that point. Differentiating to any order, in one step or repeatedly, gives the piecewise derivative (zero beyond the polynomial order), and a derivative is itself a full-fledged function of the same kind.',
 ['inputs'],'all small piecewise polynomials over a finite coefficient alphabet, all evaluation points of a critical-point set, all derivative orders',
 'Tests only evaluate SVE results against themselves; derivatives are printed but never checked.',
 [S+'poly.py'],[('segment lookup',S+'poly.py:PiecewiseLegendrePoly._split'),('evaluation',S+'poly.py:PiecewiseLegendrePoly.__call__, value'),('derivative',S+'poly.py:PiecewiseLegendrePoly.deriv')],['PiecewiseLegendrePoly.__call__','value','deriv'])
prop('C07','Indexing and vectorisation agree with evaluating one by one',
 'For every basis-function set in time, real frequency or Matsubara frequency, selecting functions by any index expression and evaluating on an argument of any shape gives the same numbers as evaluating the selected functions one at a time at one point at a time, arranged with function axes first and argument axes after. Size, shape and dimension of a selection agree with what evaluation returns.',
 ['inputs'],'all index expressions (integer, negative, slice, list, mask) x all argument shapes, including scalars, empty and non-contiguous arrays, x all function sets',
 'Tests take three indices and one or two shapes at one cutoff.',
 [S+'poly.py',S+'_util.py',S+'augment.py',S+'dlr.py'],[('selection',S+'poly.py:PiecewiseLegendrePoly.__getitem__, PiecewiseLegendreFT.__getitem__'),('argument ravelling',S+'_util.py:RavelArgumentDecorator'),('broadcast',S+'poly.py:PiecewiseLegendrePoly.value')],['u, v, uhat: __getitem__, __call__, value, shape, size, ndim'])
prop('C08','Root and extremum searches find every sign change exactly once',
 'For a continuous piecewise polynomial whose roots are separated by the search grid, root finding returns each root once, in increasing order, to rounding accuracy, also when a root falls on a grid point or the function is symmetric. For a function on the integers, the sign-change search returns each zero on the grid and exactly one bracketing integer per sign change between neighbouring grid points; the extremum search returns exactly the positions where the function has its lobes of largest magnitude plus the qualifying end points; and the full frequency set is the mirror image of the non-negative one.',
 ['inputs'],'all functions over a finite value alphabet on all small grids, uniform or with gaps',
 'Tests count roots of three SVE results and extrema of four functions; the search code itself, its grid-hit and gap handling, is never driven directly.',
 [S+'_roots.py',S+'poly.py'],[('grid scan and bisection',S+'_roots.py:find_all, _bisect_cont, _bisect_discr'),('discrete extrema',S+'_roots.py:discrete_extrema, _bisect_discr_extremum'),('symmetric completion',S+'poly.py:PiecewiseLegendrePoly.roots, _symmetrize_matsubara')],['PiecewiseLegendrePoly.roots','PiecewiseLegendreFT.sign_changes, extrema'])
prop('C09','Default sampling points are valid, complete and well-conditioned',
 'For every basis and every requested number of points that the expansion can support, the default sampling times lie strictly inside (0, beta), increase, are symmetric about beta/2 and have the requested number. The default sampling frequencies are distinct ordered integers of the right parity, symmetric about zero, include zero for bosons, number at least the requested count, and their non-negative half is what is returned when only positive frequencies are asked for. The resulting fitting problems are well-conditioned.',
 ['inputs','configurations'],'all statistics, kernels, cutoffs, accuracies, truncations and requested numbers of points',
 'Tests use default points at one or two cutoffs through noise tests; requested numbers and truncated bases are not covered.',
 [S+'basis.py',S+'poly.py',S+'_roots.py'],[('time/real-frequency points',S+'basis.py:_default_sampling_points'),('frequency points',S+'basis.py:_default_matsubara_sampling_points')],['default_tau_sampling_points','default_matsubara_sampling_points','default_omega_sampling_points','TauSampling.cond','MatsubaraSampling.cond'])
prop('C10','Decomposed matrices multiply and least-squares fit along any axis',
 'For every full-rank matrix, real or complex, and every array, multiplying along a given axis is the matrix product along that axis, and fitting along a given axis returns for each vector along it the minimiser of the residual norm (of smallest norm if not unique). For the split form the minimiser is taken over real vectors. Input shape is preserved apart from the transformed axis, and the reported factors, condition number and array conversion agree with the matrix.',
 ['inputs'],'all small matrices over a finite entry alphabet x all right-hand sides x all array shapes and axes x element types',
 'Tests use three random matrices and one non-trivial axis; the split form has no direct test.',
 [S+'sampling.py',S+'_util.py'],[('axis handling',S+'sampling.py:_matop_along_axis'),('fit',S+'sampling.py:DecomposedMatrix._lstsq, SplitDecomposedMatrix._lstsq')],['DecomposedMatrix','SplitDecomposedMatrix'])
prop('C11','Sparse sampling evaluates on the points given and fitting inverts it',
 'For every basis, statistics and choice of sampling points, evaluation returns on the n-th sampling point the value of the expansion there, and fitting recovers the coefficients from these values, along any axis. When points are passed explicitly, the n-th value belongs to the n-th point given, in whatever order they are given, and the result is the same as that of a sampling object made for these points. Restriction to non-negative frequencies gives the same coefficients for functions real in imaginary time.',
 ['inputs','configurations'],'all bases (IR, discrete Lehmann, vertex-augmented), statistics, point sets and orders, axes, element types',
 'Tests pass one sorted point list and check noise at one cutoff; order, duplicates, zero frequency in the middle, axes and other bases are not covered.',
 [S+'sampling.py',S+'basis.py'],[('evaluate/fit',S+'sampling.py:AbstractSampling'),('explicit points',S+'sampling.py:_for_sampling_points'),('non-negative frequencies',S+'sampling.py:_split_complex, SplitDecomposedMatrix')],['TauSampling','MatsubaraSampling'])
prop('C12','Results never depend on what was called before',
 'Whatever sequence of library calls is made on a set of objects, successful or failing, each call returns what the same call on freshly made objects returns. No call changes an array passed to it, and writing into an argument after a call or into a computed result has no effect on any object. A bound method kept for later use keeps working on the object it was taken from.',
 ['histories','fault_sequences'],'all sequences of public calls up to a depth on bases, functions, samplings, augmented and discrete-Lehmann bases sharing one expansion, with caller writes in between',
 'Each test makes one call on fixtures; no test repeats calls, interleaves objects, keeps bound methods, or writes into arguments or results.',
 [S+'_util.py',S+'poly.py',S+'sampling.py',S+'basis.py',S+'dlr.py'],[('binding of the ravelling wrapper',S+'_util.py:RavelArgumentDecorator.__get__'),('shared attributes of selections',S+'poly.py:PiecewiseLegendrePoly.__init__'),('copies of arguments',S+'sampling.py:TauSampling.__init__')],['every public call'],
 [('instance','object the shared wrapper is bound to',S+'_util.py:RavelArgumentDecorator'),('sve_result','expansion shared between bases',S+'basis.py:FiniteTempBasis')])
prop('C13','Concurrent use from several threads gives the sequential results',
 'When several threads evaluate basis functions, transform with sampling objects or construct objects at the same time, on the same or on different objects, every call returns what it returns when run alone, for every interleaving of the threads.',
 ['schedules'],'all interleavings of two threads up to a bounded number of preemptions, preempting at every shared-state access',
 'No test uses threads; a race needs a switch between two particular bytecodes.',
 [S+'_util.py',S+'poly.py',S+'dlr.py',S+'sampling.py'],[('per-call binding',S+'_util.py:RavelArgumentDecorator.__get__, __call__'),('absence of shared mutable state',S+'poly.py, sampling.py')],['uhat, dlr.u, dlr.uhat, samplings, roots, points'],
 [('instance','object the shared wrapper is bound to',S+'_util.py:RavelArgumentDecorator')])
prop('C14','Truncating and rescaling a basis commute with its definition',
 'Along every sequence of truncations and temperature changes, the basis reached has the size that ordinary slicing predicts, never more functions than before, and keeps statistics, kernel, expansion and Lambda. Its functions and singular values are those of the original basis restricted to the leading ones and scaled by the change of variables, the same as when constructed directly for the final temperature and size, no matter which path led there.',
 ['histories','configurations'],'all sequences of slice bounds (positive, negative, omitted, too large) and new temperatures up to a fixpoint of reachable states, from bases truncated by accuracy, by size, or not at all',
 'One test truncates once and looks at the size; rescaling has no test.',
 [S+'basis.py',S+'sve.py'],[('slicing',S+'basis.py:FiniteTempBasis.__getitem__, _slice_to_size'),('rescaling',S+'basis.py:FiniteTempBasis.rescale')],['FiniteTempBasis.__getitem__','FiniteTempBasis.rescale'])
prop('C15','Augmented bases prepend the added functions consistently everywhere',
 'For every admissible list of augmentations, the augmented basis has the augmentation functions first and the functions of the underlying basis after, in imaginary time, in Matsubara frequency, under derivative, under selection of one or of the leading functions, and under truncation. The constant and linear functions are normalised, their frequency forms are their Fourier transforms, the Matsubara constant is one at all frequencies. Statistics, size, shape, significance, range and parameters describe the augmented set.',
 ['inputs','configurations'],'all ordered lists of up to three augmentations, given as class or instance, both statistics, all indices and truncations, scalar and array arguments, nested augmentation',
 'Two tests fit one function each; evaluating the constant in frequency, scalars, derivatives, statistics and selection are not exercised.',
 [S+'augment.py'],[('concatenation',S+'augment.py:_AugmentedFunction.__call__, __getitem__'),('Fourier forms',S+'augment.py:TauConst.hat, TauLinear.hat, MatsubaraConst.hat'),('truncation',S+'augment.py:AugmentedBasis.__getitem__')],['AugmentedBasis','TauConst','TauLinear','MatsubaraConst'])
prop('C16','Discrete Lehmann representation is exact at its poles and round-trips',
 'For every statistics and every list of poles within the bandwidth, including zero and the band edges, each function of the discrete Lehmann basis is the propagator of its pole, in imaginary time and at every Matsubara frequency, finite everywhere. Conversion to IR coefficients gives those of the pole sum, and converting IR coefficients to poles reproduces the same propagator to the accuracy of the basis, along any axis.',
 ['inputs','configurations'],'all statistics, temperatures, basis sizes and pole lists over a finite set including zero and band edges, all times and frequencies of a critical set, all axes',
 'Tests use even basis sizes and random poles, so never a pole at zero, and one axis.',
 [S+'dlr.py',S+'sampling.py',S+'svd.py'],[('pole functions',S+'dlr.py:TauPoles, MatsubaraPoles'),('conversion',S+'dlr.py:from_IR, to_IR')],['DiscreteLehmannRepresentation'])
prop('C17','Basis sets are consistent with bases and samplings made one by one',
 'For every temperature, bandwidth, accuracy and optional precomputed expansion, a fermion/boson pair or basis set contains the bases and samplings one would construct individually with these parameters. Both statistics share one expansion and the same time points, and every summary attribute of the set agrees with its members.',
 ['configurations'],'all combinations of beta, wmax, accuracy, with and without a precomputed expansion',
 'One test compares one configuration with a precomputed expansion.',
 [S+'basis_set.py',S+'basis.py'],[('pair construction',S+'basis.py:finite_temp_bases'),('set construction',S+'basis_set.py:FiniteTempBasisSet.__init__')],['finite_temp_bases','FiniteTempBasisSet'])
prop('C18','The adapter answers every irbasis call as irbasis does',
 'For every statistics and cutoff, the adapter offers the irbasis interface and returns, for every basis index, point, derivative order, frequency list and query of singular values or sampling points, what irbasis returns, in value, up to the documented accuracy, and in shape, up to axes of length one. Sampling points returned for any index are valid, ordered and as many as the index calls for.',
 ['inputs','configurations'],'all basis indices, derivative orders, points and frequency lists (scalar and array) for every cutoff in the irbasis database',
 'Tests compare six indices at a dozen points and frequencies; derivatives, omitted indices, scalars and shapes are not compared.',
 [S+'adapter.py',S+'poly.py'],[('adapter',S+'adapter.py:Basis'),('ported sampling search',S+'adapter.py:_get_mats_sampling, _find_roots')],['sparse_ir.adapter.Basis'])
prop('C19','Quadrature rules integrate exactly under every composition of operations',
 'For every order and precision, the Gauss-Legendre rule has increasing interior nodes, positive weights and integrates polynomials up to degree 2n-1 exactly. Any composition of reseating, scaling, splitting into pieces, joining and precision change keeps this true on the new interval, with distances to both interval ends that are accurate even where nodes cluster. Collocation inverts evaluation, and the nested rule holds for both of its orders.',
 ['inputs','histories'],'all orders up to a bound, both precisions, all sequences of rule operations up to a depth over a finite set of intervals',
 'Tests check one order against numpy and one piecewise rule for ordering, not for integration.',
 [S+'_gauss.py'],[('nodes by Newton iteration',S+'_gauss.py:rule_from_recurrence'),('composition',S+'_gauss.py:Rule.reseat, scale, piecewise, join'),('nested rule',S+'_gauss.py:NestedRule, kronrod_31_15')],['_gauss.legendre','Rule','NestedRule','legendre_collocation'])
prop('C20','Every SVD strategy returns a correct thin singular value decomposition',
 'For every real matrix in single, double or extended precision, tall, wide or square, full-rank or not, and every strategy, the decomposition returned multiplies back to the matrix, has orthonormal factors over the non-zero singular values, and has non-negative, non-increasing singular values. Repeating a decomposition gives the same result, and in double precision the accurate strategy keeps small singular values of badly scaled matrices to high relative accuracy.',
 ['inputs','configurations'],'all small matrices over a finite entry alphabet, all shapes up to a bound, row and column scalings, all strategies and precisions',
 'The wrapper has no test of its own; it is only exercised on the matrices of three kernels.',
 [S+'svd.py'],[('strategy dispatch',S+'svd.py:compute'),('Jacobi SVD',S+'svd.py:_dgejsv'),('interpolative SVD',S+'svd.py:_idsvd')],['svd.compute'])
prop('C21','Invalid arguments are always rejected and never give numbers',
 'Every evaluation point outside the domain or not a number, every frequency that is not an integer or of the wrong parity, every unknown statistics, non-positive temperature, kernel of another cutoff, malformed index, shape-mismatched decomposition, or improper interval is answered with an error by every entry point that takes it, also when it is hidden among valid elements. The boundary values of each domain are accepted.',
 ['inputs','fault_sequences'],'all entry points x all kinds of invalid argument x all positions of the invalid element in an array',
 'Tests try two out-of-range points.',
 [S+'_util.py',S+'basis.py',S+'kernel.py',S+'poly.py',S+'sampling.py',S+'sve.py',S+'_gauss.py',S+'augment.py',S+'dlr.py'],[('range and parity checks',S+'_util.py'),('domain check',S+'kernel.py:_check_domain'),('constructor checks',S+'basis.py:FiniteTempBasis.__init__, _get_kernel, _slice_to_size')],['all public constructors and calls'])
prop('C22','Missing optional accelerators degrade accuracy only as announced',
 'With or without the extended-precision package and with or without the accurate SVD routine, every basis can be built and agrees with the full-precision one within the accuracy announced for that environment. Whenever the requested accuracy cannot be met, or the default accuracy is lowered for lack of the package, a warning is given, and none is given when it can be met.',
 ['configurations','fault_sequences'],'all combinations of present and missing optional components x cutoffs x accuracy targets x working precisions',
 'Tests run only in the one environment with everything installed.',
 [S+'svd.py',S+'sve.py',S+'basis.py',S+'adapter.py'],[('import fallback',S+'svd.py'),('accuracy selection',S+'sve.py:_safe_eps'),('SVD fallback',S+'svd.py:compute')],['compute_sve','FiniteTempBasis','warnings'])
prop('C23','Overlap integrals are correct for every integrand shape and fault',
 'For every function set and every integrand that is piecewise smooth between the given break points, scalar- or array-valued, real or complex, vanishing or not, the overlap is the integral of the product over the whole interval, with shape function axes first and integrand axes after, and the reported error bounds the true one up to rounding. Integrals which cannot be resolved are announced by a warning, and are off by no more than the order of the error reported. An exception raised by the integrand at any call reaches the caller unchanged and leaves the functions usable.',
 ['inputs','fault_sequences'],'all basis functions x a finite set of integrands with known integrals x value shapes x break-point sets x every call index at which the integrand may fail',
 'Tests integrate products of basis functions and one step function.',
 [S+'poly.py',S+'_gauss.py'],[('adaptive refinement',S+'poly.py:_compute_overlap'),('nested rule',S+'_gauss.py:kronrod_31_15')],['PiecewiseLegendrePoly.overlap'])
prop('C24','Poorly conditioned fits and missing sampling points are announced',
 'For every basis and every choice of sampling points, fitting gives a conditioning warning exactly when the condition number of the sampling matrix exceeds 1e8 and the basis is not one known to be poorly conditioned; making a sampling object and evaluating never warn, and the condition number reported is that of the matrix of function values. Asking for default sampling points warns exactly when the number returned is not the one asked for, up to the parity rounding documented for frequencies. Multiplying the split form with complex coefficients is announced.',
 ['inputs','configurations'],'all bases (IR, augmented, discrete Lehmann, user-defined) x all subsets of pools of points sweeping the condition number through the threshold x every number of default points',
 'One test looks for the warning of one poorly chosen set of points; nothing looks for warnings given without cause or missing for other bases and calls.',
 [S+'sampling.py',S+'basis.py',S+'abstract.py',S+'augment.py',S+'dlr.py'],[('warning in fit',S+'sampling.py:AbstractSampling.fit'),('bases known as poorly conditioned',S+'augment.py:AugmentedBasis.is_well_conditioned, dlr.py'),('number of points',S+'basis.py:_default_matsubara_sampling_points, _default_sampling_points')],['warnings of fit and of default_*_sampling_points','AbstractSampling.cond'])
prop('C25','Every path through the representations gives the exact propagator',
 'However a propagator is taken through the representations (coefficients, values on sampled times, on all or only the non-negative sampled frequencies, poles of the discrete Lehmann representation), along any axis, each representation reached holds the exact values of that propagator up to the accuracy of the basis and the conditioning of the fits made. The same is true of what is computed in them: products in time for every combination of statistics, Dyson equation in frequency, and separation of constant parts by augmentation.',
 ['histories','configurations'],'all walks up to a length through the graph of representations, for both statistics, all axes, temperatures, cutoffs, accuracies and a set of poles including zero and the band edges; all products of pairs of poles',
 'Tests make one or two transformations of one function and compare with each other; no test follows a chain against a closed form.',
 [S+'sampling.py',S+'basis.py',S+'dlr.py',S+'augment.py',S+'basis_set.py'],[('transformations',S+'sampling.py:AbstractSampling.evaluate, fit'),('poles',S+'dlr.py:from_IR, to_IR'),('constant parts',S+'augment.py:AugmentedBasis')],['TauSampling','MatsubaraSampling','DiscreteLehmannRepresentation','FiniteTempBasisSet'])
prop('C26','Copies and pickled objects stand in for the original',
 'Every kernel, expansion, basis, function, sampling, matrix, basis set and rule can be copied, deep-copied and pickled in every protocol, before or after use, in chains, and in another process. What is obtained shows the same attributes and values and gives rise to the same further objects as the original. Deep copies and unpickled objects are independent: using, overwriting or deleting either leaves the other as it was.',
 ['histories','configurations'],'all kinds of objects x all words over {copy, deepcopy, pickle} up to a length x original fresh, used, used alternately, deleted, overwritten, in another process',
 'No test copies or pickles anything.',
 [S+'basis.py',S+'sve.py',S+'poly.py',S+'sampling.py',S+'augment.py',S+'dlr.py',S+'basis_set.py',S+'kernel.py',S+'_gauss.py',S+'adapter.py'],[('plain state of objects',S+'poly.py, basis.py, sampling.py'),('stored accuracy',S+'sve.py:_safe_eps'),('bound wrappers',S+'_util.py:RavelArgumentDecorator')],['copy.copy','copy.deepcopy','pickle'])
with open('/verif/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P))
