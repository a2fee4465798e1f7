# Properties and how each is explored.
MANI = ['Manifolds/Stiefel.cpp', 'Manifolds/Sphere.cpp', 'Manifolds/Grassmann.cpp', 'Manifolds/SPDManifold.cpp', 'Manifolds/SphereTx.cpp', 'Manifolds/SymFixedRankQ.cpp', 'Manifolds/FixedRankE.cpp', 'Manifolds/FixedRankQ2F.cpp', 'Manifolds/CStiefel.cpp', 'Manifolds/CSymFixedRankQ.cpp', 'Manifolds/CFixedRankQ2F.cpp', 'Manifolds/MultiManifolds.cpp']
LSOLV = ['Solvers/%s.cpp' % s for s in ('Solvers', 'SolversSM', 'SolversSMLS', 'RSD', 'RCG', 'RBFGS', 'LRBFGS', 'RWRBFGS', 'RBroydenFamily', 'RNewton')]
ASOLV = LSOLV + ['Solvers/%s.cpp' % s for s in ('SolversSMTR', 'RTRSD', 'RTRNewton', 'RTRSR1', 'LRTRSR1')]
NSOLV = ['Solvers/%s.cpp' % s for s in ('SolversNSM', 'SolversNSMSub', 'SolversNSMSubLS', 'SolversNSMPGLS', 'RGS', 'RBFGSSub', 'LRBFGSSub', 'ManPG', 'AManPG')]
COMMON_ASSUMPTIONS = [
    'Exact real arithmetic in place of IEEE doubles: rounding, overflow and underflow are outside.',
    'BLAS, LAPACK and FFTW are replaced by models of their documented results (engine/blas_model.cpp); a path that calls a routine or a case outside the models is counted as unsupported.',
    'The code explored is the LLVM IR clang 18 produces at -O1 with strict floating point from the current sources of /repo.',
    'Candidate counterexamples count only when a native build of the same sources with the real libraries fails the same assertion on them.']
BND_M = 'Dimensions: St(3,2), O(2), St(3,1), S^1, S^2, Gr(2,1), Gr(3,2), R^{2}, R^{2x2}, R^{1x2x2} (real and complex), SPD(2), rank-2 3x3 / 3x2 fixed rank (real), complex Stiefel (2,1), (2,2), (3,1), (3,2), complex Hermitian fixed rank and complex two-factor fixed rank 2x2 to 3x2, 2-dimensional products. Base points: 2-3 rational points each (one-parameter symbolic curves of base points where marked -1 in the harness); tangent vectors arbitrary (all coordinates symbolic), steps symbolic in 1-3 parameters; all parameter sets.'
BND_P = 'Products of two manifolds with powers 1-2 (sphere, Grassmann, Stiefel, SPD, Euclidean components of dimension 1-4), intrinsic, mixed and extrinsic representations; 1-3 rational base points per product; tangent vectors arbitrary (all coordinates symbolic), steps a symbolic multiple of one direction or fully symbolic; both constructors of ProductManifold.'
OUT_M = 'Larger dimensions, base points off the listed rational ones, rounding error. The exponential map and parallel translation of Stiefel, retraction by iterative methods.'
def mani(cases, tcases='', time=(70, 600), **k):
    d = dict(harness=['hman.cpp', 'hman2.cpp', 'hcx.cpp'], sources=MANI, cases=cases, tcases=tcases, time=list(time), bounds=BND_M, outside=OUT_M); d.update(k); return d
PROPS = {
    'M01': mani('proj*'),
    'M02': mani('rand_*,retr_*,retrf_*,retrp_*,retr2_*,retr0_*,retrd_*,inv_*,reuse_*'),
    'M03': mani('intr_*,intrn_*,xint*'),
    'M04': mani('vt_*,vt0_*,lockvt_*'),
    'M05': mani('diff_*,diffs_*,diffz_*,cot_*,lock_*'),
    'M06': mani('grad_*,hess_*'),
    'M07': mani('metr_*,dist_*'),
    'M08': mani('prod*', harness=['hprod.cpp'], bounds=BND_P),
    'M09': mani('ope*'),
    'E01': dict(harness=['helem.cpp'], sources=[], cases='own2_*,pown2_*,cach*', tcases='own*,pown*,cach*', time=[70, 600],
        bounds='Pools of three 2x2 Elements (or three products of three 2-entry components) in 9 (6) initial sharing configurations; every history of one arbitrary operation (22 kinds on Elements, 14 on products, every operand choice) followed by one (thorough: two, or one of any kind) further operations; all data symbolic; cached decompositions compared after every operation for one numeric and one symbolic data set.',
        outside='Longer histories, more than three variables, passing a piece of attached data as an operand of an operation on its owner, and taking a component of a product out of it (both documented to share memory).'),
    'E02': dict(harness=['halg.cpp'], sources=[], cases='alg_*', tcases='alg_*', time=[70, 600],
        bounds='Shapes 1x1, 1x2, 3x1, 2x2, 3x2, 2x3 (products up to 3x2x3) and one three-way tensor, real and complex; all entries and scalars symbolic; operands separate, sharing memory, or the same variable.',
        outside='Larger shapes (the code treats sizes uniformly), rounding, mixing real and complex operands, complex rank-one updates are taken as u v^T as the code calls geru (the comment writes v apostrophe).'),
    'E03': dict(harness=['hdec.cpp'], sources=[], cases='dec_*', tcases='dec_*', time=[70, 600],
        bounds='Linear systems up to 3x3 (coefficients symbolic up to 2x2, otherwise fixed integers, right-hand sides symbolic), Cholesky of L L^H with symbolic L up to 3x3, QR of symbolic columns and fixed matrices up to 3x2 / 2x3, SVD / eigen-decomposition with fixed rational singular / eigenvectors and symbolic spectrum up to 3x3, Schur forms of symbolic 2x2 matrices, Sylvester equations up to 3x2 with fixed or triangular symbolic coefficients and symbolic right-hand side; real and complex.',
        outside='Larger sizes, singular and numerically ill-conditioned matrices, accuracy of LAPACK.'),
    'E04': dict(harness=['htrans.cpp'], sources=[], cases='trans_*', tcases='trans_*', time=[70, 600],
        bounds='Wavelet transforms of 23 (27) sizes up to 9 rows (thorough: 16) including sizes that are not powers of two; Fourier transforms of 12 (15) shapes up to 12 entries (thorough: 36) in both directions; sparse matrices up to 3x3 with up to 3 entries at arbitrary positions (duplicates included) and 5 entries in fixed patterns, two to four matrices alive with creation and destruction in three orders; all entries symbolic.',
        outside='Larger sizes, rounding, the FFTW library itself (replaced by the definition of its documented result).'),
    'E05': dict(harness=['hspl.cpp'], sources=['Others/Spline.cpp'], cases='spl*', tcases='spl*', time=[70, 600],
        bounds='Splines through 3 to 5 (thorough: 6) points (periodic: from 4) with arbitrary values, fixed uneven knots, one arbitrary gap, an arbitrary uniform spacing, and knots that do not start at zero; evaluation of arbitrary piecewise cubics on 2 to 4 knots at arbitrary points of every piece and of both derivatives.',
        outside='More points, periodic splines of fewer than four points, several arbitrary gaps at once, points within 1% of the right knot of a piece or outside the range, rounding.'),
    'S01': dict(harness=['hls.cpp'], sources=LSOLV, opts=['--dt', '0.4'], cases='ls_*', tcases='ls_*', time=[70, 600], bounds='One line search from an arbitrary descent direction in R^1 with a linear or quadratic retraction: up to 8 backtracking trials, up to 3 trials (thorough: 5) with interpolated steps, all doubling steps of the Wolfe search; function values and slopes at the trial points arbitrary; alpha, beta symbolic where no interpolation takes place; non-monotone search with 1 to 3 remembered values over up to four iterations; a user-supplied search over two iterations; up to three trials of the exact search.', outside='Higher dimensions (the search only sees values along the curve), more interpolation steps, more than three trials of the exact search, rounding.'),
    'S02': dict(harness=['hsolv.cpp'], sources=ASOLV, opts=['--dt', '0.4'], cases='rep_*', tcases='rep_*', time=[70, 600], bounds='All 11 smooth solvers, two iterations, dimension 1 with arbitrary values and gradients (Armijo for every solver, Wolfe and strong Wolfe for steepest descent; thorough: for all), dimension 2 with fixed steps, up to 3 trials per line search; a value that is not a number at the first trial.', outside='More iterations, the arguments funSeries and lengthSeries of the user callback during a run, timing fields.'),
    'S03': dict(harness=['hsolv.cpp'], sources=ASOLV, opts=['--dt', '0.4'], cases='stop_*', tcases='stop_*', time=[70, 600], bounds='Up to 5 iterations in R^1, arbitrary tolerance, arbitrary function values (relative change) or gradients (gradient criteria) or callback answers; minimal and maximal iteration numbers 0 to 5; steepest descent and four further solvers.', outside='Time bound; trust region solvers beyond one loop of the same rule.'),
    'S04': dict(harness=['hsolv.cpp'], sources=ASOLV, opts=['--dt', '0.4'], cases='tr_*', tcases='tr_*', time=[70, 600], bounds='One step in R^1 and R^2 with arbitrary Hessian and radius (R^2: up to one inner iteration in general, or a fixed radius; thorough: general); end conditions of the inner iteration and its preconditioned first step; two iterations (thorough: three) of acceptance and radius updates in R^1 with arbitrary function values.', outside='Preconditioned inner iterations after the first, randomised initial inner iterates, larger dimensions, the low-rank inner solver.'),
    'S05': dict(harness=['hsolv.cpp'], sources=ASOLV, opts=['--dt', '0.4'], cases='qn_*', tcases='qn_*', time=[70, 600], bounds='R^2 with a rotation as isometric transport, a metric depending on the point, a constant norm ratio and a quadratic retraction; 1 to 4 iterations, fixed rational gradients except one or two arbitrary ones; memory sizes 0 to 4 with both restart options; given initial approximations and preconditioners.', outside='More than two arbitrary gradients in one run, higher dimensions, the solution of the low-rank trust region subproblem.'),
    'S06': dict(harness=['hsolv.cpp'], sources=ASOLV, opts=['--dt', '0.4'], cases='dir_*,init_*', tcases='dir_*,init_*', time=[70, 600], bounds='R^2 as for S05; directions after 1 and 2 updates with an arbitrary last gradient; Newton directions for arbitrary (positive definite or any) Hessians in R^1 and R^2; initial steps of iterations 2 to 4 with up to two arbitrary gradients or values.', outside='Numerical accuracy of the inner iteration.'),
    'S07': dict(harness=['hsolv.cpp', 'hpar.cpp'], sources=ASOLV + NSOLV + ['Others/MinPNormConHull.cpp', 'Problems/SphereConvexHull.cpp'] + ['Manifolds/%s.cpp' % m for m in ('Stiefel', 'Sphere', 'CStiefel', 'SymFixedRankQ', 'CSymFixedRankQ')], opts=['--dt', '0.4'], cases='rerun_*,par_*', tcases='rerun_*,par_*', time=[70, 600], bounds='All 16 solvers: every parameter alone together with one other one, and all together, with arbitrary real values; parameter sets of five manifolds in every order of two; second runs of two iterations of the 11 smooth solvers with one arbitrary gradient.', outside='Second runs of the nonsmooth solvers (they keep their adapted tolerances).'),
}
PROPS['S08'] = dict(harness=['hsub.cpp'], sources=['Solvers/%s.cpp' % s for s in ('Solvers', 'SolversNSM', 'SolversNSMSub', 'SolversNSMSubLS', 'RGS', 'RBFGSSub', 'LRBFGSSub')], opts=['--dt', '0.4'], cases='sub_*,subqn_*', tcases='sub_*,subqn_*', time=[70, 600], bounds='R^1 and, for the quasi-Newton corrections, R^2 with memories of one and two pairs; one or two iterations with up to six retractions; function values arbitrary with fixed gradients, or gradients arbitrary with fixed values; arbitrary metric, transport and norm ratio.', outside='The quadratic subproblem itself (MinPNormConHull is replaced by the exact shortest vector); values that are not numbers; the inner bisection of the gradient enlargement beyond its documented result; tolerances kept from one run to the next.')
PROPS['S09'] = dict(harness=['hpg.cpp'], sources=['Solvers/%s.cpp' % s for s in ('Solvers', 'SolversNSM', 'SolversNSMPGLS', 'ManPG', 'AManPG')], opts=['--dt', '0.4'], cases='pg_*', tcases='pg_*', time=[70, 600], bounds='R^1 and R^2, up to four iterations; function values, gradients, proximal steps and inverse retractions arbitrary at every visited point.', outside='The tangent space subproblem (replaced by an arbitrary solution here, checked in P02); the series of values and step sizes recorded by the accelerated method, which contain trial values of its safeguard; the relative function change criterion of the accelerated method; second runs.')
PROBS = ['Problems/%s.cpp' % p for p in ('StieBrockett', 'CStieBrockett', 'EucQuadratic', 'GrassRQ', 'ProdStieSumBrockett', 'FRankESparseApprox', 'FRankEWeightApprox', 'FRankQ2FMatCompletion', 'SFRQLyapunov', 'SphereSparsestVector', 'SPDKarcherMean', 'SphereConvexHull', 'StieSPCA', 'SphereTxRQ', 'CSFRQPhaseRetrieval', 'CFRankQ2FBlindDecon2D')]
PROPS['P01'] = dict(harness=['hprob.cpp'], sources=MANI + ASOLV + PROBS, cases='prob_*', tcases='prob_*', time=[70, 600], bounds='Matrices up to 3x2 (Stiefel-type problems), 2x2 SPD matrices with rational spectrum, one or two matrices in the mean, up to four known entries of a matrix up to 3x2, transforms of up to four samples with one or two masks; all other data symbolic.', outside='Blind deconvolution with more than one column; larger sizes; SPD matrices with irrational spectrum.')
PROPS['P02'] = dict(harness=['hprob.cpp', 'hifc.cpp'], sources=MANI + ASOLV + PROBS, cases='prox_*,proxmap_*,proxstall,iface_*,numgrad_*,numhess_*,rq_*', tcases='prox_*,proxmap_*,proxstall,iface_*,numgrad_*,numhess_*,rq_*', time=[70, 600], bounds='Stiefel(3,2), sphere in R^3, SPD(2), Grassmann (3,1), (3,2), (4,2), Euclidean real and complex, in every parameter set and both representations, two base points each; proximal maps of up to four entries with up to four weights; tangent-space proximal map in a plane or line of R^2, R^3 with up to three Newton steps.', outside='Finite differences at the zero direction (the cost function is evaluated at a point that is not a number there); rounding of finite differences.')
