#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing it)."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
TECH = 'symbolic execution of the compiled LLVM IR with an SMT solver (z3/cvc5) over exact reals, counterexamples replayed natively'
TESTS = 'The existing tests run 13 problems from fixed seeds and look at the final relative gradient norm only; '
P = []
def prop(id, title, statement, qtext, why, files, mech, observe, note, over=('inputs', 'configurations'), state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': list(over), 'text': qtext}, why_tests_cant=TESTS + why,
                  anchors={'files': files, 'state': [{'name': x, 'meaning': x, 'where': files[0]} for x in (state or [])], 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe, 'hook_needed': None}, note=note))
MAN = ['Manifolds/Manifold.cpp', 'Manifolds/Euclidean.cpp', 'Manifolds/Stiefel.cpp', 'Manifolds/Sphere.cpp', 'Manifolds/Grassmann.cpp', 'Manifolds/SPDManifold.cpp', 'Manifolds/SphereTx.cpp', 'Manifolds/FixedRankE.cpp', 'Manifolds/FixedRankQ2F.cpp', 'Manifolds/SymFixedRankQ.cpp', 'Manifolds/CStiefel.cpp', 'Manifolds/CFixedRankQ2F.cpp', 'Manifolds/CSymFixedRankQ.cpp', 'Manifolds/MultiManifolds.cpp']
LV = 'Every path of the real functions is explored with symbolic tangent vectors at the listed base points; every assertion is discharged by polynomial normal form or z3/cvc5. Bounded by small dimensions and rational base points; real arithmetic; BLAS/LAPACK modelled.'
prop('M01', 'Projection onto a tangent space is the orthogonal projection', 'Projecting an ambient vector onto the tangent (horizontal) space at a point yields a vector of that space whose Riemannian inner products with every vector of the space equal those of the original. The point and the input are left unchanged, and using one variable for input and output gives the same result.',
     'every ambient vector, every point, every manifold and parameter set', 'an incorrect component of the projection that is small or vanishes at the solution still converges, and only a handful of vectors is ever projected.', MAN, [('orthogonal projection of each manifold', 'ExtrProjection of each manifold class'), ('dispatch on the representation', 'Manifold::Projection')], ['the projected vector'], LV)
prop('M02', 'Retractions land on the manifold, are centred and first-order correct', 'Following a tangent vector from a point gives a point on the manifold; the zero vector gives back the same point and the velocity at zero along any tangent vector is that vector. The result does not depend on what the output variable held before, the inputs are unchanged, and where an inverse retraction is offered it recovers the step; random points and projections of ambient points lie on the manifold too.',
     'every tangent vector at every point, every retraction the library offers, every random draw', 'a retraction that leaves the manifold slightly or has a wrong derivative still lets the solvers converge.', MAN, [('retraction formulas', 'Retraction of each manifold class'), ('inverse retractions', 'InvRetraction of each manifold class'), ('random points and projections', 'RandominManifold, ProjRetraction of each manifold class')], ['the new point'], LV)
prop('M03', 'Intrinsic coordinates are an isometry onto the tangent space', 'Converting a tangent vector to coordinates and back is the identity in both directions, the coordinates have exactly as many entries as the manifold has dimensions, and the Euclidean inner product of coordinates equals the Riemannian metric. The same holds for coordinates of normal vectors where offered.',
     'every tangent (normal) vector at every point, every manifold and metric offering coordinates', 'the tests exercise one representation per problem and never compare the two.', MAN, [('coordinates', 'ObtainIntr, ObtainExtr of each manifold class'), ('normal coordinates', 'ObtainNorVerIntr, ObtainNorVerExtr')], ['coordinates and reconstructed vectors'], LV)
prop('M04', 'Vector transports are linear, tangent, isometric and invertible', 'Transporting a tangent vector along a step gives a tangent vector at the new point, depends linearly on the vector, is the identity for the zero step, preserves inner products for the transports documented as isometric, and the inverse transport undoes it. With the locking-condition option the transport stays isometric and invertible.',
     'every vector, step and point, every transport and parameter set', 'quasi-Newton methods converge with a transport that is slightly non-isometric or not invertible.', MAN, [('transports', 'VectorTransport, InverseVectorTransport of each manifold class'), ('locking condition', 'Manifold::LCVectorTransport, LCInverseVectorTransport')], ['transported vectors'], LV)
prop('M05', 'Differentiated retractions, their adjoints and the locking condition', 'The differentiated retraction equals the derivative of the retraction, the cotangent map is its adjoint in the Riemannian metric, and with the locking-condition option the transport of a step equals the scaled differentiated step with the reported ratio. Input and output may be the same variable.',
     'every vector, step and point, every retraction with a differentiated form', 'line searches tolerate wrong directional derivatives in most runs and the tests look at the end result only.', MAN, [('differentiated retractions', 'DiffRetraction, coTangentVector of each manifold class'), ('norm ratio', 'Manifold::Beta')], ['differentiated vectors, the ratio'], LV)
prop('M06', 'Riemannian gradient and Hessian follow from the Euclidean ones', 'The Riemannian gradient computed from a Euclidean gradient is the tangent vector representing its differential in the manifold metric, and the Riemannian Hessian action computed from Euclidean Hessian information is the covariant derivative of the gradient field for the Levi-Civita connection. Input and output may be the same variable.',
     'every Euclidean gradient, Hessian action and direction, every point and metric', 'first-order methods converge with a scaled or skewed gradient; a wrong curvature term only slows second-order methods down.', MAN, [('conversion of gradients', 'EucGradToGrad of each manifold class'), ('conversion of Hessian actions', 'EucHvToHv of each manifold class')], ['gradient and Hessian action'], LV)
prop('M07', 'The metric is the documented inner product and vector arithmetic is exact', 'The inner product of two tangent vectors equals the documented Riemannian metric in every representation, linear combinations of tangent vectors are computed as documented also when input and output coincide where that is allowed, and distances agree with the geometry of the manifold.',
     'every pair of tangent vectors, every scalar, every point', 'only aggregate convergence is observed.', MAN, [('metric', 'Metric of each manifold class'), ('vector arithmetic', 'Manifold::VectorLinearCombination, ScalarVectorAddVector, ScalarTimesVector'), ('distance', 'Dist of each manifold class')], ['inner products, combined vectors, distances'], LV)
prop('M08', 'A product of manifolds behaves componentwise', 'Every operation on a product of manifolds equals the operation of the component manifolds applied to the components, with inner products and squared distances summed over all of them, and the product obeys the same laws as any other manifold, including operator transports and the locking-condition option, in intrinsic and extrinsic representations. Component manifolds, inputs and shared data are left as they were.',
     'every point, vector and operator on products of any component manifolds and powers', 'products are used by two of the tested problems, with few components.', ['Manifolds/MultiManifolds.cpp', 'Manifolds/MultiManifolds.h', 'Manifolds/Manifold.cpp', 'Manifolds/Element.cpp'], [('componentwise dispatch', 'MultiManifolds member functions'), ('block offsets in operators', 'MultiManifolds::TranHInvTran'), ('norm ratio of a product', 'MultiManifolds::Beta')], ['result of every operation on products and on their components'], LV)
prop('M09', 'Linear operators on tangent spaces act and transport consistently', 'Applying a linear operator equals the matrix product in the current representation, the scaled rank-one update adds exactly that operator, and the one-sided and two-sided transports of operators agree with transporting the vectors they act on, with and without the locking condition. Inputs are unchanged and may coincide with the output.',
     'every operator, vector, step and point', 'an inconsistent transport of the Hessian approximation only degrades the rate.', MAN, [('operator application', 'Manifold::LinearOPEEta, HaddScaledRank1OPE'), ('operator transports', 'Manifold::HInvTran, TranH, TranHInvTran and overrides')], ['operator matrices and images'], LV)
EL = ['Manifolds/Element.cpp', 'Manifolds/Element.h', 'Manifolds/SmartSpace.cpp', 'Manifolds/SmartSpace.h']
LE = 'Every path of the real Element code is explored with all matrix entries symbolic; assertions are discharged syntactically, by polynomial normal form or z3/cvc5. Bounded by the listed shapes and history lengths; real arithmetic; BLAS/LAPACK modelled.'
prop('E01', 'Elements have value semantics although they share memory', 'Copies of a tensor share memory until one of them is written; a write through any operation changes only the variable it is applied to, never a copy, an operand, a component of another product or data attached elsewhere. Data and decompositions attached to a tensor stay with it until its value or shape changes and always belong to its present value. Products of tensors keep their components consistent with the whole.',
     'every history of assignments, copies, writes, attachments and algebraic operations on any variables', 'aliasing needs a particular order of copies and writes on the same data; the tests never look at intermediate tensors.', EL, [('copy on write', 'SmartSpace::CopyOnWrite, NewMemoryOnWrite, CopyTo'), ('attached data', 'Element::AddToFields, CopyFieldsTo, RemoveAllFromFields'), ('products', 'Element::ResetMultiElementsParams, DeleteMultiElements')], ['values, shapes and attached data of all live tensors after every operation'], LE, over=('histories', 'inputs'), state=['reference counts of shared memory', 'attached data maps'])
prop('E02', 'Element algebra computes the documented formulas', 'Every arithmetic, entrywise, comparison, reshaping and matrix operation on real and complex tensors gives exactly the documented result whatever the operands share with each other, with the documented shape and type, and leaves its operands, other copies of them and their attached data unchanged; in-place forms agree with the forms returning a new tensor.',
     'every pair of operands, scalars, shapes, transposition flags and sharing patterns', 'individual operations are only exercised through whole optimization runs, and many operations (complex, comparisons, right-sided forms) are not reached at all.', EL, [('operators', 'operator+, -, *, /, ==, <, ... of Element'), ('in-place kernels', 'Element::AlphaABaddBetaThis, AlphaXaddThis, HaddRankone, DiagTimesM')], ['entries, shape and type of results and operands'], LE)
prop('E03', 'Matrix decompositions and equation solvers satisfy their defining equations', 'Solving with a tensor, its LU, Cholesky, Householder, QR, singular value, symmetric eigenvalue and Schur decompositions, matrix exponential and logarithm of symmetric matrices, and the Sylvester solver give factors of the documented shape whose product is the input, with orthonormal, triangular or diagonal factors as documented, reading only the documented triangle, for real and complex input; a decomposition requested twice is the same, and the input is unchanged.',
     'every matrix and right-hand side, real and complex, every side and transposition flag', 'only a few of the decompositions are reached, and only through quantities that tolerate a wrong sign, order or conjugation.', EL, [('decompositions', 'Element::LUdecom, CholDecom, HHRDecom, QRDecom, SVDDecom, EigenDecomSym, SchurForm'), ('equation solving', 'operator%, operator/, Element::TriangleLinSol, SYL'), ('functions of matrices', 'Element::ExpSym, LogSym, GetOrth, HHRMtp')], ['factors and solutions'], LE)
prop('E04', 'Wavelet and Fourier transforms and sparse products match their definitions', 'The Haar wavelet transform is the orthonormal transform of the documented basis and its inverse undoes it for every size; the two-dimensional Fourier transforms equal the discrete Fourier sums in both directions, and forward followed by backward scales by the number of entries; products of sparse and dense matrices on either side equal the dense products, whatever the order in which sparse matrices are created and destroyed. Inputs are unchanged.',
     'every tensor, size, direction, sparsity pattern and order of creation and destruction', 'the transforms occur in one untested problem; sparse products are used with one matrix at a time.', EL + ['Others/wavelet/wavelet.cpp', 'Others/SparseMatrix.cpp', 'Others/SparseBLAS/nist_spblas.cpp'], [('wavelet transform', 'Element::GetHaarFWT, GetInvHaarFWT, haarFWT_2d'), ('Fourier transform', 'Element::GetFFT2D, FFT2D'), ('sparse products', 'operator* with SparseMatrix, BLAS_usmm')], ['transformed tensors, products'], LE, over=('inputs', 'configurations', 'histories'))
prop('E05', 'Cubic splines interpolate, are smooth and use the right piece', 'A cubic spline built for open or closed curves, on uniform or given knots, passes through every given point and is continuous with its first two derivatives at the knots; a closed one joins up with both derivatives and an open one starts and ends with the slope of the first and last chord. Evaluation at any parameter uses the piece containing it, also when the knots do not start at zero, and the reported first and second derivatives are those of the curve evaluated.',
     'every set of points, knots (increasing) and parameters, every end condition', 'splines are used by one driver that is not tested.', ['Others/Spline.cpp', 'Others/Spline.h'], [('coefficients', 'Spline::SplineUniformSlopes, SplineSlopes, SplineUniformPeriodic, SplinePeriodic'), ('evaluation', 'Spline::ValSpline, ValFirstDeri, ValSecondDeri and the uniform variants')], ['coefficients and evaluated values'], LE.replace('Element code','spline code').replace('matrix entries','points and knots'))
SO = ['Solvers/Solvers.cpp', 'Solvers/SolversSM.cpp', 'Solvers/SolversSMLS.cpp', 'Solvers/SolversSMTR.cpp']
QN = ['Solvers/RBFGS.cpp', 'Solvers/LRBFGS.cpp', 'Solvers/RWRBFGS.cpp', 'Solvers/RBroydenFamily.cpp', 'Solvers/RTRSR1.cpp', 'Solvers/LRTRSR1.cpp']
LS = 'Every path of whole solver runs of one to four iterations is explored against a cost function whose values, gradients and Hessians at the visited points are unconstrained symbols; every assertion is discharged by normal form or z3/cvc5. Bounded by dimension 1-2 and few iterations; real arithmetic.'
prop('S01', 'A successful line search satisfies the conditions it is named after', 'When a line search reports success, the accepted step is positive and gives sufficient decrease (with the non-monotone option, relative to the largest remembered value; for the exact search, a nearly stationary point along the curve), and for the Wolfe and strong Wolfe searches the slope at the accepted point satisfies the corresponding curvature condition. Whatever the reported status and also for a search supplied by the user, the new iterate is the retraction of the reported step along the search direction and the reported function value and gradient are those of that iterate.',
     'every cost function along the search direction, every initial step, step bounds and line search parameters', 'a violated condition needs function values in a particular order over several trial steps; solvers usually recover from a bad step.', ['Solvers/SolversSMLS.cpp'], [('backtracking with interpolation', 'SolversSMLS::LinesearchArmijo'), ('weak Wolfe search', 'SolversSMLS::LinesearchWolfe'), ('bracketing and zooming', 'SolversSMLS::LinesearchStrongWolfe, Zoom'), ('exact search', 'SolversSMLS::LinesearchExact')], ['step size, status, iterate, function value and gradient after a line search'], LS)
prop('S02', 'What a solver reports is true of the iterates it visited', 'After a run the returned point, function value, gradient norms, recorded series and counters are those of the iterates actually visited and of the evaluations actually made, every iterate is joined to its predecessor by a retraction, and with a monotone line search or a trust region the function value never increases. This also holds when a run ends early because of a failed line search or a value that is not a number.',
     'every cost function, every smooth solver, every sequence of accepted and rejected steps', 'only the final relative gradient norm is compared, for runs that converge.', SO + QN + ['Solvers/RSD.cpp', 'Solvers/RCG.cpp', 'Solvers/RNewton.cpp', 'Solvers/RTRSD.cpp', 'Solvers/RTRNewton.cpp'], [('main loop of line search solvers', 'SolversSMLS::Run'), ('main loop of trust region solvers', 'SolversSMTR::Run'), ('recorded series', 'SolversSM::Run')], ['getters, series, counters and the user stopping callback'], LS, over=('inputs', 'histories', 'configurations'))
prop('S03', 'Solvers stop at the first iterate that satisfies the stopping rule', 'A run performs at least the minimal number of iterations unless it fails, never more than the maximal one, and otherwise ends at the first iterate at which the selected criterion (relative change of the function value, gradient norm, relative gradient norm, or the user callback) holds. The callback is consulted once per iterate.',
     'every sequence of function values, gradients and callback answers, every tolerance and iteration bound', 'tests use one criterion with a tolerance that is reached.', SO, [('criterion', 'SolversSM::IsStopped'), ('loop condition', 'SolversSMLS::Run, SolversSMTR::Run')], ['number of iterations, recorded series, calls of the callback'], LS, over=('inputs', 'histories', 'configurations'))
prop('S04', 'Trust region steps respect the radius, decrease the model, are accepted by rule', 'Every trial step stays within the current radius and decreases the quadratic model at least as much as the Cauchy point. A step is accepted exactly when the ratio of actual to predicted decrease is sufficient, and the radius is shrunk, kept or enlarged by the documented rule, within its bounds.',
     'every gradient, Hessian, radius and sequence of trial values', 'a wrong acceptance or radius rule still converges on the tested problems.', ['Solvers/SolversSMTR.cpp', 'Solvers/RTRSD.cpp', 'Solvers/RTRNewton.cpp'], [('truncated conjugate gradients', 'SolversSMTR::tCG_TR'), ('acceptance and radius', 'SolversSMTR::Run')], ['trial steps, accepted iterates, the radius'], LS, over=('inputs', 'histories'))
prop('S05', 'Quasi-Newton approximations follow their update formulas', 'After every iteration the approximation of the (inverse) Hessian kept by the BFGS, Broyden, limited-memory BFGS and symmetric rank-one solvers equals the documented update of the transported previous approximation with the transported step and gradient difference, or its transport alone when the update condition fails, and the search direction or model uses exactly that approximation. Limited-memory versions equal the dense recursion over the pairs kept, for every memory size and restart option.',
     'every sequence of gradients, steps, metrics, transports and memory sizes', 'an approximation with a wrong transported pair, order or scaling still gives descent directions and converges more slowly.', QN, [('dense updates', 'RBFGS::UpdateData, RWRBFGS::UpdateData, RBroydenFamily::UpdateData'), ('limited-memory recursion', 'LRBFGS::HvLRBFGS, LRBFGS::UpdateData'), ('rank-one updates', 'RTRSR1::UpdateData, LRTRSR1::UpdateData, LRTRSR1::HessianEta')], ['approximations and search directions'], LS, over=('inputs', 'histories', 'configurations'))
prop('S06', 'Search directions and initial step sizes follow their formulas', 'Steepest descent, the six conjugate gradient formulas with their restarts, and truncated Newton directions are the documented ones and are always descent directions, and the first trial step of an iteration is the documented one (constant, Barzilai-Borwein variants, quadratic interpolation) with its safeguards.',
     'every sequence of gradients, metrics, transports and preconditioners', 'any descent direction and any positive first step converge on the tested problems.', ['Solvers/SolversSMLS.cpp', 'Solvers/RSD.cpp', 'Solvers/RCG.cpp', 'Solvers/RNewton.cpp'], [('conjugate gradient formulas', 'RCG::UpdateData'), ('Newton direction', 'RNewton::GetSearchDir, tCG_TR'), ('initial step', 'SolversSMLS::InitialStepSize')], ['search directions and first trial steps'], LS, over=('inputs', 'histories', 'configurations'))
prop('S07', 'Configuring by name and running again behave like a fresh solver', 'A parameter given by name sets that parameter to the value given and no other, for every solver and for the numbered parameter sets of the manifolds; unknown names change nothing. Setting the initial iterate and running a solver again repeats the steps of its first run.',
     'every parameter, value and combination, every solver and cost function', 'tests set a handful of parameters directly and never run a solver twice.', SO + QN + ['Solvers/SolversNSM.cpp', 'Solvers/SolversNSMSub.cpp', 'Solvers/SolversNSMSubLS.cpp', 'Solvers/SolversNSMPGLS.cpp', 'Manifolds/Stiefel.cpp', 'Manifolds/SymFixedRankQ.cpp'], [('parameters by name', 'SetParams of every solver and manifold'), ('state of a solver', 'SetProbX, Run')], ['parameter values, steps of the second run'], LS, over=('inputs', 'configurations', 'histories'))
NS = ['Solvers/SolversNSM.cpp', 'Solvers/SolversNSMSub.cpp', 'Solvers/SolversNSMSubLS.cpp', 'Solvers/RGS.cpp', 'Solvers/RBFGSSub.cpp', 'Solvers/LRBFGSSub.cpp']
prop('S08', 'Subgradient solvers use the gradients, updates and rules they document', 'At every iterate the gradient sampling and subgradient quasi-Newton solvers take the shortest vector in the convex hull of the transported gradients collected, enlarge that collection by the documented rule, and step along it with the documented line search, stopping rules and tolerance updates; the quasi-Newton matrix is the documented corrected update of transported pairs, the limited-memory form included. The reported values, series and counters are those of the iterates and evaluations made.',
     'every sequence of function values and subgradients, every metric, transport and memory size', 'the solvers are tested by the final value of one or two problems, which many wrong collections, corrections and stopping rules reach.', NS, [('main loop and stopping', 'SolversNSMSub::Run, SolversNSM::IsStopped'), ('collection of gradients', 'SolversNSMSubLS::GetSearchDir, Increasing, RGS::GetSearchDir'), ('corrected updates', 'RBFGSSub::UpdateData, LRBFGSSub::UpdateData, HvSub')], ['directions, steps, matrices, series, counters and stopping iteration'], LS, over=('inputs', 'histories', 'configurations'))
prop('S09', 'Proximal gradient solvers follow the documented iteration', 'Each iteration of the manifold proximal gradient solver backtracks along the proximal direction until the documented decrease holds and retracts exactly there, adapting its step parameter by the documented rule. The accelerated solver extrapolates with the documented momentum, and its safeguard restarts from the safe iterate exactly when the documented test fails. The reported values, series, counters and stopping iteration are those of the iterates and evaluations made.',
     'every sequence of function values, gradients, proximal directions and inverse retractions', 'a wrong momentum, safeguard or backtracking rule still reduces the tested objective.', ['Solvers/SolversNSM.cpp', 'Solvers/SolversNSMPGLS.cpp', 'Solvers/ManPG.cpp', 'Solvers/AManPG.cpp'], [('main loop and line search', 'SolversNSMPGLS::Run, LinesearchArmijo'), ('momentum and safeguard', 'AManPG::Run'), ('stopping', 'SolversNSM::IsStopped')], ['iterates, step sizes, values, counters and stopping iteration'], LS, over=('inputs', 'histories'))
PRB = ['Problems/StieBrockett.cpp', 'Problems/CStieBrockett.cpp', 'Problems/EucQuadratic.cpp', 'Problems/GrassRQ.cpp', 'Problems/ProdStieSumBrockett.cpp', 'Problems/FRankESparseApprox.cpp', 'Problems/FRankEWeightApprox.cpp', 'Problems/FRankQ2FMatCompletion.cpp', 'Problems/SFRQLyapunov.cpp', 'Problems/SphereSparsestVector.cpp', 'Problems/SPDKarcherMean.cpp', 'Problems/SphereConvexHull.cpp', 'Problems/StieSPCA.cpp', 'Problems/CSFRQPhaseRetrieval.cpp', 'Problems/CFRankQ2FBlindDecon2D.cpp']
LP = 'Every path of the real problem classes is explored with the data of the problem, the point and the direction symbolic (some concrete for the larger transform sizes); derivatives are exact derivatives of the code\'s own terms; assertions are discharged by polynomial normal form or z3/cvc5. Bounded by small sizes; real arithmetic; BLAS/LAPACK/FFTW modelled.'
prop('P01', 'Cost functions, gradients and Hessians of the supplied problems agree', 'For each supplied problem the cost equals the documented formula of its data, the Euclidean gradient is the derivative of that cost (of its smooth part for composite problems, a subgradient for nonsmooth ones) and the Euclidean Hessian action is the derivative of the gradient. Neither the point, its copies nor the direction change, and evaluations at other points in between do not matter.',
     'every problem data, point and direction', 'a wrong gradient or Hessian term that vanishes near the tested solution still passes; eight of the problems are not tested at all.', PRB, [('cost', 'f of each problem class'), ('gradient', 'EucGrad of each problem class'), ('Hessian action', 'EucHessianEta of each problem class'), ('intermediate results', 'AddToFields at the point')], ['cost, gradient and Hessian action'], LP, state=['data attached to the point'])
prop('P02', 'Derivatives and proximal maps handed to the solvers are the right ones', 'The gradient and Hessian action a solver receives, in the representation the manifold uses, are the Riemannian ones of the Euclidean derivatives supplied, or of finite differences when none are supplied; the Rayleigh quotient of the Hessian has matching cost and derivatives. Supplied proximal maps minimise the weighted proximal objective with positive weights, and the proximal map on a tangent space returns the tangent vector of the multiplier it reports, whose residual meets the requested tolerance or is the last accepted one.',
     'every gradient, Hessian action, weight, direction and manifold representation', 'problems are tested with one representation each, numerical derivatives and proximal maps of the tangent space are not tested.', ['Problems/Problem.cpp', 'Problems/SphereTxRQ.cpp', 'Problems/StieSPCA.cpp', 'Problems/FRankESparseApprox.cpp', 'Manifolds/Manifold.cpp'], [('assembly of derivatives', 'Problem::Grad, HessianEta, RieGrad, RieHessianEta'), ('finite differences', 'Problem::EucGrad, EucHessianEta'), ('proximal maps', 'ProxW, CalJW'), ('semismooth Newton', 'Manifold::TangentSpaceProximalMap, myCG')], ['gradient, Hessian action, proximal point, multiplier'], LP, over=('inputs', 'configurations'))
exec(open(os.path.join(H, 'gen_meta2.py')).read() if os.path.exists(os.path.join(H, 'gen_meta2.py')) else '')
NA = globals().get('NA', [])
HOOKS = {'guard': 'none', 'enable': 'no hooks are needed: the checks compile the unmodified sources', 'source_commits': []}
with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for p in P + [n[1] for n in NA]:
        f.write(json.dumps({k: v for k, v in p.items() if k != 'note'}) + '\n')
M = {'version': 1, 'setup_cmd': 'true', 'hooks': HOOKS,
     'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'], 'technique': TECH, 'level': 'model_checking', 'level_note': p['note']} for p in P],
     'not_applicable': [{'property': n[0], 'reason': n[2]} for n in NA]}
json.dump(M, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
