"""Writes properties.jsonl (kept as code so that the text stays readable)."""
import json
import os

COV = 'robuststats/estimation/covariance.py'
BASE = 'robuststats/estimation/base.py'
STR = 'robuststats/estimation/structured.py'
MAN = 'robuststats/models/manifolds.py'
MAP = 'robuststats/models/mappings.py'
PRO = 'robuststats/models/probability.py'
COST = 'robuststats/models/cost.py'
ONL = 'robuststats/online/estimation.py'
LIN = 'robuststats/utils/linalg.py'
GEN = 'robuststats/utils/generation_data.py'
MC = 'robuststats/utils/montecarlo.py'
CHK = 'robuststats/utils/checking.py'
BE = 'robuststats/utils/backend.py'
VRB = 'robuststats/utils/verbose.py'

P = []


def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append({
        'id': id, 'title': title, 'statement': ' '.join(statement.split()),
        'quantifier': {'over': over, 'text': ' '.join(text.split())},
        'why_tests_cant': ' '.join(why.split()),
        'anchors': {'files': files,
                    'mechanism': [{'name': n, 'where': w} for n, w in mech],
                    'observe_at': observe, 'hook_needed': None}})


prop('C01', "Tyler estimates solve Tyler's equation, uniquely",
     """For every real or complex data set of non-zero samples in general
     position (n well above p), Tyler's estimator run to convergence returns a
     finite symmetric/Hermitian positive definite matrix S of the type of the
     data satisfying S = (p/n) sum_i x_i x_i^H / (x_i^H S^-1 x_i) up to scale
     and the tolerance. The solution does not depend, up to scale, on the
     initial point, the memory layout or the numeric type of the data, and the
     complex estimator applied to real-valued data cast to complex finds the
     real solution.""",
     ['inputs', 'configurations'],
     """all data sets (dimensions from 1, Gaussian to extremely heavy tailed,
     samples of wildly different magnitudes, non circular), initial points,
     tolerances, normalisations, functional and estimator interfaces""",
     """tests fit one Gaussian data set per estimator and look at shapes and
     rough closeness to the truth; they never evaluate the equation the
     estimate must solve.""",
     [COV, LIN],
     [('real and complex Tyler fixed-point loops', COV),
      ('TylerShapeMatrix / ComplexTylerShapeMatrix fit', COV),
      ('inverse square root of a covariance', LIN)],
     ['covariance_ after fit', 'return values of the estimation functions'])

prop('C02', 'Tyler is invariant to sample scaling and affine equivariant',
     """Multiplying any samples by arbitrary non-zero scalars (any magnitude
     and sign, and any phase for complex data), reordering or repeating the
     whole data set leaves a Tyler shape estimate unchanged up to scale.
     Applying an invertible linear map T to the samples maps the estimate S to
     T S T^H up to scale, and conjugating complex data conjugates it; this
     holds for the fixed-point and the natural-gradient methods.""",
     ['inputs'],
     """all data sets, all non-zero per-sample scalars, permutations and
     invertible maps, both solution methods, real and complex""",
     """the relation links two runs on transformed inputs; no test compares
     two runs.""",
     [COV], [('Tyler fixed-point and natural-gradient solvers', COV)],
     ['covariance_ of pairs of fits'])

prop('C03', 'Student-t estimates maximise the t likelihood',
     """For centred real or complex data in general position and any positive
     degrees of freedom, the converged Student-t estimate is the maximum
     likelihood scatter matrix under the multivariate t model of the library
     with those degrees of freedom (scipy's real convention; the circular
     complex density for complex data): the gradient of the likelihood
     vanishes there, no other positive definite matrix has a larger
     likelihood, and no iteration decreases it. Its score on any data set is
     the sum of the log-densities under the fitted model.""",
     ['inputs', 'configurations'],
     """all data sets, degrees of freedom, initial points, real and complex,
     every iteration of the algorithm""",
     """tests check output types and rough closeness on one sample; a wrong
     degrees-of-freedom convention or weight passes them.""",
     [COV, PRO],
     [('real and complex Student fixed points', COV),
      ('CenteredStudentMLE / ComplexCenteredStudentMLE fit and score', COV),
      ('complex multivariate t density', PRO)],
     ['covariance_', 'score'])

prop('C04', "Huber estimates solve Huber's calibrated equation",
     """For centred data in general position the converged Huber estimate with
     parameter q solves S = (1/(n b)) sum_i min(1, a/d_i) x_i x_i^H with
     d_i = x_i^H S^-1 x_i, where the threshold a is the q-quantile of d_i for
     Gaussian data of covariance S (real or circular complex) and b is the
     constant making the estimator consistent for the Gaussian covariance.
     With q = 1 it is the sample covariance, and non positive thresholds or
     constants are rejected.""",
     ['inputs', 'configurations'],
     """all data sets, all q in (0,1], real and complex, all initial
     points""",
     """the stable tests of this estimator only check that it runs; weights
     applied the wrong way round passed them.""",
     [COV],
     [('Huber weight function and its calibration', COV),
      ('HuberMEstimator / ComplexHuberMEstimator fit', COV)],
     ['covariance_', 'return value of the weight function'])

prop('C05', 'Covariance estimators are affine equivariant',
     """For the Student-t, Huber and empirical covariance estimators, real and
     complex, applying an invertible linear map T to every sample maps the
     estimate S exactly (scale included) to T S T^H; reordering the samples,
     repeating the whole data set or flipping signs/phases of single samples
     leaves S unchanged, and conjugating the data conjugates S.
     Equivalently, the result is a Hermitian positive definite matrix that
     depends on the data only through the set of its samples.""",
     ['inputs'],
     """all data sets in general position, invertible maps, permutations,
     phases, estimators and their parameters""",
     """relation between two runs on transformed inputs, never tested.""",
     [COV, BASE],
     [('Student and Huber fixed points', COV),
      ('empirical covariances', BASE)],
     ['covariance_ of pairs of fits'])

prop('C06', 'Robust estimates resist outliers and are consistent',
     """Replacing a small fraction (well below the breakdown point of the estimator, e.g. 1/(p+1) for Tyler) of the samples by
     outliers of arbitrary direction and arbitrarily large finite magnitude
     changes the Tyler, Student-t and Huber estimates by a bounded amount, and
     beyond a point the magnitude of the outliers has no effect. On uncontaminated data
     the estimates approach the true parameter as n grows: shape for Tyler
     under any elliptical law, scatter for Student-t under its own law,
     covariance for Huber under the Gaussian law.""",
     ['inputs'],
     """all contamination patterns below the breakdown point with any
     magnitude, all elliptical laws""",
     """the promise of robustness is about all magnitudes and all heavy
     tails; tests use clean data only.""",
     [COV],
     [('weights of the M-estimators', COV)],
     ['covariance_ of clean, contaminated and over-contaminated fits'])

prop('C07', 'Requested normalisation of shape matrices holds exactly',
     """A Tyler estimate requested with normalisation 'trace', 'determinant'
     or 'element' has respectively trace p, determinant 1 or first diagonal
     entry 1, for every data set, scale, dimension, initial point and both
     solution methods. Normalisation only rescales: all normalisations of one
     fit, including 'None', are proportional by a positive factor, and an
     unknown normalisation is reported through the error log and behaves as
     'None'.""",
     ['inputs', 'configurations'],
     """all data sets including very small or very large units and larger
     dimensions, both methods, real and complex""",
     """tests normalise a couple of well-scaled matrices.""",
     [COV],
     [('normalisation functions', COV),
      ('end of the Tyler solvers', COV)],
     ['covariance_ after fit'])

prop('C08', 'Natural gradient and fixed point give the same shape',
     """On every data set in general position the two solution methods of the
     Tyler estimators (real and complex) return the same shape matrix up to
     scale and solver accuracy, from the default or any positive definite
     initial point, given as any kind of array. The value reported by the natural-gradient solver is the
     log-likelihood-type criterion (minus Tyler's cost of the direction-normalised
     data) at the returned solution.""",
     ['inputs', 'configurations'],
     """all data sets, initial points, normalisations, real and complex""",
     """tests only check that each method runs.""",
     [COV, COST],
     [('real and complex natural-gradient solvers', COV),
      ('fixed-point solvers', COV)],
     ['covariance_', 'err_'])

prop('C09', 'Iterations, errors and non-convergence are reported truthfully',
     """Every iterative estimator performs at most iter_max iterations, stops
     at the first iteration whose relative Frobenius change of the
     (unnormalised) estimate is at most tol, and reports exactly that number
     of iterations and that change. A fit limited to k iterations returns the
     k-th iterate of the unlimited run and restarting from a returned
     (unnormalised) estimate continues the same sequence; stopping on the budget with the
     change still above tol is always reported in the log, and stopping
     earlier never is.""",
     ['histories', 'inputs', 'configurations'],
     """all estimators, data sets, tolerances, iteration budgets, initial
     points and splittings of a run into several""",
     """tests read the fields once; they never reconstruct the sequence of
     iterates.""",
     [COV, STR],
     [('stopping rule of the fixed-point loops', COV),
      ('stopping rule of the Kronecker MM loop', STR)],
     ['err_', 'iteration_', 'log records', 'estimates for budgets 1..K'])

prop('C10', 'Complex/real representations are structure-preserving bijections',
     """Mapping a complex vector, data set or covariance (or stack of
     covariances) to its real equivalent and back returns the original exactly,
     and the real equivalent of a covariance C is half the block matrix
     [[Re,-Im],[Im,Re]], so that products, quadratic forms, inverses,
     Hermitian symmetry and positive definiteness correspond. Inputs already
     in the target representation are returned unchanged, arrays of
     unsupported shape (non square, odd size, wrong number of dimensions) are
     rejected with AttributeError, and the Hermitian/symmetric checks accept
     exactly the matrices equal to their (conjugate) transpose within
     tolerance.""",
     ['inputs'],
     """all arrays, shapes and dtypes""",
     """tests use one random array of each kind and check shapes.""",
     [MAP], [('real and complex mapping functions', MAP)],
     ['return values'])

prop('C11', 'Circular complex densities equal their closed forms',
     """For every complex location, Hermitian positive definite matrix and
     point, logpdf/pdf/entropy of the complex normal equal the circular
     closed forms and those of the complex t model the
     closed form consistent with them, in the generic and in the frozen
     interface alike, as soon as location or matrix is complex. With real
     location, matrix and data they equal scipy's real distributions; real
     points under complex parameters count as having zero imaginary part, and
     log and plain versions (pdf, cdf) agree.""",
     ['inputs', 'configurations'],
     """all parameters, points (single or several), degrees of freedom,
     mixed real/complex arguments, frozen and generic interfaces""",
     """tests check shapes and types of a few calls.""",
     [PRO, MAP],
     [('parameter conversion', PRO), ('frozen and generic distributions', PRO)],
     ['return values of logpdf, pdf, logcdf, cdf, entropy'])

prop('C12', 'Random generators follow the law they are given',
     """Samples of the complex normal and complex t models have the requested
     shape, location, covariance (resp. scatter and tails) and are circular:
     their pseudo-covariance vanishes; real parameters give exactly scipy's
     samples. A given integer seed or random state reproduces the same samples
     in the frozen and generic interfaces, without touching the global
     generator.""",
     ['inputs', 'configurations'],
     """all locations, matrices, degrees of freedom, sizes and seeds""",
     """laws are statements about distributions; tests check shapes.""",
     [PRO], [('rvs of the frozen and generic distributions', PRO)],
     ['samples', 'state of the global random generator'])

prop('C13', "Tyler's cost and its gradient are right everywhere",
     """For every data set and positive definite Q, the Tyler costs equal
     p sum_i log(x_i^H Q^-1 x_i) + n log det Q with both numerical backends
     (numpy and autograd), are invariant to scaling of Q, equivariant to
     linear maps, and are finite even when the determinant over- or
     underflows. Their automatic gradient is the true gradient, also at
     matrices with repeated eigenvalues, the Tyler estimate is
     their global minimiser, and incompatible shapes are rejected.""",
     ['inputs'],
     """all data sets and positive definite matrices, all directions of
     differentiation, real and complex""",
     """tests compare one value with a re-implementation.""",
     [COST, BE, COV],
     [('cost functions', COST), ('backend switch', BE),
      ('gradient of the cost', COV)],
     ['cost values', 'gradients'])

prop('C14', 'Kronecker MM fits the structured Tyler problem',
     """On real or complex data in general position, the converged MM
     estimate is covariance = kron(A,B) with A (a x a) and B (b x b) Hermitian
     positive definite factors that are a stationary point of Tyler's cost
     over that Kronecker family; the cost never increases along the iterations.
     It is invariant to per-sample scalings, recovers the
     structured shape (not its conjugate) as n grows, and sizes with
     a b != p are reported without returning an estimate.""",
     ['inputs', 'histories'],
     """all data sets, factor sizes, tolerances, every iteration""",
     """tests run one data set and compare loosely.""",
     [STR], [('MM loop', STR), ('KroneckerEllipticalMM fit', STR)],
     ['A_', 'B_', 'covariance_', 'function return values'])

prop('C15', 'Kronecker Student estimator maximises its likelihood',
     """The cost used for the Kronecker Student model is minus the complex t
     log-likelihood of the data and its Euclidean gradient is the true
     gradient, for every location, degrees of freedom and factors. The fitted
     factors are Hermitian positive definite with det(A)=1, covariance =
     kron(A,B), are a stationary point at which no structured perturbation
     improves the likelihood, do not depend on the initial point, recover the true structured
     scatter as n grows, and score is the log-likelihood of the given data
     under the fitted model.""",
     ['inputs', 'configurations'],
     """all data sets, locations, degrees of freedom, factor sizes, initial
     points, and parameter changes between fits""",
     """tests check types on one data set; the gradient was wrong for all
     complex data.""",
     [STR, MAN, PRO],
     [('cost and gradient generators', STR), ('KroneckerStudent', STR),
      ('product manifold metric', MAN)],
     ['A_', 'B_', 'covariance_', 'score', 'cost and gradient callables'])

prop('C16', 'Hermitian positive definite manifold operations are exact',
     """On the manifold of (k stacked) Hermitian positive definite matrices,
     log and exp are mutually inverse, the distance is the affine-invariant
     one and equals the norm of the log, inner products are symmetric positive
     definite and affine invariant, projections are idempotent, gradients are
     dual to the metric, and retractions stay on the manifold and agree with
     exp to second order. Transport is an isometry that carries the initial
     velocity of a geodesic to its final velocity, random points and unit-norm
     random tangent vectors belong where they should, and all operations on
     stacked matrices act matrix by matrix.""",
     ['inputs', 'configurations'],
     """all points, tangent vectors, sizes n and numbers k of stacked
     matrices""",
     """tests cover few formulas on one random point with k=1.""",
     [MAN, LIN], [('HermitianPositiveDefinite', MAN)],
     ['return values of every manifold operation'])

prop('C17', 'Unit-determinant manifold operations stay on the manifold',
     """On the manifold of Hermitian positive definite matrices with unit
     determinant, random points, exp and retraction have determinant one,
     tangent vectors (random, projected, logs, gradients, transported) satisfy
     the trace constraint at their base point, projection is the orthogonal
     one, and metric, distance, exp and log coincide with those of the
     Hermitian positive definite manifold. Gradients represent the
     differential along all tangent directions; the same holds for k stacked
     matrices.""",
     ['inputs', 'configurations'],
     """all points, tangent vectors, sizes n and numbers k""",
     """no test exercises this manifold on its own.""",
     [MAN], [('SpecialHermitianPositiveDefinite', MAN)],
     ['return values of every manifold operation'])

prop('C18', 'Strictly positive vectors manifold operations are exact',
     """On the manifold of (k) strictly positive vectors, exp and retraction
     return strictly positive vectors, exp and log are inverse, the distance
     is the Euclidean distance of logarithms and equals the norm of the log,
     the metric is symmetric, positive and scale invariant, gradients and
     Hessians are the Riemannian ones, and transport is isometric. Random
     points and unit-norm random tangent vectors have the declared shape, column by
     column.""",
     ['inputs', 'configurations'],
     """all points, tangent vectors, sizes n and numbers k""",
     """no test exercises this manifold.""",
     [MAN], [('StrictlyPositiveVectors', MAN)],
     ['return values of every manifold operation'])

prop('C19', 'Weighted and Kronecker product manifolds are coherent',
     """In a weighted product the inner product is the weighted sum of those
     of the components, the squared distance the weighted sum of squared
     distances, gradients and Hessians are dual to the weighted metric and
     random tangent vectors have unit norm. The Kronecker elliptical manifold
     uses the Fisher metric (symmetric, positive definite, invariant); its
     gradient is dual to that metric, its distance is the length of its
     geodesics, and k stacked factors act matrix by matrix.""",
     ['inputs', 'configurations'],
     """all components, weights, points, tangent vectors, model
     parameters""",
     """tests check the formula of one inner product.""",
     [MAN],
     [('WeightedProduct', MAN),
      ('KroneckerHermitianPositiveElliptical', MAN)],
     ['return values of every manifold operation'])

prop('C20', 'Feature arrays behave like lists of manifold elements',
     """After any history of appends (single elements, batches, other feature
     arrays, one or several manifolds), lengths, shapes, indexing by
     integers/slices/masks/index lists, export and vectorisation
     give exactly what a plain list of the appended elements would give, with
     no trace of internal preallocation. A rejected append (wrong type, dtype,
     shape or number of manifolds, mismatched batch lengths) leaves the array
     unchanged, and later changes to the caller's arrays never affect the
     stored data.""",
     ['histories', 'inputs'],
     """all sequences of operations, including growth through the
     preallocation sizes""",
     """no test touches this class; its faults appear only after particular
     histories.""",
     [BASE, CHK], [('_FeatureArray', BASE), ('checking helpers', CHK)],
     ['observable state after each operation'])

prop('C21', 'Batch estimation equals one independent fit per trial',
     """Transforming a stack of trials returns, in order, exactly the estimate
     that a fresh copy of the given estimator gives on each trial alone, for
     every number of jobs, parallel backend and thread schedule, with
     precision at least that of the data. Trials never influence each other
     (state, initial point, random draws of the estimator), fit parameters are
     forwarded, and the input is not modified. With several jobs, never more
     than that many trials are in progress at a time, and that many are when
     there are enough trials.""",
     ['schedules', 'inputs', 'configurations'],
     """all trial stacks, estimators, numbers of jobs, backends and
     interleavings of concurrent fits""",
     """tests compare shapes only and never control the schedule.""",
     [BASE],
     [('CovariancesEstimation', BASE), ('FeaturesEstimation', BASE)],
     ['returned stacks', 'estimator calls with thread identity'])

prop('C22', 'Fitting is a pure function of data and parameters',
     """Fitting any estimator returns the estimator itself, never modifies
     the data or the initial point, never shares memory with them, never
     consumes or reseeds the global random generator (except where a random
     start is inherent) and gives the same result whatever was fitted before,
     whatever the verbosity, and on clones, deep copies and unpickled copies,
     which evolve independently. Changing parameters with set_params has the
     same effect as constructing with them, also for copies.""",
     ['histories', 'inputs', 'configurations'],
     """all estimators, parameters, histories of fits, copies and parameter
     changes""",
     """these are properties of histories of calls; tests fit each object
     once.""",
     [COV, BASE, STR],
     [('fit methods and constructors', COV), ('base estimators', BASE),
      ('structured estimators', STR)],
     ['fitted attributes', 'input buffers', 'random state'])

prop('C23', 'Online estimator follows the stochastic gradient recursion',
     """Processing a stream of samples makes the estimate follow exactly
     theta_{k+1} = retraction(theta_k, rate_k * direction(x_k, theta_k)), in
     sample order and once per sample, with rate constant or divided by the
     iteration number, whether samples come through one fit or successive
     updates, for matrix and product (tuple/list) parameters. The covariance
     is always the image of the current estimate, each fit starts afresh from
     its initial point, and updating before an initial point is given changes
     nothing and is logged.""",
     ['histories', 'inputs'],
     """all streams, manifolds, rates and histories of fit/update/set
     calls""",
     """the repository has no test of this estimator.""",
     [ONL, MAN], [('StochasticGradientCovarianceEstimator', ONL)],
     ['calls to the supplied direction and retraction', 'estimate_',
      'covariance_'])

prop('C24', 'Matrix functions and vectorisations are exact',
     """For every symmetric/Hermitian positive definite matrix, the matrix
     square root, inverse square root, logarithm, exponential and power are
     the Hermitian matrices with the transformed spectrum, satisfy their
     algebraic identities, and agree between the numpy and autograd backends.
     Vectorisation and half-vectorisation followed by their inverses return
     the matrix exactly (real or complex Hermitian), hermitian parts (single
     or stacked) are right, and the Toeplitz matrix has entries
     rho^|i-j| (conjugated across the diagonal).""",
     ['inputs'],
     """all matrices, sizes, dtypes, conditionings and exponents""",
     """no test covers this module.""",
     [LIN, BE],
     [('matrix functions', LIN), ('vec/vech and inverses', LIN)],
     ['return values'])

prop('C25', 'Synthetic data generators honour their parameters',
     """Generated covariances are symmetric/Hermitian positive definite of
     the requested size and type (with unit determinant on request), Stiefel
     matrices have orthonormal columns, textures are positive with unit mean
     and the requested spread, and samples drawn from a covariance,
     texture and signal subspace have exactly the second-order
     moments (and circularity) the parameters prescribe. Everything is driven
     by the global random generator, hence reproducible from its seed.""",
     ['inputs'],
     """all sizes, covariances, textures, subspaces and seeds""",
     """moments are statistical; tests only use these as fixtures.""",
     [GEN, LIN], [('generators and samplers', GEN)],
     ['generated arrays'])

prop('C26', 'Temporary seeding is invisible outside its block',
     """Inside the temporary-seed context the global generator produces
     exactly the stream of that seed, and on exit, normal or by any
     exception, nested or repeated, the generator continues exactly as if the
     block had never run. The exception itself propagates unchanged.""",
     ['histories', 'fault_sequences'],
     """all seeds, prior generator states (including a cached Gaussian),
     bodies, exceptions and nestings""",
     """no test covers it, and faults show only for particular exits and
     generator states.""",
     [MC], [('temp_seed', MC)], ['state and draws of the global generator'])

prop('C27', 'Fitted estimators expose coherent scikit-learn results',
     """After any fit, real or complex, the precision is the inverse of the
     covariance, location is the mean when centring is requested and zero
     otherwise, mahalanobis gives (x-m)^H S^-1 (x-m), error_norm the requested
     matrix norm of the difference, and score the mean (Gaussian) log-likelihood
     given by the closed form or by the estimator's own documented model.
     The complex empirical covariance is (1/n) sum x x^H about the chosen location
     and the real estimators agree with scikit-learn.""",
     ['inputs', 'configurations'],
     """all estimators, data sets, test sets, norms and options""",
     """tests check the complex error norm at one point.""",
     [BASE, COV],
     [('ComplexEmpiricalCovariance', BASE),
      ('robust estimators built on it', COV)],
     ['fitted attributes and method results'])

prop('C28', 'Invalid input is rejected and leaves no partial result',
     """Data with NaN or infinite entries, wrong number of dimensions or no
     samples, non positive degrees of freedom, unknown solution methods,
     and unsupported array types or values are rejected with an exception by
     every estimator and checking helper that receives them; valid ones are
     accepted. A failed
     fit leaves the previous fitted result of the estimator as it was, and a
     rejected sample leaves a running online estimate as it was.""",
     ['inputs', 'fault_sequences'],
     """all kinds of invalid input, positions of the bad entry, estimators
     and states of the estimator""",
     """tests contain almost no negative case.""",
     [COV, BASE, CHK],
     [('validation in the fit methods', BASE), ('checks', CHK),
      ('parameter checks', COV)],
     ['exceptions', 'fitted attributes after a failed fit'])

prop('C29', 'Progress reports and printed matrices tell the truth',
     """A verbose fit reports its progress: iterations in increasing order up to
     the number done, out of the budget, each with the relative change (or
     cost, for the online estimator) of that iteration, the last report being
     the final state. Estimators that are not verbose print nothing, and a
     converged one logs no warning; a logged progress bar writes to its logger
     only, at INFO level, counting up to the total. matprint prints every
     entry in the requested format, one line per row, columns aligned.""",
     ['inputs', 'configurations', 'histories'],
     """all estimators, data, tolerances and budgets, both verbosities, all
     loggers and levels, all matrices and formats""",
     """no test looks at what is printed or logged, and a report can only be
     judged against the run it describes.""",
     [VRB, COV, STR, ONL],
     [('logging_tqdm and matprint', VRB),
      ('progress of the fixed points', COV), ('progress of the MM', STR),
      ('progress of the stream', ONL)],
     ['standard streams', 'log records', 'errors and iteration counts'])

prop('C30', 'Arguments left out take their documented defaults',
     """Calling an estimator, estimation function, distribution, checking or
     mapping helper without an optional argument has exactly the effect of
     passing the default its documentation gives: tolerances, iteration
     budgets, methods, normalisations, verbosity, centring, initial points
     (the identity, given as any kind of array, for the Kronecker Student
     estimator), locations, scatters, sizes, degrees of freedom, relative and
     absolute tolerances, number of jobs.""",
     ['inputs', 'configurations'],
     """all entry points with documented defaults, every argument left out
     alone or with all others, all data for which its value matters""",
     """tests pass most arguments explicitly and never compare with the
     documentation; a default matters only on data where the run is stopped
     by it.""",
     [COV, STR, PRO, MAP, BASE],
     [('signatures of estimators and functions', COV),
      ('Kronecker estimators', STR), ('complex distributions', PRO)],
     ['outcomes of calls with and without the argument'])

prop('C31', 'Calls do not interfere with their arguments or each other',
     """No function or method of the library modifies the arrays it is given,
     whatever their memory layout (contiguous by rows or columns, strided,
     reversed, read-only), and the layout never changes the result. A call
     gives what it gives alone: whatever was called before (with the same
     arrays, whose contents may have changed meanwhile, or with others, of
     other sizes), whatever the caller did to former results, and whatever
     other threads are calling. Functions that are not generators of random
     numbers leave numpy's global generator alone; generators follow the seed
     set by the caller, differ from one call to the next, and never reset
     it.""",
     ['inputs', 'histories', 'schedules'],
     """all public functions and methods, all arguments and memory layouts,
     all histories of other calls, all interleavings of calls in threads""",
     """tests call each function once, on fresh contiguous arrays, in one
     thread: buffers kept between calls, cached results and in-place updates
     of arguments give the same answers there.""",
     [LIN, MAP, MAN, COV, BASE, PRO, GEN, STR],
     [('matrix functions', LIN), ('mappings', MAP), ('manifolds', MAN),
      ('estimation functions', COV), ('feature arrays and batches', BASE),
      ('densities', PRO), ('generators', GEN)],
     ['arguments before and after each call', 'results of equal calls',
      'global random state'])

if __name__ == '__main__':
    path = os.path.join(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))), 'properties.jsonl')
    with open(path, 'w', encoding='utf8') as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    print(len(P), 'properties')
