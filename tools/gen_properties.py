#!/usr/bin/env python3
"""Single source for /verif/properties.jsonl (run it to regenerate)."""
import json, os
P = []
def add(id, title, statement, over, qtext, why, files, mech, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

add("P01", "1-D basis functions agree with their own derivatives and recurrences",
 "For every real point and every order, each one-dimensional basis family (probabilist and physicist Hermite polynomials, normalised or not, and Hermite functions) returns the mathematically defined value, its first-derivative routines return the exact derivative of that value, and its second-derivative routines the exact second derivative. The routines that fill a whole vector of orders agree entry by entry with the routines for a single order.",
 ["inputs", "configurations"], "every evaluation point x; every order up to the stated bound; normalised and unnormalised families; every maximum order passed to the vector routines",
 "Tests compare a handful of orders at a handful of points with hard-coded numbers or finite differences; an error confined to one order, to the normalised variant, or to one of the four entry points at orders the test skips is not sampled.",
 ["MParT/OrthogonalPolynomial.h", "MParT/HermiteFunction.h", "MParT/Utilities/MathFunctions.h"],
 [("three-term recurrence and derivative recurrences", "MParT/OrthogonalPolynomial.h"), ("Hermite function recurrences", "MParT/HermiteFunction.h"), ("factorial used in normalisations", "MParT/Utilities/MathFunctions.h")])

add("P02", "Linearised basis is the smooth linear extension of the wrapped basis",
 "A linearised one-dimensional basis equals the wrapped basis on its bounds and, outside them, the tangent line taken at the nearer bound, so value and first derivative are continuous and the second derivative outside is zero. Value, derivative and second-derivative routines, scalar and vectorised, all describe that same function for every combination of finite and infinite bounds.",
 ["inputs", "configurations"], "every evaluation point; every pair of lower/upper bounds; every order up to the stated bound; each wrapped family, normalised or not",
 "The tests use a single symmetric pair of bounds and a few points; an error at a specific side of the interval or for the normalised family is not visible to them.",
 ["MParT/LinearizedBasis.h"], [("tangent extension outside [lb,ub]", "MParT/LinearizedBasis.h")])

add("P03", "Multivariate expansions equal their defining sum, with exact derivatives",
 "An expansion over any multi-index set returns, for every point and coefficient vector, the sum over terms of the coefficient times the product of one-dimensional basis functions of the orders in that multi-index. Its gradients with respect to inputs and coefficients, its first and second derivatives in the last input, and the mixed coefficient and input derivatives of the former are the exact derivatives of that sum, for every output component.",
 ["inputs", "configurations"], "every point, coefficient vector, sensitivity vector and one-dimensional basis (treated as arbitrary functions); multi-index sets (total order, arbitrary sparse, with zero rows) of the stated sizes; one or several outputs",
 "Tests use one or two total-order sets and compare to finite differences with loose tolerances at a few points; sparse sets, sets whose last term or last dimension is special, and multi-output coefficient slicing are not swept.",
 ["MParT/MultivariateExpansion.h", "MParT/MultivariateExpansionWorker.h"],
 [("cached evaluation of terms", "MParT/MultivariateExpansionWorker.h"), ("multi-output wrapper", "MParT/MultivariateExpansion.h")],
 [("cache", "1-D basis values and derivatives at one point", "MParT/MultivariateExpansionWorker.h")])

add("P04", "Positive bijectors are positive, increasing and consistent with their inverse",
 "Each positivity-enforcing function returns a strictly positive value for every real input, its derivative and second derivative routines are the exact derivatives of its value, its derivative is strictly positive, and its inverse undoes it.",
 ["inputs"], "every real argument (every positive argument for the inverse)",
 "Tests evaluate about ten points with finite-difference tolerances.",
 ["MParT/PositiveBijectors.h"], [("SoftPlus and Exp", "MParT/PositiveBijectors.h")])

add("P05", "Monotone component value is the offset plus the integral of a positive slope",
 "For every point, coefficient vector and configuration, a monotone component evaluates to its expansion with the last input set to zero plus the quadrature approximation of the integral from zero to the last input of the positive function applied to the expansion's last-input derivative plus the configured minimum slope. This holds for points on either side of zero and at zero.",
 ["inputs", "configurations"], "every point and coefficient vector; arbitrary positive function and 1-D basis; multi-index sets and quadrature rules of the stated sizes; every non-negative minimum slope",
 "The tests compare with an analytic integral for a few coefficient choices with zero minimum slope.",
 ["MParT/MonotoneComponent.h", "MParT/MonotoneIntegrand.h"],
 [("evaluation of one point", "MParT/MonotoneComponent.h EvaluateSingle/EvaluateImpl"), ("integrand on the unit interval", "MParT/MonotoneIntegrand.h")])

add("P06", "Monotone components are strictly increasing with slope at least the nugget",
 "For every coefficient vector and point the reported derivative of a monotone component in its last input is strictly positive and at least the configured minimum slope, its log-determinant is the logarithm of that derivative, and with positive quadrature weights its value is strictly increasing in the last input whenever the integrand depends on position in a way the rule integrates exactly. A configured minimum slope acts identically in evaluation, inversion, derivatives and log-determinants.",
 ["inputs", "configurations"], "every coefficient vector, point, and non-negative minimum slope; continuous and discrete derivative modes",
 "Monotonicity is universally quantified over coefficients and pairs of points; tests check sorted grids of points for one coefficient vector and never combine a nonzero minimum slope with inversion or gradients.",
 ["MParT/MonotoneComponent.h", "MParT/MonotoneIntegrand.h"],
 [("continuous and discrete derivative", "MParT/MonotoneComponent.h"), ("nugget", "MParT/MonotoneIntegrand.h")])

add("P07", "Monotone component gradients and Jacobians are exact derivatives",
 "For a monotone component, the coefficient gradient and input gradient are the exact partial derivatives of the value it returns, and the log-determinant gradients with respect to inputs and coefficients are the exact partial derivatives of the log-determinant it returns (in discrete derivative mode the input gradient of the log-determinant is refused with an error). Results do not depend on what the output array held before the call.",
 ["inputs", "configurations"], "every point, coefficient vector, sensitivity and initial output content; arbitrary positive function and 1-D basis; continuous and discrete modes; stated multi-index sets and quadrature rules",
 "Tests use finite differences at a few points, one basis, and freshly zeroed outputs.",
 ["MParT/MonotoneComponent.h", "MParT/MonotoneIntegrand.h", "MParT/MultivariateExpansionWorker.h"],
 [("coefficient/input Jacobians and mixed derivatives", "MParT/MonotoneComponent.h"), ("integrand derivative modes", "MParT/MonotoneIntegrand.h")])

add("P08", "Inversion of a monotone function returns a bracketed, converged root",
 "For every strictly increasing function, target, and starting point, the root finder keeps an interval whose end values straddle the target, and when it reports success the returned point lies in that interval and either its residual is within the function tolerance or the interval width is within the position tolerance. If it cannot bracket the target or runs out of iterations it reports failure rather than returning an unconverged value as a success.",
 ["inputs", "programs"], "every increasing function (its values at queried points chosen adversarially), every target, start and tolerance, up to the stated number of iterations",
 "The function itself is the quantified object; tests use two or three smooth functions and never exhaust the iteration limit.",
 ["MParT/Utilities/RootFinding.h"], [("bracketing and ITP iterations", "MParT/Utilities/RootFinding.h")])

add("P09", "Evaluating the inverse of a monotone component recovers the target",
 "For every coefficient vector, conditioning input and target, inverting a monotone component and evaluating it at the result reproduces the target within the configured tolerance whenever inversion reports success, and the inverse of an evaluated point is that point within tolerance. Each column of a batch is inverted with its own conditioning values, including the case of one conditioning column shared by all targets; a target that the component does not take is reported as NaN without disturbing the other columns.",
 ["inputs", "configurations"], "every coefficient vector, conditioning input and target within bounds; minimum slope zero or positive; shared or per-column conditioning inputs",
 "Tests invert one grid of points for one coefficient vector.",
 ["MParT/MonotoneComponent.h", "MParT/Utilities/RootFinding.h"], [("inverse of a component", "MParT/MonotoneComponent.h InverseImpl")])

add("P10", "Quadrature rules integrate exactly to their degree and add up sub-intervals",
 "Each fixed quadrature rule has weights that integrate every polynomial up to its nominal degree exactly over any interval, scalar or vector valued, including reversed and empty intervals, and integrates linearly in the integrand. Adaptive rules return a sum of rule applications over a partition of the requested interval whose accepted pieces satisfy the requested error test or have exhausted the subdivision limit, using only the workspace they ask for, and do not keep refining where the integrand is not a number.",
 ["inputs", "programs", "configurations"], "every interval, every polynomial integrand up to the stated degree (symbolic coefficients), adversarial integrand values for adaptive rules; scalar and vector outputs; subdivision limits up to the stated bound",
 "Tests integrate exp and a step function over one interval; the adaptive control flow depends on integrand values in ways not sampled (for example minimum subdivisions, exhausted limits, vector outputs where only one entry is inaccurate).",
 ["MParT/Quadrature.h"], [("Clenshaw-Curtis, adaptive Simpson, adaptive Clenshaw-Curtis", "MParT/Quadrature.h")],
 [("workspace", "stack of pending sub-intervals", "MParT/Quadrature.h")])

add("P11", "Triangular maps stack their blocks: value, determinant, inverse and gradients",
 "A triangular map evaluates to the concatenation of its blocks, each applied to the leading inputs it declares, its log-determinant is the sum of the blocks' log-determinants, and its input and coefficient gradients and log-determinant gradients are the exact derivatives of those. Inverting with given leading inputs and evaluating again recovers the requested outputs, for square and rectangular maps and blocks with one or several outputs.",
 ["inputs", "configurations"], "every point, coefficient vector and sensitivity; blocks treated as arbitrary functions; block counts, block output sizes and extra leading inputs up to the stated bounds",
 "Tests use identical scalar blocks with one or two dimension patterns; index arithmetic for blocks of different output sizes and coefficient counts is a configuration space they do not sweep.",
 ["src/TriangularMap.cpp", "MParT/TriangularMap.h"], [("block loop and sub-views", "src/TriangularMap.cpp")])

add("P12", "Composed maps equal the composition for every layer count and checkpoint limit",
 "A composed map evaluates to its layers applied in order, its log-determinant is the sum of layer log-determinants along the path, its inverse undoes the layers in reverse, and all of its gradients are exact derivatives of those quantities. None of these results depend on the number of checkpoints allowed, and never more than the allowed number of intermediate states is stored.",
 ["inputs", "configurations", "schedules"], "every point, coefficient vector and sensitivity; layers treated as arbitrary functions; layer counts and checkpoint limits up to the stated bounds",
 "The checkpoint schedule is a discrete program over (layers, limit); tests run one or two combinations and compare gradients by finite differences.",
 ["src/ComposedMap.cpp", "MParT/ComposedMap.h"], [("checkpoint scheduling", "src/ComposedMap.cpp Checkpointer"), ("reverse sweeps", "src/ComposedMap.cpp")],
 [("checkpoints", "stored layer inputs and their layer numbers", "src/ComposedMap.cpp")])

add("P13", "Affine maps and functions: value, inverse, log-determinant and gradients",
 "An affine map or function returns Ax+b for every point (with the identity for a missing matrix and zero for a missing offset), its inverse returns the solution of the corresponding system including the rectangular case with given leading inputs, and its log-determinant is the logarithm of the absolute determinant of the trailing square block. Its input gradient is the transposed matrix times the sensitivity, and its coefficient and log-determinant gradients are those of a map with no coefficients and constant determinant, whatever the outputs held before.",
 ["inputs", "configurations"], "every matrix (invertible where required), offset, point, target and sensitivity at the stated dimensions; matrix-only, offset-only and both; strided inputs",
 "Tests use one random matrix; negative determinants, pivoting patterns, rectangular inverses and pre-filled outputs are not swept.",
 ["src/AffineMap.cpp", "MParT/AffineMap.h", "src/AffineFunction.cpp", "MParT/AffineFunction.h"], [("affine evaluation and solve", "src/AffineMap.cpp")])

add("P14", "Identity and summarised maps behave as the functions they stand for",
 "An identity map returns the trailing inputs unchanged, has zero log-determinant, inverts to its argument and has the corresponding gradients. A summarised map equals its component applied to the summary of the leading inputs followed by the last inputs, and its determinant, inverse and every gradient are the exact derivatives by the chain rule.",
 ["inputs", "configurations"], "every point, coefficient vector and sensitivity; summary function and component treated as arbitrary functions; dimensions up to the stated bounds",
 "Tests use a single summary function and do not exercise several gradient entry points.",
 ["src/IdentityMap.cpp", "src/SummarizedMap.cpp", "MParT/SummarizedMap.h", "MParT/IdentityMap.h"], [("summary chain rule", "src/SummarizedMap.cpp"), ("identity block", "src/IdentityMap.cpp")])

add("P15", "Coefficients: setting copies, wrapping aliases, nested maps stay in step",
 "Setting coefficients copies them, so later changes to the caller's array have no effect, while wrapping makes the map use the caller's array; in both cases the coefficients read back equal what was given, and a composite map's parts use exactly their consecutive slices, also after repeated and interleaved set and wrap calls on the whole or when the parts' coefficients were moved at construction. Supplying the wrong number of coefficients, or evaluating without any, raises an error.",
 ["inputs", "histories"], "every coefficient vector and every sequence of set/wrap/modify operations up to the stated length; nested maps of the stated shapes",
 "Aliasing and slicing depend on histories of set, wrap and write operations; tests run one order of calls.",
 ["src/ParameterizedFunctionBase.cpp", "src/TriangularMap.cpp", "src/ComposedMap.cpp", "src/SummarizedMap.cpp"],
 [("SetCoeffs/WrapCoeffs", "src/ParameterizedFunctionBase.cpp"), ("slicing into parts", "src/TriangularMap.cpp, src/ComposedMap.cpp, src/SummarizedMap.cpp")],
 [("savedCoeffs", "the coefficient view used in evaluation", "MParT/ParameterizedFunctionBase.h")])

add("P16", "Multi-indices behave as integer vectors with a strict total order",
 "A multi-index built from any vector reports exactly the entries it was given, keeps them under any sequence of in-range assignments, and its sum, maximum, equality and dense form agree with that vector. Its ordering is a strict total order consistent with equality, and out-of-range positions are rejected by an error without touching other memory.",
 ["inputs", "histories"], "every entry value, every position and every sequence of assignments at the stated lengths; every pair and triple of multi-indices for the order laws",
 "Order laws and the sparse representation are quantified over pairs/triples of vectors and assignment histories; tests compare three hand-picked vectors.",
 ["src/MultiIndices/MultiIndex.cpp", "MParT/MultiIndices/MultiIndex.h"], [("sparse storage and comparison", "src/MultiIndices/MultiIndex.cpp")])

add("P17", "Multi-index sets keep their index maps, neighbours and limiter consistent",
 "After any sequence of additions, activations, expansions and unions, a multi-index set's positions and lookups are inverse to each other, its members are distinct and all accepted by its limiter, its maximum orders are the true maxima, and its size is the number of members. The margin, reduced margin, frontier, admissibility and neighbour queries equal their set-theoretic definitions, and expanding adds exactly the admissible neighbours asked for.",
 ["inputs", "histories"], "every sequence of operations and every choice of multi-indices up to the stated length, dimension and order; limiters: none, total order, dimension, maximum degree, anisotropic and logical combinations",
 "The graph bookkeeping is history dependent; tests follow a few fixed scripts on small total-order sets.",
 ["src/MultiIndices/MultiIndexSet.cpp", "MParT/MultiIndices/MultiIndexSet.h", "src/MultiIndices/MultiIndexLimiter.cpp", "src/MultiIndices/MultiIndexNeighborhood.cpp"],
 [("activation and edge maintenance", "src/MultiIndices/MultiIndexSet.cpp")],
 [("inEdges/outEdges, active2global, global2active", "neighbour graph and index maps", "MParT/MultiIndices/MultiIndexSet.h")])

add("P18", "Fixed multi-index sets represent the same terms in every construction",
 "A fixed multi-index set built from a dense order array, from compressed arrays, from a total order or from a flexible set (compressed or not) contains exactly the intended multi-indices in the documented order, reports true maximum degrees and size, and finds each member's position while reporting non-members as absent. Converting a flexible set, and reading terms back as multi-indices, preserves the collection of terms.",
 ["inputs", "configurations"], "every order array at the stated term counts and dimensions; every total order and dimension up to the stated bounds; every query multi-index",
 "Tests check 2-D and 3-D total orders and one dense array; the compressed boundary conditions (last term, empty term, absent member) are unsampled.",
 ["src/MultiIndices/FixedMultiIndexSet.cpp", "MParT/MultiIndices/FixedMultiIndexSet.h"], [("compressed storage", "src/MultiIndices/FixedMultiIndexSet.cpp")])

add("P19", "Array conversions and copies preserve every element and its position",
 "Converting between raw pointers, standard vectors, Eigen arrays and views, in row-major, column-major or strided layout, refers to or copies exactly the same elements at the same positions, writes through a view appear in the wrapped array and nowhere else, and copies are independent of their source. Column and row slices and layout changes preserve values for every shape including empty ones.",
 ["inputs", "configurations"], "every element value and every position (symbolic indices) for shapes up to the stated bounds; all layouts and strides offered",
 "Tests check 1-2 shapes with one fill pattern.",
 ["MParT/Utilities/ArrayConversions.h"], [("pointer/Eigen/vector to view conversions", "MParT/Utilities/ArrayConversions.h")])

add("P20", "Dense linear algebra helpers compute the defined products and solves",
 "Matrix products honour every combination of transposes, scale factors and strided or sliced operands, solves return vectors that satisfy the system, triangular solves and multiplications use the actual factor, determinants equal the mathematical determinant including sign, and in-place sums and reductions add exactly the stated elements. A zero scale on the output makes the result independent of its prior content.",
 ["inputs", "configurations"], "every matrix entry (invertible or positive definite where required) and scalar at the stated sizes; all transpose combinations and layouts",
 "Tests use one random matrix per routine with default layout; sign of permuted determinants, non-contiguous operands and pre-filled outputs are not swept.",
 ["src/Utilities/LinearAlgebra.cpp", "MParT/Utilities/LinearAlgebra.h"], [("dgemm, LU, Cholesky, reductions", "src/Utilities/LinearAlgebra.cpp")])

add("P21", "Saving and loading reproduces the same map, function, set or options",
 "Writing any serialisable object (options, fixed multi-index sets, one-dimensional bases, quadrature rules, expansion workers, monotone components, triangular maps, coefficients and arrays) to an archive and reading it back yields an object with identical dimensions, coefficients and settings that evaluates identically everywhere, and the reader consumes exactly what the writer produced.",
 ["inputs", "configurations"], "every coefficient vector, matrix and option value; nested maps of the stated shapes; every evaluation point",
 "Tests save and reload two or three fixed objects; a field dropped from the archive is visible only for non-default values.",
 ["MParT/Utilities/Serialization.h", "MParT/MapOptions.h", "MParT/TriangularMap.h", "MParT/MonotoneComponent.h", "MParT/MultivariateExpansionWorker.h", "MParT/Quadrature.h", "MParT/LinearizedBasis.h", "MParT/MultiIndices/FixedMultiIndexSet.h"],
 [("save/load pairs", "MParT/**/*.h serialize, save, load_and_construct")])

add("P22", "The map factory builds the map the options describe",
 "For every combination of basis, bounds, positive function, quadrature and derivative options, a factory-made component behaves exactly like the component assembled by hand from those options, expansions likewise, and unknown combinations raise an error. Triangular factory maps have the requested input and output dimensions with total-order blocks over the right inputs, and single-entry maps change only the active output.",
 ["configurations", "inputs"], "every point and coefficient vector; all registered option combinations with symbolic minimum slope; dimensions and orders up to the stated bounds; every active index",
 "The option space is a product of six choices; tests instantiate a few combinations and check dimensions only.",
 ["src/MapFactory.cpp", "MParT/MapFactory.h", "src/MapFactoryImpl1.cpp", "src/MapFactoryImpl14.cpp"], [("option-keyed registry", "MParT/MapFactory.h, src/MapFactoryImpl*.cpp")])

add("P23", "KL objective equals the mean negative log pullback density, with exact gradient",
 "For every dataset, map and coefficient vector the objective equals minus the sample mean of the reference log density at the mapped sample plus the map's log-determinant, the reported coefficient gradient is its exact derivative, and the combined routine returns the same value and gradient as the separate ones after installing the coefficients it was given. Training and test errors use their own datasets, and asking for a test error without test data raises an error.",
 ["inputs"], "every dataset of the stated size, coefficient vector and map (treated as an arbitrary differentiable map), separate training and test sets",
 "Tests evaluate at one random dataset and compare by finite differences.",
 ["src/MapObjective.cpp", "MParT/MapObjective.h", "src/Distributions/PullbackDensity.cpp"], [("objective and gradient", "src/MapObjective.cpp")])

add("P24", "Distributions: log densities, gradients and samples are mutually consistent",
 "A Gaussian's log density equals the normalised quadratic form for any mean and positive-definite covariance, and its gradient is the exact derivative; its samples are the mean plus the covariance factor applied to standard normals. Pullback and pushforward densities satisfy the change-of-variables formula with exact gradients, transported samples are the map (or inverse) applied to reference samples, and mismatched dimensions raise an error.",
 ["inputs", "configurations"], "every mean, covariance (through its factor), point, standard-normal draw and map (arbitrary function); presence or absence of mean and covariance; stated dimensions and batch sizes",
 "Tests use statistical checks on random samples and one covariance.",
 ["src/Distributions/GaussianSamplerDensity.cpp", "src/Distributions/PullbackDensity.cpp", "MParT/Distributions/PushforwardDensity.h", "MParT/Distributions/PullbackSampler.h", "MParT/Distributions/PushforwardSampler.h", "MParT/Distributions/Distribution.h", "src/Distributions/DensityBase.cpp"],
 [("Gaussian density and sampler", "src/Distributions/GaussianSamplerDensity.cpp"), ("change of variables", "src/Distributions/PullbackDensity.cpp, MParT/Distributions/PushforwardDensity.h")])

add("P25", "Training installs the optimiser's result; adaptive training keeps the best map",
 "Training hands the optimiser the current coefficients (ones if none were set), the requested options and the true objective and gradient, and afterwards the map holds exactly the returned coefficients and the returned objective value is reported. Adaptive training only adds admissible terms within the size, patience and degree limits, starts every enlarged map from the trained coefficients with zero for the new term, ends within the limits (also when no admissible term is left), and returns the index sets with the lowest test error it saw together with a map over exactly these sets that holds the coefficients of a final training.",
 ["inputs", "fault_sequences", "histories"], "every optimiser behaviour (returned coefficients, values and result code arbitrary), every sequence of test errors, gradients and limits up to the stated number of adaptive steps",
 "Tests run the real optimiser to convergence on easy data and check only that the error decreased; which term is added and which map is kept depends on adversarial error sequences.",
 ["src/TrainMap.cpp", "src/TrainMapAdaptive.cpp"], [("optimisation wrapper", "src/TrainMap.cpp"), ("adaptive loop", "src/TrainMapAdaptive.cpp")])

add("P26", "Results are independent of batching, array layout and parallel schedule",
 "For every map and function, evaluating a batch gives in each column the same result as evaluating that point alone, for any number of points and team size, for row-major, column-major and strided inputs and outputs, and through every public entry point. Different points' computations never write to a location another one reads or writes, so results cannot depend on the parallel schedule.",
 ["schedules", "inputs", "configurations"], "every point and coefficient vector; batch sizes, team sizes, and layouts up to the stated bounds; all orders of the parallel iterations (via pairwise conflict freedom)",
 "Races and tail-iteration mistakes show only under particular team sizes and schedules; tests run one schedule with default layouts.",
 ["MParT/MonotoneComponent.h", "MParT/MultivariateExpansion.h", "MParT/Utilities/KokkosHelpers.h", "src/ConditionalMapBase.cpp", "src/ParameterizedFunctionBase.cpp", "src/TriangularMap.cpp", "src/AffineMap.cpp"],
 [("team policies and per-thread scratch", "MParT/Utilities/KokkosHelpers.h"), ("entry-point conversions", "src/ParameterizedFunctionBase.cpp, src/ConditionalMapBase.cpp")])

add("P27", "Evaluations stay inside their buffers and wrong shapes are rejected",
 "No evaluation, gradient, inversion or construction with valid arguments reads or writes outside its arrays, uses freed or uninitialised memory, or divides by zero, for every input value and every configuration including empty batches and constant-only term sets. Arrays whose dimensions do not match the map are rejected with an error instead of being read out of bounds.",
 ["inputs", "configurations"], "every input value; configurations (dimensions, orders, batch sizes including zero) up to the stated bounds; every mismatched shape up to the stated bound",
 "Tests run without sanitizers on a few shapes; out-of-bounds reads of neighbouring heap memory pass silently.",
 ["src/ParameterizedFunctionBase.cpp", "src/ConditionalMapBase.cpp", "MParT/MultivariateExpansionWorker.h", "MParT/Quadrature.h", "src/MultiIndices/FixedMultiIndexSet.cpp", "src/MultiIndices/MultiIndexSet.cpp"],
 [("shape checks", "src/ParameterizedFunctionBase.cpp, src/ConditionalMapBase.cpp"), ("cache and workspace sizing", "MParT/MultivariateExpansionWorker.h, MParT/Quadrature.h")])

add("P28", "Sigmoid and tensor-product functions return their definition and derivatives",
 "A sigmoid expansion returns the coefficient-weighted sum of sigmoids of scaled, shifted inputs, with exact input and coefficient gradients through the common function interface, and the sigmoid's own inverse and derivative are exact. A tensor-product function returns the product of its factors with each factor seeing its own inputs and coefficients, and exact derivatives of every kind it offers.",
 ["inputs"], "every point, coefficient, centre and width; factors treated as expansions of the stated sizes",
 "Tests use symmetric sizes (one coefficient per input) or one sigmoid type at fixed points.",
 ["MParT/Sigmoid.h", "MParT/TensorProductFunction.h"], [("sigmoid expansion", "MParT/Sigmoid.h"), ("product rule", "MParT/TensorProductFunction.h")])

add("P29", "Language bindings expose the same results as the native library",
 "Calling the library from Python, Julia or Matlab, including the automatic-differentiation layer for Torch, returns the same values and gradients as the native calls for the same inputs.",
 ["inputs"], "every input array, layout and map reachable from the bindings",
 "Binding tests call each function once with one array layout.",
 ["bindings/python/src/Wrapper.cpp", "bindings/python/package/torch.py", "bindings/julia/src/ConditionalMapBase.cpp", "bindings/matlab/src/ConditionalMap_mex.cpp"],
 [("conversion between host-language arrays and views", "bindings/*")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
        for a in p["anchors"]["files"]:
            if not os.path.exists("/repo/" + a): print("missing", p["id"], a)
print(len(P))
