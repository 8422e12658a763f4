"""Per-property configuration: harness files, repository sources compiled with them, stated bounds."""
GROUPS = {
 'MI': ['src/MultiIndices/*.cpp'],
 'BASE': ['src/ParameterizedFunctionBase.cpp', 'src/ConditionalMapBase.cpp', 'src/Utilities/Miscellaneous.cpp'],
 'LA': ['src/Utilities/LinearAlgebra.cpp'],
}
CHECKS = {}
def add(p, harness, repo=(), **k): CHECKS[p] = dict(harness=harness, repo=list(repo), **k)
COMP = 'term sets: 6 hand-picked (quick) / 9 (thorough), 1-4 inputs, dense, sparse, constant only, without terms in the last input; arbitrary basis, positive function and 2-node rule with nodes in [0,1]; nugget 0 or any positive; batches of 1-3 points'
add('P01', ['p01.cpp'], bounds='orders 0-16 (quick) / 0-22 (thorough), every real x; factorials to 20', outside='rounding; orders above the bound')
add('P02', ['p02.cpp'], bounds='orders 0-5 of an arbitrary opaque basis and the real families, every x, every pair of bounds (finite or infinite)', outside='rounding')
add('P03', ['p03.cpp'], ['MI', 'BASE'], bounds='term sets up to 3 inputs, order 3, 1-3 outputs, 1-3 points; every coefficient, point, sensitivity; arbitrary 1-D basis', outside='larger sets; rounding')
add('P04', ['p04.cpp'], bounds='every real argument (exact reals with exp/log axioms); fixed list of extreme doubles for the floating-point part', outside='rounding away from the listed extremes')
for p in ('P05', 'P06', 'P07'): add(p, [p.lower() + '.cpp'], ['MI', 'BASE'], bounds=COMP, outside='rounding; other quadrature rules than weighted sums over nodes (adaptive rules are P10)')
add('P08', ['p08.cpp'], bounds='function values chosen adversarially at up to 6 (quick) / 8 (thorough) queries; coarse tolerances so that runs finish within that many queries; every target and start', outside='longer runs except through the loop-limit entries; rounding')
add('P09', ['p09.cpp'], ['MI', 'BASE'], bounds='adversarial increasing components up to 4 (quick) / 6 (thorough) evaluations; affine components with slope 1 or 1.5 for batches; 1-2 columns', outside='rounding')
add('P10', ['p10.cpp'], bounds='Clenshaw-Curtis 1-9 (quick) / 1-13 (thorough) points, symbolic polynomial coefficients and interval; adaptive rules with 1-3 levels on an adversarial integrand, 1-2 outputs, 4 error metrics; 1 <= maxSub <= 32, minSub < maxSub; a NaN at any node or everywhere, up to 10 levels', outside='deeper recursion; rounding')
NOT_APPLICABLE = {
 'P29': 'The bindings are glue code across the CPython (pybind11/torch), Julia and Matlab run times; those interpreters cannot be encoded symbolically here, and the native calls they forward to are decided by the other properties.',
}
add('P13', ['p13.cpp'], ['BASE', 'LA', 'src/AffineMap.cpp', 'src/AffineFunction.cpp'], bounds='matrices 1x1, 2x2, 1x3, 2x3, 3x3, every entry symbolic (nonzero determinant where required); 1-2 points; row-major, column-major and strided arrays', outside='larger matrices; rounding and near-singular matrices')
add('P19', ['p19.cpp'], [], bounds='0-3 (quick) / 0-4 (thorough) rows and columns, inner strides 1-3, padded blocks at every offset, every element value', outside='larger shapes; device memory')
add('P20', ['p20.cpp'], ['LA'], bounds='matrices up to 3x3, every entry and scalar symbolic (nonzero determinant / positive definite where required), all transpose combinations, five layouts, output content uninitialised when its scale is zero', outside='larger matrices (Eigen switches to blocked kernels); rounding')
add('P11', ['p11.cpp'], ['BASE', 'LA', 'src/TriangularMap.cpp', 'src/AffineMap.cpp'], bounds='8 (quick) / 12 (thorough) block structures: 1-4 blocks with 1-3 outputs, 0-3 coefficients each and 0-3 leading inputs; blocks are arbitrary functions of their coefficients and inputs with arbitrary determinants and inverses; 1-2 points; five layouts; one nested map; affine blocks end to end', outside='more or larger blocks')
add('P12', ['p12.cpp'], ['BASE', 'LA', 'src/ComposedMap.cpp', 'src/IdentityMap.cpp', 'src/AffineMap.cpp'], bounds='8 (quick) / 12 (thorough) layer structures: 1-5 layers of dimension 1-3 with 0-2 coefficients, arbitrary layers (values, determinants, inverses) and identity layers, every checkpoint limit from none to layers+1; layer inputs and stored states for up to 14 (quick) / 24 (thorough) layers and every limit', outside='more layers; stored states are measured as live view memory relative to limit 1')
add('P14', ['p14.cpp'], ['BASE', 'src/IdentityMap.cpp', 'src/SummarizedMap.cpp'], bounds='identity maps up to 3 (quick) / 4 (thorough) inputs and every output count; 5 (quick) / 8 (thorough) summarised shapes with up to 3 (4) leading inputs, 1-3 summaries and 0-3 coefficients, arbitrary summary function, component, determinant and inverse; 1-2 points; five layouts of points and results', outside='larger shapes')
add('P15', ['p15.cpp'], ['BASE', 'LA', 'src/TriangularMap.cpp', 'src/ComposedMap.cpp', 'src/SummarizedMap.cpp', 'src/IdentityMap.cpp', 'src/AffineMap.cpp'], bounds='9 (quick) / 11 (thorough) plain, triangular, composed, summarised and nested maps with up to 3 parts and 4 coefficients of arbitrary value; every sequence of 3 (quick) / 4 (thorough) operations out of set, wrap (view or Eigen), writes by the caller to every array it still owns, writes through the coefficient map; moved coefficients; wrong sizes n-2 to n+2', outside='longer histories; writes by the caller to an array that was wrapped and then overwritten by a later set (unspecified); one object used as two parts of a map')
add('P16', ['p16.cpp'], ['MI'], bounds='length 1-4 (quick) / 1-5 (thorough), every entry 0..2^28; 3 (quick) / 4 (thorough) assignments at every position; pairs of length 1-3, triples of length up to 2 (3); every 32-bit out-of-range position', outside='longer multi-indices; sums that overflow 32 bits; the empty multi-index')
add('P17', ['p17.cpp'], ['MI'], bounds='2 inputs, order up to 2: every history of 2 additions/activations/limiter changes; 1 input: 3 operations; 3 inputs: 1 operation; expansion histories of 4 steps; probe entries 0-15; limiters: none, total order, dimension, maximum degree, anisotropic, and/or/xor combinations', outside='longer histories, more inputs, non-integer anisotropic weights')
add('P18', ['p18.cpp'], ['MI'], bounds='dense and compressed arrays: 1-3 inputs, 0-3 terms, every order below 2^30, every query multi-index; total orders: up to 4 (quick) / 5 (thorough) inputs, order up to 5 (7); flexible sets of up to 3 terms of order up to 2 plus total orders; values of expansions over dense and compressed sets with an arbitrary basis', outside='more terms; queries of another length; stored zeros in compressed arrays')
add('P21', ['p21.cpp'], ['MI', 'BASE', 'LA', 'src/TriangularMap.cpp'], bounds='arrays up to 3x3 of any content; every option value; fixed sets as listed with every order below 2^30; bases and rules with any bound and tolerance, orders to 3, 1-2 outputs, 1-2 levels; components and (nested) triangular maps of 1-2 blocks over an arbitrary basis, positive function and rule, with and without coefficients', outside='other archive formats than binary; larger maps')
add('P22', ['p22.cpp'], ['MI', 'BASE', 'LA', 'src/TriangularMap.cpp', 'src/IdentityMap.cpp', 'src/SummarizedMap.cpp', 'src/AffineMap.cpp', 'src/AffineFunction.cpp', 'src/MapFactory*.cpp'], bounds='every basis, positive function and rule the options name (36 implementations), with no, one or two symbolic bounds; symbolic nugget, tolerances, coefficients and points; 2-3 points (fixed rules), 1-2 subdivisions (adaptive rules), 1-input sets of order 1; total orders 0-2 with 1-3 inputs and outputs; single-entry maps of 1-4 inputs around an arbitrary component', outside='larger sets and rules; values of the implementations themselves (P01-P10), since both sides run the same component code')
DIST = ['src/Distributions/*.cpp']
add('P23', ['p23.cpp'], ['BASE', 'LA', 'src/MapObjective.cpp', 'src/TriangularMap.cpp'] + DIST, bounds='arbitrary maps (values, determinants) with 1-3 inputs, 1-2 outputs and 1-3 coefficients, single or as blocks of a triangular map; arbitrary smooth reference log density, and the standard normal of the factory; 1-3 (quick) / 1-4 (thorough) training points, 1-2 test points; every value, three data layouts, contiguous and strided gradients', outside='larger datasets; rounding; empty datasets')
add('P24', ['p24.cpp'], ['BASE', 'LA'] + DIST, bounds='Gaussians of dimension 1-2 (quick) / 1-3 (thorough) with any mean and any covariance given by its positive factor, three layouts, contiguous and strided results; arbitrary maps with 1-3 inputs and 1-2 outputs over an arbitrary smooth log density; 1-2 points or samples; normal draws are arbitrary numbers per seed and position', outside='quality of the random number generator; larger dimensions; rounding')
add('P25', ['p25.cpp'], ['MI', 'BASE', 'LA', 'src/TriangularMap.cpp', 'src/IdentityMap.cpp', 'src/SummarizedMap.cpp', 'src/AffineMap.cpp', 'src/AffineFunction.cpp', 'src/MapFactory.cpp', 'src/MapFactoryImpl5.cpp', 'src/MapObjective.cpp', 'src/TrainMap.cpp', 'src/TrainMapAdaptive.cpp'] + DIST, bounds='arbitrary optimiser (returned coefficients, values, codes, visited points), arbitrary test errors and gradients; 1-3 inputs, 1-2 outputs, initial orders 0-1, up to 3 (quick) / 4 (thorough) added terms, patience 1-3, degree limits 1-3', outside='ties between gradients (which of several equal terms is added); exceptions thrown by the optimiser; verbose output; longer histories')
add('P27', ['p27.cpp'], ['MI', 'BASE', 'LA', 'src/TriangularMap.cpp', 'src/ComposedMap.cpp', 'src/SummarizedMap.cpp', 'src/IdentityMap.cpp', 'src/AffineMap.cpp', 'src/AffineFunction.cpp', 'src/MapFactory*.cpp'], bounds='shapes: 14 maps and functions (component, expansion, triangular, composed, summarized, affine, identity, sigmoid) under every operation, with 0 and 2 points (0-3 thorough) and one row or column too many or too few in every argument (two thorough), as views and as Eigen matrices; inverses with every number of guess rows; memory: components the factory makes with each basis, bounded and unbounded, both positive functions (tied to the basis in quick), every rule, continuous and discrete slopes, constant-only, sparse and total-order sets of up to 3 (4) inputs, 0-2 (3) points in teams of 1-2, every operation; every pair of operations on one component compared with a fresh component, for every rule; every input and coefficient value for the fixed rule, expansions and triangular maps of 1-3 inputs of order 0-1 (2)', outside='input values other than the listed ones for adaptive rules and inverses (their control flow for every input is P09 and P10); larger sizes; GPU back ends; callers of the Impl entries who allocate the output themselves')
add('P28', ['p28.cpp'], ['MI', 'BASE', 'LA'], bounds='logistic sigmoid: every real argument; expansions of 1-3 (quick) / 1-4 (thorough) terms in an arbitrary sigmoid, 0-3 points, contiguous and strided arrays; tensor products of two arbitrary functions with 1-3 (4) inputs and 0-3 (4) coefficients each, of three functions in three size combinations and both nestings, and of two expansions', outside='rounding; larger sizes')
add('P26', ['p26.cpp'], ['MI', 'BASE', 'LA', 'src/TriangularMap.cpp', 'src/ComposedMap.cpp', 'src/SummarizedMap.cpp', 'src/IdentityMap.cpp', 'src/AffineMap.cpp', 'src/AffineFunction.cpp'], bounds='batches of 0-4 points (5 thorough) for component-wise maps with teams of 1-4 threads, 0, 1 and 3 points for the others; implementation entry with three layouts per argument, public entry with three strided (five thorough), row-major, column-major views and Eigen matrices; component maps of 1-2 inputs, triangular and composed maps of 2-3 parts, affine maps up to 2x3; every pair of parallel iterations checked for conflicting accesses', outside='GPU back ends; relaxed-memory behaviour of the OpenMP runtime itself; teams larger than 4 threads (5 thorough); batches above 4 points (5 thorough)')
