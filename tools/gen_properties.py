import json
P=[]
I="include/shiva/"
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":hook}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Multidimensional arrays address elements row-major, one slot per index",
  "For every array shape, element type and in-range multi-index, the element reached through run-time indices, through compile-time indices, and through any chain of square-bracket slices is one and the same object, namely the one at the row-major offset of that multi-index in the array's storage. Distinct multi-indices reach distinct elements and together they cover exactly the whole storage. Rank, extents and size reported by the type agree with that shape, for owning arrays, views and const arrays alike, whatever integer type the indices have.",
  ["inputs","programs"],"every shape (ranks 1-5, non-uniform and unit extents), element type, owning/view/const flavour, index integer type, and every in-range multi-index",
  "Tests check a handful of shapes (2x3x4 mostly) with int indices and hand-picked access forms; a wrong stride for another rank or extent order, or a form/type-specific slip, is outside what they sample.",
  [I+"common/CArray.hpp",I+"common/CArrayHelper.hpp"],
  [("row-major linear index / stride fold",I+"common/CArrayHelper.hpp"),("operator() and operator[]",I+"common/CArray.hpp")],
  ["addresses returned by operator()(i...), operator()<I...>(), operator[]","rank(), extent<I>(), size(), data()"])

p("C02","Arrays own values; views and slices alias them, under any operation history",
  "After any sequence of constructions, copies, assignments, reads and writes, an owning array holds exactly the values last stored in it: elements not given at construction are zero, and copies of an owning array are independent of the original. A view, a slice of an array, or a slice of a view, always reads and writes the very storage it was made from - never a copy of it - and touches no element outside its own range. Read-only arrays, views and slices never allow or cause a change to the data.",
  ["histories","inputs"],"all operation sequences (construct, copy, assign, slice, write through any handle, read through any handle) up to a depth, over several shapes, handle kinds and element types",
  "Tests perform a few fixed read/write sequences on one array or view at a time; aliasing bugs need a particular combination of handle kind, slice depth, copy and later write.",
  [I+"common/CArray.hpp",I+"common/CArrayHelper.hpp"],
  [("DATA_BUFFER choice: inline array vs pointer",I+"common/CArray.hpp"),("slice = pointer to sub-block",I+"common/CArray.hpp")],
  ["values read back through every handle after every step","canary elements around viewed storage"],
  [("m_data","storage (owning) or pointer (view)",I+"common/CArray.hpp")])

p("C03","Bounds-checked builds stop on every out-of-range array index",
  "When the library is configured with bounds checking, any access to an array, view or slice in which at least one index is negative or not smaller than the extent of its own dimension is stopped with a diagnostic naming the offending index and extent, before any element is read or written - whichever access form, dimension, integer type or evaluation time (run time or constant evaluation) is involved, even when the resulting linear offset would still fall inside the storage. An access whose indices are all in range is never stopped, in any configuration.",
  ["inputs","configurations"],"every shape and access form, every index tuple with entries from well below zero to well beyond the extent (and integer-type extremes), run time and constant evaluation, bounds check on and off",
  "Tests cover a few out-of-range indices of one array with death tests; they cannot cover every dimension, sign, integer type, slice level and const-evaluation context.",
  [I+"common/CArray.hpp",I+"common/CArrayHelper.hpp",I+"common/ShivaErrorHandling.hpp",I+"common/ShivaMacros.hpp"],
  [("SHIVA_ENABLE_BOUNDS_CHECK blocks",I+"common/CArrayHelper.hpp"),("SHIVA_ASSERT_MSG",I+"common/ShivaMacros.hpp")],
  ["process abort and stderr text","acceptance of constant expressions by the compiler"])

p("C04","Misuse is rejected at compile time and valid use compiles",
  "A program that indexes an array with the wrong number of indices or a constant index outside the extent, writes through a read-only array or view, asks for an unsupported quadrature or spacing, evaluates a basis product, shape or element with the wrong number of indices, asks for an extent that does not exist, combines a shape with a mismatching number of bases, or declares an ill-formed shape or binomial, does not compile. The neighbouring program that respects the rule compiles, in every supported language standard and compiler.",
  ["programs","configurations"],"all programs of a small grammar of API uses (rule x dimension x index value x flavour), g++ and clang++, C++17 and C++20",
  "A unit test must compile, so it can never show that something is rejected; the tests only contain accepted uses.",
  [I+"common/CArray.hpp",I+"common/CArrayHelper.hpp",I+"common/MathUtilities.hpp",I+"functions/quadrature/Quadrature.hpp",I+"functions/spacing/Spacing.hpp",I+"functions/bases/BasisProduct.hpp",I+"geometry/shapes/NCube.hpp",I+"geometry/shapes/NSimplex.hpp",I+"geometry/shapes/InterpolatedShape.hpp",I+"discretizations/finiteElementMethod/parentElements/ParentElement.hpp"],
  [("static_assert guards","all listed headers"),("const-correct accessors",I+"common/CArray.hpp")],
  ["compiler exit status"])

p("C05","Multi-index linearization is the row-major bijection",
  "For any multi-index type with ranges (r0,...,rk) and any index inside them, the linear index equals the row-major offset i0*r1*...*rk + ... + ik, so it is a bijection between the index box and 0..r0*...*rk-1, at run time and at compile time and for every base integer type. The linear index of a plain integer is that integer.",
  ["inputs"],"every rank 1-5, every combination of small ranges (uniform and not), every index in the box, several base integer types",
  "The test uses uniform ranges only (2,2,2), for which wrong strides coincide with right ones.",
  [I+"common/IndexTypes.hpp",I+"common/MultiIndex.hpp",I+"common/LinearIndex.hpp"],
  [("linearIndex stride folds",I+"common/IndexTypes.hpp")],["linearIndex(index)"])

p("C06","Range iteration visits exactly the index box from its start, in order",
  "Iterating over a multi-index range calls the callback exactly once for every index of the box spanned from the starting index to the ranges, in lexicographic order with the last index fastest, and passes it the current index. Every inner dimension restarts at its starting value, an empty dimension yields no call, and afterwards the callback sees no further calls; this holds for any rank, ranges, start and base integer type, and the same callable object is used throughout.",
  ["inputs","histories"],"every rank 1-4, every range 0..3 per dimension, every start index, base integer types, callables by lvalue, rvalue, stateful and move-only; nested iterations",
  "The test iterates one 2x2x2 box from zero with int.",
  [I+"common/IndexTypes.hpp",I+"common/MultiIndex.hpp"],
  [("forRange recursion",I+"common/IndexTypes.hpp")],["sequence of indices seen by the callback"])

p("C07","Compile-time loops and pack expansion call back exactly once per index, in order",
  "Static loops, nested static loops and pack expansion deliver every compile-time index of their bounds exactly once, ascending (last dimension fastest when nested), as constants whose value is the index: nested loops to parameter-style callables, the others to parameter-style and template-style ones. Extra arguments reach the callable first, in order, with their value category, the callable's result is returned, and state held by the callable is preserved across calls. Helper look-ups on integer packs return the element at the asked position.",
  ["inputs","programs"],"all bounds tuples of rank 1-4 with small extents, callable kinds (parameter-style, template-style, lvalue, rvalue, mutable, overloaded), argument packs of 0-3 arguments of each value category, compile time and run time, C++17 and C++20",
  "Tests cover bounds of 3-5 with one callable style each and do not observe order, exact multiplicity, value categories or state for other bounds.",
  [I+"common/SequenceUtilities.hpp",I+"common/NestedSequenceUtilities.hpp"],
  [("fold expansion and invocability dispatch",I+"common/SequenceUtilities.hpp"),("recursive nesting",I+"common/NestedSequenceUtilities.hpp")],
  ["call trace and return value observed by instrumented callables"])

p("C08","Spacing points are the exact 1D points, the same at run time and compile time",
  "For every supported number of points and floating-point type, the points of the equal, Gauss-Legendre and Gauss-Lobatto spacings are, to the type's precision (at most double's), the equispaced points, the Legendre roots, and the endpoints plus roots of the Legendre derivative on [-1,1]: strictly ascending, symmetric about zero, endpoints included where the family has them. The run-time form and the compile-time form give the same point for every index, and an unsupported number of points is never answered with a made-up coordinate.",
  ["inputs","configurations"],"all spacing families, all point counts, all indices, float/double/long double, run-time and compile-time forms",
  "Tests check double or float for counts 2-5 (run time) and a sub-list at compile time, with loose tolerance; the higher counts in the run-time form are never called.",
  [I+"functions/spacing/Spacing.hpp"],
  [("closed forms and tables",I+"functions/spacing/Spacing.hpp")],["coordinate(i), coordinate<i>(), numPoints, interval()"])

p("C09","Quadrature rules integrate every polynomial they promise to",
  "For every supported rule, floating-point type and number of points N, the weights are positive, symmetric, sum to 2 and integrate exactly (to precision) every polynomial of degree up to 2N-1 for Gauss-Legendre and 2N-3 for Gauss-Lobatto over [-1,1], whether points and weights are taken in run-time or compile-time form; the two forms agree for every index. Tensor products of rules integrate multivariate polynomials of those per-direction degrees.",
  ["inputs"],"all rules, all N, all floating types, all monomials (and hence all polynomials, by linearity) up to the degree, 1-3 dimensions, both forms",
  "Tests compare point/weight tables for some N with copies of the same constants; they do not tie the pairs (point, weight) to integration exactness for all monomials.",
  [I+"functions/quadrature/Quadrature.hpp",I+"functions/spacing/Spacing.hpp"],
  [("weight tables/closed forms",I+"functions/quadrature/Quadrature.hpp")],["weight(i), weight<i>(), coordinate forms"])

p("C10","Lagrange basis values are the Lagrange polynomials of the spacing",
  "For every order, spacing and floating-point type, the i-th basis function evaluated at any real coordinate - inside, at the edge of, or outside [-1,1] - is, to precision, the unique polynomial of that order that is one at support point i and zero at the others. Hence the functions sum to one everywhere, are mirror images of each other, reproduce every polynomial up to the order, and constant evaluation gives the same value as run time.",
  ["inputs"],"orders 1-8, equal/Legendre/Lobatto spacings, float/double/long double, every basis index, a coordinate grid with more points than the degree including nodes, endpoints, neighbours of nodes and points outside the cell",
  "Tests evaluate orders 1-4ish at one or two coordinates with one spacing.",
  [I+"functions/bases/LagrangeBasis.hpp",I+"functions/spacing/Spacing.hpp",I+"common/SequenceUtilities.hpp"],
  [("product of terms",I+"functions/bases/LagrangeBasis.hpp")],["value<i>(x)"])

p("C11","Lagrange basis gradients are the exact derivatives of the values",
  "For every order, spacing and floating-point type and any real coordinate, the gradient of the i-th basis function is, to precision, the derivative of the corresponding basis polynomial, also exactly at support points. Hence gradients sum to zero, are antisymmetric under reflection, and differentiate every polynomial up to the order exactly, and constant evaluation gives the same value as run time.",
  ["inputs"],"orders 1-8, all spacings, all floating types, every basis index, coordinate grid including all support points and points outside the cell",
  "Tests evaluate a few gradients at one coordinate; removable 0/0-type or index-specific slips at other nodes/orders are not reached.",
  [I+"functions/bases/LagrangeBasis.hpp",I+"common/SequenceUtilities.hpp"],
  [("product rule sum",I+"functions/bases/LagrangeBasis.hpp")],["gradient<i>(x)"])

p("C12","Tensor-product bases are the product of their 1D bases, direction by direction",
  "In any number of directions, with any mixture of orders and spacings, the value of a product basis function is the product of the 1D values with each index and coordinate used in its own direction, and component d of its gradient replaces exactly factor d by its 1D derivative. Basis products, interpolated shapes and parent elements built from the same bases agree, accept any indexable coordinate type, and their support loop visits each multi-index exactly once in lexicographic order.",
  ["inputs","programs"],"1-4 directions, all order/spacing mixtures up to small orders, all basis multi-indices, coordinate grids with distinct coordinates per direction, coordinate container types, compile time and run time",
  "Tests use 1-3 directions with equal orders and symmetric coordinates, which hides direction mix-ups.",
  [I+"functions/bases/BasisProduct.hpp",I+"geometry/shapes/InterpolatedShape.hpp",I+"discretizations/finiteElementMethod/parentElements/ParentElement.hpp"],
  [("pack expansion over directions",I+"functions/bases/BasisProduct.hpp")],["value<...>(x), gradient<...>(x), supportLoop"])

p("C13","Element field interpolation reproduces the field and its gradient",
  "Given degrees of freedom, the element's interpolated value and gradient at any parent point equal the sum over all support points of basis value (gradient) times that support point's degree of freedom, each read with its own multi-index. Hence nodal values are returned at nodes and every tensor polynomial up to the per-direction orders, and its gradient, is reproduced exactly everywhere; the result is linear in the field and the field is only read.",
  ["inputs"],"1-3 directions, mixed orders and spacings, every unit field (one degree of freedom set: a basis of all fields), polynomial fields, coordinate grids, field containers (arrays, views, functors)",
  "Tests evaluate one random-looking field on equal orders at one point.",
  [I+"discretizations/finiteElementMethod/parentElements/ParentElement.hpp",I+"functions/bases/BasisProduct.hpp",I+"common/NestedSequenceUtilities.hpp"],
  [("nested loop accumulation",I+"discretizations/finiteElementMethod/parentElements/ParentElement.hpp")],["value(x,var), gradient(x,var), accesses made to var"])

p("C14","The mapped-cell Jacobian is the derivative of the node map, whatever J held",
  "For any node coordinates, shape orders and parent point, entry (i,j) of the computed Jacobian is the derivative of physical coordinate i with respect to parent coordinate j of the interpolated map; point form, compile-time-quadrature form and return-by-value form agree. The output depends only on the cell and the point, not on what the output object contained, and node coordinates given as a flat list are stored at the node whose position in the list is its lexicographic number with the first parent direction fastest.",
  ["inputs","histories"],"2D and 3D shapes of orders 1-3 with mixed orders, a basis of node-coordinate perturbations plus distorted cells, all points of all quadratures, all prior contents of the output, repeated calls",
  "Tests use one first-order cell with zeroed outputs at the quadrature points of one rule.",
  [I+"geometry/mapping/LinearTransform.hpp",I+"geometry/mapping/JacobianTransforms.hpp"],
  [("gradient-weighted sum over nodes",I+"geometry/mapping/LinearTransform.hpp"),("setData/getData",I+"geometry/mapping/LinearTransform.hpp")],
  ["jacobian(...) outputs, getData() after setData()"],[("m_vertexCoords","node coordinates",I+"geometry/mapping/LinearTransform.hpp")])

p("C15","3x3 inversion and inverse Jacobians: exact inverses with the right determinant",
  "For every invertible 3x3 matrix, in raw-array or array-object form, the in-place inverse times the original is the identity to precision and the reported determinant (sign included) is that of the original. The inverse Jacobian of any mapped cell is the inverse of its Jacobian at the same point, with the Jacobian's determinant, in output-argument and return-by-value forms.",
  ["inputs"],"all 3x3 matrices over small integer alphabets (exhaustive), permutation/scaling families, float and double, and inverse Jacobians of families of cells at grids of points",
  "Tests invert one Jacobian family; sign or cofactor slips visible only on asymmetric or zero-patterned matrices are not reached.",
  [I+"common/MathUtilities.hpp",I+"geometry/mapping/LinearTransform.hpp",I+"geometry/mapping/JacobianTransforms.hpp"],
  [("adjugate / determinant",I+"common/MathUtilities.hpp")],["inverse(matrix,det), inverseJacobian(...)"])

p("C16","Scaling maps agree with the box they describe",
  "For box and cube mappings with any edge lengths and any sequence of updates, the Jacobian is half the current edge length per direction, the inverse Jacobian its reciprocal, and the determinant the product of the half lengths (eight times it being the box's volume), in output-argument and return-by-value forms and independently of what the outputs held. A default-constructed cell is the unit box; the results match those of a general mapped cell with the same corners.",
  ["inputs","histories"],"edge lengths over a grid with distinct values per direction, float and double, all sequences of set/mutate/copy/query operations up to a depth",
  "Tests use one set of lengths and one call sequence.",
  [I+"geometry/mapping/Scaling.hpp",I+"geometry/mapping/UniformScaling.hpp",I+"geometry/mapping/JacobianTransforms.hpp"],
  [("jacobian/inverseJacobian overloads",I+"geometry/mapping/Scaling.hpp")],["jacobian, inverseJacobian, getData/setData"],
  [("m_length","edge length(s)",I+"geometry/mapping/Scaling.hpp")])

p("C17","Cubes and simplexes report the right entity counts and measures",
  "For every dimension, the n-cube has 2^(n-m) C(n,m) m-dimensional faces and the n-simplex C(n+1,m+1), the named counts (vertices, edges, faces, cells, hyper-faces) are those numbers or zero where the dimension does not exist, and Euler's relation holds. Extremes, edge length and volume equal (max-min)/divisor and its n-th power (over n! for simplexes) for any integer bounds and divisor, in floating point and not integer arithmetic.",
  ["inputs"],"n = 0..12 (cube) and 0..11 (simplex), all m, bounds MIN<MAX in -3..3, divisors 1..4, float/double",
  "Tests check n<=5 for one or two bound choices.",
  [I+"geometry/shapes/NCube.hpp",I+"geometry/shapes/NSimplex.hpp",I+"common/MathUtilities.hpp"],
  [("factorial formulas",I+"geometry/shapes/NCube.hpp")],["numMCubes, numMSimplexes, num*, minCoord, maxCoord, length, volume"])

p("C18","Compile-time integer mathematics is exact wherever the result fits",
  "Integer powers, factorials and binomial coefficients equal their mathematical values for every base, exponent and argument whose result and documented intermediate factorials fit the type, for every integer type and, for powers, floating type; binomials satisfy symmetry and Pascal's rule. Run-time and constant evaluation agree.",
  ["inputs"],"all exponents and bases whose power fits, factorials and binomials up to each type's overflow limit, integer types of 8-64 bits and floating types",
  "There is no direct test of these helpers; they are exercised only through small shapes.",
  [I+"common/MathUtilities.hpp"],
  [("pow, factorial, binomialCoefficient",I+"common/MathUtilities.hpp")],["return values"])

p("C19","A failed assertion reports where and why, and stops exactly when asked",
  "A failed assertion writes to standard error the source file, line and the fully formatted message, then aborts the process if and only if aborting was requested; with the assertion macro a true condition has no effect, is evaluated exactly once, and a false one always reports and aborts at run time. This holds for any format arguments, message length and nesting of conditionals around the macro.",
  ["inputs","histories"],"all combinations of abort flag, format kinds, argument values, message lengths, macro placement (if/else, loops, constant-evaluated functions), and sequences of failures",
  "The tests only check that the process dies (any message) or does not.",
  [I+"common/ShivaErrorHandling.hpp",I+"common/ShivaMacros.hpp"],
  [("shivaAssertionFailed",I+"common/ShivaErrorHandling.hpp"),("SHIVA_ASSERT_MSG do-while",I+"common/ShivaMacros.hpp")],
  ["stderr bytes, termination signal, evaluation count of the condition"])

p("C20","Evaluations are pure: safe under concurrency, re-entrancy and any call history",
  "Any number of threads evaluating bases, interpolated fields, Jacobians, inverses, index iterations or arrays, on distinct outputs but possibly sharing read-only inputs, under any interleaving, and any re-entrant call from a user callback, each obtain exactly the result the same call gives alone in a fresh process. A call's result depends only on its arguments, never on which calls were made before, and no call modifies its const inputs.",
  ["schedules","histories"],"all interleavings up to a preemption bound of 2-3 threads with scheduling points at every access to memory not on the thread's own stack and at user callbacks; all call sequences up to length 3; all re-entrant nestings up to depth 2",
  "Tests are single threaded and never repeat, interleave or nest calls with different arguments; hidden shared scratch or caching would pass them.",
  [I+"discretizations/finiteElementMethod/parentElements/ParentElement.hpp",I+"functions/bases/BasisProduct.hpp",I+"functions/bases/LagrangeBasis.hpp",I+"geometry/mapping/LinearTransform.hpp",I+"common/MathUtilities.hpp",I+"common/IndexTypes.hpp",I+"common/NestedSequenceUtilities.hpp",I+"common/CArray.hpp"],
  [("no static or global mutable state; per-call locals","all headers")],["results of each call in each schedule/history"])

p("C21","Results are the same for every compiler, standard, optimization and bounds check",
  "The same valid program gives the same answers - identical integers and index sequences, floating results equal to within rounding - with every supported compiler (g++, clang++), language standard (C++17, C++20), optimization level and bounds-check setting, and in constant evaluation as at run time. Every public component that compiles in one of these configurations compiles in all.",
  ["configurations","programs"],"the full cross product of compilers, standards (17, 20), optimization levels and bounds-check settings over a program exercising every component",
  "The tests are built in one configuration only.",
  ["include/shiva/"],
  [("__cplusplus branches",I+"functions/bases/LagrangeBasis.hpp"),("__cplusplus branches",I+"functions/bases/BasisProduct.hpp"),("configuration macros",I+"common/ShivaMacros.hpp")],["program output per configuration"])

p("C22","Headers are self-contained, order-independent and multiply includable",
  "Every public header compiles on its own, twice in one translation unit, before or after any other public header, and in several translation units linked together, and the umbrella header makes every shape mapping usable. Including headers emits nothing that collides at link time and does not change the meaning of the other headers or of the code that follows.",
  ["programs","configurations"],"every public header alone and doubled, every ordered pair of public headers, linking of translation units that include all of them, g++ and clang++",
  "Tests include a few headers in one fixed order, one translation unit each.",
  ["include/shiva/"],[("#pragma once, inline/static linkage","all headers"),("umbrella header",I+"Shiva.hpp")],["compiler and linker exit status"])

p("C23","Header aggregation is a faithful ordered flattening that splits back",
  "For any set of headers with any include graph, aggregation emits every reachable project header exactly once, after all the headers it includes, with its text preserved and its includes and include guards neutralized, so the aggregate compiles to the same program; it always terminates, and refuses with a non-zero exit when an include is circular or cannot be resolved instead of dropping a header. Splitting the aggregate restores each header's original text (up to its final line end) inside the requested output directory and writes nowhere else.",
  ["inputs","programs"],"every include graph over up to 4 headers (including cycles, self-includes, diamonds, missing and config headers, sub-directories, all resolution orders and root orders), and the repository's own headers",
  "There are no tests of this script.",
  ["scripts/aggregateOrSplit.py"],[("dependency graph and topological emission","scripts/aggregateOrSplit.py"),("split markers","scripts/aggregateOrSplit.py")],
  ["output file, split files, exit status, files outside the output directory"])

p("C24","The configuration wrapper runs exactly the CMake command asked for",
  "For every combination of its options, the configuration wrapper invokes CMake once, in a freshly emptied build directory, on the project source with exactly the host config, build type, install prefix and generator/option flags requested plus unrecognized arguments unchanged, and leaves that command recorded in the build directory. It exits non-zero whenever its inputs are unusable or CMake fails, and removes or writes nothing other than the build and install directories it names.",
  ["inputs","fault_sequences","configurations"],"all combinations of options (build/install path given or defaulted and pre-existing or not, build type, flags), and every exit status of the invoked tools, with stand-in tools in scratch directories",
  "There are no tests of this script.",
  ["scripts/config-build.py"],[("option translation and subprocess call","scripts/config-build.py")],
  ["argv/cwd recorded by a stand-in cmake, exit status, file tree before/after"])

p("C25","The kernel wrapper runs the callable once and moves data faithfully",
  "Running a callable through the portable kernel wrapper executes it exactly once on exactly the data given: afterwards the host buffer holds what the kernel left in it, elements beyond it are untouched, and on a device backend memory is allocated, copied in, copied back and released exactly once with matching sizes and directions. A failing kernel is reported and aborts if and only if requested, and the comparison helper accepts exactly the pairs closer than the tolerance.",
  ["inputs","fault_sequences","configurations"],"host, CUDA and HIP configurations (device runtime emulated on the host), buffer lengths 0-4, element types, every single failing runtime call, both abort settings",
  "Tests run the host configuration only and inject no failures.",
  [I+"common/pmpl.hpp"],[("genericKernelWrapper, deallocateData, check",I+"common/pmpl.hpp")],
  ["recorded runtime calls, buffer contents, process termination"])

p("C26","Integrals assembled on mapped elements are geometrically exact",
  "For every hexahedral cell mapped from its corner coordinates, composing shape, quadrature, Jacobian, inverse and element gradients gives its exact volume (positive exactly for right-handed cells), exact integrals and physical gradients of every linear field, a mass matrix summing to the volume, and a symmetric stiffness matrix whose rows sum to zero; translations leave these results unchanged and permuting or stretching axes changes them as geometry dictates. Different sufficiently accurate quadratures give the same results.",
  ["inputs"],"families of cells (all corner perturbations over a small alphabet, axis permutations, stretches, shears, translations), orders 1-3, all quadratures exact for the integrand",
  "Tests check components separately on one cell; no test composes them, so mutually inconsistent conventions pass.",
  [I+"geometry/mapping/LinearTransform.hpp",I+"functions/quadrature/Quadrature.hpp",I+"discretizations/finiteElementMethod/parentElements/ParentElement.hpp",I+"common/MathUtilities.hpp",I+"geometry/shapes/InterpolatedShape.hpp"],
  [("composition of components","all listed headers")],["volume, gradient, mass and stiffness numbers"])

p("C27","The style-config comparison classifies every setting exactly once and correctly",
  "For any two configuration files, each setting named in either is reported as common exactly when both define it with the same value, and as different, with both values (or absence), otherwise; comments, blank lines and spacing never matter and values keep everything up to a comment. Swapping the files swaps the reported values and comparing a file with itself reports no difference.",
  ["inputs"],"all pairs of small files over an alphabet of line forms",
  "There are no tests of this script.",
  ["scripts/compare_uncrustify.py"],[("line parser and comparison","scripts/compare_uncrustify.py")],["printed report, returned maps"])

p("C28","The build system delivers the configured library to its consumers",
  "For every valid combination of configuration options, configuring succeeds and the generated configuration header defines exactly the enabled options and the project's version; incompatible options are refused. The library used as a subdirectory, from its build tree or installed and found as a package gives the consumer the same headers and the same configuration.",
  ["configurations"],"all combinations of the option set, and all three ways of consuming the library",
  "The tests are built in one configuration via one route.",
  ["CMakeLists.txt","cmake/Config.cmake","cmake/ShivaConfig.cmake.in",I+"ShivaConfig.hpp.in"],
  [("option handling, configure_file, install/export","CMakeLists.txt")],["generated header, exit status, consumer build"])
p("C29","Continuous integration passes exactly when everything asked for ran and passed",
  "For every combination of options and settings, the continuous-integration scripts run exactly the steps asked for - configure, code checks, coverage, build, tests - in their order, in one container of the given image that sees the sources and all settings as given outside; nothing runs after a failed step, missing required settings are refused first, and the exit status is zero exactly if every step succeeded and its product was delivered. The registered code checks pass exactly when their tool succeeds without reporting anything, however much it reports and however its output is scheduled, and look at every header.",
  ["inputs","fault_sequences","schedules","configurations"],"all sets of options, all orders of the working ones, every failing step with several statuses, settings set, empty and missing, both orders of writing and reading a report",
  "There are no tests of the scripts; whatever they let pass is taken for tested.",
  ["scripts/ci_build_and_test.sh","scripts/ci_build_and_test_in_container.sh","cmake/Macros.cmake"],
  [("or_die and the steps","scripts/ci_build_and_test_in_container.sh"),("container call","scripts/ci_build_and_test.sh"),("shiva_add_code_checks","cmake/Macros.cmake")],
  ["commands run and their arguments, directories and environment; exit status; delivered files"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); assert x["statement"].count('. ')<3,x["id"]
print(len(P))
