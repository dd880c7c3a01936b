#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long strings stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": state, "meaning": state + ", as far as it can be observed from outside"}]
    if observe: a["observe_at"] = [observe]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

V="src/vector/"; M="src/matrix/"; C="src/complex/"; T="src/transform/"

p("C01", "Every element is moved or dropped exactly once, on every path",
  "A vector, matrix or number built from owned elements hands each of them over or drops it exactly once: none is lost, duplicated or dropped twice, however many elements the source supplied, however far an owning iterator was consumed, and whichever operation moved the container. When a user closure, source iterator or element operation panics part-way, no element is dropped twice and no uninitialised slot is ever read or dropped (elements may be leaked in that case only).",
  ["fault_sequences","histories"],
  "all dimensions 0..17 (and matrices up to 4x4 plus long shapes), all operations that move elements, all source lengths and consumption points, all positions of one injected panic, sequences of up to four container operations",
  "Tests check a handful of dimensions with drop-free numbers and never make a closure or iterator fail at each possible position.",
  [V+"base/init.rs",V+"base/iter.rs",M+"base/init.rs",M+"base/iter.rs",M+"base/convert.rs",M+"transpose.rs"],
  [("uninitialised build-up","src/vector/base/init.rs Vector::init, uninit, assume_init"),("partial fill roll-back","src/vector/base/iter.rs Vector::try_from_iter"),("split of pairs","src/vector/base/iter.rs Vector::unzip"),("transposition by raw moves","src/matrix/transpose.rs"),("owning iteration","src/matrix/base/iter.rs FlatIter, src/vector/base/iter.rs GroupIter")],
  "ownership of each element slot", "public API with drop-counting element type")

p("C02", "All views and conversions agree on one row-major layout; bad indices panic",
  "Every way to build, read, write, view, index, iterate, map, fold, zip, enumerate, transpose or convert a vector or matrix agrees on one position per element: row-major order, element (row, column), with closures called once per element in that order. Writing one element through any mutable access changes that element only, and named components, rows and columns are the elements at their positions. An index outside the dimensions panics on every checked access and never reads or writes another element.",
  ["inputs","configurations","histories"],
  "all dimensions 0..17 and beyond, all shapes up to 5x5 plus long ones, every element position, every pair of writer and reader access path",
  "Tests check one or two shapes with one access path each; agreement of all access paths for every shape and position is a product the tests do not build.",
  [V+"base/init.rs",V+"base/iter.rs",V+"spec.rs",M+"base/init.rs",M+"base/iter.rs",M+"base/convert.rs",M+"transpose.rs"],
  [("array views and casts","src/matrix/base/convert.rs as_array_of_arrays, from/into conversions"),("indexing and unchecked component access","src/vector/base/init.rs Index, src/vector/spec.rs x/y/z/w"),("index tables","src/matrix/base/iter.rs Matrix::indices, src/vector/base/iter.rs Vector::indices"),("transpose","src/matrix/transpose.rs"),("rows and columns","src/matrix/base/init.rs row, col")],
  "element positions", "public accessors")

p("C03", "Building from iterators and slices, grouping and flattening are exact",
  "Building a vector or matrix from an iterator succeeds exactly when the source supplies at least as many elements as needed, takes exactly that many and no more, and fills positions in order; building from a slice succeeds exactly when the length matches. Grouping a sequence into vectors yields each complete group in order, and flattening a sequence of sequences (including empty ones) yields every inner element exactly once, in order, before it ends.",
  ["inputs","histories"],
  "all dimensions 0..8, all source lengths around the needed one, all shapes of nested sequences up to length four, all interruption patterns of an iterator that resumes after returning nothing, all interleavings of several consumers on one source",
  "Tests use one exact, one short and one long source; over-consumption, resuming iterators, empty groups and zero dimensions are not sampled.",
  [V+"base/iter.rs",M+"base/convert.rs",M+"base/iter.rs"],
  [("fill from iterator","src/vector/base/iter.rs Vector::try_from_iter, TryFrom<&[T]>"),("grouping","src/vector/base/iter.rs GroupIter"),("flattening","src/matrix/base/iter.rs FlatIter"),("matrix sources","src/matrix/base/convert.rs try_from_iter, try_from_iter_of_vectors, TryFrom")],
  "position of the shared source iterator", "public constructors and iterators")

p("C04", "Arithmetic, bitwise and floored-division operators act element by element",
  "Each arithmetic, bitwise, negation and floored-division operation on vectors and matrices gives at every position exactly the element type's own result for the elements at that position, left operand first, in its value form, its scalar form, its reversed scalar form and its assigning form alike. Assigning forms never modify anything but the target, and the element operation is applied once per position.",
  ["inputs","configurations"],
  "all operators and forms, all dimensions 0..17 and shapes up to 5x5, all operand values of small complete alphabets (signed and unsigned integers incl. extremes, floats incl. signed zeros, infinities and NaN), and uninterpreted elements",
  "Tests pick one pair of small positive operands per operator; swapped operands, sign cases and unusual shapes stay unseen.",
  [V+"ops/base.rs",V+"ops/bit.rs",V+"ops/int.rs",M+"ops/base.rs",M+"ops/bit.rs",M+"ops/int.rs"],
  [("value and scalar operators","src/vector/ops/base.rs, src/matrix/ops/base.rs"),("assigning operators","*Assign impls in the same files"),("reverse scalar multiplication","reverse_mul! in src/vector/ops/base.rs"),("floored division","ops/int.rs div_floor, mod_floor, div_mod_floor"),("bit operators","ops/bit.rs")],
  None, "operator results")

p("C05", "Math functions act element by element and broadcast along the right axis",
  "Each floating-point math function of vectors and matrices gives at every position the element type's own result of that function for that element and the matching elements of its other arguments. A scalar argument is repeated for all elements, a vector argument of a matrix function is repeated for every row, and same-shaped arguments are matched position by position; clamping yields the value limited from below by the first and from above by the second bound.",
  ["inputs","configurations"],
  "every function, both float types, every broadcast kind of every argument, all special and ordinary values of a fixed alphabet in every argument, all dimensions 1..8 and shapes up to 4x4",
  "The math functions have few or no tests; argument order, broadcast axis and special values are a product that samples do not cover.",
  [V+"math.rs",M+"math.rs","src/traits.rs"],
  [("elementwise functions","src/vector/math.rs, src/matrix/math.rs"),("broadcast rules","Broadcast impls in the same files")],
  None, "function results compared bit by bit (NaN as one value)")

p("C06", "Comparisons, any/all, min/max, zero test and equality are element-exact",
  "Elementwise comparisons give at each position the element type's own answer for the two elements in order; any and all are the disjunction and conjunction over every element; the zero test and equality hold exactly when they hold at every position; complex numbers, quaternions and transformations are equal exactly when all their components are. The minimum (maximum) of a non-empty container is one of its elements such that no element compares smaller (greater), also when some elements do not compare with each other.",
  ["inputs"],
  "all element tuples over small complete value alphabets incl. NaN and a genuinely partial order, dimensions 1..6 and up to 17 with one or two distinguished positions, all matrix shapes up to 4x4",
  "Tests try a few ordered tuples; a single deviating position, ties and incomparable elements need every placement to be tried.",
  [V+"ops/vcmp.rs",V+"ops/bit.rs",V+"ops/base.rs",M+"ops/vcmp.rs",M+"ops/bit.rs",M+"ops/base.rs"],
  [("comparisons","ops/vcmp.rs veq..vge"),("any/all","ops/bit.rs"),("extrema and zero test","ops/base.rs min, max, is_zero"),("equality","derived PartialEq on Vector, Matrix, Complex, Quaternion, Moebius and the transformations")],
  None, "returned masks, elements and booleans")

p("C07", "Dot, outer, cross and matrix products equal their algebraic definitions",
  "Dot, outer, cross, vector-matrix, matrix-vector and matrix-matrix products of every compatible shape (with at least one term to sum) equal the sums of products of the textbook definition, with factors in operand order so that they also hold for elements that do not commute. The cross product of 4-vectors is that of the first three components with a zero fourth, and the 2-vector one is the signed area.",
  ["inputs","configurations"],
  "all shapes L,M,N in 1..5 plus long ones, all operand pairs over a small complete grid where feasible and otherwise all pairs of basis elements, symbolic elements recording factor order",
  "Tests multiply one or two concrete matrices; every index pairing and operand order for every shape is not sampled.",
  [V+"dot.rs",V+"spec.rs",M+"product.rs",M+"dot.rs"],
  [("vector dot","src/vector/dot.rs"),("cross","src/vector/spec.rs cross"),("outer and matrix products","src/matrix/product.rs")],
  None, "product results")

p("C08", "Determinant, cofactors, adjugate and inverse obey the laws of linear algebra",
  "For every square matrix the determinant equals the signed sum over permutations, the cofactor at (i, j) is the signed minor with that row and column removed, the adjugate is the transposed cofactor matrix and matrix times adjugate is determinant times identity. For an invertible matrix over an exact field both inverses multiply to the identity; identity and diagonal matrices have the given diagonal and zeros elsewhere; a cofactor index outside the matrix panics.",
  ["inputs"],
  "all matrices over finite fields and small integer grids for sizes 1..3 (4 thoroughly), all 0/1-valued, permutation and one-changed-entry matrices for sizes 4..7",
  "Tests check a few numeric matrices to rounding; sign or index errors for particular minors or sizes need all minors and sizes.",
  [M+"square.rs"],
  [("expansion by minors","Determinator in src/matrix/square.rs"),("cofactor, adjugate, inverse","Matrix::cofactor, adj, inv"),("identity, diagonal","Matrix::one, diagonal")],
  "row/column exclusion mask during expansion", "det, cofactor, adj, inv results")

p("C09", "Complex arithmetic is a field and its functions are the complex functions",
  "Complex addition, subtraction, multiplication, division, inversion, conjugation, norms, remainder and parsing satisfy the definition of complex numbers in every operand form (complex with complex, complex with real, real with complex, value and assigning forms). Conversions keep real and imaginary part in place, the matrix form represents multiplication, polar form round-trips, and powers and transcendental functions equal the principal complex functions.",
  ["inputs"],
  "all pairs and triples over finite fields where complex numbers form a field, all pairs over small integer grids, all values of a float alphabet covering quadrants, axes, branch cuts, tiny and huge magnitudes",
  "Tests evaluate a few random numbers; operand forms, axes, branch cuts and signs need every combination.",
  [C+"complex_.rs"],
  [("arithmetic","operator impls in src/complex/complex_.rs"),("forwarded functions","exp..fdiv, powu, powi via num-complex"),("polar and norm","arg, to_polar, from_polar, norm")],
  None, "results of public operations")

p("C10", "Quaternion arithmetic obeys Hamilton's rules in every operand form",
  "Quaternion addition, multiplication, inversion, division, conjugation and norms satisfy Hamilton's definition in every operand form: quaternion, complex (as the sub-algebra of the first two components) and real operands on either side, value and assigning. Multiplication is associative and norm-multiplicative, the 4x4 matrix form represents left multiplication, dividing undoes multiplying, and conversions keep scalar and vector components in place.",
  ["inputs"],
  "all basis and unit products, all pairs over a small integer grid, all pairs and triples over a finite field, the 24 unit Hurwitz quaternions exactly",
  "Tests evaluate random samples to rounding; sign and side errors in mixed operand forms need all sign/basis combinations.",
  [C+"quaternion.rs"],
  [("Hamilton product","Mul impls in src/complex/quaternion.rs"),("mixed complex/quaternion forms","Add/Sub/Mul/Div<Complex>"),("matrix form","into_matrix")],
  None, "results of public operations")

p("C11", "Every transformation type is a group and acting respects composition",
  "For shifts, scalings, linear maps, rotations, their chained combinations, affine maps and Moebius maps: the identity leaves points unchanged, applying a composition equals applying the right operand and then the left one, composition is associative, and the inverse undoes the transformation on both sides. Swapping the order of two transformations yields a pair with the same combined effect.",
  ["inputs","histories"],
  "all elements of the complete finite groups over small fields (pairs and triples), all operation histories of composition and inversion up to depth four against a reference map, exact float values",
  "Tests sample random floats to a tolerance in one dimension; order or inverse errors for particular combinations and chained types are not covered.",
  [T+"mod.rs",T+"shift.rs",T+"scale.rs",T+"linear.rs",T+"rotation.rs",T+"chain.rs",T+"affine.rs",T+"moebius.rs",C+"moebius.rs"],
  [("group operations","Transform impls"),("reordering","Reorder impls in shift/scale/linear/rotation"),("chained transformations","src/transform/chain.rs")],
  "accumulated transformation", "apply on all points")

p("C12", "Directional derivatives are the true derivatives of the transformations",
  "The reported derivative of a transformation at a point along a direction equals the limit of difference quotients of applying it: it is linear in the direction, satisfies the chain rule with the inner transformation evaluated at the point, and for affine maps equals the difference of images. For Moebius maps of complex numbers and of quaternions it equals the exact derivative of the fraction.",
  ["inputs"],
  "all transformations, points and directions over dual-number-extended finite fields and small grids, exact for every point where the map is defined",
  "Tests compare with a finite difference at a few random points; wrong evaluation points or missing terms vanish for many samples.",
  [T+"mod.rs",T+"chain.rs",T+"moebius.rs",C+"moebius.rs",T+"linear.rs",T+"scale.rs",T+"shift.rs",T+"rotation.rs"],
  [("derivatives","Transform::deriv impls"),("chain rule","Chain::deriv"),("Moebius derivative","Moebius::deriv, deriv_dir")],
  None, "deriv results")

p("C13", "Directions and surface normals are transformed consistently",
  "For an invertible transformation and unit vectors, the transformed direction is the unit vector along the derivative of that direction, and the transformed normal is the unit vector perpendicular to the images of all directions perpendicular to the normal, on the same side as the image of the normal. This holds for every transformation type and for chained transformations evaluated at the transformed point, also for reflections and negative scalings.",
  ["inputs"],
  "all invertible matrices with small integer entries in dimensions 2 and 3 (1 and 4 thinner), all grid normals and directions, all scale signs, rotations and Moebius maps over grids, all chained pairs",
  "Tests of normals exist for few maps; non-uniform, mirrored and sheared maps with every normal are not sampled.",
  [T+"mod.rs",T+"linear.rs",T+"scale.rs",T+"shift.rs",T+"rotation.rs",T+"moebius.rs",T+"chain.rs"],
  [("directions and normals","Directional impls"),("normal matrix","Linear::normal_transform")],
  None, "apply_dir, apply_normal results")

p("C14", "Rotations preserve lengths and agree in angle, axis and matrix form",
  "A 2-D or 3-D rotation built from an angle (and unit axis) keeps lengths, dot products and orientation, turns by that angle counter-clockwise (right-handed about the axis), and reports that angle and axis back (up to full turns and the common sign). Its matrix form acts identically and is orthogonal with determinant one, composition adds angles about one axis, and the inverse turns back.",
  ["inputs"],
  "all angles of a fine lattice over several full turns incl. exact quarter and half turns and neighbours, all lattice axes, all lattice vectors, all pairs for composition; the exact 24-element rotation groups",
  "Tests sample random rotations; special angles, axes and the two-to-one sign of unit quaternions are measure-zero for sampling.",
  [T+"rotation.rs"],
  [("2-D rotations","Rotation2"),("3-D rotations","Rotation3"),("matrix form","to_linear"),("angle and axis","new, angle, axis")],
  None, "apply, angle, axis, to_linear results")

p("C15", "Look-at constructions always produce a rotation towards the direction",
  "For every unit direction, the look-at-any constructions give a proper rotation (orthonormal, determinant one, all entries finite) that takes the negative z axis to that direction, including the poles, the equator and the places where the construction switches branches. The look-at construction with an up vector, for any up not parallel to the direction, is a proper rotation taking negative z to the direction, y into the half-plane of the up vector, and x perpendicular to both.",
  ["inputs"],
  "all directions of a fine lattice on the sphere incl. poles, equator, axes, branch thresholds and their floating-point neighbours, both float types, all lattice up vectors",
  "Tests draw random directions, which never hit poles or branch boundaries.",
  [T+"linear.rs",T+"rotation.rs"],
  [("matrix look-at","Linear::look_at, look_at_any"),("quaternion look-at","Rotation3::look_at_any, look_at_any_cont")],
  None, "resulting maps")

p("C16", "Moebius maps: coefficients, composition, inverse and determinant are consistent",
  "A Moebius map with coefficients a, b, c, d sends x to (a x + b)/(c x + d) for real, complex and quaternion points; conversions and accessors keep each coefficient in place; the determinant is a d - b c and is multiplicative under composition. Scaling all coefficients by a factor that commutes with the points does not change the map, normalizing is such a scaling that gives unit determinant, and the inverse map takes every image back.",
  ["inputs"],
  "all coefficient quadruples over small finite fields (complex included), all points where defined, all compositions; integer quaternion points and coefficients on small grids",
  "Tests sample random floats to rounding; coefficient placement and order errors hidden by particular values need all coefficients.",
  [C+"moebius.rs",T+"moebius.rs"],
  [("map and coefficients","src/complex/moebius.rs Moebius"),("normalization, inverse","Normalize impl, Moebius::inv")],
  None, "apply, det, accessors")

p("C17", "Random sampling meets its contract for every generator output",
  "For every sequence of words a random generator may return, a sampled vector, matrix or number has finite normal components; non-zero samples have norm above epsilon, unit samples have length one, invertible samples have determinant magnitude above epsilon, and uniform rotations are proper rotations. Samples failing a condition are redrawn rather than returned, sampling ends as soon as the generator offers acceptable words, and componentwise distributions draw exactly one inner sample per element in row-major order. Taken over all generator outputs, normal numbers follow the standard normal distribution, uniform plane rotations reach all angles evenly, and uniform space rotations are spread evenly over all rotations.",
  ["inputs","fault_sequences"],
  "every assignment of boundary and ordinary words to the first generator draws (all zeros, all ones, repeating words), for every distribution and target type, followed by a benign stream",
  "Tests use one seeded generator that never produces boundary words or a rejected sample.",
  ["src/distr.rs",V+"distr.rs",M+"distr.rs",C+"distr.rs",T+"shift.rs",T+"scale.rs",T+"linear.rs",T+"affine.rs",T+"rotation.rs"],
  [("normal variates","src/distr.rs"),("rejection loops","NonZero in src/vector/distr.rs, Invertible in src/matrix/distr.rs"),("componentwise sampling","VectorDistribution, MatrixDistribution"),("forwarding","src/complex/distr.rs and transform Distribution impls")],
  "generator stream", "sampled values and number of draws")

p("C18", "Norms, lengths and normalization equal their definitions",
  "The L1, L2, squared L2 and L-infinity norms of scalars, vectors, matrices, complex numbers and quaternions are the sum of magnitudes, root of the sum of squares, sum of squares and largest magnitude; length and square length agree with the L2 norm. Normalizing a non-zero element of ordinary size gives a positive multiple of it with length one, and the epsilon test holds exactly for magnitudes up to machine epsilon.",
  ["inputs"],
  "all tuples over small integer and float alphabets, dimensions 1..6 and up to 17 with one or two distinguished positions, all primitive types incl. extremes, values around epsilon",
  "Tests check a few Pythagorean vectors; a dropped component, wrong sign or wrong power shows only for particular positions and signs.",
  ["src/traits.rs",V+"dot.rs",V+"ops/base.rs",M+"ops/base.rs",C+"complex_.rs",C+"quaternion.rs"],
  [("primitive norms and epsilon","src/traits.rs derive_primitive_* macros"),("vector and matrix norms","NormL1/NormL2/NormLInf impls"),("length and normalize","src/vector/dot.rs, complex and quaternion normalize")],
  None, "norm values")

p("C19", "Formatting shows every element once in order and reports write errors",
  "Debug and Display text of vectors, matrices, complex numbers and quaternions names the type and dimensions and shows every element exactly once, in row-major order, in the element's own Debug or Display form and with every bracket closed, for every dimension including zero. When the output sink or an element reports an error at any point, formatting returns that error instead of success or a panic, and what was written is a prefix of the full text.",
  ["inputs","fault_sequences"],
  "all dimensions 0..17 and shapes up to 4x4, every write position at which the sink can fail, every element that can fail, several element values",
  "Tests format one value to one sink; no test makes the sink fail at each write or uses other dimensions.",
  [V+"base/format.rs",M+"format.rs",C+"format.rs"],
  [("vector text","src/vector/base/format.rs"),("matrix text","src/matrix/format.rs"),("complex and quaternion text","src/complex/format.rs")],
  "output written so far", "fmt::Write sink")

p("C20", "Approximate equality holds exactly when every component is within epsilon",
  "Approximate equality of vectors, matrices, complex numbers, quaternions, Moebius maps, shifts, scalings, linear maps and rotations holds exactly when every pair of corresponding components is within the given epsilon by the element's own approximate equality; its negation is the exact opposite. The default epsilon is the element's own default, the relation is symmetric, and non-finite components count exactly as they do for the elements.",
  ["inputs"],
  "all types, every position of one or two deviating components, deviations below, at and above epsilon in both directions, NaN and infinities, several epsilons incl. zero and the default",
  "Tests use approximate equality as a tool, always on nearly equal values; a component that is ignored is invisible to them.",
  [V+"approx.rs",M+"approx.rs",C+"approx.rs",T+"shift.rs",T+"scale.rs",T+"linear.rs",T+"rotation.rs"],
  [("AbsDiffEq impls","approx.rs files and transform/*.rs")],
  None, "abs_diff_eq, abs_diff_ne results")

p("C21", "Summing or multiplying a sequence folds it left to right from the identity",
  "Summing (multiplying) an iterator of vectors, matrices, complex numbers or quaternions gives the sum (product) of all items in sequence order, where vectors and matrices multiply element by element; the empty sequence gives zero (one). Every item is used exactly once, the order of factors is kept for quaternions, and sources that end early, are empty or hold one item need no special care.",
  ["inputs","histories"],
  "all sequences up to length four over small complete alphabets (non-commuting factors included), all container types, all shapes up to 3x3",
  "Two tests sum one three-item list; order, empty input and the identity element are not sampled.",
  [V+"ops/iter.rs",M+"ops/iter.rs",C+"complex_.rs",C+"quaternion.rs"],
  [("Sum and Product","iter::Sum and iter::Product impls")],
  "running total", "sum and product results")

p("C22", "The safe API never causes undefined behaviour",
  "No history of safe public operations on vectors and matrices (construction from short, long or panicking sources, partial iteration, component access, reference views, transposition, unzipping, formatting, conversion), on complex numbers, quaternions, Moebius maps and transformations, or of sampling and comparing, performs an out-of-bounds, misaligned, uninitialised, aliased or freed memory access. This holds for element types of any size and alignment, with or without destructors, including zero-sized ones and zero dimensions, and in builds with and without debug assertions.",
  ["histories","fault_sequences","configurations"],
  "all histories of up to three operations over element types of differing size, alignment and drop behaviour, dimensions 0..5, all injected panic points, executed under an interpreter that detects undefined behaviour",
  "Undefined behaviour often yields the expected value on one machine, so a passing test shows nothing.",
  [V+"base/init.rs",V+"base/iter.rs",V+"spec.rs",M+"base/init.rs",M+"base/convert.rs",M+"transpose.rs"],
  [("raw reads of uninitialised storage","from_uninit, into_uninit, assume_init"),("pointer casts of views","as_array_of_arrays, as_mut_array_of_arrays"),("unchecked element access","get_unchecked users in vector/spec.rs and transpose.rs")],
  "memory of containers", "interpreter's undefined-behaviour monitor")

p("C23", "Results do not depend on which optional features are enabled",
  "The library builds with every combination of its optional features (standard library, random sampling, approximate equality), each build offers the same operations apart from those of the feature itself, a build without the standard library feature runs in programs that have no standard library, and every operation available in two builds gives the same result in both (calls outside a function's domain aside): identical for integer, exact and structural operations and basic float arithmetic, and equal up to the accuracy of the math library for transcendental functions.",
  ["configurations","inputs"],
  "all eight feature combinations, all operations common to them, a fixed exhaustive operand alphabet",
  "The test suite runs two configurations, each against its own expectations, never one against the other.",
  ["Cargo.toml","src/lib.rs","src/traits.rs",V+"mod.rs",M+"mod.rs",C+"mod.rs"],
  [("feature gates","cfg(feature) attributes across src"),("float back ends","num_traits::Float via std or libm, FloatCore in src/traits.rs")],
  "enabled feature set", "results of the common API in each build")

p("C24", "The answer of a call depends on its operands alone",
  "Every operation gives exactly the same answer for the same operands whatever the program did before: any other calls, with other operands and of other types, in any order and number; calls of which one was abandoned half-way by a panic or a failing writer. It gives that answer also when it is called from inside a callback, iterator, generator or element operation that another operation of the library is using, and while other threads are inside operations of the library, and it always returns. A sample depends on the distribution and on the words its generator supplies, and on nothing else. Values of the library can be moved to, and shared with, other threads exactly when their elements can.",
  ["histories","schedules","fault_sequences","inputs"],
  "all ordered pairs of some 1,300 calls covering every part of the library, all short sequences of calls of one operation with operands that agree in part, long repetitions past 16-bit counters, every call inside every callback of another, every call after another was abandoned at every callback, all interleavings of two threads at callbacks within a preemption bound",
  "Every test runs its calls in one fixed order and looks at each answer once; none calls the library from inside its own callbacks or from two threads on purpose.",
  ["src/distr.rs",V+"base/init.rs",V+"base/iter.rs",M+"square.rs",M+"format.rs","src/transform/rotation.rs",C+"moebius.rs"],
  [("working storage of an operation","Determinator and IndexMask, iterator adapters, Vector::init"),("samplers","Distribution impls"),("marker traits","auto Send/Sync of every public type")],
  "everything a call can read besides its operands", "answers of calls in differing histories and schedules")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for r in P: f.write(json.dumps(r) + "\n")
print(len(P))
