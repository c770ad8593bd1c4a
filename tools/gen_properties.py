#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the prose stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

p("C01", "The geometric product is the Clifford product of the declared signature",
  "For every declarable signature, every coefficient ring and both the dense and the sparse multivector types, `a * b` is the unique bilinear product in which distinct generators anticommute and each generator squares to its declared +1, -1 or 0. The result is exact for exact rings, it is the same for every owned/borrowed operand form, and the operands are left unchanged. Hence the product is associative, distributes over addition and has the scalar 1 as its unit.",
  ["inputs", "configurations"],
  "all signatures up to 64 generators (dense up to the memory limit), all pairs of multivectors, any coefficient ring, any storage, any operand form",
  "the tests multiply a few generators and a handful of random multivectors in about ten fixed signatures and mostly compare the library with itself; most signature/blade/ring combinations are never reached",
  ["src/lib.rs", "src/ops.rs", "src/algebra.rs", "src/precomputed.rs", "src/coeff_storage.rs"],
  [("naive product loop over non-zero coefficients", "src/lib.rs naive_mul_impl"), ("sign of a product of blades", "src/algebra.rs blade_geo_product_sign, ac_product_sign"), ("precomputed sign tables for up to 6 generators", "src/precomputed.rs"), ("operator forms", "src/ops.rs")],
  ["Multivector * Multivector", "SparseMultivector * SparseMultivector", "naive_mul_impl"])

p("C02", "Basis-blade sign queries agree with generator reordering",
  "For every declarable signature and every pair of basis blades, the sign reported for their geometric product, for their exterior product and for the reordering of anticommuting generators is the sign obtained by explicitly sorting the concatenated generator lists and contracting equal neighbours. The negated reordering query is always the opposite of the plain one, and multiplying two signs follows the rules of +1, -1 and 0.",
  ["inputs", "configurations"],
  "all signatures up to 64 generators and all pairs of blade indices of the algebra",
  "the tests compare the precomputed table with the run-time formula and look at twelve blade pairs of one signature; nothing checks the formula itself or dimensions above 6",
  ["src/algebra.rs", "src/precomputed.rs", "src/types.rs"],
  [("table lookup up to 6 generators, shift-and-count formula above", "src/algebra.rs ac_product_sign, ac_negated_product_sign"), ("null and imaginary contraction", "src/algebra.rs blade_geo_product_sign")],
  ["ClAlgebra::ac_product_sign", "ClAlgebra::ac_negated_product_sign", "ClAlgebra::blade_wedge_product_sign", "ClAlgebra::blade_geo_product_sign", "Sign * Sign"])

p("C03", "The wedge product is the exterior product, whatever the signature",
  "For every signature, dimension, coefficient ring and storage, the wedge product of two multivectors is their exterior product: bilinear, associative, zero on blades that share a generator, and otherwise the reordered union of generators with the reordering sign. It does not depend on the metric, the optimized and the naive implementations agree, and the operands are left unchanged.",
  ["inputs", "configurations"],
  "all signatures and dimensions (below and above the switch of algorithms), all pairs of multivectors, commutative and non-commutative coefficient rings",
  "the fast algorithm is only compared with the naive one on a single pair of multivectors in a single 6-dimensional algebra",
  ["src/mv_dense.rs", "src/mv_sparse.rs", "src/lib.rs", "src/algebra.rs"],
  [("recursive in-place wedge for 6 and more generators", "src/mv_dense.rs wedge_impl"), ("naive wedge", "src/lib.rs naive_wedge_impl")],
  ["WedgeProduct::wedge", "naive_wedge_impl"])

p("C04", "Dual, undual and the regressive product are consistent for every signature",
  "For every basis blade b, the dual of b wedged with b gives the unit pseudoscalar and b wedged with its undual gives the unit pseudoscalar, both maps are linear and independent of the metric, and they undo each other in either order. The regressive product (`meet`) of any two multivectors equals the undual of the wedge of their duals, in every dimension, for every storage and for the naive and the optimized implementation alike.",
  ["inputs", "configurations"],
  "all signatures and dimensions, all multivectors, any coefficient ring, any storage",
  "the tests check meet on random elements of two all-positive algebras and duals in a few fixed algebras",
  ["src/lib.rs", "src/mv_dense.rs", "src/mv_sparse.rs"],
  [("dual / undual", "src/lib.rs"), ("naive meet with combined signs", "src/lib.rs naive_meet_impl"), ("dual-wedge-undual above 5 generators", "src/mv_dense.rs meet")],
  ["dual", "undual", "WedgeProduct::meet", "naive_meet_impl"])

p("C05", "Reversal, grade involution and subspace flips are the right (anti)automorphisms",
  "For every signature, storage and coefficient ring, reversal reverses the order of generators in every blade, the parity flip negates every generator, and a subspace flip negates exactly the generators selected by its mask; complex reversal additionally conjugates every coefficient. All of them are linear involutions, the flips respect products and reversal reverses the order of products.",
  ["inputs", "configurations"],
  "all signatures, all multivectors, all subspace masks, any storage and coefficient ring",
  "the tests check one or two fixed elements per involution",
  ["src/lib.rs"],
  [("sign by grade modulo 4", "src/lib.rs rev_c, rev, revc"), ("sign by parity", "src/lib.rs flip, flip_subspace")],
  ["rev", "flip", "flip_subspace", "revc"])

p("C06", "Addition, subtraction, negation and scalar operations act coefficient-wise",
  "For every algebra, storage and coefficient ring, `+`, `-`, unary `-`, multiplication by a scalar (from the right) and division by a scalar act independently on every coefficient, for every owned/borrowed operand form and without changing the operands. Zero and one are the neutral elements, the zero and one tests recognise exactly those values, and two multivectors compare equal exactly when all their coefficients are equal.",
  ["inputs", "configurations"],
  "all algebras, storages, coefficient rings and multivectors, including cancelling, disjoint and empty ones",
  "the tests use these operations only incidentally, mostly on dense multivectors of f64",
  ["src/ops.rs", "src/coeff_storage.rs", "src/lib.rs"],
  [("storage addition and subtraction", "src/coeff_storage.rs add, sub"), ("scalar operators", "src/ops.rs"), ("equality", "src/coeff_storage.rs PartialEq")],
  ["Add", "Sub", "Neg", "Mul<T>", "Div<T>", "PartialEq", "Zero", "One", "Default"])

p("C07", "Dense and sparse storage are interchangeable through any history of operations",
  "Any sequence of constructions, updates, arithmetic, products, involutions, grade selections, filters and conversions gives the same coefficients whether it is carried out on dense multivectors, on sparse multivectors, or on a mixture of both with conversions in between. A sparse multivector never reports a zero coefficient as present: its coefficient count is the number of non-zero coefficients after every step, and converting between the two kinds loses nothing.",
  ["histories", "inputs", "configurations"],
  "all finite sequences of API operations over a pool of multivectors, in any algebra",
  "the tests convert a handful of values once; no test runs a sequence of operations on both kinds",
  ["src/coeff_storage.rs", "src/mv_sparse.rs", "src/mv_dense.rs", "src/lib.rs"],
  [("dense array storage", "src/coeff_storage.rs ArrayStorage"), ("hash map storage that drops zeros", "src/coeff_storage.rs SparseStorage"), ("conversions", "src/lib.rs to_storage_type, grade_extract_as")],
  ["to_sparse", "to_dense", "coeff_count", "coeff_enumerate", "grade_extract", "grades_extract", "retain_grades", "filter", "filtered", "filter_inplace"],
  state=[dict(name="coefficients", meaning="map from blade index to coefficient", where="ArrayStorage::array, SparseStorage::coeffs")])

p("C08", "Construction and coefficient access are faithful and reject malformed input",
  "Building a multivector from a vector, from a scalar, from indexed coefficients or from single updates and reading it back by index, by enumeration, by grade, as a vector or as a coefficient array returns exactly the coefficients that were given (the last one for a repeated index) and zero elsewhere. A vector of the wrong length or an indexed coefficient outside the algebra is reported as an error; reading outside the algebra gives zero and writing outside it changes nothing. None of these operations panics.",
  ["inputs", "configurations"],
  "all algebras up to 64 generators, any index value, any length and order of input, dense, sparse and quaternion storage",
  "the tests only construct valid values and never use an out-of-range index or a wrong length",
  ["src/lib.rs", "src/coeff_storage.rs", "src/mv_dense.rs", "src/mv_sparse.rs", "src/quaternion.rs", "src/index_utils.rs"],
  [("constructors", "src/lib.rs from_scalar, from_vector, from_indexed_iter"), ("bounds handling", "src/coeff_storage.rs get_by_idx, set_by_idx"), ("grade iteration", "src/index_utils.rs GradeIter")],
  ["from_vector", "from_vector_ref", "from_indexed_iter", "from_indexed_iter_ref", "from_scalar", "set_by_idx", "get_by_idx", "coeff_enumerate", "grade_enumerate", "grade_extract", "extract_vector", "coeff_array_view", "scalar_part"])

p("C09", "Scalar products and magnitudes equal the scalar parts they abbreviate",
  "For all multivectors a and b of any algebra, storage and coefficient ring, the signature dot product equals the scalar part of `a * b`, the plain dot product equals the sum of products of equal-index coefficients, and the squared magnitude equals the scalar part of `rev(a) * a` (with conjugated coefficients for the complex variant). Reversal divided by the magnitude equals the reversal divided by the squared magnitude, so its product with the original has scalar part one whenever the magnitude is not zero.",
  ["inputs", "configurations"],
  "all signatures, all multivectors, real, complex and exact coefficients, dense and sparse storage",
  "the tests check one random pair in one algebra",
  ["src/lib.rs"],
  [("linear-time products", "src/lib.rs vdot, vsdot, mag2, cmag2"), ("normalized reversals", "src/lib.rs revm, revcm")],
  ["vdot", "vsdot", "mag2", "cmag2", "revm", "revcm"])

p("C10", "The matrix representation of a multivector loses nothing",
  "For every signature (odd or even, degenerate or not) and every supported scalar type, transforming a multivector into the fast matrix representation and back returns the same coefficients up to rounding, the transform is linear and injective, and the representation has the documented shape. Building a representation from an array accepts exactly the arrays of that shape and gives back the same array.",
  ["inputs", "configurations"],
  "all signatures, all multivectors with finite coefficients, scalar types f32, f64, Complex32, Complex64, all array shapes",
  "the tests round-trip products in three signatures",
  ["src/mv_dense.rs", "src/fftrepr/mod.rs", "src/clifft/mod.rs", "src/complexification.rs", "src/types.rs"],
  [("forward transform by null-blade blocks", "src/mv_dense.rs fft"), ("inverse transform", "src/fftrepr/mod.rs ifft"), ("rounding up odd dimensions and mapping back", "src/complexification.rs Even, into_original"), ("shape validation", "src/fftrepr/mod.rs from_array3, from_array2")],
  ["Multivector::fft", "FFTRepr::ifft", "FFTRepr::from_array3", "FFTRepr::from_array2", "FFTRepr::into_array3", "FFTRepr::into_array2", "FFTRepr::shape", "FFTRepr::view"])

p("C11", "Arithmetic on matrix representations equals arithmetic on multivectors",
  "For every signature and every expression built from addition, subtraction, negation, multiplication and multiplication or division by scalars, evaluating the expression on the matrix representations and transforming back gives the same multivector as evaluating it directly, up to rounding. This includes degenerate algebras with any number of null generators and odd numbers of non-null generators, for every owned/borrowed operand form, and the operands are left unchanged.",
  ["inputs", "configurations", "programs"],
  "all signatures, all arithmetic expressions, all multivectors",
  "the tests compare ten random products in three signatures and never nest operations deeply or use more than three null generators",
  ["src/fftrepr/mod.rs", "src/fftrepr/wmul.rs", "src/clifft/mod.rs", "src/mv_dense.rs"],
  [("matrix product", "src/fftrepr/wmul.rs wmul"), ("recursive product over null generators", "src/fftrepr/wmul.rs wmul_impl"), ("linear operators", "src/fftrepr/mod.rs")],
  ["FFTRepr * FFTRepr", "FFTRepr + FFTRepr", "FFTRepr - FFTRepr", "-FFTRepr", "FFTRepr * f64", "FFTRepr * Complex64", "FFTRepr / f64", "FFTRepr / Complex64", "FFTRepr::basis", "FFTRepr::zero", "FFTRepr::one"])

p("C12", "Reversal, flip, trace and magnitude of a representation match the multivector",
  "For every signature, reversing or flipping a matrix representation represents the reversed or flipped multivector, its normalized trace is the scalar part, its trace is the scalar part times the matrix side, and its squared magnitude is the scalar part of `rev(a) * a`. This holds with any number of null generators and for even and odd numbers of non-null generators.",
  ["inputs", "configurations"],
  "all signatures, all multivectors",
  "the tests check ten random elements in three signatures, with at most three null generators",
  ["src/fftrepr/mod.rs", "src/clifft/mod.rs"],
  [("reversal per null block", "src/fftrepr/mod.rs rev"), ("flip by index parity", "src/fftrepr/mod.rs flip"), ("trace", "src/fftrepr/mod.rs trace, ntrace, mag2")],
  ["FFTRepr::rev", "FFTRepr::flip", "FFTRepr::trace", "FFTRepr::ntrace", "FFTRepr::mag2"])

p("C13", "Inversion of a representation finds the inverse exactly when there is one",
  "For every element of a non-degenerate algebra, inverting its representation yields an element whose product with the original, on either side, is one within rounding that is proportionate to its conditioning. An invertible, well-conditioned element is never reported as non-invertible, whatever pattern of zeros its matrix has, and zero and the exact zero divisors of the form ±2^k (1 ± b), with a basis blade b squaring to +1, are never reported as invertible.",
  ["inputs", "configurations"],
  "all non-degenerate signatures, all elements; matrices with arbitrary zero patterns and scales",
  "the tests invert one random element and one binomial; zero patterns that need row exchanges are hardly reached",
  ["src/fftrepr/matrix.rs", "src/fftrepr/mod.rs"],
  [("Gauss elimination with partial pivoting", "src/fftrepr/matrix.rs matrix_inv"), ("inv", "src/fftrepr/mod.rs inv")],
  ["FFTRepr::inv"])

p("C14", "Half-spin representations are faithful homomorphisms of the even subalgebra",
  "For every non-degenerate algebra, splitting the representation of an even multivector yields two square matrices of half the size which map sums to sums, products to products and one to the identity, and which together contain exactly the entries of the full representation that are not identically zero for even elements. Odd parts of a multivector do not influence the result.",
  ["inputs", "configurations"],
  "all non-degenerate signatures, all multivectors",
  "the tests look at one rotor in each of two algebras",
  ["src/fftrepr/mod.rs"],
  [("selection of rows and columns by index parity", "src/fftrepr/mod.rs into_half_spin_repr")],
  ["FFTRepr::into_half_spin_repr"])

p("C15", "The raw transform of coefficient arrays is an invertible algebra homomorphism",
  "For every coefficient array whose length is a power of two, the raw transform followed by its inverse returns the array (padded with zeros for an odd number of generators), products of transforms are transforms of products in the all-positive algebra, and parity flip, imaginary flip and reversal of the matrix act on the coefficients as their names say. Arrays and matrices of any other shape, and destinations of the wrong size, are reported as invalid shapes without a panic.",
  ["inputs"],
  "all array lengths and matrix shapes, all finite coefficients, real and complex scalar types",
  "the tests use a few fixed ramps and basis vectors and three malformed shapes",
  ["src/clifft/mod.rs", "src/mv_dense.rs"],
  [("recursive transform", "src/clifft/mod.rs clifft_nn_into"), ("recursive inverse", "src/clifft/mod.rs iclifft_nn_into"), ("multiplication of odd generators by i", "src/clifft/mod.rs clifft, iclifft_into"), ("matrix automorphisms", "src/clifft/mod.rs parity_flip, imaginary_flip, reversal")],
  ["clifft", "iclifft", "iclifft_into", "parity_flip", "imaginary_flip", "reversal", "real_fft"])

p("C16", "The exponential is the exponential series of its argument",
  "For every multivector of moderate size in any signature, in dense, sparse and matrix representation, the exponential agrees with the sum of its power series within rounding proportionate to the size of the argument. In particular it gives the trigonometric, hyperbolic or truncated closed form on blades, exp(a) exp(-a) is one, and the three forms agree with each other.",
  ["inputs", "configurations"],
  "all signatures, all real and complex multivectors with bounded norm, dense ones included",
  "the tests check exponentials of two blades, and compare two implementations with the same scheme on one signature with a loose tolerance",
  ["src/lib.rs", "src/fftrepr/mod.rs"],
  [("scaling, Taylor series, power", "src/lib.rs exp"), ("same on matrices", "src/fftrepr/mod.rs exp")],
  ["Multivector::exp", "SparseMultivector::exp", "FFTRepr::exp"])

p("C17", "Integer powers are repeated products",
  "For every multivector in any algebra, storage and coefficient ring, and every exponent n, the n-th power equals the product of n copies, with the zeroth power being one; powers of matrix representations represent the powers of the multivector. Consequently powers add up exponents and never depend on how the exponent is factored.",
  ["inputs", "configurations"],
  "all exponents, all multivectors, all signatures",
  "the tests use exponents 2, 4, 5, 6 and 8 on two kinds of elements",
  ["src/lib.rs", "src/fftrepr/mod.rs"],
  [("square and multiply", "src/lib.rs pow, src/fftrepr/mod.rs pow")],
  ["pow", "FFTRepr::pow"])

p("C18", "Division in complex and quaternionic algebras inverts multiplication",
  "In the algebras with one or two negative generators, for every a and every b with invertible norm, `a / b` multiplied by b from the right gives back a up to rounding (exactly for exact fields), for dense, sparse and quaternion storage and every owned/borrowed operand form. Division of any multivector by a scalar agrees with multiplying by the scalar's reciprocal.",
  ["inputs"],
  "all pairs (a, b) with non-zero norm of b, over reals, complex numbers and exact fields",
  "the tests divide by three units and one multiple of a unit",
  ["src/ops.rs"],
  [("multiplication by the conjugate over the norm", "src/ops.rs div"), ("scalar division", "src/ops.rs div")],
  ["Multivector / Multivector", "SparseMultivector / SparseMultivector", "Quaternion / Quaternion", "Multivector / T"])

p("C19", "The quaternion type is the quaternion algebra",
  "The quaternion units satisfy i*i = j*j = k*k = i*j*k = -1 over every supported scalar type, products, sums, conjugates and norms of arbitrary quaternions follow Hamilton's formulas, conjugation reverses products and the norm is multiplicative. Every operation gives the same coefficients as the corresponding dense multivector with two negative generators, including for matrices of quaternions.",
  ["inputs"],
  "all quaternions over real and complex scalars, matrices of quaternions",
  "the tests check one fixed quaternion and a few products of units",
  ["src/quaternion.rs", "src/lib.rs", "src/ops.rs"],
  [("copyable storage of four coefficients", "src/quaternion.rs QStorage"), ("units, conjugate, norm", "src/quaternion.rs")],
  ["Quaternion::i", "Quaternion::j", "Quaternion::k", "Quaternion::conj", "Norm for Quaternion", "Quaternion arithmetic"])

p("C20", "Projective geometry: points, hyperplanes, joins, meets and motions are Euclidean",
  "In every projective algebra, a point built from finite coordinates (the origin included) gives back the same coordinates, a hyperplane built from an equation contains exactly the points that satisfy it, joining points and intersecting hyperplanes give the Euclidean join and intersection, and sandwiching a point with a translation motor or with the exponential of a Euclidean bivector moves it by the corresponding translation or rotation. A wrong number of point or hyperplane coordinates, or too many translation coordinates, is reported as an error.",
  ["inputs", "configurations"],
  "all space dimensions, all finite coordinates of moderate size, dense and sparse storage",
  "the tests use one point, one motor and one intersection in two and three dimensions",
  ["src/pga.rs", "src/lib.rs"],
  [("dual vector as a point", "src/pga.rs pga_point, pga_extract_point"), ("plane equation as a vector", "src/pga.rs pga_hyperplane"), ("translation motor", "src/pga.rs pga_translation")],
  ["pga_point", "pga_hyperplane", "pga_translation", "pga_extract_point"])

p("C21", "Formatted multivectors can be read back unambiguously",
  "Displaying any multivector (plain, with sign, with precision, in the reversed-label alternate form, in lower or upper exponent form) lists every non-zero coefficient exactly once with the label of its blade, and parsing the text back gives the same multivector (up to the requested precision). The alternate form compensates reversed labels with the reversal sign, coefficients with inner signs are parenthesised, and the zero multivector prints as zero.",
  ["inputs", "configurations"],
  "all multivectors, all algebras and generator names, real, complex and nested coefficients, all format flags, dense and sparse storage",
  "the tests compare three strings for a single multivector",
  ["src/lib.rs", "src/algebra.rs"],
  [("formatting macro", "src/lib.rs impl_formatting"), ("blade labels", "src/algebra.rs blade_label, blade_label_rev")],
  ["Display", "LowerExp", "UpperExp"])

p("C22", "A declared algebra reports the signature it was declared with",
  "For every declared signature and list of generator names, the dimension, the numbers and masks of positive, negative and null generators, the signature arrays, the generator names and blade labels, and the dense, sparse and matrix-representation bases all describe that signature. Enumerating blade indices yields every index exactly once, and enumerating a grade yields exactly the indices with that many generators, for every grade and up to 64 generators.",
  ["configurations", "inputs"],
  "all signatures and name lists, all grades (including impossible ones), all blade indices",
  "the tests look at one label set and the masks of two signatures, and grades of at most 15 generators",
  ["src/algebra.rs", "src/index_utils.rs", "src/complexification.rs"],
  [("mask-producing macros", "src/algebra.rs produce_mask_*"), ("basis and signature arrays", "src/algebra.rs ClBasis, make_array"), ("combinations iterator", "src/index_utils.rs GradeIter")],
  ["ClAlgebraBase::*", "ClAlgebra::index_iter", "ClAlgebra::grade_index_iter", "ClAlgebra::blade_label", "ClAlgebra::blade_label_rev", "ClBasis::basis", "ClBasis::basis_sparse", "ClBasis::signature", "ClBasis::signaturef"])

p("C23", "Ill-typed algebra programs are rejected at compile time, well-typed accepted",
  "A program that mixes multivectors or representations of different algebras, declares null generators before non-null ones, gives the wrong number of generator names or more generators than an index can hold, inverts or half-spin-splits in a degenerate algebra, divides in an algebra that is not complex or quaternionic, or uses projective functions outside a projective signature does not compile. The corresponding programs in which the signature allows the operation do compile, for every signature.",
  ["programs", "configurations"],
  "all pairs of signatures, all signatures and name lists, all guarded operations",
  "the tests contain only well-typed programs for a dozen signatures; nothing checks that ill-typed ones are rejected",
  ["src/algebra.rs", "src/ops.rs", "src/fftrepr/mod.rs", "src/pga.rs", "src/mv_dense.rs"],
  [("order and size checks", "src/algebra.rs order_check, impl_algebra_base"), ("marker traits assigned by the macro", "src/algebra.rs impl_non_degenerate, impl_split_signature, impl_pga, impl_complex_or_quaternionic"), ("phantom algebra parameter", "src/lib.rs MultivectorBase")],
  ["rustc on generated programs"])

p("C24", "Complexification is a faithful homomorphism onto the all-positive algebra",
  "For every signature, converting multivectors to the complexified algebra preserves sums and products (negative generators become imaginary multiples of positive ones), does not touch null generators, and converting back returns the original coefficients, for any combination of dense and sparse storage and any supported scalar type. In the complexified algebra a generator that was negative is displayed as i times its name, the others keep their names, and the matrix representation of the complexified multivector is that of the original.",
  ["inputs", "configurations"],
  "all signatures, all multivectors, all storage combinations",
  "the tests round-trip two elements of one signature and check no products",
  ["src/complexification.rs", "src/types.rs"],
  [("powers of i by the number of negative generators", "src/complexification.rs complexified_iter, decomplexify")],
  ["complexify", "decomplexify"])

p("C25", "Multivectors work over any coefficient ring",
  "All ring-generic operations (construction, sums, products, wedge, meet, duals, involutions, dot products, powers, grade selection) use only ring operations on the coefficients and keep the order of coefficient factors, so they commute with ring homomorphisms such as reduction modulo a prime and are correct for non-commutative coefficients and for rings with zero divisors. In particular multivectors whose coefficients are multivectors of another algebra behave as the tensor product of the two algebras.",
  ["inputs", "configurations"],
  "all coefficient rings, all algebras, all ring-generic operations, dense and sparse storage",
  "the tests only print or fold a few nested values",
  ["src/lib.rs", "src/ops.rs", "src/coeff_storage.rs", "src/types.rs", "src/mv_dense.rs"],
  [("ring traits by reference", "src/types.rs Ring, RefAdd, RefMul, RefNeg"), ("generic storage", "src/coeff_storage.rs")],
  ["MultivectorBase<T, _, _> for arbitrary T: Ring"])

p("C26", "Approximate equality means every coefficient is within the precision",
  "For multivectors of any kind and for matrix representations, two values are approximately equal with a given positive precision exactly when the norm of the difference of every pair of corresponding coefficients (or matrix entries) is below the precision. Exact equality of representations means equality of all entries, and the zero test of a representation recognises exactly the zero one.",
  ["inputs", "configurations"],
  "all pairs of values that differ in any subset of coefficients, all positive precisions, real, complex and quaternion coefficients",
  "the tests only use approximate equality as an assertion that should succeed; a comparison that is too lenient would make many tests vacuous",
  ["src/lib.rs", "src/fftrepr/mod.rs", "src/quaternion.rs"],
  [("difference and norm per coefficient", "src/lib.rs approx_eq, Norm"), ("entry-wise comparison", "src/fftrepr/mod.rs approx_eq, PartialEq")],
  ["approx_eq", "FFTRepr::approx_eq", "FFTRepr::eq", "FFTRepr::is_zero", "Norm"])

p("C27", "Embedding an algebra into a larger one preserves all operations",
  "Take an algebra and a larger one that contains its generators, with the same squares, among its own, at any positions and in any order (or a reordering of generators with equal squares within one algebra). The map of multivectors that follows the generators, with the signs of the reordering, commutes with sums, products, wedge products, reversal, flips, grade selection, scalar products, magnitudes, powers, exponentials and inverses, in dense and sparse storage and through the matrix representation. No result depends on how many unused generators the algebra has or on where the used ones stand.",
  ["inputs", "configurations"],
  "all pairs of signatures where one contains the other, all injections of generators, all multivectors",
  "the tests use each signature on its own, with the generators in the order of declaration; the algorithms differ by dimension (tables, recursion, matrix size) and are never compared across dimensions",
  ["src/lib.rs", "src/algebra.rs", "src/precomputed.rs", "src/mv_dense.rs", "src/mv_sparse.rs", "src/clifft/mod.rs", "src/fftrepr/mod.rs"],
  [("tables up to 6 generators, formulas above", "src/algebra.rs ac_product_sign"), ("recursive wedge for 6 and more generators", "src/mv_dense.rs wedge_impl"), ("padding of odd numbers of generators", "src/clifft/mod.rs, src/fftrepr/mod.rs")],
  ["*", "wedge", "rev", "flip", "flip_subspace", "grade_extract", "vdot", "vsdot", "mag2", "revm", "pow", "exp", "fft", "FFTRepr::inv"])

p("C28", "Products of invertible vectors act as orthogonal transformations",
  "For every signature, a vector squares to its metric square, two vectors anticommute to twice their metric product, and an invertible vector acts on vectors by the sandwich product as a reflection. A product V of invertible vectors has its magnitude equal to the product of their squares, its reversal equal to the product in reverse order, its parity flip equal to plus or minus itself by the number of vectors, and its reversal divided by the magnitude as two-sided inverse; x -> V x V^-1 composes those reflections, preserves grades, products, wedge products, scalar products, reversal and flips, and keeps the top blade up to the sign of the transformation. The exponential of a multiple of a coordinate plane acts as the rotation, boost or translation of that plane by twice the amount, and all this holds in dense and sparse storage and for inverses and exponentials of representations.",
  ["inputs", "configurations"],
  "all signatures, all sequences of invertible vectors, all multivectors they act on",
  "the tests rotate a few fixed vectors in two or three algebras",
  ["src/lib.rs", "src/ops.rs", "src/algebra.rs", "src/fftrepr/mod.rs", "src/fftrepr/matrix.rs"],
  [("reversal divided by the magnitude", "src/lib.rs revm"), ("products", "src/lib.rs naive_mul_impl"), ("matrix inverse", "src/fftrepr/matrix.rs"), ("exponential", "src/lib.rs exp, src/fftrepr/mod.rs exp")],
  ["*", "revm", "mag2", "vdot", "wedge", "grade_extract", "exp", "FFTRepr::inv", "FFTRepr::exp"])

p("C29", "Results depend on the values of the operands only",
  "Every operation on multivectors and representations, in every algebra, storage and coefficient type, is a function of the values of its operands. Repeating it, carrying out other operations (of the same or other algebras, storages and coefficient types) before or after it, in any order or in several threads at once, and building the operands in another way (other order of terms, intermediate updates, sums, clones) changes neither the result nor any other value; a clone is independent of its original.",
  ["inputs", "schedules"],
  "all finite lists of operations over all algebras and coefficient types, all orders and interleavings, all ways to build the operands",
  "each test uses one or two algebras in a fixed order and builds every value once",
  ["src/lib.rs", "src/ops.rs", "src/coeff_storage.rs", "src/mv_dense.rs", "src/mv_sparse.rs", "src/clifft/mod.rs", "src/fftrepr/mod.rs", "src/fftrepr/wmul.rs", "src/complexification.rs"],
  [("in-place algorithms that restore their operands or use the destination as a buffer", "src/fftrepr/wmul.rs wmul_impl, src/mv_dense.rs wedge_impl, src/clifft/mod.rs"), ("storage of coefficients", "src/coeff_storage.rs"), ("sign tables shared by algebras", "src/precomputed.rs")],
  ["*", "+", "-", "wedge", "meet", "dual", "rev", "flip", "pow", "exp", "fft", "ifft", "complexify", "decomplexify", "clifft", "iclifft", "FFTRepr::inv", "=="])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
