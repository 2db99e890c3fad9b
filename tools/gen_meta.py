#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the data below."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks_spec import CHECKS  # noqa: E402

P = []


def prop(id, title, statement, over, quant, tests, files, mech, technique,
         note, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  quant=quant, tests=tests, files=files, mech=mech,
                  technique=technique, note=note, observe=list(observe)))


V = "vmmlib/vector.hpp"
M = "vmmlib/matrix.hpp"
F = "vmmlib/matrix_functors.hpp"
Q = "vmmlib/quaternion.hpp"
T_INPUT = ("The existing tests compute a handful of fixed examples, mostly 3 or 4 "
           "component float values; the property quantifies over ")

prop("V01", "Vector arithmetic acts component by component in every form",
     "Adding, subtracting, multiplying and dividing vectors by vectors or scalars, and "
     "negation, give in every component exactly what the element type gives for the operand "
     "components. The operator, compound-assignment and named forms agree, also when an "
     "operand is the target itself, and operands that are not the target stay unchanged.",
     ["inputs"], "All vectors of 1 to 7 components of float, double and (signed, unsigned, 8 to "
     "64 bit) integer types without overflow, all operator forms, aliased operands included.",
     T_INPUT + "every value, size, element type and aliasing pattern.",
     [V], [("operator+,-,*,/ and their assignment forms", V),
           ("multiply with a vector of another type, negate", V)],
     "property-based testing against per-component reference arithmetic",
     "Sampled exploration under ASan/UBSan and in optimised builds; exact comparison.")

prop("V02", "Products, lengths, distances and normals of vectors are accurate",
     "Dot and cross products, length, squared length, distance, squared distance, norm, "
     "normalisation and triangle normals equal their mathematical definitions up to rounding "
     "(exactly for integer element types). A normalised non-zero vector has length 1, keeps its "
     "direction, and normalising returns the length the vector had.",
     ["inputs"], "All vectors of 1 to 9 components whose squares neither overflow nor underflow; "
     "all triangles that are not degenerate.",
     T_INPUT + "all magnitudes (lost accuracy, mixed-up components and wrong signs show for some "
     "values only).",
     [V], [("dot, cross, length, squared_length, distance, normalize, norm, compute_normal", V)],
     "property-based testing against long double references with error bounds",
     "Sampled exploration; tolerance is a small multiple of the rounding error of the "
     "textbook formula.")

prop("V03", "What is put into a vector is what comes out of it",
     "Every way to construct, set, assign, convert or partially overwrite a vector puts exactly "
     "the given components into their places and nothing elsewhere, and every accessor, iterator, "
     "named component, sub-vector and homogeneous conversion reads and writes the component it "
     "names. Where accesses are checked, an index beyond the last component is refused without "
     "any effect; predefined constant vectors have the documented values.",
     ["inputs"], "All component values, all indices and offsets, sizes 2 to 7, conversions between float, double and "
     "integer types, partial writes at every offset.",
     T_INPUT + "each constructor, size and offset; only a few are covered by the tests.",
     [V], [("constructors, set, iter_set, operator=, at, operator[], operator(), begin/end", V),
           ("get_sub_vector, set_sub_vector and homogeneous conversions", V)],
     "property-based testing: write one way, read another, over recognisable garbage",
     "Sampled exploration; bit-exact comparison; sanitizers catch stray accesses.")

prop("V04", "Vector comparisons agree with comparing the components",
     "Two vectors are equal exactly if all components compare equal (so 0 equals -0, and a NaN nothing), unequal is "
     "the negation, and ordering is the lexicographic strict weak order of the components. "
     "Comparison with a tolerance accepts exactly the pairs whose components all differ by no more "
     "than the tolerance, is symmetric and follows the default tolerance of the element type.",
     ["inputs"], "All pairs (triples for order axioms) of vectors of 2 to 7 components, in particular pairs "
     "that differ in a single component or by about the tolerance.",
     T_INPUT + "all pairs, in particular nearly equal ones.",
     [V], [("operator==, !=, <, equals", V)],
     "property-based testing against component-wise references and order axioms",
     "Sampled exploration; differences within rounding of the tolerance itself are not decided.")

prop("V05", "Extremes, clamping, counting and element-wise maps of vectors",
     "The minimum, maximum and their indices (also by absolute value; the first of equal ones), the number of non-zero "
     "components, clamping, safe and plain reciprocals, element-wise square roots, scaling to the "
     "range of an integer or floating-point type, the unit-vector test, perturbation by a given amount and the free minimum, maximum, "
     "Manhattan-norm and zero helpers equal a loop over the components. Searching leaves the vector unchanged.",
     ["inputs"], "All vectors of 2 to 7 components, with ties, zeros and any mixture of signs; all "
     "clamp bounds and source ranges (symmetric or not).",
     T_INPUT + "all mixtures of signs, ties and ranges.",
     [V, "vmmlib/util.hpp"], [("find_min, find_max and index forms, nnz, clamp, reciprocal, "
                               "sqrt_elementwise, scale_to, perturb", V)],
     "property-based testing against loops over the components",
     "Sampled exploration; exact except for reciprocal, square root and scaling (rounding).")

prop("V06", "Rotating vectors, and spheres and planes given as vectors",
     "Rotating a vector about an axis follows the right-hand rule for any angle and any non-zero "
     "axis length and keeps the vector's length. Distances to and projections onto spheres and "
     "unit-normal planes are the Euclidean ones, and the plane computed from three points has a "
     "unit normal and contains the points.",
     ["inputs"], "All angles, axes, points, spheres of positive radius, planes and triangles that are "
     "not degenerate.",
     T_INPUT + "all axes, angles and positions.",
     [V], [("rotate, distance_to_sphere, project_point_onto_sphere, distance_to_plane, "
            "project_point_onto_plane, compute_plane", V)],
     "property-based testing against long double geometry (Rodrigues' formula)",
     "Sampled exploration within rounding bounds scaled by conditioning.")

prop("M01", "A matrix behaves as an array of rows and columns under any access history",
     "After any sequence of writes through elements, rows, columns, sub-matrices, ranges, arrays, "
     "fills and scalar or string assignment, every element has the value last written to its row "
     "and column and all others are untouched. All read accesses (elements, rows, columns, "
     "sub-matrices, iterators, the column-major storage) agree on it.",
     ["histories", "inputs"], "All sequences of writes (12 sampled at most) on matrices of several square and "
     "non-square shapes and element types, at all positions.",
     "The tests call each accessor once, mostly on square matrices; mix-ups of rows and columns "
     "and stray writes need other shapes and histories.",
     [M], [("operator(), at, set/get_row, set/get_column, set/get_sub_matrix, set, "
            "operator=, fill, begin/end", M)],
     "stateful model-based testing against a plain two-dimensional array",
     "Sampled histories; exact comparison of all elements after every step, under sanitizers.")

prop("M02", "With safe accessors, indices outside a matrix are refused",
     "In a build with safe accessors, reading or writing an element, row, column or sub-matrix "
     "with a row or column index outside the matrix throws and changes nothing, and every index "
     "inside is accepted and reaches its element.",
     ["inputs", "configurations"], "All row, column and offset pairs in and around the valid range, for all "
     "checked accessors, several shapes.",
     "The tests use valid indices only; the guarantee is about every other index.",
     [M], [("VMMLIB_SAFE_ACCESSORS guards in at, operator(), operator[], get/set_row, "
            "get/set_column, get/set_sub_matrix", M)],
     "property-based testing concentrated on borders, under AddressSanitizer",
     "Sampled (row, column) pairs, dense around the borders.")

prop("M03", "Element-wise matrix arithmetic acts on every element in every form",
     "Sums, differences, element-wise products, scalar products and quotients and negation of "
     "matrices give in every element what the element type gives for the operand elements. "
     "Operator, assignment and named forms agree, also with a matrix as its own operand, and "
     "other operands stay unchanged.",
     ["inputs"], "All matrices of the sampled square and non-square shapes (1x7 to 5x2), float, double and int, without overflow.",
     T_INPUT + "all values, shapes and aliasing patterns.",
     [M], [("operator+,-,*,/ with assignment forms, multiply_piecewise, negate", M)],
     "property-based testing against plain loops", "Sampled exploration; exact comparison.")

prop("M04", "Matrix products equal the sum over the inner index",
     "The product of any two conformable matrices, of a matrix and a vector, and of a square "
     "matrix and a point (with perspective division) equals the mathematical definition up to "
     "rounding, exactly for integers. All forms agree, including in-place multiplication and a matrix "
     "multiplied with itself, and operands other than the target stay unchanged.",
     ["inputs"], "All conformable shapes (inner and outer dimensions 1 to 6 sampled), all values without overflow.",
     T_INPUT + "all shapes, values and aliasing patterns.",
     [M], [("multiply, operator*, operator*=, free multiply", M)],
     "property-based testing against long double sums with error bounds",
     "Sampled exploration; exact for integer elements.")

prop("M05", "Determinants, minors, cofactors and adjugates follow their definitions",
     "The determinant of a square matrix, the minor obtained by striking out any row and column, "
     "the matrix of cofactors and the adjugate equal their mathematical definitions up to "
     "rounding, exactly for integers; the input is unchanged.",
     ["inputs"], "All square matrices of order 1 to 5, singular ones included.",
     T_INPUT + "every matrix and every struck-out row and column.",
     [M], [("det, get_minor, get_cofactors, get_adjugate", M)],
     "property-based testing against Leibniz expansion in long double",
     "Sampled exploration; rounding bound from the permanent.")

prop("M06", "Inversion succeeds exactly for regular matrices and gives the inverse",
     "Inverting a 2x2, 3x3 or 4x4 matrix succeeds if the magnitude of its determinant exceeds "
     "the tolerance and is refused otherwise; on success the result is the inverse up to the "
     "rounding error implied by its conditioning. The input is unchanged and all forms agree.",
     ["inputs"], "All 2x2, 3x3 and 4x4 matrices (general, affine, singular, nearly singular, badly scaled) and all tolerances.",
     T_INPUT + "all matrices and tolerances, singular and nearly singular ones included.",
     [M], [("inverse for 2x2, 3x3, 4x4; compute_inverse", M)],
     "property-based testing against an adjugate/determinant reference",
     "Sampled exploration; verdicts closer to the tolerance than rounding are not decided.")

prop("M07", "Transposition and tensor, Kronecker and similar compositions",
     "Transposes, direct sums, tensor (outer) products, Kronecker and Khatri-Rao products, "
     "the covariance product of a matrix with its transpose, and diagonals set and read as vectors have "
     "in every element the value of their index definition, for square and non-square operands.",
     ["inputs"], "All operand shapes (1 to 6 rows and columns sampled) and values.",
     T_INPUT + "non-square shapes and all values; wrong strides are invisible for square or symmetric inputs.",
     [M], [("transpose, transpose_to, direct_sum, tensor, kronecker_product, khatri_rao_product, "
            "symmetric_covariance, diag, get_diagonal", M)],
     "property-based testing against index definitions over garbage targets",
     "Sampled exploration; exact for integers, rounding bounds otherwise.")

prop("M08", "Norms, sums, extremes and counts over a matrix",
     "The Frobenius and p-norms, the sum of all elements and of rows and columns, the smallest "
     "and largest elements (also by absolute value), the number of non-zero or above-threshold "
     "elements, and thresholding equal a loop over all elements, for any mixture of signs; "
     "the matrix is changed only by operations that say so.",
     ["inputs"], "All matrices of the sampled shapes, all signs, zeros, constants.",
     T_INPUT + "all mixtures of signs, e.g. all negative elements.",
     [M], [("frobenius_norm, p_norm, sum_elements, sum_rows, sum_columns, get_min/max, "
            "get_abs_min/max, nnz, threshold", M)],
     "property-based testing against plain loops in long double",
     "Sampled exploration; exact where no rounding is involved.")

prop("M09", "Convolution follows the definition, with repeated borders",
     "Convolving a matrix with a kernel of any shape, even or odd and also larger than the "
     "matrix, gives for each element the sum of the kernel's elements times the elements around "
     "it, where elements beyond the border repeat the nearest element inside.",
     ["inputs"], "All matrix and kernel shapes (square or not, 1x1 to 7 sampled) and values.",
     T_INPUT + "all shapes and values; the tests do not convolve non-square matrices.",
     [M], [("convolve", M)],
     "property-based testing against the definition", "Sampled exploration; exact for integers.")

prop("M10", "Quantization is monotone, saturating and invertible to within a step",
     "Quantizing a matrix to signed or unsigned integers maps the value range onto the integer "
     "range linearly (to within rounding to an integer), keeps order, saturates "
     "outside values and reports the range it used. Dequantizing is linear in the integers, stays "
     "within the range, and restores each value to within one and a half quantization steps.",
     ["inputs"], "All floating-point matrices (with values anywhere inside or outside, also infinite) and value ranges (symmetric, one-sided, lopsided), 8, 16 and 32 bit signed and "
     "unsigned targets, all integers for the way back.",
     T_INPUT + "all ranges; symmetric ones hide offsets.",
     [M], [("quantize, quantize_to, dequantize", M)],
     "property-based testing: error bounds, monotonicity, round trip",
     "Sampled exploration; bounds include the rounding of the element type.")

prop("M11", "DCT coefficients are orthonormal and random fills stay in range",
     "Filling a square matrix with DCT coefficients gives an orthonormal matrix that maps a "
     "signal to its DCT-II and whose transpose restores the signal. Random fills have elements "
     "in [-1, 1] that vary, and a given seed always produces the same elements.",
     ["inputs"], "DCT orders 1 to 16 and all signals; all seeds from 1.",
     T_INPUT + "all orders, signals and seeds.",
     [M, V], [("set_dct, set_random", M), ("set_random", V)],
     "property-based testing: orthonormality, definition, reproducibility",
     "Sampled exploration.")

prop("M12", "Sequences of 4x4 transformations compose as matrices do",
     "Applying rotations about axes (from either side), general-axis rotations, scalings and "
     "translations to any 4x4 matrix multiplies it with the textbook matrix, in any order and "
     "number, and reading or creating translations, rotations and scale-translations agrees. "
     "Only the documented elements change.",
     ["histories", "inputs"], "All sequences (6 sampled at most) of transformations with any angle, unit axis, "
     "scale and translation, of the same or another element type, on general matrices.",
     "The tests apply single transformations to the identity, where the order of factors and "
     "stale elements cannot be seen.",
     [M], [("rotate, rotate_x/y/z, pre_rotate_x/y/z, scale, scale_translation, "
            "set_translation, get_translation, create_translation, create_rotation", M)],
     "stateful property-based testing against composed long double matrices",
     "Sampled histories within rounding bounds.")

prop("M13", "Matrix conversion and construction keep the common part and zero the rest",
     "Constructing or assigning a matrix from one of another size or element type copies the "
     "common block with the element conversion and sets all other elements to zero; construction "
     "from arrays, vectors and zero/identity fills gives exactly the documented elements.",
     ["inputs"], "All pairs of the sampled shapes (bigger, smaller, mixed) and element types, all values, over uninitialised targets.",
     T_INPUT + "pairs of shapes, most of which no test uses.",
     [M], [("converting constructors and assignment, cast_from, identity, zero, set", M)],
     "property-based testing over garbage-filled targets",
     "Sampled exploration; exact comparison.")

prop("M14", "Matrix comparison, exact, tolerant and up to the sign of rows or columns",
     "Matrices are equal exactly if all elements are (a NaN to nothing); comparison with a tolerance "
     "(symmetrically) or a functor of the own and the other element accepts exactly the pairs whose elements all pass. Comparison up to inverted "
     "rows (or columns) accepts exactly the pairs in which each row (or column) equals the other's "
     "or its negation, as a whole.",
     ["inputs"], "All pairs of matrices of the sampled shapes, in particular pairs that differ in one element, "
     "by about the tolerance, or in the sign of some lines.",
     T_INPUT + "all pairs, in particular nearly equal ones.",
     [M, F], [("operator==, !=, equals", M),
              ("matrix_equals_allow_inverted_rows/columns", F)],
     "property-based testing against element-wise references",
     "Sampled exploration; differences within rounding of the tolerance are not decided.")

prop("M15", "The positive-definiteness test is right for every symmetric matrix",
     "A symmetric matrix of order 1, 2 or 3 is reported positive definite if and only if all its "
     "leading principal minors are positive (with rounding deciding only when a minor is within "
     "rounding or the given tolerance of zero).",
     ["inputs"], "All symmetric matrices of order 1 to 3.",
     "No existing test decides indefinite matrices with positive determinants; the property is "
     "over all matrices.",
     [F, M], [("is_positive_definite", F)],
     "property-based testing against Sylvester's criterion",
     "Sampled exploration, with matrices built to be definite, indefinite and semi-definite.")

prop("Q01", "Quaternion arithmetic follows Hamilton's algebra in every form",
     "Products, sums, differences, scalar and vector operands, negation, conjugate, inverse, "
     "norms, dot and cross products and normalisation of quaternions equal their definitions up "
     "to rounding, in operator and assignment forms, also for a quaternion as its own operand. "
     "Setting, copying, comparing and reading components is exact, however small a component; "
     "is_akin() accepts exactly the quaternions whose components differ by at most delta; "
     "division by zero is refused.",
     ["inputs"], "All quaternions without overflow (non-zero for inverse and normalisation), all forms.",
     "No stable test covers quaternions; the property is over all quaternions and aliasing patterns.",
     [Q], [("operators, get_conjugate, invert, inverse, abs, dot, cross, normalize, set", Q)],
     "property-based testing against long double quaternion algebra",
     "Sampled exploration within rounding bounds.")

prop("Q02", "Quaternions represent rotations consistently in every conversion",
     "A quaternion built from an axis and an angle or from a rotation matrix, its rotation matrix, composition by "
     "products, and the rotation operators about general and coordinate axes all describe the same rotation by "
     "the right-hand rule, for angles of any size including those around half a turn. Conversion to a larger matrix writes its upper left 3x3 block only.",
     ["inputs"], "All unit axes and angles, concentrated near 0 and half a turn; all compositions of two.",
     "No stable test covers quaternions; the branches of the conversion depend on the matrix.",
     [Q], [("Quaternion(matrix), get_rotation_matrix, rotate, rotate_x/y/z", Q)],
     "property-based testing against Rodrigues' formula; matrix/quaternion round trips",
     "Sampled exploration within rounding bounds.")

prop("Q03", "Spherical interpolation moves along the arc at constant speed",
     "Spherical linear interpolation of two quaternions is accurate for every parameter from 0 "
     "to 1: it starts and ends at the given rotations, follows the great circle between them "
     "at constant angular speed, and stays well defined when they nearly coincide.",
     ["inputs"], "All pairs of quaternions (equal, nearly equal, nearly opposite, orthogonal) and "
     "parameters in [0, 1].",
     "No stable test covers interpolation; accuracy depends on the angle between the operands.",
     [Q], [("slerp", Q)],
     "property-based testing against the slerp formula in long double",
     "Sampled exploration; tolerance follows the conditioning near opposite quaternions.")

prop("G01", "Frustum matrices map the view volume onto the clip cube",
     "The perspective and the orthographic matrix of any frustum map its eight corners onto the "
     "corners of the clip cube with the near plane at -1 and the far plane at 1, and equal the OpenGL matrices up to rounding.",
     ["inputs"], "All frusta with distinct planes: symmetric, off-axis, mirrored, with swapped planes.",
     T_INPUT + "off-axis frusta, whose terms vanish in the symmetric ones tested.",
     ["vmmlib/frustum.hpp"], [("compute_matrix, compute_ortho_matrix", "vmmlib/frustum.hpp")],
     "property-based testing: corner mapping and OpenGL formulas",
     "Sampled exploration within rounding bounds.")

prop("G02", "Frustum parameters stay consistent through any sequence of changes",
     "Construction, copying, conversion, setting planes, perspective set-up from field of view, "
     "aspect ratio and planes, moving the near plane (which scales the side planes with it) and jitter give "
     "the documented six values, in any sequence, and width and height follow from them.",
     ["histories", "inputs"], "All sequences (10 sampled at most) of frustum operations; all fields of view, aspect "
     "ratios, near and far planes.",
     "The tests check one frustum after single calls.",
     ["vmmlib/frustum.hpp"], [("set, set_perspective, adjust_near, apply_jitter, get_width, "
                               "get_height", "vmmlib/frustum.hpp")],
     "stateful property-based testing against a model of six values",
     "Sampled histories within rounding bounds.")

prop("G03", "Sphere culling is right for every view volume and sphere",
     "A sphere is classified as not visible exactly if it lies wholly outside one of the six "
     "planes of the view volume, as fully visible exactly if it lies inside all of them, and as "
     "partially visible otherwise, whether the volume was set up from a matrix or from its corners. "
     "Queries do not change the culler and can be repeated.",
     ["inputs"], "All perspective and orthographic view volumes (off-axis, rotated, moved, scaled, sheared, with oblique near and far planes) and all spheres with "
     "non-negative radius; verdicts within rounding of touching a plane are open unless everything is exact.",
     "The tests cull a few spheres against one volume; mistakes in one plane show only for "
     "spheres near that plane.",
     ["vmmlib/frustum_culler.hpp"], [("setup, test_sphere", "vmmlib/frustum_culler.hpp")],
     "property-based testing against signed plane distances in long double",
     "Sampled volumes and spheres aimed at the planes; exact dyadic volumes decide touching cases.")

prop("G04", "Box culling is right for every view volume and axis-aligned box",
     "An axis-aligned box, given by intervals with bounds in either order, is classified as not visible exactly if all its "
     "corners lie outside one plane of the view volume, as fully visible exactly if all corners "
     "lie inside all planes, and as partially visible otherwise; matrix and corner set-up agree.",
     ["inputs"], "All perspective and orthographic view volumes, as for spheres, and all boxes, flat ones included; verdicts "
     "within rounding of touching are open unless everything is exact.",
     "The tests cull a few boxes against one volume.",
     ["vmmlib/frustum_culler.hpp"], [("setup, test_aabb", "vmmlib/frustum_culler.hpp")],
     "property-based testing against the eight corners' plane distances",
     "Sampled volumes and boxes aimed at the planes; exact dyadic volumes decide touching cases.")

prop("G05", "Bounding boxes contain exactly what was merged into them",
     "After any sequence of merges with points and boxes, resets, corner changes and scalar "
     "arithmetic, a box's corners are the component-wise bounds of what was merged since the last "
     "reset; emptiness, containment of points (in 2D and 3D) and spheres, centre, dimension (wherever "
     "it is representable) and equality follow from the corners, for floating-point and integer boxes.",
     ["histories", "inputs"], "All sequences (8 sampled at most) of box operations on float, double, int and "
     "unsigned boxes, queries on, inside and outside the surface; limits of the types.",
     "The tests build two boxes; the properties of merged and empty boxes are over histories.",
     ["vmmlib/aabb.hpp"], [("merge, setEmpty, set, isIn, isIn2d, isEmpty, getCenter, "
                            "getDimension, operators", "vmmlib/aabb.hpp")],
     "stateful model-based testing against the two corners",
     "Sampled histories; exact for integers and for representable sums.")

prop("G06", "Ray-sphere intersection reports the first hit in front of the ray",
     "Testing a ray (of any direction length) against a sphere reports a hit exactly if the ray "
     "meets the sphere in front of its origin or starts inside it, and the reported distance is "
     "that of the first point of intersection on the surface (the exit point if the ray starts inside).",
     ["inputs"], "All rays with non-zero directions and spheres of positive radius; verdicts within rounding of "
     "grazing are open.",
     "No test covers intersections beyond single examples.",
     ["vmmlib/intersection.hpp"], [("Intersection::test_sphere", "vmmlib/intersection.hpp")],
     "property-based testing against the roots of the quadratic in long double",
     "Sampled rays: aimed, grazing, inside, behind.")

prop("L01", "The low-pass filter is the weighted mean of its recent values",
     "After any sequence of added values and changes of the factor, the filter's result is "
     "the exponentially smoothed value over the values in its window, a single value is "
     "returned as it is, and older values have no influence.",
     ["histories"], "All sequences of scalar and vector values and factor changes, windows of 1 to 10.",
     "No test covers the filter; the property is over histories longer than the window.",
     ["vmmlib/lowpass_filter.hpp"], [("LowpassFilter::add, get, set_smoothing_factor",
                                      "vmmlib/lowpass_filter.hpp")],
     "stateful model-based testing with the whole history",
     "Sampled histories within rounding bounds.")

prop("D01", "QR decomposition reproduces the matrix from orthonormal and triangular factors",
     "For every matrix of full column rank, the product of the factors is the matrix up to "
     "rounding, the second factor is upper triangular with a positive diagonal, and the columns "
     "of the first are orthonormal up to rounding times the condition number, as for the "
     "stabilised (modified) Gram-Schmidt method.",
     ["inputs"], "All matrices of full column rank, 1x1 to 6x6 and taller than wide, ill-conditioned ones included.",
     "No test decomposes an ill-conditioned matrix; loss of orthogonality shows only there.",
     ["vmmlib/qr_decomposition.hpp"], [("qr_decompose_gram_schmidt",
                                        "vmmlib/qr_decomposition.hpp")],
     "property-based testing: reconstruction, triangularity, orthogonality bound",
     "Sampled exploration, bound proportional to eps times the condition number.")

prop("S01", "Text streams restore vectors and matrices, and printing is faithful",
     "Vectors and matrices written to a text stream of sufficient precision and read back, one "
     "after the other and with any white space between numbers, are restored exactly, for 8-bit "
     "types too; a stream that ends early reports failure and invents no values. Printing shows "
     "all components in row order, aligned in columns, one line per matrix row, and leaves the stream's format settings as "
     "they were.",
     ["inputs", "fault_sequences"], "All values, several sizes and element types, sequences of objects, truncation at every "
     "component, stream settings chosen by the program.",
     T_INPUT + "all values, types, stream states and truncation points; no test reads back what it wrote.",
     [V, M, Q, "vmmlib/frustum.hpp", "vmmlib/aabb.hpp"],
     [("write_to_stream, read_from_stream, operator<<", V), ("the same for matrices", M)],
     "property-based testing: round trips, truncation faults, stream-state invariants",
     "Sampled exploration; exact comparison.")

prop("S02", "Matrix files restore the matrix and survive damaged or missing files",
     "A matrix written to a raw file and read back is bit-identical, for any spelling of the "
     "directory and file name with or without the suffix, replacing what the file held before. "
     "Reading a missing file changes nothing, a short file yields only the elements it holds, an "
     "over-long file is harmless, and no memory is leaked; the text file contains the printed matrix and nothing of what was there before.",
     ["inputs", "fault_sequences"], "All matrices of the sampled shapes and element types; files missing, truncated at every "
     "byte, over-long or overwritten.",
     "No test reads or writes files; faults in files are outside any fixed example.",
     [M], [("write_to_raw, read_from_raw, write_csv_file", M)],
     "property-based testing with injected file faults and heap accounting",
     "Sampled exploration in a scratch directory.")

prop("C02", "Scalar helpers are accurate over the whole range and versions compare in order",
     "The hypotenuse is accurate without overflow or underflow over the whole exponent range, "
     "squares, sign transfer and comparisons by absolute value are exact, the helpers on vectors "
     "agree with component loops, and values count as equal exactly within single-precision epsilon. The "
     "version comparisons order (major, minor, patch) lexicographically.",
     ["inputs", "configurations"], "All pairs of values over the exponent range; all pairs of versions.",
     "No test covers the helpers or any version but the current one.",
     ["vmmlib/math.hpp", "vmmlib/util.hpp", "vmmlib/version.in.hpp"],
     [("pythag, squared, sign, abs_less, abs_greater", "vmmlib/math.hpp"),
      ("equals, min, max, manhattan, zero", "vmmlib/util.hpp"),
      ("VMMLIB_VERSION_GE and the other comparisons", "vmmlib/version.in.hpp")],
     "property-based testing against long double references and tuple order",
     "Sampled exploration.")

prop("X01", "Concurrent use of shared constant objects is race-free and deterministic",
     "Threads that only read shared objects, and compute with objects of their own, may use every "
     "part of the library at the same time: there is no data race, and each gets bit for bit the "
     "results it gets alone, whatever the schedule.",
     ["schedules", "programs"], "All schedules of 2 or 3 threads running random programs over the whole interface "
     "(except random fills, which share the C library's generator).",
     "The tests are single-threaded; hidden shared state shows only under concurrency or for certain "
     "orders of calls.",
     [V, M, Q, "vmmlib/frustum.hpp", "vmmlib/frustum_culler.hpp", "vmmlib/aabb.hpp"],
     [("const member functions without mutable or static state", "vmmlib/*.hpp")],
     "generated concurrent programs under ThreadSanitizer, differential to sequential runs",
     "Schedules are sampled by the operating system; ThreadSanitizer also reports races that did "
     "not show in the result.")

prop("P01", "Operations depend on their operands alone and change nothing else",
     "The result of an operation on vectors, matrices, quaternions, frusta, cullers, boxes, rays and filters "
     "depends on its operands alone, bit for bit: not on what was computed before, with which operands, or how "
     "often, nor on where the operands live or what an output object held before. Operands that are constant "
     "keep their value, and apart from the random fills no operation draws from the random sequence, prints, or "
     "changes the rounding mode or the locale.",
     ["inputs", "histories"], "All histories of the sampled operations (over 40 groups, all headers), in float and "
     "double, on operands of which some differ in a single number, replaced in place or copied.",
     "The tests call each function on fresh objects, mostly once; a value remembered from an earlier call shows only "
     "in certain histories.",
     [V, M, Q, "vmmlib/frustum.hpp", "vmmlib/frustum_culler.hpp", "vmmlib/aabb.hpp", "vmmlib/intersection.hpp",
      "vmmlib/lowpass_filter.hpp", "vmmlib/qr_decomposition.hpp", "vmmlib/util.hpp"],
     [("member and free functions without static state", "vmmlib/*.hpp")],
     "generated histories of operations, metamorphic relation: another history, other copies, other "
     "previous contents give the same bits; invariants on operands and environment",
     "Sampled exploration.")

prop("R01", "Nothing is left behind: memory and files are released, on errors too",
     "Whatever an operation allocates or opens it releases: after any selection of operations on vectors, matrices, "
     "quaternions, volumes, filters, streams and files, whether they succeed, fail (files that are missing, short or "
     "cannot be created, streams that end early) or throw, repeating them does not grow the heap, and no file stays open.",
     ["histories", "fault_sequences"], "All sequences of up to 8 of the sampled operations, in float and double, with "
     "missing, short and over-long files, unwritable directories, throwing operations and filter histories.",
     "The tests look at results only; what is left behind shows in no result.",
     [M, V, "vmmlib/lowpass_filter.hpp", "vmmlib/exception.hpp"],
     [("sum_rows, sum_columns, read_from_raw, write_to_raw, write_csv_file", M),
      ("the filter's history", "vmmlib/lowpass_filter.hpp")],
     "generated sequences of operations with injected file and stream faults, invariant on the count of "
     "allocations and open files",
     "Sampled exploration.")

prop("C01", "Every header combination and configuration builds and gives the same results",
     "Every public header compiles on its own, and any selection of headers in any order works in "
     "one or several translation units of a program, with g++ and clang++, in C++11 and later, with "
     "and without assertions and with every configuration switch of the library. Programs that use "
     "what the configurations have in common print the same results, up to rounding, in all of them, and the "
     "short names of common types denote them unless the names are switched off.",
     ["configurations", "programs"], "All programs over the sampled operations (44, all headers), header selections "
     "and orders, and configurations (compiler, C++11 to C++20, optimisation, NDEBUG, conversion operators, "
     "typedefs, old typedefs, custom configuration).",
     "The tests are built in one configuration, with one include order, one test per translation unit.",
     ["vmmlib/vmmlib.hpp", "vmmlib/vmmlib_config.hpp", V, M, Q, "vmmlib/exception.hpp", "vmmlib/util.hpp",
      "vmmlib/math.hpp", "vmmlib/qr_decomposition.hpp", "vmmlib/aabb.hpp", "vmmlib/frustum.hpp"],
     [("switches", "vmmlib/vmmlib_config.hpp"), ("includes of each header", "vmmlib/*.hpp"),
      ("checked and unchecked accessors", "Matrix::at, get_row, get_column (VMMLIB_SAFE_ACCESSORS)")],
     "generated programs built under generated configurations, differential between configurations",
     "Programs and configurations are sampled; results are compared within a relative tolerance.")

prop("T01", "Generic algorithms see the right elements through the Boost.LA bindings",
     "Through the trait classes for matrices and vectors, the dimensions, the element type and every element read or "
     "written, with constant or run-time indices, are those of the object: row and column indices mean rows and "
     "columns. Generic algorithms written against the traits therefore compute the mathematical result.",
     ["inputs", "histories"], "All sequences (12 sampled at most) of reads and writes on matrices (square, tall, wide) "
     "and vectors of floating-point and integer types; products, transposes and vector operations of Boost.QVM.",
     "No test includes these headers.",
     ["vmmlib/matrix_traits.hpp", "vmmlib/vector_traits.hpp", M, V],
     [("r, w, ir, iw of matrix_traits", "vmmlib/matrix_traits.hpp"),
      ("r, w, ir, iw of vector_traits", "vmmlib/vector_traits.hpp")],
     "model-based testing of access histories; differential to definitions through generic algorithms",
     "Boost.LA is not installed; its primary templates are stand-ins, Boost.QVM supplies the algorithms.")

try:
    from meta_extra import extra  # noqa: E402
    extra(prop)
except ImportError:
    pass


def main():
    order = sorted(P, key=lambda p: p["id"])
    assert set(CHECKS) == set(p["id"] for p in order), \
        set(CHECKS) ^ set(p["id"] for p in order)
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in order:
            assert len(p["title"]) <= 80, p["title"]
            anchors = {"files": p["files"],
                       "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                       "hook_needed": None}
            if p["observe"]:
                anchors["observe_at"] = p["observe"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["tests"], "anchors": anchors}) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": [{
            "property": p["id"],
            "quick_cmd": "./run.py %s" % p["id"],
            "thorough_cmd": "./run.py %s --tier thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["technique"],
            "level": "exploration",
            "level_note": p["note"],
        } for p in order],
        "not_applicable": [],
        "notes": "No hooks are needed: vmmlib is header-only and all checks work through its "
                 "public interface. Known findings and fixes: known_findings.txt.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
