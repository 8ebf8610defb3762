#!/usr/bin/env python3
"""Source of properties.jsonl: python3 tools/props.py > properties.jsonl"""
import json

L = 'include/dsga.hxx'
P = []


def p(id, title, statement, over_text, why, mech, files=(L,), over=('inputs',), observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=over_text),
             why_tests_cant=why,
             anchors=dict(files=list(files), mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe:
        d['anchors']['observe_at'] = observe
    assert len(title) <= 80, title
    P.append(d)


TYPES = 'every stored value, for each allowed scalar type (bool, int, unsigned, long long, unsigned long long, float, double)'

p('P01', 'Named swizzle reads select exactly the named components',
  'Reading a swizzle such as v.x, v.yx or v.wzyx of a 1-4 dimensional vector (owning, const, or a view over caller storage) gives a vector whose '
  'dimension is the number of letters and whose i-th element is the stored value of the component named by the i-th letter. '
  'The same values are seen through every way of reading the swizzle (indexing, conversion to a vector, iteration, arithmetic).',
  f'{TYPES}; every swizzle word of length 1-4 over the first n letters for n=1..4 (480+ words)',
  'tests check a handful of words on constant data with distinct values; an index slip in one of hundreds of declarations, or in the view flavour only, is not sampled',
  [('swizzle members of the vector/view unions', 'basic_vector<T,1..4>, basic_view<M,T,1..4> (lines 3503-5800)'),
   ('index mapping', 'indexed_vector/indexed_view at/operator[] (2847-3220)')], over=('inputs', 'programs'))

p('P02', 'Swizzle writes change exactly the named components',
  'Assigning a vector to a swizzle without repeated letters stores the i-th source element into the component named by the i-th letter and leaves every other component unchanged, '
  'also when the source is a swizzle of the same vector or overlaps its storage (sources are read completely before anything is written). '
  'A swizzle with a repeated letter, or a swizzle of a const vector, is not assignable at all.',
  f'{TYPES}; every repetition-free swizzle word (64 for n=4) against same-order, reversed, rotated and duplicated overlapping sources; owning vectors and views',
  'tests use constant data and few words; overlap bugs need a specific combination of destination word, source word and values',
  [('swizzle assignment', 'indexed_vector/indexed_view operator= and init/assign (2847-3220)'),
   ('temporary buffering on self overlap', 'basic_vector/basic_view operator= (3503-5800)')], over=('inputs', 'programs'))

p('P03', 'Run-time swizzles agree with named swizzles',
  'The run-time swizzle function applied to a vector and a list of indices yields a new vector whose i-th element is the element at the i-th index; '
  'an index outside the vector is rejected (exception or assertion) and never reads outside the vector.',
  'every vector value and every index combination, including negative and out-of-range indices and mixed integral index types',
  'tests use a few constant indices; out-of-range behaviour over all index values and types is not sampled',
  [('swizzle functions', 'functions::swizzle (6880-7005)')], observe=['dsga::swizzle'])

p('P04', 'All element access paths agree and are bounds-checked',
  'For any vector, swizzle or view, indexing, tuple-style access, structured bindings, iteration and the data pointer combined with the physical-order sequence all denote the same element, and a write through one is seen by the others. '
  'Indexing with any value outside [0,size), of any integral type, is caught by an assertion, and no index inside the range is.',
  f'{TYPES}; every index value of each integral index type; dimensions 1-4',
  'tests index with a few literals; the out-of-range side and the sequence/data pairing of swizzles over all indices are never exercised',
  [('operator[] / data / sequence / size', 'vector_base (2113-2295), storage_wrapper, view_wrapper, indexed_* (1765-3220)'),
   ('get<>', 'machinery::get (6915-7000)')])

p('P05', 'Iterators satisfy the random-access laws',
  'Over any vector, view or swizzle, iterators traverse the logical elements in order: begin()+i denotes element i, end()-begin() is the size, moving by n then by -n returns to the same place, and comparison orders positions. '
  'Every position from begin to end inclusive can be reached by any sequence of ++, --, +=, -= and arithmetic without a spurious assertion; forward, const and reverse iterators agree.',
  'every pair of positions and every in-range displacement, for owning vectors, views and (mutable and read-only) swizzles of length 1-4',
  'tests walk begin to end with ++ only; arbitrary jump combinations and boundary positions are not sampled',
  [('swizzle iterators', 'indexed_vector_(const_)iterator, indexed_view_(const_)iterator (2318-2845)'),
   ('begin/end/rbegin/rend', 'vector structs and basic_matrix')], over=('inputs', 'histories'))

p('P06', 'Vector construction flattens its arguments in order',
  'Constructing a vector from a mix of scalars, vectors, swizzles and matrices (whose component counts suffice), or from a single view, stores the logical components left to right, converted as static_cast to the destination type; a single scalar fills every component, and a larger vector is truncated. '
  'Default construction gives zeros, and construction from a matrix takes its columns in order.',
  f'{TYPES} for source and destination; every argument composition that forms dimensions 1-4',
  'tests sample some compositions with constants; a misordered component in one composition or a lost conversion is only visible with distinguishing values',
  [('constructors', 'basic_vector<T,1..4> ctors'), ('to_tuple flattening', 'detail::to_tuple / component_count (3237-3415)')],
  over=('inputs', 'programs'))

p('P07', 'Assignment and set copy values, even when source and target overlap',
  'After assigning a vector, view, swizzle or initializer list to a vector or view, or setting it component by component, the target holds exactly the logical values the source had before the assignment (converted to the target type), and nothing else changes. '
  'This also holds when the source is a permutation, a view or a swizzle over the same storage as the target.',
  f'{TYPES}; all permutation swizzles and overlapping views of one storage as the source',
  'tests use disjoint constants; element-by-element copying is only visible when storage overlaps in a particular order',
  [('operator= and set', 'basic_vector, basic_view, view_vector (3503-5905)')], over=('inputs', 'programs'))

p('P08', 'Binary arithmetic acts componentwise with scalar broadcast',
  'For +, -, * and / between two vectors of the same dimension (any mix of vectors, swizzles and views), or a vector and a scalar or one-dimensional vector on either side, component i of the result is the operation on component i of each operand in the usual arithmetic common type, in operand order. Operands are not modified; the result has the common element type and the dimension of the wider operand (two one-dimensional operands give a scalar).'
  'Operands are not modified and the result has the common element type and the dimension of the wider operand.',
  'every pair of operand values (including NaN, infinities, signed zeros and integer wrap), each scalar type combination, dimensions 1-4',
  'tests compare a few constant vectors; swapped operands in one overload or a lost promotion shows up only for particular values and types',
  [('binary operators', 'machinery operators (6220-6560)'), ('apply_*_make', 'machinery (5906-6215)')])

p('P09', 'Compound assignment equals the binary operation followed by assignment',
  'For every compound operator (+= -= *= /= %= <<= >>= &= |= ^=), with a vector, scalar, one-dimensional vector, swizzle or view on the right and any assignable vector, swizzle or view on the left, the left side ends up holding what the matching binary operation on the values before the call produces, converted to its type. '
  'This holds when both sides share storage (v += v.yx, v *= v.y), and only the named components change.',
  f'{TYPES}; all overlapping right-hand sides including single-component and permuted swizzles of the target',
  'aliasing combinations are not sampled by tests; a refactor that updates in place before reading all of the right side passes them',
  [('compound operators', 'machinery (6220-6800)'), ('apply_unitype_modify / apply_multitype_modify', '5906-6135')], over=('inputs', 'programs'))

p('P10', 'Integer operators act componentwise on all integer values',
  'For integral vectors, %, <<, >>, &, | and ^ (vector with vector, scalar or one-dimensional vector, both orders) and unary ~ produce, per component, exactly what the built-in operator produces on the components: shifts in the type of the left operand, the others in the common type.',
  'all values for which the built-in operator is defined, int/unsigned/long long/unsigned long long and mixed pairs, dimensions 1-4',
  'sampled constants do not distinguish | from ^ or arithmetic from logical shifts, or catch wrong promotion of mixed signedness',
  [('integral operators', 'machinery (6380-6700)')])

p('P11', 'Unary operators, increment and decrement are componentwise',
  'Unary + and - return a new vector with each component promoted or negated; prefix ++/-- change every component by one and refer to the modified vector; postfix ++/-- do the same and return the values before the change. '
  'On a swizzle or view only the named components change.',
  f'{TYPES} except bool; every repetition-free swizzle shape',
  'tests check one constant per operator; confusion of prefix and postfix on swizzles or views is value-dependent',
  [('unary operators', 'machinery (6700-6880)')])

p('P12', 'Relational and logical functions are exact componentwise truth functions',
  'lessThan, lessThanEqual, greaterThan, greaterThanEqual, equal and notEqual give per component the built-in comparison (equality may take a tolerance-free NaN-correct form), compNot/compAnd/compOr the logical connective, and any, all and none the disjunction, conjunction and negated disjunction over all components. '
  'Comparisons with NaN follow IEEE semantics.',
  'all component values including NaN, infinities and signed zeros, dimensions 1-4, mixed operand forms',
  'NaN and signed-zero combinations and all 2^n boolean vectors are not covered by constant tests',
  [('vector relational functions', 'functions 7.8 (7010-7255)')])

p('P13', 'Equality operators compare all components',
  'v == w is true exactly when every pair of components compares equal with the built-in == (matrices: every column), across vectors, swizzles, views and mixed element types; v != w is its negation. '
  'Equality is symmetric and two vectors filled from the same non-NaN values compare equal.',
  'all values including NaN, signed zeros and mixed-type operands',
  'constant tests do not show an ignored component, or wrong NaN handling',
  [('operator== / operator!=', 'machinery (6890-6940) and basic_matrix (8660)')])

p('P14', 'Rounding functions meet their mathematical definition for every value',
  'floor, ceil, trunc, round, roundEven and fract give, for every float and double and per component of any vector, the value defined by IEEE/standard rounding (floor: largest integer not above x, round: nearest with halves away from zero, roundEven: nearest with halves to even, fract: x - floor(x)), as numbers (the sign of a zero is not specified); NaN and infinities pass through the rounding functions.',
  'all 2^32 floats and 2^64 doubles',
  'tests use a few values; errors occur at single inputs such as the predecessor of 0.5 or beyond 2^52',
  [('scalar rounding', 'cxcm strict (927-1300) and functions (7650-7730)')])

p('P15', 'Compile-time and run-time evaluation give the same result',
  'The constant-evaluation code of the exact functions (floor, ceil, trunc, round, roundEven, fract, the special values of sqrt, abs, sign, isnan, isinf, fmod within its bounds) gives the same value as the run-time code for the same arguments.',
  'all argument values for float and double',
  'constant evaluation takes separate code paths that tests exercise with a few literals only',
  [('is_constant_evaluated branches', 'cxcm strict/relaxed (491-1595)')])

p('P16', 'min, max, clamp, abs, sign and step meet their GLSL definitions',
  'min(x,y) is y if y<x else x; max(x,y) is y if x<y else x; clamp(x,lo,hi) is min(max(x,lo),hi) for lo<=hi; abs is |x|; sign is -1, 0 or 1 by the sign of x; step(edge,x) is 0 if x<edge else 1 — per component, with every scalar/vector argument combination, for integers and (ordered) floating point. A vector argument is never mixed up between components.'
  'A vector argument is never mixed up between components.',
  'all values including NaN, infinities, signed zeros and integer extremes',
  'constant tests do not distinguish argument order on ties, NaN or negative zero, nor cover each overload',
  [('common functions', 'functions 7.3 (7615-7960)')])

p('P17', 'mix, smoothstep, mod and modf meet their GLSL definitions',
  'mix(x,y,a) is x*(1-a)+y*a within rounding and exactly x and y at a=0 and a=1 (or selects y where a boolean a is true, else x), smoothstep(e0,e1,x) is t*t*(3-2t) with t = clamp((x-e0)/(e1-e0),0,1), mod(x,y) is x - y*floor(x/y), and for finite x modf splits x into parts that sum to x with the integral part trunc(x), for each argument combination and each component.',
  'all finite argument values; NaN and infinities follow the defining formula',
  'constants cannot show a swapped edge or argument in one overload for all values',
  [('common functions', 'functions 7.3 (7735-7960)')])

p('P18', 'Transcendental functions apply the scalar function to each component',
  'radians, degrees, sin, cos, tan, their inverses and hyperbolics, atan with two arguments, pow, exp, log, exp2, log2 (and the further base variants) on a vector, swizzle or view give per component the scalar library function of that component, and the scalar overload gives the standard function.',
  'all values in the function domain, all operand forms',
  'tests use few values with tolerances that accept swapped arguments or a nearby function',
  [('angle and exponential functions', 'functions 7.1, 7.2 (7258-7560)')])

p('P19', 'Domain assertions fire exactly outside the documented domain',
  'pow, clamp (lo<=hi), smoothstep (edge0<edge1), integral % (no zero divisor), abs of the most negative integer, element/row/column indices and null view pointers abort with an assertion exactly when the precondition is violated in some component, and never when it holds; the other functions (sqrt, inversesqrt, log, asin, acosh, atanh, ...) never abort.',
  'all argument values on both sides of each boundary',
  'tests cannot observe aborts in-process and do not probe boundary values',
  [('asserts in functions', 'functions (7258-7960)')])

p('P20', 'Bit-level and classification functions are exact inverses and exact copies',
  'floatBitsToInt/Uint, doubleBitsToLongLong/ULongLong and their inverses copy the bit pattern of each component and round-trip; isnan and isinf classify every bit pattern; byteswap reverses bytes and is an involution; frexp and ldexp recompose the value; fma equals the fused scalar operation.',
  'all 2^32 and 2^64 bit patterns per component',
  'bit-pattern corner cases (signalling NaN classes, denormals) are not sampled',
  [('bit casts and classification', 'functions 7.3 (7960-8245)')])

p('P21', 'Square roots are correctly rounded and inverse roots are their reciprocal',
  'sqrt equals the correctly rounded IEEE square root per component (NaN below zero), and inversesqrt is its reciprocal: exact at the special values (zero, infinity, NaN, negatives), the documented formula elsewhere, each component from its own argument.',
  'all non-negative values',
  'tests compare few values with a tolerance',
  [('exponential functions', 'functions 7.2 (7560-7615), cxcm sqrt/rsqrt')])

p('P22', 'dot, length, distance and sums compute their polynomial definitions',
  'dot(a,b) is the sum of componentwise products over all components, length is the square root of dot(v,v), distance(a,b) is length(a-b), innerProduct is dot for every scalar type, for every operand form; integers exactly, floating point as the formula over the reals (so exactly when the arithmetic is exact).',
  'all component values (algebraic identity over the reals; exact where no rounding occurs), dimensions 1-4',
  'a missing or repeated component in one dimension is invisible on symmetric constants',
  [('geometric functions', 'functions 7.5 (8245-8320)')])

p('P23', 'cross, normalize, faceforward, reflect and refract meet their definitions',
  'cross(a,b) is the standard right-handed product; normalize(v) is v divided by its length; faceforward(n,i,nref) is n if dot(nref,i)<0 else -n; reflect(i,n) is i-2*dot(n,i)*n; refract follows Snell\'s formula and returns zeros on total internal reflection.',
  'all component values (algebraic identities over the reals), every operand form',
  'one sign or index slip passes axis-aligned constants',
  [('geometric functions', 'functions 7.5 (8260-8440)')])

p('P24', 'Matrix construction and access are column-major and index-exact',
  'A C-by-R matrix built from scalars, vectors or mixtures stores its arguments in column-major order; a single scalar gives a square diagonal matrix; a matrix built from a matrix of another size keeps the overlapping part and fills the rest from the identity (square result) or zero (otherwise); m[c][r], row, column, iteration, data and tuple access all denote the same element and setters change nothing else.',
  'all element values for all nine shapes (2-4 columns, 2-4 rows), all in-range indices',
  'constants repeat values; transposition or off-by-one on a non-square shape is not sampled',
  [('basic_matrix', '8445-8675')], over=('inputs', 'programs'))

p('P25', 'Matrix componentwise operators touch each element once',
  'Matrix +, - and / with a matrix, + - * / with a scalar (both orders), unary + and -, ++/-- (prefix and postfix), matrixCompMult and ==/!= give per element the scalar operation on the matching elements, for every shape and element type mix; storing a result over one of the operands uses the values before the call.',
  'all element values, all nine shapes',
  'few shapes and constants are tested; element mix-ups on rectangular shapes and aliasing are not',
  [('basic_matrix operators', 'functions (8990-9330)')])

p('P26', 'Matrix products compute row-by-column sums',
  'Matrix*matrix, matrix*vector and vector*matrix products of floating-point operands give at each position the sum over the shared dimension of products of the matching row and column elements, for every compatible shape and vector operand form, also when the result is stored over an operand.',
  'all element values (algebraic identity over the reals), all shape combinations',
  'tests check some shapes on constants; index slips on a rectangular combination or in-place overwriting pass',
  [('operator*', 'functions (8880-8990)')])

p('P27', 'Transpose, outer product and the structured matrix builders are exact',
  'transpose swaps row and column indices, matrixCompMult multiplies matching elements, outerProduct(c,r)[j][i] is c[i]*r[j], the diagonal builder fills only the diagonal and the cross matrix K(v) satisfies K(v)*w = cross(v,w); transpose is an involution.',
  'all element values, all nine shapes',
  'symmetric or constant data hides index swaps',
  [('matrix functions', 'functions 8 (8681-8880)')])

p('P28', 'Determinant and inverse satisfy their algebraic definitions',
  'determinant equals the Leibniz expansion for 2x2, 3x3 and 4x4, and inverse(m) is the adjugate divided by the determinant, so that m*inverse(m) is the identity whenever the determinant is non-zero (over the reals).',
  'all element values (algebraic identity over the reals)',
  'a wrong cofactor term vanishes on the sparse or symmetric matrices tests use',
  [('determinant/inverse', 'functions 8 (8735-8865)')])

p('P29', 'Views alias the storage they were given and nothing else',
  'A view over caller memory or over a vector reads that memory live, writes through to exactly the viewed components, can be re-seated to other memory, and a const view cannot be written through; copying a read-only view shares storage, assigning through a view is an elementwise copy, and no operation on a view reaches outside the viewed range.',
  'all stored values, interleaved reads and writes through the view and the storage, dimensions 1-4',
  'tests sample few interleavings; stale or over-wide access is not visible on constants',
  [('basic_view / view_vector / view_wrapper', '1881-2060, 4660-5905')], over=('inputs', 'histories'))

p('P30', 'swap exchanges complete values',
  'Swapping two vectors, matrices or non-overlapping views (member or free function) exchanges all components and nothing else; swapping two partially overlapping views is rejected with an exception, leaving storage unchanged.',
  'all values; all relative placements of two views in one buffer',
  'tests do not explore the placements',
  [('swap', 'storage_wrapper/view_wrapper swap (1765-2060), free swaps')], over=('inputs', 'histories'))

p('P31', 'shift, cshift, apply, query, min, max and sum match their definitions',
  'v.shift(n) gives element i+n where that exists and zero elsewhere, v.cshift(n) rotates by n for any int n of either sign, apply and query call the function once per element in order and give a vector of the results (query: bool), and sum, min and max fold over all elements (min, max: no NaN), for vectors, views and swizzles; the operand is unchanged.',
  'all values and all shift amounts including the extremes of int',
  'shift amounts beyond the size or at the integer extremes are not tested',
  [('vector_base members', '2113-2295')])

p('P32', 'Conversions to and from arrays and tuples preserve order and values',
  'Converting a vector or matrix to a std::array (or built-in array) and back gives the original; element order is component order for vectors and column-major for matrices; tuple sizes and element types match the dimensions.',
  'all values; dimensions 1-4; nine matrix shapes',
  'constant tests do not cover each size',
  [('to_array / to_vector / to_matrix / tuple protocol', '9336-9526')])

p('P33', 'Valid operations have no undefined behaviour',
  'No library operation called with arguments inside its documented domain performs undefined behaviour of its own (signed overflow, invalid shift, out-of-range float conversion, out-of-bounds access, null dereference) or aborts.',
  'all argument values inside the domain of each operation',
  'undefined behaviour at extreme values is not sampled and often silent',
  [('whole header', '1-9526')])

p('P34', 'The ordering helpers define a consistent order',
  'operator<=> of the example comparison header orders vectors (and matrices, column by column) lexicographically: the result for two operands agrees with comparing their components in order as numbers, is antisymmetric and transitive, equal only for equal operands, and unordered exactly when a component is NaN (for a matrix: before an earlier difference decides); weighted_compare gives the sign of the weighted sum of the componentwise comparisons. Extreme integers order correctly.',
  'all pairs and triples of component values including integer extremes and non-finite values',
  'extreme values and triples are never tested',
  [('ordering', 'examples/compare.hxx')], files=('examples/compare.hxx', L))

p('P35', 'Tolerance comparisons hold exactly when the difference is within the tolerance',
  'within_tolerance accepts a value exactly when its magnitude is at most the tolerance; within_box and within_distance accept two values exactly when the magnitude of their difference (vectors: of every component of the difference; within_distance: the Euclidean distance) is at most the tolerance, whichever operand is larger, unsigned scalars included, so the checks are symmetric and never accept a NaN. The vector forms require it of every component, with one tolerance or one per component. A negative or NaN tolerance fails an assertion. For signed integers the difference has to be representable.',
  'all component and tolerance values including boundary, infinite and NaN',
  'boundary values and each component position are not sampled',
  [('tolerance checks', 'examples/tolerance.hxx')], files=('examples/tolerance.hxx', L))

p('P36', 'Bezier helpers evaluate the Bernstein polynomial of their control points',
  'quadratic_bezier_eval, cubic_bezier_eval and their eval2 forms (and the ordinate evaluators behind them) return, for every ordinate, the Bernstein polynomial of the control points in the order given, up to floating-point rounding, for control points of any dimension 1 to 4 held in any form; at t = 0 they give the first and at t = 1 the last control point, reversing the control points and replacing t by 1 - t gives the same point, and the two formulations agree.',
  'all control points and parameters (algebraic identity over the reals)',
  'constant control points hide a wrong coefficient',
  [('bezier', 'examples/bezier.hxx')], files=('examples/bezier.hxx', L))

p('P37', 'Slice, span and valarray conversions preserve element order',
  'slice<L>(v, offset) of a vector, view_vector or view denotes exactly the components offset .. offset + L - 1 of v, writable through the slice when v is, and fails an assertion for every offset at which that range does not fit; make_span and make_const_span denote the elements of a vector (or the columns of a matrix) in order, sharing storage; copy_to_vector and copy_from_vector between a vector and a span (fixed, dynamic or empty) or a valarray convert and copy the common leading elements in order and leave the rest unchanged; make_vector, make_matrix (column by column) and to_valarray keep the order, so converting there and back restores the original.',
  'all values, all offsets including huge ones, all lengths within the bound',
  'offsets that overflow, partial copies and non-square shapes are not sampled',
  [('converters', 'examples/slice.hxx, span_convert.hxx, valarray_convert.hxx')],
  files=('examples/slice.hxx', 'examples/span_convert.hxx', 'examples/valarray_convert.hxx'))

p('P38', 'Hashes respect equality',
  'std::hash of the example hash header gives equal hashes to vectors (and matrices) whose elements compare equal, signed zeros included, whatever form of the same element type they are held in (vector, view, view_vector, swizzle, wrapper, const or not), gives the same hash every time, and depends on every component and its position: changing any single component to a value that std::hash distinguishes from the old one always changes the hash, and exchanging components of unequal value can change it.',
  'all values including signed zeros',
  'equal-but-different-representation values are not tested',
  [('hash', 'examples/hash.hxx')], files=('examples/hash.hxx', L))

p('P39', 'Text output of vectors and matrices lists the components in order',
  'The stream and std::format helpers of the example headers write a vector (any form), array or storage wrapper as "[", its components in logical order separated by ", ", and "]", and a matrix as the bracketed list of its columns; every component is handed to the scalar formatter with the caller\'s format specification, bools in boolalpha for streams, and the hexadecimal reader skips one leading plus or space and nothing else.',
  'all values',
  'only a few values are printed by the example program',
  [('output helpers', 'examples/ostream_output.hxx, examples/format_output.hxx')],
  files=('examples/ostream_output.hxx', 'examples/format_output.hxx'))

p('P40', 'The STL mesh reader rejects or loads any file without misbehaving',
  'The STL converter takes a file for binary exactly when its size matches the facet count, converts exactly the complete facets with finite vertices and a non-degenerate normal, in order, with the right-handed unit normal recomputed from the vertices, succeeds exactly when some facet was good, and rejects truncated facets, without reading outside the data.',
  'all file contents',
  'tests have no malformed files',
  [('STL reader', 'examples/stl.hxx')], files=('examples/stl.hxx', 'examples/stl.cxx'))

for d in P:
    print(json.dumps(d))
