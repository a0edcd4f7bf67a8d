#!/usr/bin/env python3
"""Single source of the property list: writes ../properties.jsonl (and MANIFEST.json via manifest.py)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []

def prop(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    n = statement.count('. ') + 1
    assert n <= 3, (id, n)
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=m, where=w) for m, w in mech],
                               observe_at=observe, hook_needed=None)))

F = 'src/float/'
ALL = 'every one of the 2^32 f32 bit patterns'

prop('C01', 'Rounding to integers is exact for every f32',
     "For every f32, `trunc`, `floor`, `ceil` and `round` return exactly the integer std returns: towards zero, the largest integer not above, the smallest not below, and the nearest with halves away from zero. "
     "Infinities are returned as they are and NaN stays NaN. "
     "Results are compared by value (the sign of a zero is only fixed for `trunc`, which keeps the sign of its argument).",
     ['inputs'], ALL,
     'The tests sample a handful of values between -2 and 2 (and a few hundred for trunc); values beyond the i32 range, just below one half, odd integers above 2^23 and NaN were all wrong and untested.',
     [F+'trunc.rs', F+'floor.rs', F+'ceil.rs', F+'round.rs'],
     [('bit mask of the fraction selected by the exponent', F+'trunc.rs'), ('floor/ceil/round built on trunc', F+'floor.rs')],
     ['F32Ext::{trunc,floor,ceil,round}', 'F32::{trunc,floor,ceil,round}'])
prop('C02', 'fract and trunc decompose every finite f32 exactly',
     "For every finite x, `fract(x)` is exactly `x - trunc(x)` (as std computes it), its magnitude is below one, and when non-zero it has the sign of x; so `trunc(x) + fract(x)` gives x back. "
     "`fract` of NaN and of the infinities is NaN.",
     ['inputs'], ALL,
     'Tests list about twenty values below 100; the bit renormalisation has one case per exponent and leading-zero count.',
     [F+'fract.rs', F+'trunc.rs'],
     [('renormalisation of the left-over mantissa bits', F+'fract.rs')],
     ['F32Ext::{fract,trunc}'])
prop('C03', 'abs, copysign, signum and sign tests are bit-exact',
     "For every f32 (zeros, subnormals, infinities and NaNs included) `abs` clears the sign bit and changes nothing else, and `copysign(a, b)` has every bit of a but the sign bit, which is b's. "
     "`signum` is 1 or -1 after the sign bit (also for the two zeros) and NaN for NaN. "
     "The `is_nan`, `is_infinite`, `is_finite`, `is_sign_positive`, `is_sign_negative`, `to_bits` and `from_bits` of the wrapper agree with those of f32.",
     ['inputs'], ALL + ' (pairs of them for copysign)',
     'Tests sample three or four ordinary values each.',
     [F+'abs.rs', F+'copysign.rs', F+'signum.rs', 'src/float.rs'],
     [('sign mask operations', F+'copysign.rs'), ('classification methods', 'src/float.rs')],
     ['F32Ext::{abs,copysign,signum}', 'F32::is_*'])
prop('C04', 'sin and cos keep their documented error bound and range',
     "For |x| <= 4096 `sin(x)` and `cos(x)` are within the documented 0.002 of the true values, and for 4096 < |x| <= 2^22 within 0.002 + |x| * 3e-7 (argument reduction is done in f32). "
     "For every finite x both lie in [-1.000001, 1.000001], and for NaN and infinities both are NaN. "
     "`sin_cos(x)` is always the pair of `sin(x)` and `cos(x)`, bit for bit.",
     ['inputs'], ALL,
     'Tests evaluate about 48 points of [-2pi, 2pi]; the bound is claimed for a whole axis and depends on the range reduction.',
     [F+'cos.rs', F+'sin.rs', F+'sin_cos.rs', 'src/f32ext.rs'],
     [('parabolic approximation after floor-based range reduction', F+'cos.rs')],
     ['F32Ext::{sin,cos,sin_cos}'])
prop('C05', 'tan keeps its documented error bound',
     "For |x| <= 1024 and |tan x| <= 30, `tan(x)` is within the documented 0.6 of the true value, and moreover within 0.002 + 2% of it. "
     "For |x| <= 1024 nearer to a pole the magnitude of the result is at least 28, and NaN and infinities give NaN.",
     ['inputs'], ALL + ' in the stated ranges',
     'Tests evaluate about 48 points of [-2pi, 2pi].',
     [F+'tan.rs', F+'sin.rs', F+'cos.rs'], [('quotient of the two approximations', F+'tan.rs')], ['F32Ext::tan'])
prop('C06', 'atan and atan_norm: error, range and odd symmetry for every f32',
     "For every non-NaN x, `atan_norm(x)` is within the documented 0.1620 degrees (0.0018 of its unit, a right angle, to 3e-6) of atan(x), and `atan(x)` within the same angle (0.00283 rad). "
     "Results lie in [-1, 1] and [-pi/2, pi/2], infinities give the end points, and the result for -x is exactly the negation of the result for x. "
     "NaN gives NaN.",
     ['inputs'], ALL,
     'Tests evaluate 17 points between -6 and 6; overflow of the square made everything above 1.8e19 NaN, unnoticed.',
     [F+'atan.rs'], [('rational approximation n/(1+b+n) in the first quadrant, sign restored bitwise', F+'atan.rs')],
     ['F32Ext::{atan,atan_norm}'])
prop('C07', 'atan2 gives the four-quadrant angle for every pair of operands',
     "For every pair y, x without NaN that is not two zeros (infinities and signed zeros as in IEEE 754), `atan2(y, x)` equals the true angle to within 0.003 rad, modulo a full turn, and lies in [-pi, pi]. "
     "`atan2_norm(y, x)` is the same angle in right angles, to within 0.0019 modulo 4, and lies in [0, 4). "
     "Both are 0 for two zeros of any sign, and NaN when an operand is NaN.",
     ['inputs'], 'all pairs of f32 bit patterns (sampled: 2^64 pairs)',
     'Tests evaluate about 20 pairs of ordinary size; quadrant logic, signed zeros, scale extremes and the half-open range need pairs the tests do not have.',
     [F+'atan2.rs'], [('quadrant offset from the sign bits', F+'atan2.rs'), ('rescaling of extreme operands', F+'atan2.rs')],
     ['F32Ext::{atan2,atan2_norm}', 'F32::atan2'])
prop('C08', 'asin and acos: error bounds, ranges and NaN outside the domain',
     "For |x| <= 1 `asin(x)` is within 0.02 rad and within 10% of the true value, lies in [-pi/2, pi/2] and is exactly odd, and `acos(x)` is within 0.03 rad of the true value and lies in [0, pi] (all to 1e-6). "
     "For |x| > 1, infinities and NaN both are NaN.",
     ['inputs'], ALL,
     'Tests evaluate about ten points each.',
     [F+'asin.rs', F+'acos.rs', F+'invsqrt.rs', F+'sqrt.rs', F+'atan.rs'],
     [('asin through invsqrt and atan', F+'asin.rs'), ('acos through sqrt and atan', F+'acos.rs')], ['F32Ext::{asin,acos}'])
prop('C09', 'sqrt, invsqrt and hypot: relative error, monotonicity, NaN',
     "For every positive normal x, `sqrt(x)` is within 6.1% and `invsqrt(x)` within 3.5% of the true value; `sqrt` never decreases and `invsqrt` never increases over the non-negative floats, `sqrt(4^k)` is exactly 2^k, and `sqrt` of a zero is below 1e-18. "
     "`sqrt(inf)` is inf, and both are NaN for negative numbers and NaN. "
     "`hypot(x, y)` is within 6.2% of sqrt(x^2+y^2) whenever the larger of |x|, |y| is in [1e-18, 1e19], and does not depend on the order or signs of its operands.",
     ['inputs'], ALL + '; pairs for hypot',
     'Tests evaluate about twenty values for sqrt, three for hypot.',
     [F+'sqrt.rs', F+'invsqrt.rs', F+'hypot.rs'],
     [('halving of the exponent through the bit pattern', F+'sqrt.rs')], ['F32Ext::{sqrt,invsqrt,hypot}'])
prop('C10', 'inv and recip approximate 1/x over the whole float range',
     "For 2^-126 <= |x| <= 2^126, `inv(x)` is within 12.6% and `recip(x)` within 0.002% of 1/x (so both have the sign of x), and `inv` of a power of two is exact. "
     "For larger |x|, infinities included, both have magnitude at most 1.18e-38 and, when not zero, the sign of x; for smaller |x|, zeros included, both have magnitude at least 7e37 and the sign of x, and `recip(0)` is infinite. "
     "NaN gives NaN.",
     ['inputs'], ALL,
     'Tests evaluate a hundred small non-negative integers for inv and six values for recip.',
     [F+'inv.rs', F+'recip.rs'],
     [('subtraction of bit patterns', F+'inv.rs'), ('initial guess plus one high-order Newton step', F+'recip.rs')], ['F32Ext::{inv,recip}', 'num_traits::Inv'])
prop('C11', 'exp and cosh: relative error, underflow, overflow',
     "`exp(x)` is within 0.1% of e^x for 0 <= x <= 88.72 and within 0.3% for -87.3 <= x < 0; it lies in [0, 1.2e-38] for x < -87.4, is infinite for x > 88.73, exactly 1 at zero, never negative, and NaN only for NaN. "
     "`cosh(x)` is within 0.1% of the true value for |x| <= 88.72, within the documented 0.003 for |x| <= pi and 0.1 for |x| <= 2 pi, and exactly even; it is infinite for |x| > 89.5 and NaN only for NaN.",
     ['inputs'], ALL,
     'Tests evaluate 25 points with |x| up to 30 or so; the boundary of overflow and NaN handling was wrong and untested, and cosh exceeded its documented error between the sampled points.',
     [F+'exp.rs', F+'cosh.rs'],
     [('split into 2^n and a series on the fraction', F+'exp.rs'), ('exponent replacement', 'src/float.rs')], ['F32Ext::exp', 'F32::cosh'])
prop('C12', 'ln, log2, log10 and log: absolute error for every positive f32',
     "For every finite x > 0 (subnormals included) `ln`, `log2` and `log10` are within 1e-4, 1.6e-4 and 5e-5 of the true logarithm, and all are 0 at 1. "
     "`log(x, b)` is within (1e-4 + 1e-4 |log_b x|) / |ln b| plus 1e-6 |log_b x| of log_b(x) for finite x > 0 and any base b > 0 with |ln b| >= 0.01. "
     "The logarithm of a zero is -inf, of inf is inf (the other way round for a base below 1), and of NaN and negative numbers is NaN.",
     ['inputs'], ALL + '; pairs for log',
     'Tests evaluate about thirty points each with a loose absolute tolerance and none below 1e-20; the branch for x < 1 was off by 0.118.',
     [F+'ln.rs', F+'log.rs', F+'log2.rs', F+'log10.rs'],
     [('exponent times ln 2 plus a polynomial on [1,2)', F+'ln.rs')], ['F32Ext::{ln,log,log2,log10}'])
prop('C13', 'powf: relative error, integer parity, zero and domain rules',
     "For finite x > 0 and finite n whose true power is in [1e-37, 1e38], `powf(x, n)` is within a relative error of exp(1.2e-4 |n|) - 1 + 0.004 of x^n (or is infinite where that error reaches f32::MAX); a true power above 1e39 * exp(1.2e-4 |n|) gives inf and one below 1e-39 / exp(1.2e-4 |n|) at most 1.2e-38. "
     "For a negative finite x it is NaN unless n is an integer, and otherwise the power of |x|, negated exactly when n is odd. "
     "`powf(x, 0)` is 1, 0^n is 0 for n > 0 and inf for n < 0 (up to sign when x is -0), and a NaN base with n != 0 or a NaN n gives NaN.",
     ['inputs'], 'all pairs of f32 (sampled)',
     'Tests evaluate three bases with a few dozen exponents; parity and integrality of arbitrary exponents (0.5, 2^24, 2^33) and zero bases are not reached.',
     [F+'powf.rs', F+'exp.rs', F+'ln.rs', 'src/float.rs'],
     [('exp(n ln x) with sign rules', F+'powf.rs'), ('integrality and parity tests', 'src/float.rs')], ['F32Ext::powf'])
prop('C14', 'powi is the repeated product for every base and every i32',
     "For every f32 base and i32 exponent n, when the exact power is between 2^-126 and f32::MAX the result is within a relative error of exp(|n| * 3e-7) - 1 + 1e-6 of it. "
     "When it exceeds 2^128 * exp(|n| * 3e-7) the result is an infinity, when it is below 2^-152 / exp(|n| * 3e-7) it is a zero (of either sign), and a non-zero result is negative exactly when the base is negative and n odd. "
     "`powi(x, 0)` is 1 for every x, zeros and infinities of either sign follow the rules of IEEE pown, a NaN base with n != 0 gives NaN, and every call returns (also for i32::MIN).",
     ['inputs'], 'all pairs of an f32 bit pattern and an i32 (sampled)',
     'Tests list pairs with |n| at most a few hundred for ten bases; the early exit on extreme exponents was wrong for bases such as 0.49 and i32::MIN looped forever.',
     [F+'powi.rs'], [('square and multiply with an early exit on the estimated exponent', F+'powi.rs')], ['F32Ext::powi'])
prop('C15', 'Euclidean division and remainder agree with their definition',
     "For finite a and finite non-zero b, `rem_euclid(a, b)` is never negative, at most |b|, and equals the exact least non-negative remainder rounded to f32 (to one unit in the last place). "
     "`div_euclid(a, b)` is the integer q for which a = q b + rem_euclid(a, b), to within the rounding of the f32 quotient (exact when a and b are integers below 2^24 in magnitude). "
     "A zero b, an infinite a or a NaN operand gives a NaN remainder.",
     ['inputs'], 'all pairs of f32 (sampled)',
     'Tests evaluate the four sign combinations of 7 and 4 and a few more.',
     [F+'div_euclid.rs', F+'rem_euclid.rs'], [('correction of the truncated quotient by the sign of the remainder', F+'div_euclid.rs')], ['F32Ext::{div_euclid,rem_euclid}'])
prop('C16', 'F32 operators and comparisons are transparent over f32',
     "Every operator (+, -, *, /, %, unary -, and the assigning forms) between two F32, and every mixed F32/f32 form, gives bit for bit the f32 result (any NaN for NaN). "
     "Equality and ordering between F32 and F32 or f32, in either direction, are those of f32, NaN and signed zeros included.",
     ['inputs'], 'all pairs of f32 (sampled), every operator impl',
     'No test exercises these impls; there are 46 hand-written ones.',
     ['src/float.rs'], [('hand-written operator impls', 'src/float.rs')], ['impl Add/Sub/Mul/Div/Rem/Neg/*Assign/PartialEq/PartialOrd for F32'])
prop('C17', 'Sum, Product, conversions, constants and mul_add match f32',
     "Summing or multiplying any sequence of F32 gives the value f32 gives for the same sequence in the same order. "
     "Conversions between F32 and f32 keep every bit, those from i8, i16, u8 and u16 are exact for every value, the associated constants equal those of f32, and the default is zero. "
     "`mul_add(x, a, b)` is x*a+b, rounded either once or after each operation.",
     ['inputs', 'histories'], 'all sequences of f32 (sampled), all i8/i16/u8/u16, all triples (sampled)',
     'Tests cover one sequence-free mul_add case and no Sum/Product.',
     ['src/float.rs', F+'mul_add.rs'], [('delegation to f32 iterator folds', 'src/float.rs')], ['impl Sum/Product/From for F32', 'F32::mul_add'])
prop('C18', 'Formatting and parsing of F32 are those of f32',
     "Displaying an F32, or formatting it with `{:e}` or `{:E}`, gives the text f32 gives for the same format specification (width, fill, alignment, sign, zero padding and precision included), for every value. "
     "Parsing any text as F32 succeeds exactly when f32 parsing does and gives the same bits, so displaying and parsing back returns the same value. "
     "Radix parsing (the num-traits feature) agrees with that of f32.",
     ['inputs'], 'all f32 values and format specifications, all strings (sampled)',
     'No test formats or parses an F32.',
     ['src/float.rs'], [('Display, LowerExp, UpperExp, FromStr, Num impls', 'src/float.rs')], ['format!', 'str::parse', 'num_traits::Num'])
prop('C19', 'The f32 extension trait and the F32 wrapper are the same functions',
     "Every method of the extension trait called on an f32 returns bit for bit what the public method of the same name returns on the F32 wrapper of that value, for every argument, and the num-traits impls (zero, one, inverse, is_zero, is_one) agree with them. "
     "`sin_cos` returns the sine first.",
     ['inputs'], 'all f32 arguments (sampled), the 31 of 33 trait methods that both faces have',
     'The tests call one of the two faces of each function, never both, and not with operands in an order that would tell them apart.',
     ['src/f32ext.rs', 'src/float.rs'], [('one-line dispatch per method', 'src/f32ext.rs')], ['F32Ext for f32', 'F32 inherent methods', 'num_traits impls'])
prop('C20', 'No call panics or overflows, whatever the history of values',
     "In a build with overflow checks and debug assertions, no sequence of public operations on floats, vectors of floats, quaternions and statistics panics, for any values fed from one operation to the next. "
     "The only panics are the documented ones: an index or a number of components out of range for a vector, integer component overflow or division by zero, and inverting or normalising a quaternion whose norm is zero. "
     "The same sequence gives the same bits when run again, also while other threads make other calls: no operation depends on earlier ones.",
     ['inputs', 'histories'], 'all sequences of operations over a pool of values (sampled, up to 40 steps)',
     'Unit tests call one function on ordinary inputs; several functions overflowed in debug builds (invsqrt, powi, exp) and none of the tests could see it.',
     ['src/float.rs', 'src/float/', 'src/quaternion.rs', 'src/vector/', 'src/statistics/'],
     [('wrapping or checked bit arithmetic', F+'recip.rs'), ('debug assertion on exponents', 'src/float.rs')], ['the whole public API'])
prop('C21', 'NaN propagates through every float function',
     "When an argument is NaN (any payload and sign, and any of two or three arguments), every float-valued function returns NaN. "
     "The exceptions are those of std: `powi` and `powf` with a zero exponent, `signum` and `copysign` as in their own definitions (a NaN sign operand only lends its sign), and `abs`, which only clears the sign. "
     "Finite arguments inside the domain of a function never give NaN (for `tan` up to 2^22, beyond which its argument reduction has no bits left; for `log` as in its own bound).",
     ['inputs'], 'all 2^24 NaN bit patterns for one-argument functions, sampled argument tuples for the rest',
     'Four tests mention NaN at all, each with the canonical pattern only.',
     ['src/float/'], [('comparisons arranged so that NaN falls through', F+'sqrt.rs')], ['F32Ext', 'F32::cosh'])
prop('C22', 'Vector construction, access and iteration agree in every form',
     "For 2D and 3D vectors of every component type, building from a tuple, an array, a slice or an iterator of the right length gives the same vector, and reading back through fields, tuple, array, index, `get`, `iter` and `map` gives the components in order. "
     "`get` returns nothing for every index from the number of axes upwards and indexing panics there; building from any other number of components panics; `iter` yields exactly the axes and then nothing, for good. "
     "The default vector is all zeros and a 2D vector becomes 3D by adding a zero z.",
     ['inputs', 'histories'], 'all component values, indices, lengths and iteration histories (sampled), 8 component types, 2 dimensions',
     'Tests build one or two integer vectors with constants.',
     ['src/vector.rs', 'src/vector/vector2d.rs', 'src/vector/vector3d.rs', 'src/vector/iter.rs'],
     [('FromIterator with length checks', 'src/vector/vector3d.rs'), ('position counter over get', 'src/vector/iter.rs')], ['Vector trait', 'From/Index/FromIterator impls'])
prop('C23', 'Vector arithmetic is component by component, in every form',
     "For every component type, +, -, scalar * and /, and their assigning forms, apply the operation of the component type to each axis independently (bit for bit for f32, any NaN for NaN), whenever that operation does not overflow on an axis. "
     "scalar * vector equals vector * scalar, and the sum of a sequence of vectors (by value or by reference, empty included) equals adding them one by one in order to zero.",
     ['inputs', 'histories'], 'all component values and sequences (sampled), 8 component types, 2 dimensions',
     'Tests add one pair of constant vectors per type.',
     ['src/vector/vector2d.rs', 'src/vector/vector3d.rs', 'src/vector/commutative.rs'],
     [('operator impls per axis', 'src/vector/vector3d.rs'), ('macro for scalar * vector', 'src/vector/commutative.rs')], ['operator impls', 'Sum impls'])
prop('C24', 'Dot, cross and perpendicular products are the algebraic ones',
     "For integer components whose products, and every sum of the magnitudes of those products, fit the type (and are not negative differences of an unsigned type), `dot`, `cross`, `perpendicular_dot` and vector * vector give exactly the algebraic value. "
     "For floats below 1e18 in magnitude they are within 4e-7 times the sum of the magnitudes of the products (plus 1e-40) of it. "
     "The product of two 2D vectors has zero x and y and the perpendicular dot product as z, and the trait's `dot` equals the vector's own.",
     ['inputs'], 'all pairs of vectors (sampled), 8 component types, 2 dimensions',
     'Tests use one pair of vectors per type, and cross products of positive constants.',
     ['src/vector/vector2d.rs', 'src/vector/vector3d.rs'], [('explicit formulas per axis', 'src/vector/vector3d.rs')], ['dot', 'cross', 'perpendicular_dot', 'Mul'])
prop('C25', 'Magnitude, distance and normalisation of vectors',
     "`magnitude` is within 6.2% of the Euclidean length and `distance` within 6.2% of the length of the difference (differences taken in f32, so never wrapping for unsigned types) whenever its square is in [1e-36, 1e37]; distance is symmetric, and both are below 1e-18 when the true value is zero. "
     "`magnitude_sq` is exactly the sum of squares for integers when it fits the type, and within 4e-7 relative for floats. "
     "`normalized` keeps direction to within 1e-6 and has length between 0.93 and 1.001 for such a vector; the zero vector stays zero.",
     ['inputs'], 'all vectors (sampled), all component types convertible to f32, 2 dimensions',
     'Tests compute one magnitude and one distance with round numbers.',
     ['src/vector.rs', 'src/float/sqrt.rs'], [('default methods of the vector trait', 'src/vector.rs')], ['Vector::{magnitude,magnitude_sq,distance,normalized}'])
prop('C26', 'Conversions of integer vectors to float vectors are exact',
     "Converting a 2D or 3D vector of i8, i16, u8 or u16, or a 3D vector of F32, to a vector of f32 keeps every component, on its own axis, with exactly the same value.",
     ['inputs'], 'all component values (sampled; every value on every axis is enumerated), 9 conversions',
     'Tests convert no vector, or one constant one.',
     ['src/vector/vector2d.rs', 'src/vector/vector3d.rs'], [('From impls per type', 'src/vector/vector3d.rs')], ['From<..> for F32x2/F32x3'])
prop('C27', 'Quaternion arithmetic is Hamilton algebra',
     "For all quaternions with components below 1e9 in magnitude, +, -, scaling (either side, and assigning forms), `conj`, `dot`, and * give the component values of Hamilton's algebra, exactly for integer components whose products sum below 2^24 and otherwise within 5e-7 times the sum of the magnitudes of the terms. "
     "The identity is neutral, and conversions to and from tuples, arrays, component accessors and vectors (zero real part) keep every bit in order w, x, y, z.",
     ['inputs', 'histories'], 'all pairs of quaternions (sampled)',
     'Tests multiply two constant pairs.',
     ['src/quaternion.rs'], [('explicit product formula', 'src/quaternion.rs')], ['Quaternion operators and conversions'])
prop('C28', 'Quaternion norm, magnitude, inverse and normalisation',
     "`norm` is the sum of the squared components to within 5e-7 relative and `magnitude` within 6.2% of its square root; `normalize` gives a quaternion in the same direction (to 1e-6) with length within 3.6% of 1; `inv` is the conjugate divided by the norm to within 12.7%, so q * inv(q) is within 0.13 of the identity; all for norms in [1e-36, 1e37]. "
     "`inv` and `normalize` panic exactly when the computed norm is zero. "
     "The inverse of a quaternion whose norm is a power of two is exact.",
     ['inputs'], 'all quaternions (sampled)',
     'Tests use one constant quaternion each.',
     ['src/quaternion.rs', 'src/float/invsqrt.rs', 'src/float/inv.rs'], [('fast inverse and inverse square root', 'src/quaternion.rs')], ['Quaternion::{norm,magnitude,inv,normalize}'])
prop('C29', 'Rotation by a quaternion, and axis-angle construction',
     "For any quaternion with components below 1e9 (of unit length or not) `rotate(v)` and q * v equal the vector part of q v conj(q) to within 2e-6 |q|^2 |v| per axis, for vectors of every component type convertible to f32, so rotation by a unit quaternion keeps length, and composing rotations equals rotating by the product. "
     "`axis_angle(v, t)` is (cos t/2, v sin t/2) with the sine and cosine within 0.002 for |t| <= 8192, so with a unit axis rotating by it turns a vector by t about v to within 0.01 of its length.",
     ['inputs'], 'all unit quaternions, vectors, axes and angles (sampled)',
     'Tests rotate one axis by one quaternion.',
     ['src/quaternion.rs'], [('expanded rotation matrix', 'src/quaternion.rs')], ['Quaternion::{rotate,axis_angle}', 'Mul<Vector3d>'])
prop('C30', 'The quaternion between two vectors rotates one onto the other',
     "For any two non-zero vectors u and v (of any component type convertible to f32) with lengths between 1e-7 and 1e7 (any angle, parallel, opposite and nearly opposite included), the rotation by `from_two_vectors(u, v)` takes u to the direction of v to within 0.01 rad and keeps its length to within 8%. "
     "It is the shortest such rotation: its rotation angle equals the angle between u and v to within 0.01 rad.",
     ['inputs'], 'all pairs of vectors (sampled, with parallel, opposite and nearly opposite pairs constructed)',
     'Tests rotate between two fixed pairs; opposite vectors, where the axis must be invented, gave the identity.',
     ['src/quaternion.rs'], [('half-way quaternion with a fallback axis for opposite vectors', 'src/quaternion.rs')], ['Quaternion::from_two_vectors'])
prop('C31', 'Euler angles of a unit quaternion',
     "For a unit quaternion, the pitch of `to_euler` is within 0.022 rad of asin(2(wy - xz)) (clamped to the domain), and never NaN. "
     "Roll and yaw are within 0.004 rad (modulo a full turn) of atan2(2(wx + yz), 1 - 2(x^2 + y^2)) and atan2(2(wz + xy), 1 - 2(y^2 + z^2)) unless both arguments of that arctangent are below 1e-3 in magnitude.",
     ['inputs'], 'all unit quaternions (sampled, gimbal lock constructed)',
     'Tests convert one quaternion.',
     ['src/quaternion.rs', 'src/float/atan2.rs', 'src/float/asin.rs'], [('atan2/asin of matrix entries', 'src/quaternion.rs')], ['Quaternion::to_euler'])
prop('C32', 'Mean, variance and standard deviation of any sample',
     "For any iterator of n >= 1 floats with magnitudes below 1e15, `mean` is the arithmetic mean to within 1.3e-7 (n + 2) times the mean magnitude, and to within 1e-6 of itself when every running sum is exact (as for small integers). "
     "For any slice of n >= 2 numbers (f32, i8, u8, i16, u16) with magnitudes below 1e15, `variance` is the sample variance (divisor n - 1) to within the rounding of a two-pass f32 evaluation, and `stddev` is within 6.2% of its square root. "
     "None depends on anything but the values in their order, and no length overflows a counter.",
     ['inputs', 'histories'], 'all samples (sampled: lengths 1 to a few million, several component types)',
     'Tests use one three-element sample each.',
     ['src/statistics/mean.rs', 'src/statistics/variance.rs', 'src/statistics/stddev.rs'],
     [('one-pass sum and count', 'src/statistics/mean.rs'), ('two-pass sum of squares', 'src/statistics/variance.rs')], ['Mean', 'Variance', 'StdDev'])
prop('C33', 'Trimming yields exactly the values within the threshold, in order',
     "For any slice of at least two numbers and any threshold t, `trim_at(t)` yields, in their order and with repetitions, exactly the elements whose distance from the mean is below t times the `stddev` of the slice (elements within rounding of the boundary may go either way, but one at exactly t times a `stddev` that involves no rounding is not below it), unchanged and of the slice's own type. "
     "`trim()` is `trim_at(2.0)`, the iterator can be consumed in any pattern and stays finished once it has returned nothing, and the slice is left as it was.",
     ['inputs', 'histories'], 'all samples, thresholds and consumption patterns (sampled)',
     'Tests trim one five-element sample.',
     ['src/statistics/trim.rs'], [('filter on distance / stddev', 'src/statistics/trim.rs')], ['Trim', 'trim::Iter'])
prop('C34', 'Every feature set builds and every build computes the same results',
     "The crate compiles with every one of the 32 subsets of its five features, also (defmt apart) in a program that has neither the standard library nor an allocator. "
     "Whatever the subset, and whether built with optimisations off or on, and with overflow checks or without, the operations available compute the same results, bit for bit (any NaN for NaN).",
     ['configurations', 'inputs'], 'all 32 feature subsets; dev and release profiles; a fixed generated set of inputs per operation',
     'The upstream CI builds three subsets and compares no results across them; one subset (quaternion without vector) did not compile.',
     ['Cargo.toml', 'src/lib.rs', 'src/quaternion.rs', 'src/float.rs'], [('cfg gates', 'src/lib.rs')], ['cargo build', 'digests of results'])
prop('C35', 'defmt output shows the value that Display-like formatting shows',
     "With the defmt feature, logging an F32 transmits exactly its f32 value, logging a 2D or 3D vector transmits its components in order as `(x, y)` or `(x, y, z)`, and logging a quaternion transmits `(w, x, y, z)`, for every value and component type, and the transmitted frame decodes to nothing else.",
     ['inputs'], 'all values (sampled), all component types with a defmt format',
     'The tests compile the defmt impls but never run them.',
     ['src/float.rs', 'src/quaternion.rs', 'src/vector/vector2d.rs', 'src/vector/vector3d.rs'], [('defmt::Format impls', 'src/float.rs')], ['defmt frames'])
prop('C36', 'The Vector trait works for vector types a user defines',
     "For any type that implements `Vector` with any number of axes, through its own `get`, `dot` and `FromIterator`, the provided methods hold what they hold for 2D and 3D vectors. "
     "`from_slice` passes the components in order and panics where the type rejects their number, `iter` yields the components in order and then nothing, for good, and `map` calls its function once per axis, in order, and leaves the receiver as it was. "
     "`magnitude`, `distance`, `magnitude_sq` and `normalized` keep the bounds stated for 2D and 3D vectors (6e-8 times the number of axes plus two, where that is more than 4e-7), over all axes.",
     ['inputs', 'histories'], 'all implementations (sampled: 1, 2, 3, 4, 7 and 40 axes of 8 component types, and 127 to 100,000 axes), all components and iteration histories (sampled)',
     'No test implements the trait; the provided methods are only run on the two vector types of the crate.',
     ['src/vector.rs', 'src/vector/iter.rs'], [('provided methods over iter()', 'src/vector.rs'), ('iterator over get until None', 'src/vector/iter.rs')], ['Vector trait'])
prop('C37', 'User-defined component and sample types work like the built-in ones',
     "For any component type that is a commutative ring (whatever its order relation, or without one), construction, access, arithmetic, sums, `dot`, `cross`, `perpendicular_dot` and `magnitude_sq` of 2D and 3D vectors give exactly what the ring's own operations give. "
     "For any type convertible to f32, lengths, distances, normalisation, quaternion construction and rotation, `variance` and `stddev` give what they give for the converted numbers, whatever the range of the type's own arithmetic. "
     "`trim_at` keeps the same positions as for the converted numbers, and passes each element on unchanged.",
     ['inputs'], 'all component and sample types (sampled: a prime field without order, and labelled fixed-point numbers with saturating arithmetic), all values (sampled)',
     'No test defines a component or a sample type; `from_two_vectors` used the arithmetic of the component type, which overflows.',
     ['src/vector/component.rs', 'src/vector/', 'src/quaternion.rs', 'src/statistics/'],
     [('generic code bound by Component and Into<f32>', 'src/vector/component.rs')], ['Component trait', 'statistics traits', 'Quaternion'])
prop('C38', 'Equality, copies and Debug output follow the components',
     "Two vectors, quaternions or F32 are equal exactly when all their components are equal as numbers, so that a NaN component makes a value unequal to itself and zeros of either sign are equal; `!=` is the opposite, and a clone or copy has the same bits. "
     "Debug output (plain, pretty, hexadecimal, or with a sign, width or precision) shows the number of every component, in order. "
     "The default quaternion is the identity.",
     ['inputs'], 'all pairs of values (sampled), 16 vector types, quaternions and F32',
     'Tests compare equal results by assert_eq!, which would not notice an equality that is too weak.',
     ['src/float.rs', 'src/quaternion.rs', 'src/vector/vector2d.rs', 'src/vector/vector3d.rs'],
     [('derived PartialEq, Clone and Debug', 'src/vector/vector3d.rs')], ['==', '!=', 'Clone', 'Debug'])

prop('C39', 'Infinite and extreme operands give the limits, not nonsense',
     "Without a NaN operand, `hypot`, `magnitude` (of vectors and quaternions) and `distance` (where no difference is NaN) are never negative or NaN: they are infinite for an infinite operand or component, at least 93% of the largest magnitude when that exceeds 1e19, and below 2.5e-18 when all are below 1e-18. "
     "`powf` of an infinite base or exponent is infinite where |x| > 1 and n > 0, or |x| < 1 and n < 0, and zero otherwise, negative only for a negative base and an odd n (bases within 0.001 of 1 or -1, and -inf with a fractional n, are not fixed). "
     "For finite a, division by an infinite b gives quotient 0 and remainder a for a >= 0, else -signum(b) and inf; for finite x > 0, `log` to the base 0 or inf is 0, and to the base 1 it is inf for x > 1 and -inf for x < 1 (not fixed within 0.001 of 1).",
     ['inputs'], 'all pairs of f32 with an infinite or extreme operand (sampled)',
     'No test has an infinite operand for any of these functions.',
     [F+'hypot.rs', F+'powf.rs', F+'log.rs', F+'div_euclid.rs', F+'rem_euclid.rs', F+'sqrt.rs', F+'exp.rs', F+'ln.rs', 'src/vector.rs', 'src/quaternion.rs'],
     [('saturation of the intermediate results', F+'exp.rs'), ('early exits for infinities', F+'ln.rs')], ['F32Ext::{hypot,powf,log,div_euclid,rem_euclid}', 'Vector::magnitude', 'Vector::distance', 'Quaternion::magnitude'])

prop('C40', 'A NaN is never lost in vectors, quaternions and statistics',
     "A NaN in a component makes the magnitude, distance and dot products of a vector NaN and all axes of its normalisation, and a sum, difference or multiple is NaN on exactly the same axes (a cross product on the other two). "
     "It makes norm, magnitude and dot product of a quaternion NaN, and every component of products, inverse, normalisation, rotation, Euler angles and of the quaternion between two vectors, without a panic; in a sample it makes mean, variance and stddev NaN and trimming yield nothing. "
     "An infinite component makes magnitude and distance infinite, and one infinite item the mean infinite and the variance not finite.",
     ['inputs'], 'all payloads and positions of NaNs and infinities among moderate numbers (sampled)',
     'No test puts a NaN or an infinity into a vector, a quaternion or a sample.',
     ['src/vector.rs', 'src/vector/', 'src/quaternion.rs', 'src/statistics/', F+'sqrt.rs', F+'invsqrt.rs', F+'inv.rs'],
     [('comparisons arranged so that NaN falls through', F+'sqrt.rs'), ('plain f32 arithmetic per axis', 'src/vector/vector3d.rs')],
     ['Vector methods and operators', 'Quaternion methods and operators', 'Mean, Variance, StdDev, Trim'])

prop('C41', 'Approximations keep the order of their arguments and have no jumps',
     "For x < y in the domain, none of `atan`, `atan_norm`, `asin`, `ln`, `log2`, `log10`, `exp`, `cosh` (x >= 0), `sqrt`, `sin` (on [-pi/2, pi/2]) and `tan` (on [-1.55, 1.55]) falls, and none of `acos`, `cos` (on [0, pi]), `invsqrt`, `inv` and `recip` (either side of zero) rises, by more than rounding: 1.5e-6, for `log2` 3e-5, `ln` 2e-5, `log10` 1e-5, and relative to the result 1e-4 for `exp` and `cosh`, 4e-5 for `recip`, 3e-7 for `inv` and the roots. "
     "For y within 64 units in the last place of x, `atan`, `sin` and `cos` (on [-pi, pi]) differ by at most 1.25 |y - x| + 1e-6, `asin` and `acos` by 3e-3, and `inv` and the roots relatively by 2.1 times the difference of x and y (plus 5e-7). "
     "`atan2` and `atan2_norm` advance with the point around any circle (modulo a turn), by at most 1.3 times the true angle, to within 2e-6.",
     ['inputs'], 'bit patterns on a stride, each with three partners above it, and sampled pairs of points of circles',
     'Order is a statement on every pair of arguments; tests compare single results with their expected values, within bounds which leave room for jumps.',
     [F],
     [('one formula over the whole domain, or pieces that meet', F+'atan.rs'), ('exponent arithmetic that carries from the mantissa', F+'sqrt.rs'), ('quadrants that meet', F+'atan2.rs')],
     ['F32Ext::*', 'F32::*'])

if __name__ == '__main__':
    with open(os.path.join(HERE, '..', 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    print(len(P), 'properties')
