"""Properties of e_float-2021 (properties.jsonl is generated from this by tools/gen.py)."""
S = 'libs/e_float/src/'
EFX = S + 'e_float/efx/e_float_efx.cpp'; EFH = S + 'e_float/efx/e_float_efx.h'; BASE = S + 'e_float/e_float_base.cpp'; BH = S + 'e_float/e_float_base.h'; EF = S + 'e_float/e_float.h'; DYN = S + 'utility/util_dynamic_array.h'
CX = S + 'e_float/e_float_complex.h'; EL = S + 'functions/elementary/'; GE = S + 'generic_functions/elementary/generic_functions_elementary.h'
TESTS = 'The suite compares fixed tables of about a hundred results per function against control values; '
P = []
def p(id, title, statement, text, why, files, mech, over=('inputs',), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))

p('C01', 'Addition and subtraction are accurate to the last stored digits',
  'The sum or difference of two finite numbers differs from the exact result by no more than two units of the last stored position of the larger operand, is exact when the operands line up and no digit is carried out, and is zero exactly when the exact result is zero. Adding a number too small to matter leaves the other one unchanged; the operands themselves are never modified, and in-place, binary and self-combined forms agree.',
  'every pair of finite numbers, both signs, every distance between their exponents', TESTS + 'carries through all digits, borrows with cancellation and alignments at the edge of the stored width are not sampled.',
  [EFX, BASE, EF], [('carry and borrow loops, alignment and renormalisation', EFX + ' operator+= / operator-= / add_loop_uv / sub_loop_uv'), ('binary operators', EF)], observe=['e_float += -= + -'])
p('C02', 'Multiplication is the exact product cut off at the stored width',
  'The product of two finite numbers is the exact product truncated towards zero at the stored width (never above it, short by at most a few units of the last position), with the right sign; products whose digits fit are exact, and multiplication by one or zero is exact. The result does not depend on operand order or on in-place use, and lowering the working precision only costs the digits given up.',
  'every pair of finite numbers and every working precision', TESTS + 'the carry chain of a truncated 16x16 element product depends on every digit of both operands.',
  [EFX, BASE], [('truncated schoolbook product with carry propagation', EFX + ' operator*= / mul_loop_uv')], observe=['e_float *= *'])
p('C03', 'Multiplying and dividing by built-in unsigned integers is exact to the last element',
  'Multiplying a finite number by an unsigned integer, or dividing it by one small enough for a single element, gives the exact result truncated at the stored width, for in-place and binary forms alike. The quotient error is below one unit of its last stored element and a product with a one-element factor is short by less than one unit of its last stored element.',
  'every finite number and every 64-bit unsigned factor; divisors below 10^8', TESTS + 'a lost or duplicated element only shows for particular leading digits and divisors.',
  [EFX, BASE], [('single-element multiply and divide loops, shift of the element array', EFX + ' mul_unsigned_long_long / div_unsigned_long_long / mul_loop_n / div_loop_n')], observe=['e_float * n, e_float / n'])
p('C04', 'Division and reciprocal reach the promised number of digits',
  'The reciprocal and the quotient of finite non-zero numbers agree with the exact value to the promised decimal digits, with the right sign and a normalised result, for every leading digit pattern. Division by an integer too large for a single element agrees with the same accuracy.',
  'every finite non-zero dividend and divisor whose reciprocal is in range', TESTS + 'the iteration starts from a floating-point estimate whose quality depends on the leading digits, and its number of steps is fixed.',
  [EFX, BASE], [('Newton iteration from a double estimate with growing precision', EFX + ' calculate_inv'), ('initial estimate', EFX + ' extract_parts')], observe=['e_float / e_float, calculate_inv'])
p('C05', 'Square roots reach the promised number of digits',
  'The square root of a finite positive number agrees with the exact root to the promised decimal digits and the result is normalised, for odd and even decimal exponents and every leading digit pattern. Roots of zero are zero, roots of negative numbers are NaN.',
  'every finite positive number', TESTS + 'the coupled iteration starts from a floating-point estimate, and scaling depends on the parity of the exponent.',
  [EFX], [('coupled Newton iteration from a double estimate', EFX + ' calculate_sqrt')], observe=['calculate_sqrt, ef::sqrt'])
p('C06', 'Comparisons agree with the order of the values',
  'All six comparison operators between two numbers, and between a number and a built-in integer in either order, agree with the mathematical order of the values, with infinities at the ends; exactly one of less, equal, greater holds. NaN compares unequal to everything including itself. The predicates for zero, one, sign, finiteness, NaN and integer-ness agree with the value.',
  'every pair of finite numbers, zero, infinities and NaN, and every built-in integer', TESTS + 'comparisons walk exponents first and then elements, so an error shows only for numbers that share an exponent or a long prefix.',
  [EFX, BASE, EF], [('sign, exponent, element comparison', EFX + ' cmp / cmp_data'), ('operators', EF)], observe=['== != < <= > >=', 'iszero isone isneg isfinite isnan isinf'])
p('C07', 'Arithmetic with zero, infinities and NaN follows the usual rules',
  'For + - * / with any mix of finite values, zero, infinities, NaN and built-in integers, NaN operands give NaN, undefined combinations (inf-inf, 0*inf, 0/0, inf/inf) give NaN, and all other combinations give the infinity or zero with the correct sign. Finite non-zero operands in range never give a special value, and a number combined with itself in place follows the same rules.',
  'every combination of operand kinds, every form of every operator, every built-in integer', TESTS + 'no test combines special values with every operator, sign and in-place form.',
  [EFX, BASE], [('special-value prologues of the operators', EFX), ('integer overloads', BASE)], observe=['+ - * / and their in-place forms, with e_float and built-in integer operands'])
p('C08', 'Results beyond the exponent range become infinity or zero, others stay finite',
  'An arithmetic result whose exact magnitude is above the largest representable number is an infinity of the right sign, one below the smallest is exactly zero, and everything in between is finite, accurate and normalised with its exponent within the limits. No operation yields a finite number outside the advertised range.',
  'every pair of operands whose exact result is at or beyond either limit', TESTS + 'the limits are two billion decades away from all tested values.',
  [EFX, BASE], [('range check after each operation', EFX + ' check_range'), ('exponent limits', EFH)], observe=['+ - * / with operands near the limits'])
p('C09', 'Conversions from and to built-in integers are exact or saturate',
  'Constructing a number from any built-in integer represents exactly that integer, and converting a number to a built-in integer gives its integer part when that fits and the nearest representable limit otherwise. Converting there and back returns the same integer for every value of every integer type.',
  'every value of every built-in integer type; every finite number, zero and infinities', TESTS + 'limits of the 64-bit types and numbers straddling them are not covered.',
  [EFX, BASE, BH], [('element-wise construction and extraction', EFX + ' from_unsigned_long_long / extract_unsigned_long_long / extract_signed_long_long')], observe=['constructors and casts'])
p('C10', 'Conversions from and to built-in floating-point types are faithful',
  'Constructing a number from a finite double, float or long double represents that value exactly to the stored width with the right sign, and infinities and NaN carry over. Converting a number to double or long double gives a value adjacent to the exact one, overflowing to infinity and underflowing to zero, so that a double survives the round trip.',
  'every finite built-in floating-point value; every number', TESTS + 'only a handful of constants are converted.',
  [EFX, BASE, EF], [('bit-wise decomposition of the mantissa', EFX + ' native_float_parts / constructors'), ('decimal extraction', EFX + ' extract_double / extract_long_double')], observe=['constructors from float types, extract_double, casts'])
p('C11', 'Integer and fractional parts, rounding and integrality tests are exact',
  'The integer part and the fractional part of a finite number are exactly the digits before and after the decimal point with the sign kept, and add up to the number. Floor and ceiling are the neighbouring integers on the correct side for both signs, and integers are recognised as such.',
  'every finite number of either sign with any exponent', TESTS + 'the digits affected depend on where the decimal point falls inside the element array.',
  [EFX, EL + 'elementary_math.cpp', EFH], [('digit masking by exponent', EFX + ' extract_integer_part / extract_decimal_part'), ('floor, ceil', EL + 'elementary_math.cpp')], observe=['ef::floor, ef::ceil, ef::integer_part, ef::decimal_part, ef::isint'])
p('C12', 'Decimal strings are read exactly',
  'Reading a decimal string with optional sign, digits, decimal point and exponent gives the number it denotes exactly when its digits fit the stored width, and otherwise differs only beyond the stored width. Leading and trailing zeros, the position of the point and the way the exponent is written make no difference to the value; out-of-range exponents give infinity or zero.',
  'every well-formed numeric string within the stated lengths', TESTS + 'strings whose digits, point and exponent fall at every alignment to the eight-digit elements are not enumerated.',
  [EFX], [('string normalisation, alignment to elements', EFX + ' rd_string')], observe=['constructor from string, operator>>'])
p('C13', 'Printed decimal strings denote the number',
  'The scientific output of a finite number at a given precision is a correctly formed decimal string whose value is the number rounded to that many digits, carries included, and prints the sign when asked. Fixed notation places the decimal point correctly and respects precision and showpoint, and special values print their names.',
  'every finite number and every precision, in scientific and fixed notation', TESTS + 'rounding carries through runs of nines and small fixed-point values are not sampled.',
  [EFX, BASE], [('digit extraction and rounding', EFX + ' get_output_string'), ('formatting', BASE + ' wr_string')], observe=['operator<<'])
p('C14', 'Writing at full precision and reading back returns the same number',
  'A finite number printed with the maximum number of digits and read back equals the original to all printed digits, for every exponent and sign. Printing that result again in the same notation gives the same string.',
  'every finite number', TESTS + 'no test round-trips arbitrary numbers.', [EFX, BASE], [('writer', BASE + ' wr_string'), ('reader', EFX + ' rd_string')], observe=['operator<< then operator>>'])
p('C15', 'Numbers are independent values',
  'Copying, assigning, moving and swapping numbers transfers the complete value (digits, exponent, sign, kind), later changes to one object never show in another, and self-assignment and self-move are harmless. A moved-from number can be assigned again, and no operation leaks or doubly frees storage or reads outside it.',
  'every value, every sequence of copy, move, swap, assign and arithmetic of the stated length', TESTS + 'aliasing and moved-from states are not tested.',
  [EFX, EFH, DYN], [('special members', EFH), ('storage', DYN)], over=('inputs', 'histories'), observe=['constructors, assignment, std::swap, std::move'])
p('C16', 'The storage container behaves like a sequence of its elements',
  'The dynamic array holds exactly the elements given at construction, copies and moves them element by element, compares lexicographically, and fills and swaps whole contents; a moved-from array is empty and can be assigned again, self-assignment and self-move change nothing, and checked access beyond the size refers to an element inside the array. It never touches memory outside its allocation and never leaks.',
  'every size up to the bound and every element value, every special member and accessor', TESTS + 'the container has no test of its own.',
  [DYN, S + 'e_float/detail/e_float_detail_dynamic_array.h'], [('container', DYN)], over=('inputs', 'histories'), observe=['util::dynamic_array, ef::detail::fixed_dynamic_array'])
p('C17', 'Decimal order, mantissa and working precision describe the number',
  'The reported decimal order of a finite non-zero number is the exponent of its leading decimal digit, and the extracted mantissa times ten to the extracted exponent equals the number to double accuracy. Setting a working precision bounds the number of elements used, never below the minimum nor above the maximum.',
  'every finite non-zero number; every precision argument', TESTS + 'numbers whose leading element sits at a power of ten are not covered.',
  [EFX, EFH], [('logarithm of the leading element', EFX + ' get_order_fast / get_order_exact'), ('mantissa extraction', EFX + ' extract_parts'), ('precision', EFX + ' precision')], observe=['order, extract_parts, precision'])
p('C18', 'Mixed arithmetic with built-in integers equals arithmetic with the converted integer',
  'Adding, subtracting, multiplying or dividing by a built-in integer on either side gives the same result as first converting the integer to a number, for every integer including the most negative one. Increment and decrement add and subtract exactly one, negation flips the sign and keeps everything else.',
  'every number and every value of the signed and unsigned integer types', TESTS + 'signed limits and integers wider than one element are not covered.',
  [BASE, EF, EFX], [('integer overloads', BASE + ' add_signed_long_long …'), ('operators', EF)], observe=['e_float op n, n op e_float, ++, --'])
p('C19', 'Integer powers follow the exponent',
  'Raising a number to an integer power multiplies it by itself that many times up to rounding, with exact results for small integers, x^0 = 1, reciprocal results for negative exponents and correct sign for odd and even exponents. Special bases and the largest and smallest exponents give the limiting value.',
  'every base, every 64-bit exponent in the stated ranges', TESTS + 'a few small exponents are tried.', [EL + 'elementary_math.cpp', S + 'e_float/detail/e_float_detail_pown_template.h', EL + 'elementary_trans.cpp'], [('binary powering', S + 'e_float/detail/e_float_detail_pown_template.h'), ('special cases', EL + 'elementary_trans.cpp pown')], observe=['ef::pown'])
p('C20', 'Complex arithmetic follows the algebra of its parts',
  'Complex addition, subtraction, multiplication and division by complex, real and integer operands compute the real and imaginary parts the definition prescribes, in place and as binary operators on either side. Conjugate, norm, projection and equality are those of the parts; self-combined forms agree with the binary ones.',
  'every pair of complex numbers with finite parts, every operand type combination', TESTS + 'mixed operand orders and aliasing are not covered.', [CX], [('operators', CX)], observe=['std::complex<e_float> operators and functions'])
p('C21', 'Elementary functions obey their symmetries and special values',
  'Odd and even functions are odd and even, functions at zero, one, infinities and NaN give the documented values or NaN outside their domain, and inverse trigonometric functions stay in their quadrants. Argument reduction selects the right quadrant and sign.',
  'every argument, as far as the result is determined by case analysis rather than by the value of a series', TESTS + 'special arguments and signs are barely covered.', [EL + 'elementary_trig.cpp', EL + 'elementary_trans.cpp', EL + 'elementary_math.cpp'], [('case analysis before and after the series', EL)], observe=['ef::sin … ef::atanh'])
p('C22', 'Prime generation and factorisation are correct',
  'The prime list of requested length consists of exactly the first primes in order, and the factorisation of an integer multiplies back to it with prime bases in increasing order. Every integer within the bound is covered.',
  'every requested count and every integer up to the bound', TESTS + 'they are only used indirectly by the zeta function.', [S + 'functions/integer/prime.cpp', S + 'functions/integer/prime_factor.cpp'], [('sieve', S + 'functions/integer/prime.cpp'), ('trial division', S + 'functions/integer/prime_factor.cpp')], observe=['ef::prime, ef::prime_factors'])
p('C23', 'Numeric utilities compute what they claim',
  'Alternating-sign helpers, digit scaling, point interpolation, lexical casts, numeric casts and power tables return the values their definitions prescribe. Each is a pure function of its arguments.',
  'every argument within the stated bounds', 'The utilities have no tests of their own.', [S + 'utility'], [('helpers', S + 'utility')], observe=['Util::*'])
p('C24', 'Constants, tables and numeric limits are right',
  'Stored constants and table entries equal the mathematical constants, factorials, double factorials, binomials and Bernoulli fractions they stand for to the advertised digits, and combinatorial functions return them for every index, cached or not. The numeric limits describe the type: largest, smallest, epsilon and digit counts are consistent with arithmetic.',
  'every table index and every constant', TESTS + 'only a few indices are compared.', [S + 'functions/tables', S + 'functions/constants/constants.cpp', S + 'functions/gamma/factorial.cpp', EF], [('tables', S + 'functions/tables'), ('limits', EF + ' numeric_limits')], observe=['ef::factorial, ef::binomial, ef::bernoulli, std::numeric_limits<e_float>'])
p('C25', 'Every multiplication kernel computes the same product',
  'Recursive halving and transform-based multiplication of element arrays produce exactly the product of the represented integers, independent of which kernel a size selects. Carries are fully propagated.',
  'every pair of element arrays of the stated lengths', TESTS + 'kernels for large sizes run only in million-digit builds.', [S + 'e_float/detail/e_float_detail_karatsuba.h', S + 'e_float/detail/e_float_detail_fft.h', EFX], [('kernels', EFX + ' mul_loop_uv / Karatsuba / FFT')], observe=['multiplication at high digit counts'])
p('C26', 'Transcendental functions reach the promised number of digits',
  'Exponential, logarithm, trigonometric, hyperbolic, gamma and zeta functions agree with the exact values to the promised decimal digits over their whole domain. This holds next to zeros and poles as far as the digits are promised.',
  'every argument in the domain', TESTS + 'accuracy between the table points is not covered.', [EL, S + 'functions/gamma', S + 'functions/zeta'], [('series, Newton iteration and argument reduction', EL)], observe=['ef::exp … ef::riemann_zeta'])
p('C27', 'The wrapped back ends treat special values and conversions like the native one',
  'The number types wrapping external multiple-precision libraries follow the same rules for zero, infinities, NaN, signs, integer conversion and comparison as the native type. Their operators pass operands, signs and precision to the wrapped library correctly.',
  'every combination of operand kinds and every built-in integer, for any correct wrapped library', TESTS + 'special values are not tested on the wrapped back ends.', [S + 'e_float/gmp/e_float_gmp.cpp', S + 'e_float/mpfr/e_float_mpfr.cpp'], [('wrappers', S + 'e_float/gmp/e_float_gmp.cpp')], over=('inputs', 'configurations'), observe=['gmp::e_float, mpfr::e_float'])
