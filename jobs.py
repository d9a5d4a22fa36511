"""What each property's check runs: symbolic jobs (harness entry + parameters) and their bounds."""
U = 'e_float/efx/e_float_efx.cpp e_float/e_float.cpp e_float/e_float_base.cpp functions/constants/constants.cpp functions/elementary/elementary_math.cpp'.split()
ALL = U + ('functions/elementary/elementary_complex.cpp functions/elementary/elementary_hyper_g.cpp functions/elementary/elementary_trans.cpp functions/elementary/elementary_trig.cpp functions/gamma/factorial.cpp functions/gamma/factorial2.cpp functions/gamma/gamma.cpp functions/gamma/gamma_util.cpp functions/gamma/pochhammer.cpp functions/integer/bernoulli_b.cpp functions/integer/prime.cpp functions/integer/prime_factor.cpp functions/tables/A000142.cpp functions/tables/A000367.cpp functions/tables/A002445.cpp functions/tables/A006882.cpp functions/tables/A007318.cpp functions/zeta/zeta.cpp utility/util_digit_scale.cpp utility/util_power_j_pow_x.cpp utility/util_timer.cpp').split()
UNITS = {'efx': ALL, 'core': U}
FLAVOURS = {'efx': dict(defs=['E_FLOAT_TYPE_EFX', 'E_FLOAT_TEST_REAL_IMAG_TESTS'])}
COMMON_ASSUMPTIONS = [
    'the library is compiled with clang 18 to LLVM IR from /repo on every run; the IR is executed symbolically by /verif/engine (z3 decides)',
    'efx back end at the default 101 decimal digits (16 elements of base 10^8); operands are normalised numbers unless stated',
    'allocation never fails; one thread']
PROPS = {}; _J = {}
def job(harness, entry, params=(), units='efx', flavour='efx', deadline=120, opts=(), over=(), samples=2, native=True, reach=('end',), thorough=False, search=15, bounds='', defs=(), extra=(), name=None, native_entry=None, fixed_deadline=False):
    return dict(harness=harness, entry=entry, params=list(params), units=units, flavour=flavour, deadline=deadline, opts=list(opts), over=list(over), samples=samples, native=native, reach=list(reach), thorough=thorough, search=search, bounds=bounds, defs=list(defs), extra=list(extra), name=name or (entry + ''.join('_%d' % p for p in params)), native_entry=native_entry, fixed_deadline=fixed_deadline)
def prop(pid, bounds, jobs, assumptions=()):
    PROPS[pid] = dict(bounds=bounds, assumptions=list(assumptions)); _J[pid] = jobs
def jobs_of(pid): return _J[pid]

A = 'arith.cpp'
prop('C01', 'both operands any normalised 16-element number of either sign; element offsets -17..17 one job each, all larger offsets at once with symbolic exponents',
     [job(A, 'c01_add', (o, 0, o % 2), bounds='offset %d' % o) for o in range(-17, 18)] + [job(A, 'c01_add', (o, e, op), thorough=abs(o) > 1 or e == 0, bounds='offset %d, base exponent %d, op %d' % (o, 8 * e, op)) for o in range(-17, 18) for e, op in ((1000, 2), (-1000, 3), (0, 1 - o % 2), (0, 2 + o % 2))]
     + [job(A, 'c01_far', (op, s), reach=('end',), bounds='exponents symbolic, at least 16 elements apart') for op in range(4) for s in (0, 1)] + [job(A, 'c01_zero', (w,)) for w in range(4)])
prop('C02', 'both operands any normalised 16-element number of either sign with symbolic exponents (result in range)',
     [job(A, 'c02_mul', (w,)) for w in range(3)] + [job(A, 'c02_zero', (w,)) for w in range(3)] + [job(A, 'c02_exact', (n, m), thorough=not (n in (1, 2, 5, 8, 15) or n == m)) for n in range(1, 16) for m in range(1, 17 - n)] + [job(A, 'c02_prec', (p, q), thorough=not (p == q or p + q == 18)) for p in range(3, 17) for q in range(3, 17)])
prop('C03', 'any normalised 16-element number; n any 64-bit unsigned integer for products, 1..10^8-1 for quotients (larger divisors go through division, C04)',
     [job(A, 'c03_muln', (w, v), reach=('end',)) for w in range(5) for v in range(4)] + [job(A, 'c03_divn', (v,)) for v in range(3)])
Cm = 'compare.cpp'
prop('C06', 'any two finite numbers of either sign (aligned and neighbouring exponents with exact values, all other exponents symbolic), zero, infinities, NaN; built-in integers of every magnitude band',
     [job(Cm, 'c06_fin', (o, e)) for o in (-2, -1, 0, 1, 2) for e in (0, 77)] + [job(Cm, 'c06_far')] + [job(Cm, 'c06_kind', (k, m)) for k in range(5) for m in range(5) if (k, m) != (0, 0)] + [job(Cm, 'c06_pred', (k,)) for k in range(5)]
     + [job(Cm, 'c06_builtin', (e, nl, ty, w), thorough=not ((e, nl, w) in ((0, 16, 0), (1, 3, 1), (2, 16, 2)) or ty > 1 and e < 2)) for ty in range(4) for w in ((0, 1, 2) if ty < 2 else (0,)) for e, nl in ((-1, 3), (0, 1), (0, 16), (1, 2), (1, 3), (1, 16), (2, 3), (2, 16), (3, 2))])
Sp = 'special.cpp'
INV = ['efx::e_float::calculate_inv()=>inv_model']
prop('C07', 'every combination of finite non-zero (symbolic, exponents within +-8e8), zero, both infinities and NaN for + - * / in compound and binary form; all 64-bit integers against special values',
     [job(Sp, 'c07_pair', (op, f, k, m), over=INV if op == 3 and m == 0 else ()) for op in range(4) for f in (0, 1) for k in range(5) for m in range(5) if not (k == 0 and m == 0 and (op != 2))]
     + [job(Sp, 'c07_self', (op, k)) for op in range(4) for k in range(5)] + [job(Sp, 'c07_int', (op, k, f)) for op in range(4) for k in range(5) for f in range(4)] + [job(Sp, 'c07_nint', (op, k)) for op in range(4) for k in range(1, 5)] + [job(Sp, 'c07_unary', (k,)) for k in range(5)],
     ['the reciprocal of a finite non-zero divisor is a finite non-zero number of the same sign (C04)'])
prop('C08', 'operands with exponents so that the exact result lies within three elements of either range limit, and everything beyond symbolically',
     [job(Sp, 'c08_mul', (d, s, f, nl), thorough=f == 1 or nl == 16 and s == 1 and d in (-1, 0), bounds='operands of %d elements' % nl) for s in (1, -1) for d in (-2, -1, 0, 1) for f in (0, 1) for nl in ((5, 16) if s == 1 and d in (-1, 0) else (16,))] + [job(Sp, 'c08_mulfar', (s,)) for s in (1, -1)] + [job(Sp, 'c08_int', (d, s, dv, sg)) for s in (1, -1) for d in ((-2, -1, 0) if s > 0 else (0, 1, 2)) for dv in (0, 1) for sg in (0, 1)]
     + [job(Sp, 'c08_add', (1, o, op, 0)) for o in (0, -1, -2, -7, -15) for op in (0, 1)] + [job(Sp, 'c08_add', (-1, -o, op, b)) for b in (0, 1, 2, 14) for o in range(0, b + 1) for op in (0, 1)])
FLAVOURS['ghost'] = dict(defs=FLAVOURS['efx']['defs'], bcflags=['-fno-inline'])
Nw = 'newton.cpp'
G_OPS = ['efx::e_float::operator*=(efx::e_float const&)=>g_mul', 'efx::e_float::operator+=(efx::e_float const&)=>g_add', 'efx::e_float::operator-=(efx::e_float const&)=>g_sub', 'efx::e_float::mul_unsigned_long_long(unsigned long long)=>g_muli', 'efx::e_float::isone() const=>g_isone', 'efx::e_float::precision(int)=>g_prec', 'efx::e_float::extract_parts(double&, long&) const=>g_parts']
G_INV = G_OPS + ['efx::e_float::e_float(double, long)=>g_ctor_inv']
EST = [job(Nw, 'est_parts', (d,)) for d in range(8)] + [job(Nw, 'est_ctor', (p, r, s), thorough=s == 1 and r not in (0, 5)) for p in range(-5, 4) for r in range(8) for s in (0, 1)]
prop('C04', 'the whole Newton iteration executed over a symbolic operand (any magnitude, exponents within +-2e9, both signs, working precision of 9 and 16 elements), each multiplication and addition replaced by the error bound proved for C01-C03 and the starting estimate by the bound proved here for every number; quotients with exponents within +-9e8; relative error below 1e-110',
     [job(Nw, 'c04_newton', (s, pe), flavour='ghost', over=G_INV, native_entry='c04_newton_native', samples=0) for s in (0, 1) for pe in (16, 9)]
     + [job(Nw, 'c04_div', (f, s, t), flavour='ghost', over=G_OPS + ['efx::e_float::calculate_inv()=>g_inv'], native_entry='c04_div_native', samples=0) for f in (0, 1) for s in (0, 1) for t in (0, 1)] + [job(Nw, 'c04_one', (s, pe)) for s in (0, 1) for pe in (16, 5)] + EST,
     ['products, sums and differences inside the iteration satisfy the error bounds of C01 and C02'])
G_SQ = [o for o in G_OPS if 'extract_parts' not in o] + ['efx::e_float::extract_parts(double&, long&) const=>g_parts2', 'efx::e_float::e_float(double, long)=>g_ctor_sqrt', 'efx::e_float::get_order_fast() const=>g_order']
prop('C05', 'the whole coupled Newton iteration executed over a symbolic positive operand (any magnitude, exponents within +-2e9, odd and even order), each operation replaced by the error bound proved for C01-C03, the starting estimates by the bounds proved here; the order test is left open in both directions; relative error below 1e-109',
     [job(Nw, 'c05_newton', (o, pe), flavour='ghost', over=G_SQ, native_entry='c05_newton_native', samples=0) for o in (0, 1) for pe in (16, 9)] + [job(Nw, 'c05_muli', (p,), thorough=p not in (5, 8, 14)) for p in range(3, 16)] + [job(Nw, 'c05_special', (k,)) for k in range(6)] + EST,
     ['products, sums and differences inside the iteration satisfy the error bounds of C01 and C02'])
Cv = 'convert.cpp'
prop('C09', 'every value of the ten standard integer types; any number of either sign with every exponent (exact integer part for exponents below 10^24, saturation for all larger ones, zero for all negative ones)',
     [job(Cv, 'c09_from', (ty, w, n), thorough=ty in (6, 7)) for ty in range(10) for w in (1, 2, 3) for n in (0, 1) if not (n and ty % 2) and not (w > 1 and ty < 4) and not (w > 2 and ty < 6)]
     + [job(Cv, 'c09_to', (what, e, n)) for what in range(4) for e in (-9, 0, 1, 2, 9) for n in (0, 1)] + [job(Cv, 'c09_inf')])
def c10f(t, e, n, k, over=True, th=False): return job(Cv, 'c10_from', (t, e, n, k), over=['efx::e_float::operator*=(efx::e_float const&)=>c10_mul'] if over else (), thorough=th, name='c10_from_%d_%d_%d_%s' % (t, e, n, 'x' if over else 'full'), samples=0 if over else 2)
FE = [c10f(1, e, n, 8) for e in range(-1074, 972, 8) for n in (0, 1) if n == (e // 8) % 2] + [c10f(0, e, n, 8) for e in range(-149, 105, 8) for n in (0, 1) if n == (e // 8) % 2] + [c10f(2, e, n, 8) for e in list(range(-16445, 16320, 1024)) + list(range(-128, 8, 8)) + [16313] for n in (0, 1)]
FX = [c10f(1, e, n, 8, False, th=e % 32 != 8) for e in range(-88, 97, 8) for n in (0, 1)] + [c10f(0, e, n, 8, False) for e in (-88, -24, 0, 97) for n in (0, 1)] + [c10f(2, e, n, 8, False, th=e % 32 != 0) for e in range(-88, 97, 8) for n in (0, 1)]
TO = [job(Cv, 'c10_to', (k, k % 2, 0, -1), thorough=k not in (-39, -38, -15, -2, -1, 0, 1, 2, 25, 37, 39)) for k in range(-39, 40) if k != 38] + [job(Cv, 'c10_to', (k, (k + 1) % 2, 1, -1), thorough=k not in (-39, -2, 0, 1, 3)) for k in list(range(-39, 40))] + [job(Cv, 'c10_to', (38, n, 0, sp)) for n, sp in ((0, 0), (1, 0), (0, 1), (1, 2))]
prop('C10', 'every full-width mantissa of float, double and long double with every binary exponent of float and double (subnormal ones included) and a spread of those of long double, both signs; in the other direction every 16-element number with element exponents -39..39 (all decades of the leading element; a spread of them in the quick tier): the result is within half a unit of the binary type plus the cut at its printed digits, zero only below the smallest normal value, infinite only above the largest', FE + FX + TO + [job(Cv, 'c10_special')])
Pt = 'parts.cpp'
prop('C11', 'any number of either sign; element exponents -2..16 with exact values, all others symbolically; remainders of single-element operands of any signs, for every quotient within 1e-100 of the exact one',
     [job(Pt, 'c11_parts', (k, n)) for k in range(-2, 17) for n in (0, 1)] + [job(Pt, 'c11_round', (k, n)) for k in range(-2, 16) for n in (0, 1)] + [job(Pt, 'c11_far', (w, n)) for w in (0, 1) for n in (0, 1)] + [job(Pt, 'c11_kinds')])
_J['C11'] += [job(Pt, 'c11_fmod', (n1, n2, k, s), over=['operator/(efx::e_float const&, efx::e_float const&)=>fm_div'], native_entry='c11_fmod_native', samples=0) for n1, n2, k in ((1, 1, 0), (1, 1, -1)) for s in range(4)]
Tx = 'text.cpp'
R1 = [job(Tx, 'c12_read', (ni, nf, (ni + nf) % 3, (3 * ni + nf) % 7, 1, (ni + nf) % 4)) for ni in range(0, 5) for nf in range(-1, 5) if ni + max(nf, 0) > 0]
R2 = [job(Tx, 'c12_read', (ni, nf, (ni + nf) % 3, (3 * ni + nf) % 7, 0, (ni + nf) % 4), thorough=(ni + nf) % 4 != 1) for ni in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 18, 24, 25) for nf in (-1, 0, 1, 7, 8, 9, 10, 15, 16, 17) if ni + max(nf, 0) > 0]
R3 = [job(Tx, 'c12_read', (ni, nf, (ni + nf) % 3, es, 0, (ni + nf) % 2), thorough=(ni + nf + es) % 3 != 0) for ni, nf in ((1, 120), (1, 121), (8, 120), (8, 121), (9, 112), (1, 127), (0, 121), (0, 128), (120, -1), (121, -1), (122, 3), (128, -1), (129, -1), (60, 61), (64, 64), (140, 5)) for es in (0, 1, 3, 5)]
R4 = [job(Tx, 'c12_range', (n, w, ni, sg)) for n in (0, 1) for w in (10, 11, 18, 19, 20, 21) for ni in (1, 9) for sg in (0, 1) if (w + ni + sg) % 2]
R5 = [job(Tx, 'c12_edge', (ni, en, (ni + en) % 2)) for ni in (1, 4, 8, 9, 17) for en in (0, 1)]
prop('C12', 'strings with up to 5+4 digits with every digit free (leading and trailing zeros included), and with up to 140 digits at every alignment of point and exponent to the elements; every exponent of one, two, three and nine digits, those next to the limits, and beyond-range exponents of up to 21 digits; each sign and exponent style; also into an object that held infinity or NaN', R1 + R2 + R3 + R4 + R5)
KM = 268435452; W1 = []
_f = 0
for (k, d) in ((0, 0), (0, 7), (0, 3), (1, 0), (-1, 7), (-1, 4), (-2, 6), (12, 0), (-13, 5), (KM, 7 - 7), (-KM, 0), (125000000, 2)):
    for p in (1, 2, 6, 7, 8, 9, 16, 17, 30, 101, 102, 103, 110):
        W1.append(job('text.cpp', 'c13_sci', (k, d, p, _f % 16, 16), deadline=240)); _f += 5
for d in range(8):
    for p in (3, 5, 15, 50): W1.append(job('text.cpp', 'c13_sci', (0, d, p, _f % 16, 16), deadline=240)); _f += 5
W2 = []
for (k, d) in ((0, 0), (0, 7), (0, 4), (1, 0), (1, 7), (-1, 7), (-1, 5), (-1, 2), (-1, 0), (-2, 7), (-2, 0), (3, 3), (11, 6), (12, 5), (12, 6), (13, 0), (-13, 5)):
    for p in (1, 3, 6, 9, 17, 40, 101, 110):
        W2.append(job('text.cpp', 'c13_fix', (k, d, p, _f % 16, 16), deadline=240)); _f += 5
W3 = []
for (k, d) in ((0, 0), (0, 7), (0, 4), (1, 0), (1, 7), (-1, 7), (-1, 5), (-1, 4), (-1, 3), (-2, 7), (3, 3), (12, 5), (12, 6), (-13, 5), (KM, 0), (-KM, 0)):
    for p in (1, 2, 6, 9, 17, 40): 
        W3.append(job('text.cpp', 'c13_def', (k, d, p, _f % 16, 16), deadline=240)); _f += 5
W4 = [job('text.cpp', 'c13_special', (m,)) for m in (0, 1, 2)] + [job('text.cpp', 'c13_width', (w, a, k)) for w in (0, 5, 12, 13, 20) for a in range(4) for k in ((0, 1, 2, 3, 4) if w in (5, 20) else (0,))]
prop('C13', 'numbers with all 128 stored digits free, every position of the leading digit in its element, decimal orders from -112 to 110 and at both exponent limits; precisions between 1 and 110; scientific, fixed and default notation with each combination of sign, point and letter flags; widths 0 to 20 with each adjustment; zero, infinities and NaN in every notation', W1 + W2 + W3 + W4)
T1 = []
for (k, d) in ((0, 0), (0, 1), (0, 2), (0, 3), (0, 4), (0, 5), (0, 6), (0, 7), (1, 0), (-1, 7), (-1, 3), (-2, 6), (5, 2), (-6, 1), (12, 0), (-13, 5), (KM, 0), (-KM, 0), (12500000, 2), (-125000000, 5)):
    for (p, m) in ((102, 1), (103, 1), (102, 0)) + (() if k == KM else ((20, 1),)): T1.append(job('text.cpp', 'c14_trip', (k, d, p, m, _f % 16 & 13, 13 if k == KM else 16, _f & 1), deadline=240)); _f += 5
for (k, d) in ((0, 0), (1, 7), (-1, 5), (3, 4), (11, 6)):
    for p in (10, 40, 90): T1.append(job('text.cpp', 'c14_trip', (k, d, p, 2, _f % 16 & 13, 16, _f & 1), deadline=240)); _f += 5
prop('C14', 'numbers with all 128 stored digits free, every position of the leading digit in its element, exponents including both limits; scientific notation at 20, 102 and 103 digits, default notation at 102 digits, fixed notation at 10, 40 and 90 decimals; read by constructor and by stream', T1)
prop('C15', 'numbers with all stored digits, exponents, signs and working precisions free, infinities, NaN and zero, over every special member; every sequence of three operations (30 copy, move, swap and negate operations on three numbers) per first operation; twelve groups of operations on every combination of operand kinds for leaks and operand integrity, and the reading of strings of 100 to 140 digits',
     [job('values.cpp', 'c15_members', (a, b)) for a in range(5) for b in range(5)] + [job('values.cpp', 'c15_seq', (3, o), deadline=200) for o in range(30)] + [job('values.cpp', 'c15_seq', (4, o), deadline=800, thorough=True) for o in range(30)] + [job('values.cpp', 'c15_leak', (a, b, o)) for a in range(5) for b in range(5) for o in (range(13) if a + b == 0 else range(12))])
prop('C16', 'arrays of every size up to 6 with arbitrary 32-bit elements; every pair of sizes; the fixed-size variant at 5 elements', [job('values.cpp', 'c16_members', (n, m)) for n in range(7) for m in range(7)] + [job('values.cpp', 'c16_cmp', (n, m)) for n in range(6) for m in range(6)] + [job('values.cpp', 'c16_fixed')])
prop('C17', 'every stored digit, sign and exponent free, for every position of the leading digit; every 32-bit precision argument; mantissa extraction and construction from mantissa and exponent for every leading digit and exponent residue', [job('values.cpp', 'c17_order', (d,)) for d in range(8)] + [job('values.cpp', 'c17_prec'), job('values.cpp', 'c17_special')] + EST)
