// C01 addition/subtraction, C02 multiplication, C03 small integer factors and divisors
#include "ef.h"
static e_float apply_as(int64_t op, const e_float &a, const e_float &b) { // 0 +=, 1 -=, 2 +, 3 -
  if (op == 0) { e_float r(a); e_float &q = (r += b); VF_ASSERT(&q == &r, "compound assignment returns its left operand"); return r; }
  if (op == 1) { e_float r(a); e_float &q = (r -= b); VF_ASSERT(&q == &r, "compound assignment returns its left operand"); return r; }
  if (op == 2) return a + b;
  return a - b;
}
// params: limb offset between the exponents, base exponent / 8, operation
VF_ENTRY(c01_add) {
  int64_t off = vf_param(0), e0 = vf_param(1) * 8, op = vf_param(2);
  e_float a = ef_syms("a", e0), b = ef_syms("b", e0 + off * 8); const e_float a0(a), b0(b);
  e_float r = apply_as(op, a, b); bool minus = op == 1 || op == 3;
  VF_ASSERT(ef_same(a, a0) && ef_same(b, b0), "operands unchanged");
  VF_ASSERT(ef_fin(r), "finite"); ef_check_rep(r, "result is normalised");
  ZZ va = ef_val(a, e0), vb = ef_val(b, e0), ex = minus ? va - vb : va + vb, rv = ef_val(r, e0), err = zabs(rv - ex), ma = ef_mag(a, e0), mb = ef_mag(b, e0);
  VF_ASSERT(either(zle(err, ma * ZZ(2) * zten(-120)), zle(err, mb * ZZ(2) * zten(-120))), "sum within two units of the last stored position of the larger operand");
  if (off == 0) { // aligned operands: nothing is lost unless the sum carries into a new leading element
    VF_ASSERT(either(zeq(rv, ex), zle(ZZ(100000000), zabs(ex))), "aligned sums and differences are exact");
    VF_ASSERT(vf_iff(zeq(ex, ZZ(0)), r.iszero()), "zero exactly when the exact result is zero"); }
  if (off < -15) VF_ASSERT(ef_same(r, a), "a negligible operand leaves the other unchanged");
  if (off > 15) { VF_ASSERT(ef_same_mag(r, b), "a negligible operand leaves the other unchanged"); VF_ASSERT(vf_iff(r.my_neg, minus ? !b.my_neg : b.my_neg), "sign of the dominating operand"); }
  vf_reach("end"); ef_obs("r", r);
}
// exponents further apart than the stored width, symbolic
VF_ENTRY(c01_far) {
  int64_t op = vf_param(0); int64_t ka = vf_sym_i("ka", -268435452, 268435451), d = vf_sym_i("d", 16, 536870904); bool swapd = vf_param(1);
  vf_assume(ka + d <= 268435451); e_float hi = ef_syms("a", 0), lo = ef_syms("b", 0); lo.my_exp = ka * 8; hi.my_exp = (ka + d) * 8;
  e_float r = swapd ? apply_as(op, lo, hi) : apply_as(op, hi, lo); bool minus = op == 1 || op == 3;
  VF_ASSERT(ef_same_mag(r, hi), "a negligible operand leaves the other unchanged");
  VF_ASSERT(vf_iff(r.my_neg, (swapd && minus) ? !hi.my_neg : hi.my_neg), "sign of the dominating operand");
  vf_reach("end");
}
VF_ENTRY(c01_zero) { // zero operands and an operand combined with itself
  int64_t w = vf_param(0); e_float a = ef_syms("a", 0), z; int64_t k = vf_sym_i("k", -268435451, 268435450); a.my_exp = 8 * k; const e_float a0(a); e_float r;
  if (w == 0) { r = a; r += z; VF_ASSERT(ef_same(r, a), "x+0=x"); r = z; r += a; VF_ASSERT(ef_same(r, a), "0+x=x"); r = a; r -= z; VF_ASSERT(ef_same(r, a), "x-0=x"); r = z; r -= a; VF_ASSERT(ef_same_mag(r, a), "0-x=-x"); VF_ASSERT(vf_iff(r.my_neg, !a.my_neg), "0-x=-x"); }
  if (w == 1) { r = a; r -= r; VF_ASSERT(r.iszero() && !r.isneg(), "x-=x is zero"); r = a - a; VF_ASSERT(r.iszero() && !r.isneg(), "x-x is zero"); e_float n(a); n.negate(); r = a + n; VF_ASSERT(r.iszero() && !r.isneg(), "x+(-x) is zero"); }
  if (w == 2) { r = a; r += r; e_float t = a + a; VF_ASSERT(ef_same(r, t), "x+=x equals x+x"); ZZ ex = ef_sig(a) * ZZ(2); VF_ASSERT(r.my_exp - a.my_exp == 0 || r.my_exp - a.my_exp == 8, "exponent of the double"); ZZ err = ex - ef_sig(r) * zten(vf_concrete(r.my_exp - a.my_exp)); VF_ASSERT(both(zle(ZZ(0), err), zle(err, ex * zten(-120))), "doubling"); VF_ASSERT(vf_iff(r.my_neg, a.my_neg), "sign of the double"); }
  if (w == 3) { r = z; r += z; VF_ASSERT(r.iszero() && !r.isneg(), "0+0"); r -= z; VF_ASSERT(r.iszero() && !r.isneg(), "0-0"); r = z; r -= r; VF_ASSERT(r.iszero() && !r.isneg(), "0-=0"); }
  VF_ASSERT(ef_same(a, a0), "operand unchanged"); vf_reach("end");
}
// params: alias (0 r*=b, 1 r*=r, 2 a*b and b*a)
VF_ENTRY(c02_mul) {
  int64_t w = vf_param(0); e_float a = ef_syms("a", 0), b = w == 1 ? a : ef_syms("b", 0); int64_t ka = vf_sym_i("ka", -134217725, 134217724), kb = w == 1 ? ka : vf_sym_i("kb", -134217725, 134217724);
  a.my_exp = 8 * ka; b.my_exp = 8 * kb; const e_float a0(a), b0(b); e_float r;
  if (w == 0) { r = a; e_float &q = (r *= b); VF_ASSERT(&q == &r, "compound assignment returns its left operand"); } else if (w == 1) { r = a; r *= r; } else { r = a * b; }
  VF_ASSERT(ef_same(a, a0) && ef_same(b, b0), "operands unchanged"); VF_ASSERT(ef_fin(r), "finite"); ef_check_rep(r, "result is normalised"); VF_ASSERT(r.my_data[0] != 0, "product of non-zero numbers is non-zero");
  int64_t de = r.my_exp - a.my_exp - b.my_exp; VF_ASSERT(de == 0 || de == 8, "exponent of the product");
  ZZ ex = ef_sig(a) * ef_sig(b), err = ex - ef_sig(r) * zten(vf_concrete(de));
  VF_ASSERT(zle(ZZ(0), err), "product is truncated, never above the exact value"); VF_ASSERT(zle(err, ZZ(16) * zten(-112)), "product error");
  VF_ASSERT(vf_iff(r.my_neg, a.my_neg != b.my_neg), "sign of the product");
  if (w == 2) { e_float s = b * a; VF_ASSERT(ef_same(r, s), "multiplication commutes"); }
  vf_reach("end"); ef_obs("r", r);
}
// the product of numbers with few elements is exact. params: number of elements of a, of b (sum <= 16)
VF_ENTRY(c02_exact) {
  int n = (int)vf_param(0), m = (int)vf_param(1); e_float a = ef_syms("a", 8 * (n - 1), n), b = ef_syms("b", 8 * (m - 1), m), r(a); r *= b;
  VF_ASSERT(ef_fin(r), "finite"); ef_check_rep(r, "result is normalised"); VF_ASSERT(zeq(ef_mag(r), ef_mag(a) * ef_mag(b)), "products that fit are exact"); VF_ASSERT(vf_iff(r.my_neg, a.my_neg != b.my_neg), "sign of the product"); vf_reach("end"); ef_obs("r", r);
}
// reduced working precision: params: elements of the left and right operand's precision
VF_ENTRY(c02_prec) {
  int p = (int)vf_param(0), q = (int)vf_param(1), m = p < q ? p : q; e_float a = ef_syms("a", 0), b = ef_syms("b", 0); a.precision(8 * p); b.precision(8 * q); e_float r(a); r *= b;
  bool ok = true; for (int i = 0; i < NL; ++i) ok = both(ok, r.my_data[i] < BASE); VF_ASSERT(ok, "elements in range"); int64_t de = r.my_exp; VF_ASSERT(de == 0 || de == 8, "exponent"); ZZ ex = ef_sig(a) * ef_sig(b), err = zabs(ex - ef_sig(r) * zten(vf_concrete(de)));
  VF_ASSERT(zle(err, ZZ(2 * m + 2) * zten(-8 * (m - 2))), "product error at reduced precision"); VF_ASSERT(r.my_data[0] != 0, "non-zero"); vf_reach("end"); ef_obs("r", r);
}
VF_ENTRY(c02_zero) { int64_t w = vf_param(0); e_float a = ef_syms("a", 0), z, r; if (w == 0) { r = a; r *= z; } else if (w == 1) { r = z; r *= a; } else r = z * z; VF_ASSERT(r.iszero() && !r.isneg(), "product with zero is zero"); e_float one(1U), s(a); s *= one; VF_ASSERT(ef_same(s, a), "x*1=x"); s = one; s *= a; VF_ASSERT(ef_same(s, a), "1*x=x"); vf_reach("end"); }
// params: range of n (0: below 10^8, 1: two elements, 2-4: three elements), how the product is written
static uint64_t sym_n(int64_t w, uint64_t lo) { // 0..4 together cover every 64-bit value from lo on
  uint64_t n0 = w == 4 ? vf_sym_u("n0", 0, 9551615) : vf_sym_u("n0", w == 0 ? lo : 0, BASE - 1); if (w == 0) return n0;
  uint64_t n1 = w == 1 ? vf_sym_u("n1", 1, BASE - 1) : w == 2 ? vf_sym_u("n1", 0, BASE - 1) : w == 3 ? vf_sym_u("n1", 0, 67440736) : 67440737; if (w == 1) return n1 * BASE + n0;
  uint64_t n2 = w == 2 ? vf_sym_u("n2", 1, 1843) : 1844; return n2 * 10000000000000000ULL + n1 * BASE + n0; }
VF_ENTRY(c03_muln) {
  int64_t w = vf_param(0), viaop = vf_param(1); e_float a = ef_syms("a", 0); int64_t k = vf_sym_i("k", -268435400, 268435400); a.my_exp = 8 * k; uint64_t n = sym_n(w, 0); e_float r(a);
  if (viaop == 0) { e_float &q = r.mul_unsigned_long_long(n); VF_ASSERT(&q == &r, "returns its left operand"); } else if (viaop == 1) r *= n; else if (viaop == 2) r = a * n; else r = n * a;
  if (r.iszero()) { VF_ASSERT(n == 0, "zero only for a zero factor"); VF_ASSERT(!r.isneg() && r.my_exp == 0, "zero is positive"); vf_reach("zero"); return; }
  VF_ASSERT(n != 0, "zero factor gives zero"); VF_ASSERT(ef_fin(r), "finite"); ef_check_rep(r, "result is normalised"); int64_t de = r.my_exp - a.my_exp; VF_ASSERT(de >= 0 && de <= 24, "exponent"); ZZ ex = ef_sig(a) * ZZ(n), err = ex - ef_sig(r) * zten(vf_concrete(de));
  VF_ASSERT(zle(ZZ(0), err), "product is truncated, never above the exact value"); VF_ASSERT(zle(err, ex * ZZ(w == 0 ? 1 : 16) * zten(w == 0 ? -120 : -112)), "product error"); VF_ASSERT(vf_iff(r.my_neg, a.my_neg), "sign"); vf_reach("end"); ef_obs("r", r);
}
VF_ENTRY(c03_divn) {
  int64_t viaop = vf_param(0); e_float a = ef_syms("a", 0); int64_t k = vf_sym_i("k", -268435400, 268435400); a.my_exp = 8 * k; uint64_t n = vf_sym_u("n", 1, BASE - 1); e_float r(a);
  if (viaop == 0) { e_float &q = r.div_unsigned_long_long(n); VF_ASSERT(&q == &r, "returns its left operand"); } else if (viaop == 1) r /= n; else r = a / n;
  VF_ASSERT(ef_fin(r) && !r.iszero(), "finite and non-zero"); ef_check_rep(r, "result is normalised"); int64_t de = r.my_exp - a.my_exp; VF_ASSERT(de == 0 || de == -8, "exponent"); ZZ err = ef_sig(a) - ef_sig(r) * zten(vf_concrete(de)) * ZZ(n);
  VF_ASSERT(zle(ZZ(0), err), "quotient is truncated, never above the exact value"); VF_ASSERT(zlt(err, ZZ(n) * zten(-120 + vf_concrete(de))), "quotient error below one unit of its last element"); VF_ASSERT(vf_iff(r.my_neg, a.my_neg), "sign"); vf_reach("end"); ef_obs("r", r);
}
