// C11 integer and fractional parts, rounding, integrality
#include "ef.h"
#include <e_float/e_float_functions.h>
// the digits before the point, scaled by 10^-e0
static ZZ ipart(const e_float &x) { ZZ t(0); int64_t e = x.my_exp; if (e >= 0) for (int i = 0; i < NL; ++i) if (e - 8 * i >= 0) t = t + ZZ((unsigned)x.my_data[i]) * zten(e - 8 * i); return t; }
// params: element exponent / 8 (concrete), sign
VF_ENTRY(c11_parts) {
  int64_t k = vf_param(0); bool neg = vf_param(1) != 0; e_float a = ef_sym("a", 8 * k, neg); const e_float a0(a); ZZ m = ef_mag(a), t = ipart(a), d = m - t;
  e_float ip = a.extract_integer_part(), dp = a.extract_decimal_part(); VF_ASSERT(ef_fin(ip) && ef_fin(dp), "finite"); ef_check_rep(ip, "normalised"); if (dp.my_data[0] != 0) ef_check_rep(dp, "normalised"); else VF_ASSERT(dp.iszero(), "normalised");
  VF_ASSERT(zeq(ef_mag(ip), t), "digits before the point"); VF_ASSERT(zeq(ef_mag(dp), d), "digits after the point"); VF_ASSERT(ip.iszero() || ip.my_neg == neg, "sign of the integer part"); VF_ASSERT(dp.iszero() || dp.my_neg == neg, "sign of the fractional part");
  VF_ASSERT(ip.isint(), "the integer part is an integer"); VF_ASSERT(vf_iff(a.isint(), zeq(d, ZZ(0))), "integrality"); VF_ASSERT(ef_same(ef::integer_part(a), ip), "integer_part"); VF_ASSERT(ef_same(ef::decimal_part(a), dp), "decimal_part");
  VF_ASSERT(ef_same(a, a0), "operand left alone"); vf_reach("end"); ef_obs("ip", ip); vf_observe("dp", dp.my_data[0]); }
VF_ENTRY(c11_round) { // floor and ceiling; params as above
  int64_t k = vf_param(0); bool neg = vf_param(1) != 0; e_float a = ef_sym("a", 8 * k, neg); ZZ m = ef_mag(a), v = neg ? -m : m, t = ipart(a); bool in = zeq(m, t);
  e_float f = ef::floor(a), c = ef::ceil(a); VF_ASSERT(ef_fin(f) && ef_fin(c), "finite"); ef_check_rep(f, "normalised"); ef_check_rep(c, "normalised");
  ZZ wf = neg ? zite(in, -t, -t - ZZ(1)) : t, wc = neg ? -t : zite(in, t, t + ZZ(1)); VF_ASSERT(zeq(ef_val(f), wf), "floor"); VF_ASSERT(zeq(ef_val(c), wc), "ceiling"); vf_reach("end"); ef_obs("f", f); ef_obs("c", c); }
VF_ENTRY(c11_far) { // params: 0 exponents beyond the stored digits, 1 negative ones; sign
  int big = vf_param(0) == 0; bool neg = vf_param(1) != 0; e_float a = ef_sym("a", 0, neg); a.my_exp = big ? 8 * vf_sym_i("k", 15, 268435452) : -8 * vf_sym_i("k", 1, 268435452); e_float ip = a.extract_integer_part(), dp = a.extract_decimal_part();
  if (big) { VF_ASSERT(ef_same(ip, a) && dp.iszero() && ef_fin(dp), "all digits are before the point"); VF_ASSERT(a.isint(), "integer"); VF_ASSERT(ef_same(ef::floor(a), a) && ef_same(ef::ceil(a), a), "rounding an integer"); }
  else { VF_ASSERT(ef_same(dp, a) && ip.iszero() && ef_fin(ip), "all digits are after the point"); VF_ASSERT(!a.isint(), "not an integer"); e_float f = ef::floor(a), c = ef::ceil(a); VF_ASSERT(ef_fin(f) && ef_fin(c), "finite"); VF_ASSERT(neg ? f == e_float(-1) && c.iszero() : f.iszero() && c.isone(), "neighbouring integers"); } vf_reach("end"); }
VF_ENTRY(c11_kinds) { for (int k = 1; k < 5; ++k) { e_float x = ef_kind("x", k), ip = x.extract_integer_part(), dp = x.extract_decimal_part(), f = ef::floor(x), c = ef::ceil(x); VF_ASSERT(ef_same(ip, x), "integer part"); VF_ASSERT(ef_same(f, x) && ef_same(c, x), "rounding"); if (k == 1) VF_ASSERT(dp.iszero(), "fractional part of zero"); VF_ASSERT(x.isint() == (k == 1), "integrality"); VF_ASSERT(ef::sgn(x) == (k == 1 ? 0 : k == 3 ? -1 : 1) || k == 4, "sgn"); } vf_reach("end"); }
// fmod over an inexact quotient: the division is replaced by any 16-element number within 1e-100 (relative) of the exact quotient (C04)
static ZZ q_num, q_den; static int q_k;
extern "C" void fm_div(e_float &r, const e_float &u, const e_float &v) { // returns u / v
  new (&r) e_float(ef_sym("q", 8 * q_k, u.my_neg != v.my_neg)); ZZ q = ef_mag(r), a = ef_mag(u), b = ef_mag(v); ZZ e = zabs(q * b - a); vf_assume(zle(e, a * zten(-100))); }
VF_ENTRY(c11_fmod) { // params: elements of the dividend, elements of the divisor (both from the first before the point), quotient exponent / 8, signs
  int n1 = (int)vf_param(0), n2 = (int)vf_param(1); q_k = (int)vf_param(2); e_float a = ef_sym("a", 0, vf_param(3) & 1, n1), b = ef_sym("b", 0, (vf_param(3) & 2) != 0, n2); ZZ A = ef_mag(a), B = ef_mag(b);
  e_float r = ef::fmod(a, b); VF_ASSERT(ef_fin(r), "finite"); ef_check_rep(r, "normalised"); ZZ R = ef_mag(r); VF_ASSERT(zlt(R, B), "below the divisor"); VF_ASSERT(r.iszero() || r.my_neg == a.my_neg, "sign of the dividend"); vf_reach("end"); }
VF_ENTRY(c11_fmod_native) { uint64_t m = vf_sym_u("m", 0, 9999), y = vf_sym_u("y", 1, 9999), c = vf_sym_u("c", 0, 4); uint64_t x = m * y + (c == 1 ? 1 : c == 2 ? y - 1 : c == 3 ? y / 2 : 0); if (x == 0) vf_stop(); e_float a(x), b(y); if (vf_param(3) & 1) a.negate(); if (vf_param(3) & 2) b.negate(); e_float r = ef::fmod(a, b); uint64_t w = x % y; e_float t(w); if (vf_param(3) & 1) t.negate(); VF_ASSERT(r == t, "remainder of integers"); }
