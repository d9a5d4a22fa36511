// C09 built-in integers, C10 built-in floating point
#include "ef.h"
#include <e_float/e_float_functions.h>
// params: type, number of elements of |n| (1..3), sign. n covers every value of the type with that many elements.
static uint64_t mag(int w, uint64_t top) { uint64_t lo = w == 1 ? 0 : w == 2 ? BASE : 10000000000000000ULL, hi = w == 1 ? BASE - 1 : w == 2 ? 9999999999999999ULL : top; if (hi > top) hi = top; return vf_sym_u("n", lo, hi); }
template<class T> static void from_int(int w, bool neg) {
  uint64_t top = (uint64_t)std::numeric_limits<T>::max() + (neg ? 1 : 0), u = mag(w, top); T n = neg ? (T)(0 - u) : (T)u; e_float x(n);
  VF_ASSERT(ef_fin(x), "finite"); ef_check_rep(x, "normalised"); VF_ASSERT(x.my_prec_elem == NL, "full precision"); VF_ASSERT(x.my_exp == 8 * (w - 1), "exponent"); ZZ want = neg ? -ZZ(u) : ZZ(u); VF_ASSERT(zeq(ef_val(x), want), "represents the integer exactly");
  e_float y; y = n; VF_ASSERT(ef_same(x, y), "assignment from the integer");
  if (std::is_signed<T>::value) VF_ASSERT(x.extract_signed_long_long() == (long long)n, "signed round trip"); else VF_ASSERT(x.extract_unsigned_long_long() == (unsigned long long)n, "unsigned round trip");
  if (!neg && !(w == 3 && std::is_signed<T>::value == false)) VF_ASSERT(ef::to_int64(x) == (int64_t)n, "to_int64"); vf_reach("end"); ef_obs("x", x); }
VF_ENTRY(c09_from) {
  int ty = (int)vf_param(0), w = (int)vf_param(1); bool neg = vf_param(2) != 0;
  switch (ty) { case 0: from_int<signed char>(w, neg); break; case 1: from_int<unsigned char>(w, neg); break; case 2: from_int<short>(w, neg); break; case 3: from_int<unsigned short>(w, neg); break; case 4: from_int<int>(w, neg); break; case 5: from_int<unsigned>(w, neg); break; case 6: from_int<long>(w, neg); break; case 7: from_int<unsigned long>(w, neg); break; case 8: from_int<long long>(w, neg); break; default: from_int<unsigned long long>(w, neg); } }
// params: what (0 signed, 1 unsigned, 2 to_int32, 3 to_int64), exponent / 8 (or 9: all larger exponents, -9: all negative ones), sign
VF_ENTRY(c09_to) {
  int what = (int)vf_param(0); int64_t e = vf_param(1); bool neg = vf_param(2) != 0; e_float a = ef_sym("a", 0, neg); if (e == 9) a.my_exp = 8 * vf_sym_i("k", 3, 268435452); else if (e == -9) a.my_exp = -8 * vf_sym_i("k", 1, 268435452); else a.my_exp = 8 * e;
  ZZ t(0); if (e == 9) t = ZZ::H(vf_z_str("100000000000000000000000")); else if (e >= 0) for (int i = 0; i <= e; ++i) t = t * ZZ((unsigned)BASE) + ZZ((unsigned)a.my_data[i]); // integer part
  ZZ v = neg ? -t : t, lo, hi; ZZ got; 
  if (what == 0) { lo = ZZ::H(vf_z_str("-9223372036854775808")); hi = ZZ::H(vf_z_str("9223372036854775807")); got = ZZ(a.extract_signed_long_long()); }
  else if (what == 1) { if (neg) { lo = ZZ::H(vf_z_str("-9223372036854775808")); hi = ZZ(0); got = ZZ((long long)a.extract_unsigned_long_long()); } else { lo = ZZ(0); hi = ZZ::H(vf_z_str("18446744073709551615")); got = ZZ(a.extract_unsigned_long_long()); } }
  else if (what == 2) { lo = ZZ::H(vf_z_str("-2147483648")); hi = ZZ::H(vf_z_str("2147483647")); got = ZZ(ef::to_int32(a)); }
  else { lo = ZZ::H(vf_z_str("-9223372036854775808")); hi = ZZ::H(vf_z_str("9223372036854775807")); got = ZZ((long long)ef::to_int64(a)); }
  ZZ want = zite(zlt(hi, v), hi, zite(zlt(v, lo), lo, v)); VF_ASSERT(zeq(got, want), "integer part, or the nearest limit"); vf_reach("end"); vf_observe_z("got", got.h); }
VF_ENTRY(c09_inf) { // zero and the infinities
  e_float z, p = ef_kind("p", 2), m = ef_kind("m", 3); VF_ASSERT(z.extract_signed_long_long() == 0 && z.extract_unsigned_long_long() == 0 && ef::to_int32(z) == 0, "zero"); VF_ASSERT(p.extract_signed_long_long() == 9223372036854775807LL && m.extract_signed_long_long() == -9223372036854775807LL - 1, "infinity saturates"); VF_ASSERT(p.extract_unsigned_long_long() == 18446744073709551615ULL, "infinity saturates"); VF_ASSERT(ef::to_int32(p) == 2147483647 && ef::to_int32(m) == -2147483647 - 1, "infinity saturates"); vf_reach("end"); }
// ---- C10. params: type (0 float, 1 double, 2 long double), first binary exponent e of the value m * 2^e (m the full-width integer mantissa), sign, number of exponents
static ZZ pw2(int e) { return e >= 0 ? zpow(ZZ(2), e) : ZZ(1) / zpow(ZZ(2), -e); }
// multiplications of the converted (symbolic) number are collected in g_prod (their accuracy is C02's); constant ones are executed
static bool g_on = false; static ZZ g_prod; static bool g_neg;
extern "C" e_float &c10_mul(e_float &a, const e_float &b) {
  bool k = true; for (int i = 0; i < NL; ++i) k = k && vf_z_is_const(vf_z_u(a.my_data[i])); if (!g_on || k) return a.e_float::operator*=(b); g_prod = g_prod * ef_mag(b); if (b.my_neg) a.my_neg = !a.my_neg; return a; }
static void check_from(const e_float &x, ZZ M, int e, bool neg) { ZZ ex = M * pw2(e); VF_ASSERT(ef_fin(x), "finite"); ef_check_rep(x, "normalised"); VF_ASSERT(vf_iff(x.my_neg, neg), "sign"); ZZ v = ef_mag(x); if (!vf_is_native()) v = v * g_prod;
  if (e >= -100 && e <= 300) VF_ASSERT(zeq(v, ex), "represents the value exactly"); else { ZZ t = zten(vf_is_native() ? -103 : -104); VF_ASSERT(zle(v, ex * (ZZ(1) + t)), "represents the value to the stored width"); VF_ASSERT(zle(ex * (ZZ(1) - t), v), "represents the value to the stored width"); } vf_reach("end"); if (e >= -100 && e <= 100) vf_observe("neg", x.my_neg); }
static uint64_t bits(int n) { uint64_t m = 1; for (int i = n - 2; i >= 0; --i) m = 2 * m + vf_sym_u_at("bit", 0, 1, i); return m; }
VF_ENTRY(c10_from) {
  int ty = (int)vf_param(0), n = (int)vf_param(3), e = (int)vf_concrete(vf_param(1) + (n > 1 ? vf_sym_i("d", 0, n - 1) : 0)); bool neg = vf_param(2) != 0; g_prod = ZZ(1); g_on = true;
  if (ty == 0) { int64_t m = (int64_t)bits(24); float f = vf_make_f(neg ? -m : m, e); check_from(e_float(f), ZZ(m), e, neg); }
  else if (ty == 1) { int64_t m = (int64_t)bits(53); double f = vf_make_d(neg ? -m : m, e); check_from(e_float(f), ZZ(m), e, neg); }
  else { uint64_t m = bits(64); long double f = vf_make_ld(m, e, neg); check_from(e_float(f), ZZ(m), e, neg); } }
VF_ENTRY(c10_special) { double inf = std::numeric_limits<double>::infinity(); e_float a(inf), b(-inf), c(std::numeric_limits<double>::quiet_NaN()), d(0.0), f(std::numeric_limits<float>::infinity()), g(-std::numeric_limits<long double>::infinity()), h(std::numeric_limits<float>::quiet_NaN());
  VF_ASSERT(a.isinf() && !a.isneg() && b.isinf() && b.isneg() && c.isnan() && d.iszero() && f.isinf() && !f.isneg() && g.isinf() && g.isneg() && h.isnan(), "special values carry over");
  for (int k = 1; k < 5; ++k) { e_float x = ef_kind("x", k); double v = x.extract_double(); long double w = x.extract_long_double(); VF_ASSERT(k == 1 ? v == 0 && w == 0 : k == 2 ? v == inf && w == inf : k == 3 ? v == -inf && w == -inf : v != v && w != w, "special values are extracted"); } vf_reach("end"); }
// params: element exponent, sign, type (0 double, 1 long double), split (number of leading elements equal to those of the largest double, the next one different; -1: no split). Decimal digits symbolic.
VF_ENTRY(c10_to) {
  int k = (int)vf_param(0); bool neg = vf_param(1) != 0; int ty = (int)vf_param(2); int d = vf_param(3) > 0 ? 4 : (int)vf_concrete(vf_sym_i("d", 0, 7)); e_float a = ef_symd("a", 8 * k, neg, d); int sp = (int)vf_param(3); static const uint32_t DM[4] = {17976u, 93134862u, 31570814u, 52742373u}; for (int i = 0; i < sp; ++i) a.my_data[i] = DM[i]; if (sp >= 0) { bool lt = (bool)vf_concrete(vf_sym_u("lt", 0, 1)); vf_assume(lt ? a.my_data[sp] < DM[sp] : a.my_data[sp] > DM[sp]); } ZZ v = ef_mag(a);
  ZZ mn = ty ? ZZ::H(vf_z_ld(std::numeric_limits<long double>::min())) : ZZ::H(vf_z_d(std::numeric_limits<double>::min())), mx = ty ? ZZ::H(vf_z_ld(std::numeric_limits<long double>::max())) : ZZ::H(vf_z_d(std::numeric_limits<double>::max()));
  ZZ g; bool fin, zero, sg; if (ty == 0) { double r = a.extract_double(); fin = vf_fp_finite(r); zero = r == 0; sg = r < 0; if (fin) g = ZZ::H(vf_z_d(r)); } else { long double r = a.extract_long_double(); fin = r - r == 0; zero = r == 0; sg = r < 0; if (fin) g = ZZ::H(vf_z_ld(r)); }
  if (!fin) { VF_ASSERT(zle(mx * (ZZ(1) - zten(-15)), v), "infinite only beyond the largest value"); VF_ASSERT(sg == neg, "sign of the infinity"); }
  else if (zero) VF_ASSERT(zlt(v, mn * (ZZ(1) + zten(-15))), "zero only below the smallest normal value");
  else { VF_ASSERT(sg == neg, "sign"); ZZ w = neg ? -g : g; ZZ eps = ty ? ZZ(1) / zpow(ZZ(2), 64) + ZZ(1) * zten(-20) : ZZ(1) / zpow(ZZ(2), 53) + zten(-17); VF_ASSERT(zle(w - v, v * eps), "adjacent to the exact value"); VF_ASSERT(zle(v - w, v * eps), "adjacent to the exact value"); VF_ASSERT(zle(v, mx * (ZZ(1) + zten(-15))), "finite only within range"); }
  vf_reach("end"); vf_observe("fin", fin); }
