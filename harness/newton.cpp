// C04 division and reciprocal, C05 square root: the real iteration is executed over numbers whose value is a symbolic real
// rho * base^k * 10^exp; each arithmetic operation is replaced by its contract (C01, C02, C03), the estimates by theirs (below).
#include "ef.h"
#ifdef VF_NATIVE
#include <cstdio>
#endif
static const uint32_t MARK = 0xC0FFEE01u;
static ZZ g_base; static int g_calls = 0; static int g_ctor = 0, g_xk = 1; static double g_dd = 0; static int64_t g_xexp = 0; static ZZ g_sq; static int g_sqd = 0;
struct GV { ZZ rho; int k; int64_t exp; };
static bool isg(const e_float &x) { return x.my_data[15] == MARK; }
static GV gget(const e_float &x) {
  if (isg(x)) { ZZ r = ZZ::H((int)x.my_data[0] - 1); return {x.my_neg ? -r : r, (int)x.my_data[1] - 8, x.my_exp}; }
  return {ef_val(x), 0, 0}; }
static void gset(e_float &x, ZZ rho, int k, int64_t exp) { for (int i = 0; i < NL; ++i) x.my_data[i] = 0; x.my_data[0] = (uint32_t)rho.h + 1; x.my_data[1] = (uint32_t)(k + 8); x.my_data[15] = MARK; x.my_exp = exp; x.my_neg = false; x.my_fpclass = e_float::ef_finite; }
static ZZ fresh(ZZ lo, ZZ hi) { return ZZ::H(vf_fresh("e", ZZ(++g_calls).h, lo.h, hi.h)); }
static bool within(ZZ v, ZZ lo, ZZ hi) { return both(zle(lo, v), zle(v, hi)); }
static const char *contract_mul = "product outside the proved range of the multiplication contract";
extern "C" e_float &g_mul(e_float &a, const e_float &b) {
  GV x = gget(a), y = gget(b); int m = a.my_prec_elem < b.my_prec_elem ? a.my_prec_elem : b.my_prec_elem; VF_ASSERT(m >= 3 && m <= 16, contract_mul);
  ZZ eps = m == 16 ? ZZ(16) * zten(-112) : ZZ(2 * m + 2) * zten(-8 * (m - 2)); ZZ e = m == 16 ? fresh(-eps, ZZ(0)) : fresh(-eps, eps);
  gset(a, x.rho * y.rho * (ZZ(1) + e), x.k + y.k, x.exp + y.exp); return a; }
static e_float &gadd(e_float &a, const e_float &b, bool minus) {
  GV x = gget(a), y = gget(b); VF_ASSERT(x.k == y.k, "operands of different magnitude"); VF_ASSERT(x.exp == y.exp, "operands of different exponent"); VF_ASSERT(within(x.rho, ZZ(-4), ZZ(4)), "addition contract"); VF_ASSERT(within(y.rho, ZZ(-4), ZZ(4)), "addition contract");
  ZZ e = fresh(ZZ(-8) * zten(-120), ZZ(8) * zten(-120)); gset(a, (minus ? x.rho - y.rho : x.rho + y.rho) + e, x.k, x.exp); return a; }
extern "C" e_float &g_add(e_float &a, const e_float &b) { return gadd(a, b, false); }
extern "C" e_float &g_sub(e_float &a, const e_float &b) { return gadd(a, b, true); }
extern "C" e_float &g_muli(e_float &a, unsigned long long n) { GV x = gget(a); int m = a.my_prec_elem; ZZ eps = m == 16 ? zten(-111) : ZZ(4) * zten(-8 * (m - 1)); VF_ASSERT(n == 2, "the factor is two"); gset(a, x.rho * ZZ(n) * (ZZ(1) + fresh(-eps, m == 16 ? ZZ(0) : eps)), x.k, x.exp); a.my_prec_elem = m; return a; }
extern "C" bool g_isone(const e_float &) { return false; } // exactly one is a separate case
extern "C" void g_prec(e_float &x, int digits) { int e = digits / 8 + (digits % 8 != 0); e = e < 2 ? 2 : e > 16 ? 16 : e; x.my_prec_elem = e; if (isg(x)) { GV v = gget(x); ZZ c = v.k == g_xk ? ZZ(1) : v.k == -1 && g_xk == 2 ? ZZ::H(vf_z_str("1/2")) : ZZ(1); gset(x, c + ZZ::H(vf_z_cut((v.rho - c).h)), v.k, v.exp); x.my_prec_elem = e; } }
// the mantissa is the true one to 1e-15, the exponent the decimal order
extern "C" void g_parts(const e_float &x, double &m, int64_t &e) { GV v = gget(x); VF_ASSERT(isg(x) && v.k == g_xk, "the operand's own parts are extracted"); ZZ u = ZZ::H(vf_real("u", "-1/1000000000000000", "1/1000000000000000")); m = vf_d_z((g_base * (ZZ(1) + u)).h); e = x.my_exp; g_dd = m; }
extern "C" void g_ctor_inv(e_float &x, double d, int64_t e) { new (&x) e_float(); ZZ v = ZZ::H(vf_z_d(d)); ZZ r = v * g_base; VF_ASSERT(zle(r, ZZ(1) + zten(-13)), "estimate of the reciprocal"); VF_ASSERT(zle(ZZ(1) - zten(-13), r), "estimate of the reciprocal"); ZZ dl = ZZ(2) * zten(-13); gset(x, ZZ(1) + fresh(-dl, dl), -1, e); }
VF_ENTRY(c04_newton) { // params: sign, initial precision in elements
  bool neg = vf_param(0); int pe = (int)vf_param(1); g_calls = 0; g_xk = 1; g_base = ZZ::H(vf_real("bm", "1", "10")); int64_t E = vf_sym_i("E", -2000000000, 2000000000); g_xexp = E; e_float x; gset(x, ZZ(1), 1, E); x.my_neg = neg; x.my_prec_elem = pe;
  e_float &q = x.calculate_inv(); VF_ASSERT(&q == &x, "returns its object"); VF_ASSERT(isg(x), "computed"); VF_ASSERT(x.my_neg == neg, "sign of the reciprocal"); VF_ASSERT(x.my_prec_elem == pe, "precision restored"); x.my_neg = false; GV r = gget(x); VF_ASSERT(r.k == -1, "dimension"); VF_ASSERT(r.exp == -E, "exponent of the reciprocal");
  ZZ tol = zten(-110); VF_ASSERT(zle(r.rho - ZZ(1), tol), "reciprocal accurate"); VF_ASSERT(zle(ZZ(1) - r.rho, tol), "reciprocal accurate"); vf_reach("end"); }
static e_float any_number() { return ef_syms("a", 8 * vf_sym_i("k", -250000000, 250000000)); }
VF_ENTRY(c04_newton_native) { e_float a = any_number(); if (vf_param(0)) a.my_neg = true; int pe = (int)vf_param(1); a.my_prec_elem = pe; e_float r(a); r.calculate_inv(); VF_ASSERT(ef_fin(r) && !r.iszero(), "finite"); ef_check_rep(r, "normalised"); VF_ASSERT(r.my_neg == a.my_neg, "sign of the reciprocal"); VF_ASSERT(r.my_prec_elem == pe, "precision restored"); int64_t de = r.my_exp + a.my_exp; VF_ASSERT(de == 0 || de == -8, "exponent"); ZZ p = ef_sig(a) * ef_sig(r) * zten(de), d = zabs(p - ZZ(1)); VF_ASSERT(zle(d, zten(-110)), "reciprocal accurate"); }
// ---- the contracts of the estimates, on the real code
VF_ENTRY(est_parts) { // params: decade of the leading element
  int d = (int)vf_param(0); int64_t k = vf_sym_i("k", -268435452, 268435452); e_float a = ef_sym("a", 0, false); uint32_t lo = 1; for (int i = 0; i < d; ++i) lo *= 10; a.my_data[0] = (uint32_t)vf_sym_u("lead", lo, lo * 10ull - 1); a.my_neg = (bool)vf_sym_u("s", 0, 1); a.my_exp = 8 * k;
  double m = 0; int64_t e = 0; a.extract_parts(m, e); VF_ASSERT(e == a.my_exp + d, "extracted exponent is the decimal order"); ZZ v = ZZ::H(vf_z_d(m)), ex = ef_sig(a) * zten(-d), av = zite(a.my_neg, -v, v); VF_ASSERT(zle(av - ex, ex * zten(-15)), "extracted mantissa"); VF_ASSERT(zle(ex - av, ex * zten(-15)), "extracted mantissa"); vf_reach("end"); vf_observe_i("e", e); }
VF_ENTRY(est_ctor) { // params: binary exponent of the mantissa (value in [2^p, 2^(p+1))), exponent modulo 8, sign
  int p = (int)vf_param(0), r8 = (int)vf_param(1), sg = (int)vf_param(2); int64_t M = vf_sym_i("M", 4503599627370496LL, 9007199254740991LL), k = vf_sym_i("k", -250000000, 250000000); double d = vf_make_d(sg ? -M : M, p - 52); e_float x(d, 8 * k + r8);
  VF_ASSERT(ef_fin(x), "finite"); ef_check_rep(x, "normalised"); VF_ASSERT(vf_iff(x.my_neg, sg != 0), "sign"); VF_ASSERT(x.my_prec_elem == NL, "full precision"); int64_t de = x.my_exp - 8 * k; VF_ASSERT(de >= -8 && de <= 8, "exponent"); ZZ v = ef_sig(x) * zten(vf_concrete(de) - r8), ex = ZZ(M) * (p - 52 >= 0 ? zpow(ZZ(2), p - 52) : ZZ::H(vf_z_ediv(ZZ(1).h, zpow(ZZ(2), 52 - p).h)));
  VF_ASSERT(zle(v - ex, ex * ZZ(3) * zten(-15)), "value of mantissa and exponent"); VF_ASSERT(zle(ex - v, ex * ZZ(3) * zten(-15)), "value of mantissa and exponent"); vf_reach("end"); ef_obs("x", x); }
extern "C" e_float &g_inv(e_float &x) { GV v = gget(x); bool n = x.my_neg; int p = x.my_prec_elem; VF_ASSERT(isg(x) && v.k == 1, "the divisor itself is inverted"); gset(x, ZZ(1) + fresh(ZZ(-1) * zten(-110), zten(-110)), -1, -x.my_exp); x.my_neg = n; x.my_prec_elem = p; return x; }
VF_ENTRY(c04_div) { // params: form, sign of the dividend, sign of the divisor; the reciprocal within 1e-110 of the exact one
  g_calls = 0; g_xk = 1; int64_t E1 = vf_sym_i("E1", -900000000, 900000000), E2 = vf_sym_i("E2", -900000000, 900000000); e_float u, v; ZZ ru = ZZ::H(vf_real("ru", "1", "100000000")); gset(u, ru, 0, E1); gset(v, ZZ(1), 1, E2); u.my_neg = (bool)vf_param(1); v.my_neg = (bool)vf_param(2);
  e_float w(u); const e_float v0(v); if (vf_param(0) == 0) { e_float &q = (w /= v); VF_ASSERT(&q == &w, "returns its object"); } else w = u / v;
  VF_ASSERT(isg(w), "computed"); GV r = gget(w); VF_ASSERT(r.k == -1, "dimension"); VF_ASSERT(r.exp == E1 - E2, "exponent of the quotient"); ZZ want = (vf_param(1) != vf_param(2)) ? -ru : ru; VF_ASSERT(zle(zabs(r.rho - want), ru * ZZ(2) * zten(-110)), "quotient accurate");
  bool same = v.my_exp == v0.my_exp && v.my_neg == v0.my_neg && v.my_prec_elem == v0.my_prec_elem; for (int i = 0; i < NL; ++i) same = both(same, v.my_data[i] == v0.my_data[i]); VF_ASSERT(same, "divisor left alone"); vf_reach("end"); }
VF_ENTRY(c04_div_native) { int64_t k1 = vf_sym_i("k1", -125000000, 125000000), k2 = vf_sym_i("k2", -125000000, 125000000); e_float a = ef_syms("a", 8 * k1), b = ef_syms("b", 8 * k2); if (vf_param(1)) a.my_neg = !a.my_neg; if (vf_param(2)) b.my_neg = !b.my_neg;
  e_float w(a); if (vf_param(0) == 0) w /= b; else w = a / b; VF_ASSERT(ef_fin(w) && !w.iszero(), "finite"); ef_check_rep(w, "normalised"); int64_t de = w.my_exp + b.my_exp - a.my_exp; VF_ASSERT(de >= -8 && de <= 8, "exponent of the quotient"); VF_ASSERT(w.my_neg == (a.my_neg != b.my_neg), "sign of the quotient"); ZZ d = ef_sig(w) * ef_sig(b) * zten(de) - ef_sig(a); VF_ASSERT(zle(zabs(d), ef_sig(a) * ZZ(2) * zten(-110)), "quotient accurate"); }
VF_ENTRY(c04_one) { // exactly one and minus one, any exponent-free precision; equal magnitudes divide to exactly one
  bool neg = vf_param(0); int pe = (int)vf_param(1); e_float x = ef::one(); if (neg) x.my_neg = true; x.my_prec_elem = pe; e_float y(x); y.calculate_inv(); VF_ASSERT(y.my_neg == neg && y.my_exp == 0 && y.my_data[0] == 1 && ef_fin(y), "reciprocal of one"); for (int i = 1; i < NL; ++i) VF_ASSERT(y.my_data[i] == 0, "reciprocal of one");
  e_float a = ef_syms("a", 8 * vf_sym_i("k", -268435452, 268435452)), b(a); bool flip = (bool)vf_sym_u("f", 0, 1); if (flip) b.my_neg = !b.my_neg; e_float q = a / b; VF_ASSERT(ef_fin(q) && q.my_exp == 0 && q.my_data[0] == 1, "equal magnitudes divide to one"); for (int i = 1; i < NL; ++i) VF_ASSERT(q.my_data[i] == 0, "equal magnitudes divide to one"); VF_ASSERT(vf_iff(q.my_neg, flip), "sign"); vf_reach("end"); ef_obs("q", q); }

// ---- square root: base is t = sqrt of the adjusted mantissa, so x = t^2 * 10^X, s = t(1+..) * 10^(X/2), v = (0.5+..)/t * 10^(-X/2)
static int g_odd = 0; static double g_first = 0;
extern "C" void g_parts2(const e_float &x, double &m, int64_t &e) { GV v = gget(x); VF_ASSERT(isg(x) && v.k == 2, "the operand's own parts are extracted"); ZZ u = ZZ::H(vf_real("u", "-1/1000000000000000", "1/1000000000000000")), w = g_base * g_base * (ZZ(1) + u); m = vf_d_z((g_odd ? w * ZZ(10) : w).h); e = x.my_exp - g_odd; }
extern "C" void g_ctor_sqrt(e_float &x, double d, int64_t e) {
  new (&x) e_float(); ZZ v = ZZ::H(vf_z_d(d)); ZZ dl = ZZ(2) * zten(-13); VF_ASSERT(zlt(ZZ(0), v), "estimate");
  if (++g_ctor == 1) { g_first = d; ZZ q = v * v, t = g_base * g_base; VF_ASSERT(zle(zabs(q - t), t * zten(-13)), "estimate of the square root"); VF_ASSERT(2 * e == g_xexp, "exponent of the estimate"); gset(x, ZZ(1) + fresh(-dl, dl), 1, e); }
  else { ZZ q = v * ZZ::H(vf_z_d(g_first)), h = ZZ::H(vf_z_str("1/2")); VF_ASSERT(zle(zabs(q - h), zten(-13)), "estimate of the reciprocal"); VF_ASSERT(2 * e == -g_xexp, "exponent of the estimate"); gset(x, h + fresh(-dl, dl), -1, e); } }
extern "C" int64_t g_order(const e_float &x) { GV v = gget(x); VF_ASSERT(isg(x) && v.k == 1, "order of the root or of its correction"); static int n = 0; bool small = (bool)vf_sym_u_at("small", 0, 1, ++n); if (!small) return 0; ZZ b = zten(-55); if (!both(zle(-b, v.rho), zle(v.rho, b))) vf_stop(); return -57; }
extern "C" bool g_isone2(const e_float &) { return false; }
VF_ENTRY(c05_newton) { // params: parity of the decimal order, initial precision in elements
  g_odd = (int)vf_param(0); int pe = (int)vf_param(1); g_calls = 0; g_ctor = 0; g_xk = 2; g_base = g_odd ? ZZ::H(vf_real("t", "316/1000", "1")) : ZZ::H(vf_real("t", "1", "3163/1000")); int64_t h = vf_sym_i("h", -1000000000, 1000000000); g_xexp = 2 * h; e_float x; gset(x, ZZ(1), 2, 2 * h); x.my_prec_elem = pe;
  e_float &q = x.calculate_sqrt(); VF_ASSERT(&q == &x, "returns its object"); VF_ASSERT(isg(x), "computed"); VF_ASSERT(x.my_prec_elem == pe, "precision restored"); GV r = gget(x); VF_ASSERT(r.k == 1, "dimension"); VF_ASSERT(r.exp == h, "exponent of the root");
  ZZ tol = zten(-109); VF_ASSERT(zle(r.rho - ZZ(1), tol), "square root accurate"); VF_ASSERT(zle(ZZ(1) - r.rho, tol), "square root accurate"); vf_reach("end"); }
VF_ENTRY(c05_newton_native) { e_float a = ef_sym("a", 8 * vf_sym_i("k", -250000000, 250000000), false); int z = (int)vf_sym_u("z", 0, 3); for (int i = 1; i < 7 && z & 1; ++i) a.my_data[i] = 0; if (z & 2) { a.my_exp /= 2; a.my_exp -= a.my_exp % 8; a.my_data[0] = 1; a = a * a; } int pe = (int)vf_param(1); a.my_prec_elem = pe; e_float r(a); r.calculate_sqrt(); VF_ASSERT(ef_fin(r) && !r.iszero() && !r.isneg(), "finite"); ef_check_rep(r, "normalised"); VF_ASSERT(r.my_prec_elem == pe, "precision restored"); int64_t de = 2 * r.my_exp - a.my_exp; VF_ASSERT(de >= -8 && de <= 8, "exponent"); ZZ p = ef_sig(r) * ef_sig(r) * zten(de), d = zabs(p - ef_sig(a)); VF_ASSERT(zle(d, ef_sig(a) * ZZ(2) * zten(-109)), "square root accurate"); }
VF_ENTRY(c05_muli) { int p = (int)vf_param(0); e_float a = ef_syms("a", 0); a.precision(8 * p); e_float r(a); r.mul_signed_long_long(2); int64_t de = r.my_exp; VF_ASSERT(de == 0 || de == 8, "exponent"); VF_ASSERT(vf_iff(r.my_neg, a.my_neg), "sign"); ZZ ex = ef_sig(a) * ZZ(2), err = zabs(ex - ef_sig(r) * zten(vf_concrete(de))); VF_ASSERT(zle(err, ex * ZZ(4) * zten(-8 * (p - 1))), "twice a number at reduced precision"); vf_reach("end"); ef_obs("r", r); }
VF_ENTRY(c05_special) { // params: kind (0 negative finite, 1 zero, 2 +inf, 3 -inf, 4 NaN, 5 one)
  int k = (int)vf_param(0); e_float x; if (k == 0) x = ef_sym("a", 8 * vf_sym_i("k", -268435452, 268435452), true); else if (k == 5) x = ef::one(); else x = ef_kind("a", k); const e_float x0(x); e_float r(x); r.calculate_sqrt();
  if (k == 1) VF_ASSERT(r.iszero() && !r.isneg() && ef_fin(r), "root of zero"); else if (k == 5) VF_ASSERT(ef_same(r, x0), "root of one"); else if (k == 2) VF_ASSERT(!ef_fin(r), "root of infinity is not finite"); else VF_ASSERT(r.isnan(), "root of a negative number or NaN is NaN"); vf_reach("end"); ef_obs("r", r); }
