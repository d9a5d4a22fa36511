// Helpers over the efx e_float representation, shared by all efx harnesses.
#pragma once
#include "vf.h"
#include <algorithm>
#include <array>
#include <cmath>
#include <complex>
#include <cstring>
#include <deque>
#include <initializer_list>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <sstream>
#include <string>
#include <utility>
#include <vector>
#define private public
#define protected public
#include <e_float/e_float.h>
#undef private
#undef protected
static const int NL = 16;            // limbs checked below against the real array
static const uint32_t BASE = 100000000u;
static const int64_t EMAX = 2147483616LL;
inline ZZ zB(int64_t k) { return zpow(ZZ(100000000), k); }
inline ZZ zten(int64_t k) { return zpow(ZZ(10), k); }
// significand sum(limb[i] * B^(-i)) of x, unsigned
inline ZZ ef_sig(const e_float &x, int n = NL) { ZZ r(0); for (int i = 0; i < n; ++i) r = r + ZZ((unsigned)x.my_data[i]) * zB(-i); return r; }
// |value| scaled by 10^-e0:  sig * 10^(exp-e0); exp - e0 must be concrete here
inline ZZ ef_mag(const e_float &x, int64_t e0 = 0) { return ef_sig(x) * zten(vf_concrete((int64_t)x.my_exp - e0)); }
inline ZZ ef_val(const e_float &x, int64_t e0 = 0) { ZZ m = ef_mag(x, e0); return zite(x.my_neg, -m, m); }
inline bool ef_fin(const e_float &x) { return x.my_fpclass == e_float::ef_finite; }
// a number with the first n limbs symbolic, the leading one at least 1
inline e_float ef_sym(const char *nm, int64_t exp, bool neg, int n = NL) { e_float x; for (int i = 0; i < n; ++i) x.my_data[i] = (e_float::array_type::value_type)vf_sym_u_at(nm, i == 0 ? 1 : 0, BASE - 1, i); for (int i = n; i < NL; ++i) x.my_data[i] = 0; x.my_exp = exp; x.my_neg = neg; x.my_fpclass = e_float::ef_finite; x.my_prec_elem = NL; return x; }
// as ef_sym with a symbolic sign
inline e_float ef_syms(const char *nm, int64_t exp, int n = NL) { e_float x = ef_sym(nm, exp, false, n); x.my_neg = (bool)vf_sym_u_at("neg", 0, 1, nm[0]); return x; }
inline bool ef_same(const e_float &a, const e_float &b) { // same representation (limb by limb)
  bool r = both(a.my_exp == b.my_exp, both((int)a.my_fpclass == (int)b.my_fpclass, a.my_neg == b.my_neg)); for (int i = 0; i < NL; ++i) r = both(r, a.my_data[i] == b.my_data[i]); return r; }
inline bool ef_same_mag(const e_float &a, const e_float &b) { bool r = both(a.my_exp == b.my_exp, (int)a.my_fpclass == (int)b.my_fpclass); for (int i = 0; i < NL; ++i) r = both(r, a.my_data[i] == b.my_data[i]); return r; }
// operand of a given kind: 0 finite non-zero (symbolic), 1 zero, 2 +inf, 3 -inf, 4 NaN
inline e_float ef_kind(const char *nm, int64_t k, int64_t exp = 0) {
  if (k == 0) return ef_syms(nm, exp);
  e_float x; if (k == 1) return x; x.my_fpclass = k == 4 ? e_float::ef_NaN : e_float::ef_inf; x.my_neg = k == 3; return x; }
// representation invariant: limbs below the base, leading limb non-zero unless the value is exactly zero
inline void ef_check_rep(const e_float &x, const char *m) {
  bool ok = true; for (int i = 0; i < NL; ++i) ok = both(ok, x.my_data[i] < BASE);
  VF_ASSERT(ok, m); VF_ASSERT(x.my_exp % 8 == 0, m);
  if (x.my_data[0] == 0) { bool z = true; for (int i = 1; i < NL; ++i) z = both(z, x.my_data[i] == 0); VF_ASSERT(z, m); VF_ASSERT(x.my_exp == 0 && !x.my_neg, m); }
}
inline void ef_obs(const char *n, const e_float &x) { vf_observe(n, (uint64_t)x.my_fpclass); if (x.my_fpclass == e_float::ef_finite) { for (int i = 0; i < NL; ++i) vf_observe(n, x.my_data[i]); vf_observe_i(n, x.my_exp); } vf_observe(n, x.my_neg); }
// as ef_sym with symbolic decimal digits (so that digit extraction is exact); d: position (0..7) of the leading digit in the first element, dec: number of symbolic digits below the leading element's
inline uint32_t ef_digits(const char *nm, int i, int top, bool lead) { uint32_t v = 0; for (int j = top; j >= 0; --j) v = 10 * v + (lead && j == top ? (uint32_t)vf_sym_u_at("lead", 1, 9, j) : (uint32_t)vf_sym_u_at(nm, 0, 9, 8 * i + 7 - j)); return v; }
inline e_float ef_symd(const char *nm, int64_t exp, bool neg, int d, int n = NL) { e_float x; for (int i = 0; i < NL; ++i) x.my_data[i] = i >= n ? 0 : (e_float::array_type::value_type)ef_digits(nm, i, i == 0 ? d : 7, i == 0); x.my_exp = exp; x.my_neg = neg; x.my_fpclass = e_float::ef_finite; x.my_prec_elem = NL; return x; }
