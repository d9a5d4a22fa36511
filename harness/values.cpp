// C15 numbers are independent values; C16 storage container
#include "ef.h"
#include <e_float/e_float_functions.h>
struct Sh { uint32_t l[NL]; int64_t e; bool n; int c; int p; };
static Sh sh_of(const e_float &x) { Sh s; for (int i = 0; i < NL; ++i) s.l[i] = x.my_data[i]; s.e = x.my_exp; s.n = x.my_neg; s.c = x.my_fpclass; s.p = x.my_prec_elem; return s; }
static bool sh_is(const e_float &x, const Sh &s) { if (x.my_data.size() != NL) return false; bool r = both(both(x.my_exp == s.e, (int)x.my_fpclass == s.c), both(x.my_neg == s.n, x.my_prec_elem == s.p)); if (s.c == e_float::ef_finite) for (int i = 0; i < NL; ++i) r = both(r, x.my_data[i] == s.l[i]); return r; }
static e_float val(const char *nm, int64_t k) { e_float x = ef_kind(nm, k, k == 0 ? 8 * vf_sym_i_at("ex", -268435452, 268435452, nm[0]) : 0); x.my_prec_elem = (int32_t)vf_sym_u_at("pr", 2, NL, nm[0]); return x; }
static void touch(e_float &x) { x.my_data[0] = 7; x.my_data[NL - 1] = 9; x.my_exp = 80; x.my_neg = true; x.my_fpclass = e_float::ef_finite; x.my_prec_elem = 3; }
// params: kind of the value, kind of the overwritten value
VF_ENTRY(c15_members) {
  int64_t h0 = vf_live_heap(); { e_float x = val("x", vf_param(0)); const Sh X = sh_of(x); const int64_t ky = vf_param(1);
    { e_float c(x); VF_ASSERT(sh_is(c, X), "copy construction"); touch(c); VF_ASSERT(sh_is(x, X), "changing the copy leaves the original alone"); e_float c2(x); touch(x); VF_ASSERT(sh_is(c2, X), "changing the original leaves the copy alone"); x = c2; VF_ASSERT(sh_is(x, X), "assignment"); }
    { e_float y = val("y", ky); e_float &r = (y = x); VF_ASSERT(&r == &y, "assignment returns its left side"); VF_ASSERT(sh_is(y, X), "copy assignment"); touch(y); VF_ASSERT(sh_is(x, X), "independent after assignment"); y = x; touch(x); VF_ASSERT(sh_is(y, X), "independent after assignment"); x = y; }
    { e_float m(x); e_float y(static_cast<e_float &&>(m)); VF_ASSERT(sh_is(y, X), "move construction"); m = y; VF_ASSERT(sh_is(m, X), "a moved-from number can be assigned again"); touch(y); VF_ASSERT(sh_is(m, X), "independent after move and assignment"); }
    { e_float m(x), y = val("z", ky); e_float &r = (y = static_cast<e_float &&>(m)); VF_ASSERT(&r == &y, "move assignment returns its left side"); VF_ASSERT(sh_is(y, X), "move assignment"); e_float w(x); m = static_cast<e_float &&>(w); VF_ASSERT(sh_is(m, X), "a moved-from number can be move-assigned"); touch(m); VF_ASSERT(sh_is(y, X), "independent after moves"); }
    { e_float &r = x; x = r; VF_ASSERT(sh_is(x, X), "self-assignment"); x = static_cast<e_float &&>(r); VF_ASSERT(sh_is(x, X), "self-move"); x.swap(r); VF_ASSERT(sh_is(x, X), "self-swap"); }
    { e_float y = val("w", ky); const Sh Y = sh_of(y); x.swap(y); VF_ASSERT(sh_is(x, Y), "swap"); VF_ASSERT(sh_is(y, X), "swap"); std::swap(x, y); VF_ASSERT(sh_is(x, X), "std::swap"); VF_ASSERT(sh_is(y, Y), "std::swap"); touch(y); VF_ASSERT(sh_is(x, X), "independent after swap"); }
    { const e_float c(x); e_float n(-c); VF_ASSERT(sh_is(c, X), "negation leaves its operand alone"); e_float q(+c); VF_ASSERT(sh_is(c, X), "unary plus leaves its operand alone"); static_cast<void>(ef::fabs(c)); VF_ASSERT(sh_is(c, X), "absolute value leaves its operand alone"); }
    ef_obs("x", x); }
  VF_ASSERT(vf_live_heap() == h0, "no storage is leaked"); vf_reach("end"); }
// every sequence of operations of a given length on three numbers. params: length, first operation
static const int NOPS = 30;
VF_ENTRY(c15_seq) {
  int len = (int)vf_param(0); int64_t h0 = vf_live_heap(); { e_float o[3]; Sh s[3]; bool gone[3] = {false, false, false}; for (int i = 0; i < 3; ++i) { static const char *const nm[3] = {"a", "b", "c"}; o[i] = ef_syms(nm[i], 8 * i, 3); s[i] = sh_of(o[i]); }
    for (int t = 0; t < len; ++t) { int op = t == 0 ? (int)vf_param(1) : (int)vf_concrete(vf_sym_i_at("op", 0, NOPS - 1, t)); int i = op % 3, j = (op / 3) % 3, q = op / 9; e_float *p = nullptr;
      if (q == 0) { if (gone[j]) vf_stop(); o[i] = o[j]; s[i] = s[j]; gone[i] = false; }
      else if (q == 1) { if (gone[j]) vf_stop(); o[i] = static_cast<e_float &&>(o[j]); if (i != j) { s[i] = s[j]; gone[i] = false; gone[j] = true; } }
      else if (q == 2) { if (gone[i] || gone[j]) vf_stop(); if (i < j) o[i].swap(o[j]); else std::swap(o[i], o[j]); if (i != j) { Sh x = s[i]; s[i] = s[j]; s[j] = x; } }
      else { if (gone[i]) vf_stop(); p = &o[i]; p->negate(); s[i].n = !s[i].n; }
      for (int k = 0; k < 3; ++k) if (!gone[k]) VF_ASSERT(sh_is(o[k], s[k]), "every number keeps its own value"); }
    vf_observe("g", gone[0]); }
  VF_ASSERT(vf_live_heap() == h0, "no storage is leaked"); vf_reach("end"); }
// operations of every part of the interface neither leak nor modify their operands; params: kind of a, kind of b, operation
static void ops(int op, const e_float &a, const e_float &b) {
  switch (op) { case 0: { e_float r(a + b); r -= a; break; } case 1: { e_float r(a - b); ++r; r--; break; } case 2: { e_float r(a * b); r *= 3; break; } case 3: { e_float r(a / 7); r /= 3u; break; } case 4: { e_float r(a); r += 5; r -= -7LL; r *= -2; break; } case 5: { volatile bool t = a < b; t = a == b; t = a >= 3; (void)t; break; }
    case 6: { e_float r(ef::floor(a)); r = ef::ceil(a); r = ef::integer_part(b); r = ef::decimal_part(b); break; } case 7: { volatile long long n = a.extract_signed_long_long(); volatile unsigned long long u = a.extract_unsigned_long_long(); (void)n; (void)u; break; } case 8: { std::stringstream s; s << a; e_float r; s >> r; break; } case 9: { e_float r(2.5); r = e_float(-3); r = e_float("12.25e3"); break; } case 10: { e_float r = a; r += r; r *= r; r -= r; break; } case 12: { for (int n = 100; n <= 140; n += 5) { char q[160]; for (int i = 0; i < n; ++i) q[i] = (char)(0x31 + i % 9); q[n] = 0; e_float r(q); q[1] = 0x2e; e_float t(q); r = t; } break; } default: { e_float r(ef::fabs(a)); r = ef::abs(-a); r = -b; break; } } }
VF_ENTRY(c15_leak) { e_float a = vf_param(0) ? ef_kind("a", vf_param(0)) : e_float(1234567.875), b = vf_param(1) ? ef_kind("b", vf_param(1)) : e_float(-0.03125); if (!vf_param(0)) a.my_neg = vf_sym_u("na", 0, 1) != 0; if (!vf_param(1)) b.my_neg = vf_sym_u("nb", 0, 1) != 0; const Sh A = sh_of(a), B = sh_of(b); int op = (int)vf_param(2); ops(op, a, b); int64_t h0 = vf_live_heap(); ops(op, a, b); VF_ASSERT(vf_live_heap() == h0, "no storage is leaked"); VF_ASSERT(sh_is(a, A), "the left operand keeps its value"); VF_ASSERT(sh_is(b, B), "the right operand keeps its value"); vf_reach("end"); vf_observe("n", op); }
// ---- C16 ----
typedef util::dynamic_array<uint32_t> DA; typedef ef::detail::fixed_dynamic_array<uint32_t, 5, std::allocator<uint32_t>> FA;
static const int MX = 8;
static uint32_t sy(const char *n, int i) { return (uint32_t)vf_sym_u_at(n, 0, 0xffffffffu, i); }
static bool is(const DA &a, const uint32_t *v, int n) { if (a.size() != (size_t)n || a.max_size() != (size_t)n || a.empty() != (n == 0) || a.end() - a.begin() != n || a.cend() - a.cbegin() != n || a.rend() - a.rbegin() != n || a.crend() - a.crbegin() != n) return false; bool r = a.data() == a.begin(); for (int i = 0; i < n; ++i) r = both(r, both(a[i] == v[i], both(a.begin()[i] == v[i], both(*(a.crbegin() + (n - 1 - i)) == v[i], a.at(i) == v[i])))); if (n) r = both(r, both(a.front() == v[0], a.back() == v[n - 1])); return r; }
// params: size of a, size of b
VF_ENTRY(c16_members) {
  int n = (int)vf_param(0), m = (int)vf_param(1); int64_t h0 = vf_live_heap(); { uint32_t v[MX], w[MX]; for (int i = 0; i < n; ++i) v[i] = sy("v", i); for (int i = 0; i < m; ++i) w[i] = sy("w", i); uint32_t f[MX]; uint32_t fv = sy("f", 0); for (int i = 0; i < MX; ++i) f[i] = fv;
    DA a(v, v + n); VF_ASSERT(is(a, v, n), "range construction"); DA b((const uint32_t *)w, (const uint32_t *)w + m); VF_ASSERT(is(b, w, m), "range construction"); DA d; VF_ASSERT(is(d, v, 0), "empty by default"); DA g(n, fv); VF_ASSERT(is(g, f, n), "filled construction"); { uint32_t z[MX] = {0}; DA e(n); VF_ASSERT(is(e, z, n), "elements are zero by default"); }
    { DA l{v[0], w[0], 3u}; uint32_t q[3] = {v[0], w[0], 3u}; if (n && m) VF_ASSERT(is(l, q, 3), "list construction"); }
    { DA c(a); VF_ASSERT(is(c, v, n), "copy"); for (int i = 0; i < n; ++i) c[i] = 1; VF_ASSERT(is(a, v, n), "the copy is independent"); c = a; VF_ASSERT(is(c, v, n), "assignment"); c = static_cast<const DA &>(c); VF_ASSERT(is(c, v, n), "self-assignment"); DA e(static_cast<DA &&>(c)); VF_ASSERT(is(e, v, n), "move"); VF_ASSERT(c.empty() && c.size() == 0, "a moved-from array is empty"); c = e; VF_ASSERT(is(c, v, n), "assigning to a moved-from array"); c = static_cast<DA &&>(e); VF_ASSERT(is(c, v, n), "move assignment"); DA k(b); k = static_cast<DA &&>(c); VF_ASSERT(is(k, v, n), "move assignment replaces the contents whatever their size"); DA &kr = k; k = static_cast<DA &&>(kr); VF_ASSERT(is(k, v, n), "self-move"); c = k; VF_ASSERT(is(c, v, n), "assigning after the move"); }
    { DA c(a), e(b); c.swap(e); VF_ASSERT(is(c, w, m) && is(e, v, n), "swap"); swap(c, e); VF_ASSERT(is(c, v, n) && is(e, w, m), "swap"); c.swap(c); VF_ASSERT(is(c, v, n), "self-swap"); c.fill(fv); VF_ASSERT(is(c, f, n), "fill"); VF_ASSERT(is(e, w, m), "fill leaves others alone"); for (int i = 0; i < n; ++i) { c[i] = v[i]; c.at(i) = v[i]; } if (n) { c.front() = fv; c.back() = fv; VF_ASSERT(c[0] == fv && c[n - 1] == fv, "access by reference"); } }
    { const DA &ca = a; VF_ASSERT(ca.begin() == ca.cbegin() && ca.end() == ca.cend() && ca.data() == ca.begin(), "iterators"); if (n) { VF_ASSERT(ca.at(n) == v[0] && a.at(n + 3) == v[0], "access beyond the size stays inside"); VF_ASSERT(ca.front() == v[0] && ca.back() == v[n - 1], "ends"); } }
    vf_observe("n", a.size()); }
  VF_ASSERT(vf_live_heap() == h0, "no storage is leaked"); vf_reach("end"); }
VF_ENTRY(c16_cmp) {
  int n = (int)vf_param(0), m = (int)vf_param(1); uint32_t v[MX], w[MX]; for (int i = 0; i < n; ++i) v[i] = sy("v", i); for (int i = 0; i < m; ++i) w[i] = sy("w", i); const DA a(v, v + n), b(w, w + m);
  bool eq = n == m, lt = n < m; for (int i = (n < m ? n : m) - 1; i >= 0; --i) { lt = either(v[i] < w[i], both(v[i] == w[i], lt)); eq = both(eq, v[i] == w[i]); }
  VF_ASSERT(vf_iff(a == b, eq), "equality is element by element"); VF_ASSERT(vf_iff(a != b, vf_not(eq)), "inequality"); VF_ASSERT(vf_iff(a < b, lt), "order is lexicographical"); VF_ASSERT(vf_iff(b > a, lt), "greater"); VF_ASSERT(vf_iff(a >= b, vf_not(lt)), "greater or equal"); VF_ASSERT(vf_iff(b <= a, vf_not(lt)), "less or equal"); vf_reach("end"); vf_observe("n", n + m); }
// the fixed-size variant; param: number of initialisers
VF_ENTRY(c16_fixed) {
  int64_t h0 = vf_live_heap(); { uint32_t v[MX], z[MX] = {0}; for (int i = 0; i < MX; ++i) v[i] = sy("v", i); FA d; VF_ASSERT(is(d, z, 5), "zero by default"); VF_ASSERT(FA::static_size() == 5, "static size"); uint32_t e[5]; for (int k = 0; k <= 7; ++k) { FA f((FA::size_type)k, v[0]); for (int i = 0; i < 5; ++i) e[i] = i < k ? v[0] : 0; VF_ASSERT(is(f, e, 5), "a given number of leading elements"); }
    FA l0({}), l2({v[0], v[1]}), l5({v[0], v[1], v[2], v[3], v[4]}), l7({v[0], v[1], v[2], v[3], v[4], v[5], v[6]}); VF_ASSERT(is(l0, z, 5), "empty list"); uint32_t e2[5] = {v[0], v[1], 0, 0, 0}; VF_ASSERT(is(l2, e2, 5), "short list"); VF_ASSERT(is(l5, v, 5), "full list"); VF_ASSERT(is(l7, v, 5), "long list is cut off");
    FA c(l5); VF_ASSERT(is(c, v, 5), "copy"); c = l2; VF_ASSERT(is(c, e2, 5), "assignment"); VF_ASSERT(is(l5, v, 5), "source unchanged"); FA m(static_cast<FA &&>(l5)); VF_ASSERT(is(m, v, 5), "move"); l5 = m; VF_ASSERT(is(l5, v, 5), "assigning to a moved-from array"); c = static_cast<FA &&>(m); VF_ASSERT(is(c, v, 5), "move assignment"); FA &cr = c; c = cr; VF_ASSERT(is(c, v, 5), "self-assignment"); c = static_cast<FA &&>(cr); VF_ASSERT(is(c, v, 5), "self-move"); VF_ASSERT(c == l5 && !(c < l5), "comparison"); vf_observe("n", c.size()); }
  VF_ASSERT(vf_live_heap() == h0, "no storage is leaked"); vf_reach("end"); }
// ---- C17 ---- params: position of the leading digit in its element
VF_ENTRY(c17_order) { int d = (int)vf_param(0); e_float x = ef_syms("x", 0); uint32_t lo = 1; for (int i = 0; i < d; ++i) lo *= 10; x.my_data[0] = (uint32_t)vf_sym_u("first", lo, 10 * lo - 1); int64_t e = 8 * vf_sym_i("ex", -268435452, 268435452); x.my_exp = e; const Sh X = sh_of(x); VF_ASSERT(x.order() == e + d, "decimal order of a number"); VF_ASSERT(x.get_order_exact() == e + d, "exact decimal order"); VF_ASSERT(sh_is(x, X), "the number is not changed"); vf_reach("end"); vf_observe_i("o", x.order()); }
VF_ENTRY(c17_prec) { e_float x = ef_syms("x", 0); x.my_prec_elem = (int32_t)vf_sym_u("pe", 2, NL); Sh X = sh_of(x); int64_t p = vf_sym_i("p", INT32_MIN, INT32_MAX); x.precision((int32_t)p); int32_t e = x.my_prec_elem; VF_ASSERT(e >= 2, "never below the minimum"); VF_ASSERT(e <= NL, "never above the maximum"); VF_ASSERT(either(e == NL, 8 * (int64_t)e >= p), "enough elements for the digits asked for"); VF_ASSERT(either(e == 2, 8 * (int64_t)(e - 1) < p), "no more elements than needed"); X.p = e; VF_ASSERT(sh_is(x, X), "the value is not changed"); vf_reach("end"); vf_observe("e", (uint64_t)e); }
VF_ENTRY(c17_special) { for (int k = 1; k < 5; ++k) { e_float x = ef_kind("x", k); VF_ASSERT(x.order() == 0, "order of zero and of non-finite values"); } vf_reach("end"); vf_observe("end", 1); }
