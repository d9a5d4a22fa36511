// C06 comparison and ordering
#include "ef.h"
// -1, 0, 1 decided by the harness for the exact values
static void check_all(const e_float &a, const e_float &b, bool lt, bool eq) { // lt, eq: exact relation
  bool le = either(lt, eq);
  VF_ASSERT(vf_iff(a < b, lt), "a < b"); VF_ASSERT(vf_iff(a <= b, le), "a <= b"); VF_ASSERT(vf_iff(a == b, eq), "a == b"); VF_ASSERT(vf_iff(a != b, !eq), "a != b"); VF_ASSERT(vf_iff(a > b, !le), "a > b"); VF_ASSERT(vf_iff(a >= b, !lt), "a >= b");
  VF_ASSERT(vf_iff(b < a, !le), "b < a"); VF_ASSERT(vf_iff(b <= a, !lt), "b <= a"); VF_ASSERT(vf_iff(b == a, eq), "b == a"); VF_ASSERT(vf_iff(b != a, !eq), "b != a"); VF_ASSERT(vf_iff(b > a, lt), "b > a"); VF_ASSERT(vf_iff(b >= a, le), "b >= a");
  int c = a.compare(b), d = a.cmp(b); VF_ASSERT(vf_iff(c < 0, lt), "compare sign"); VF_ASSERT(vf_iff(c == 0, eq), "compare zero"); VF_ASSERT(vf_iff(d < 0, lt), "cmp sign"); VF_ASSERT(vf_iff(d == 0, eq), "cmp zero");
}
VF_ENTRY(c06_fin) { // params: element offset, base exponent / 8
  int64_t off = vf_param(0), e0 = vf_param(1) * 8; e_float a = ef_syms("a", e0), b = ef_syms("b", e0 + 8 * off); const e_float a0(a), b0(b); ZZ va = ef_val(a, e0), vb = ef_val(b, e0); check_all(a, b, zlt(va, vb), zeq(va, vb)); VF_ASSERT(ef_same(a, a0) && ef_same(b, b0), "operands unchanged"); vf_reach("end"); vf_observe("lt", a < b); vf_observe("eq", a == b); }
VF_ENTRY(c06_far) { // exponents symbolic, apart
  int64_t ka = vf_sym_i("ka", -268435452, 268435451), d = vf_sym_i("d", 1, 536870904); vf_assume(ka + d <= 268435452); e_float hi = ef_syms("a", 0), lo = ef_syms("b", 0); lo.my_exp = 8 * ka; hi.my_exp = 8 * (ka + d);
  check_all(lo, hi, !hi.my_neg, false); vf_reach("end"); vf_observe("lt", lo < hi); }
VF_ENTRY(c06_kind) { // params: kinds of the operands (0 finite, 1 zero, 2 +inf, 3 -inf, 4 NaN)
  int64_t k = vf_param(0), m = vf_param(1); e_float a = ef_kind("a", k), b = ef_kind("b", m); int64_t ka = vf_sym_i("ka", -268435452, 268435452), kb = vf_sym_i("kb", -268435452, 268435452); if (k == 0) a.my_exp = 8 * ka; if (m == 0) b.my_exp = 8 * kb;
  if (k == 4 || m == 4) { VF_ASSERT(!(a == b), "NaN equals nothing"); VF_ASSERT(a != b, "NaN differs from everything"); VF_ASSERT(!(b == a) && b != a, "NaN differs from everything"); VF_ASSERT(a.compare(b) != 0, "NaN equals nothing"); if (k == 4) { VF_ASSERT(!(a == a) && a != a, "NaN differs from itself"); VF_ASSERT(a != 0 && !(a == 1.5) && 7u != a, "NaN differs from built-in values"); } vf_reach("end"); return; }
  // rank on the extended line; finite non-zero by sign
  int64_t ra = k == 2 ? 2 : k == 3 ? -2 : k == 1 ? 0 : a.my_neg ? -1 : 1, rb = m == 2 ? 2 : m == 3 ? -2 : m == 1 ? 0 : b.my_neg ? -1 : 1; if (k == 0 && m == 0) vf_stop();
  check_all(a, b, ra < rb, ra == rb); vf_reach("end"); }
// comparison with built-in integers. params: exponent / 8 of a, number of symbolic elements of a, type (0 signed, 1 unsigned 64 bit, 2 int, 3 unsigned, 4 double with integer value)
VF_ENTRY(c06_builtin) {
  int64_t e = vf_param(0) * 8; int nl = (int)vf_param(1); int64_t ty = vf_param(2), w = vf_param(3); e_float a = ef_syms("a", e, nl); ZZ va = ef_val(a);
  if (ty == 0) { int64_t n0 = vf_sym_i("n0", 0, BASE - 1), n1 = w > 0 ? vf_sym_i("n1", w == 1 ? 1 : 0, BASE - 1) : 0, n2 = w > 1 ? vf_sym_i("n2", 1, 921) : 0; bool s = vf_sym_u("ns", 0, 1); long long n = n2 * 10000000000000000LL + n1 * BASE + n0; if (s) n = -n; ZZ z(n); bool lt = zlt(va, z), eq = zeq(va, z), le = either(lt, eq);
    VF_ASSERT(vf_iff(a < n, lt), "number against integer"); VF_ASSERT(vf_iff(a <= n, le), "number against integer"); VF_ASSERT(vf_iff(a == n, eq), "number against integer"); VF_ASSERT(vf_iff(a != n, !eq), "number against integer"); VF_ASSERT(vf_iff(a > n, !le), "number against integer"); VF_ASSERT(vf_iff(a >= n, !lt), "number against integer"); VF_ASSERT(vf_iff(n > a, lt), "integer against number"); VF_ASSERT(vf_iff(n >= a, le), "integer against number"); VF_ASSERT(vf_iff(n == a, eq), "integer against number"); VF_ASSERT(vf_iff(n != a, !eq), "integer against number"); VF_ASSERT(vf_iff(n < a, !le), "integer against number"); VF_ASSERT(vf_iff(n <= a, !lt), "integer against number"); }
  else if (ty == 1) { uint64_t n0 = vf_sym_u("n0", 0, BASE - 1), n1 = w > 0 ? vf_sym_u("n1", w == 1 ? 1 : 0, BASE - 1) : 0, n2 = w > 1 ? vf_sym_u("n2", 1, 1843) : 0; unsigned long long n = n2 * 10000000000000000ULL + n1 * BASE + n0; ZZ z(n); bool lt = zlt(va, z), eq = zeq(va, z), le = either(lt, eq);
    VF_ASSERT(vf_iff(a < n, lt), "number against integer"); VF_ASSERT(vf_iff(a <= n, le), "number against integer"); VF_ASSERT(vf_iff(a == n, eq), "number against integer"); VF_ASSERT(vf_iff(a != n, !eq), "number against integer"); VF_ASSERT(vf_iff(a > n, !le), "number against integer"); VF_ASSERT(vf_iff(a >= n, !lt), "number against integer"); VF_ASSERT(vf_iff(n > a, lt), "integer against number"); VF_ASSERT(vf_iff(n >= a, le), "integer against number"); VF_ASSERT(vf_iff(n == a, eq), "integer against number"); VF_ASSERT(vf_iff(n != a, !eq), "integer against number"); VF_ASSERT(vf_iff(n < a, !le), "integer against number"); VF_ASSERT(vf_iff(n <= a, !lt), "integer against number"); }
  else { int64_t n1 = vf_sym_i("n1", -21, 21), n0 = vf_sym_i("n0", 0, BASE - 1); int64_t nn = n1 * (int64_t)BASE + n0; if (ty == 3) vf_assume(nn >= 0); ZZ z(nn); bool lt = zlt(va, z), eq = zeq(va, z), le = either(lt, eq);
    if (ty == 2) { vf_assume(nn >= -2147483648LL && nn <= 2147483647LL); int n = (int)nn; VF_ASSERT(vf_iff(a < n, lt), "number against int"); VF_ASSERT(vf_iff(a <= n, le), "number against int"); VF_ASSERT(vf_iff(a == n, eq), "number against int"); VF_ASSERT(vf_iff(a != n, !eq), "number against int"); VF_ASSERT(vf_iff(a > n, !le), "number against int"); VF_ASSERT(vf_iff(a >= n, !lt), "number against int"); VF_ASSERT(vf_iff(n > a, lt), "int against number"); VF_ASSERT(vf_iff(n >= a, le), "int against number"); VF_ASSERT(vf_iff(n == a, eq), "int against number"); VF_ASSERT(vf_iff(n != a, !eq), "int against number"); VF_ASSERT(vf_iff(n < a, !le), "int against number"); VF_ASSERT(vf_iff(n <= a, !lt), "int against number"); }
    if (ty == 3) { unsigned n = (unsigned)nn; VF_ASSERT(vf_iff(a < n, lt), "number against unsigned"); VF_ASSERT(vf_iff(a <= n, le), "number against unsigned"); VF_ASSERT(vf_iff(a == n, eq), "number against unsigned"); VF_ASSERT(vf_iff(a != n, !eq), "number against unsigned"); VF_ASSERT(vf_iff(a > n, !le), "number against unsigned"); VF_ASSERT(vf_iff(a >= n, !lt), "number against unsigned"); VF_ASSERT(vf_iff(n > a, lt), "unsigned against number"); VF_ASSERT(vf_iff(n >= a, le), "unsigned against number"); VF_ASSERT(vf_iff(n == a, eq), "unsigned against number"); VF_ASSERT(vf_iff(n != a, !eq), "unsigned against number"); VF_ASSERT(vf_iff(n < a, !le), "unsigned against number"); VF_ASSERT(vf_iff(n <= a, !lt), "unsigned against number"); } }
  vf_reach("end"); vf_observe("e", e); }
VF_ENTRY(c06_pred) { // params: kind. Classification predicates agree with the value
  int64_t k = vf_param(0); e_float a = ef_kind("a", k); int64_t ka = vf_sym_i("ka", -268435452, 268435452); if (k == 0) a.my_exp = 8 * ka;
  VF_ASSERT(a.isnan() == (k == 4) && a.isinf() == (k == 2 || k == 3) && a.isfinite() == (k < 2) && a.iszero() == (k == 1), "classification"); VF_ASSERT(vf_iff(a.isneg(), k == 3 || (k == 0 && a < 0)), "sign predicate"); VF_ASSERT(vf_iff(a.ispos(), !a.isneg()), "sign predicate");
  if (k == 0) { bool o = both(both(a.my_data[0] == 1, ka == 0), !a.my_neg); for (int i = 1; i < NL; ++i) o = both(o, a.my_data[i] == 0); bool n1 = both(both(a.my_data[0] == BASE - 1, ka == -1), !a.my_neg); for (int i = 1; i < NL; ++i) n1 = both(n1, a.my_data[i] == BASE - 1); /* 1 - 10^-128, the neighbour of one, may count as one */ bool g = a.isone(); VF_ASSERT(either(!o, g), "one is recognised as one"); VF_ASSERT(either(!g, either(o, n1)), "only one (or its immediate neighbour) is recognised as one"); VF_ASSERT(vf_iff(a == 1, o), "equal to one"); } else VF_ASSERT(!a.isone(), "not one");
  vf_reach("end"); }
