// C07 arithmetic with NaN, infinities and zero; C08 overflow and underflow
#include "ef.h"
enum { FIN, ZERO, PINF, NINF, NAN_ };
static bool is(const e_float &x, int c) { // c: FIN means finite non-zero
  switch (c) { case FIN: return ef_fin(x) && !x.iszero(); case ZERO: return ef_fin(x) && x.iszero() && !x.isneg(); case PINF: return x.isinf() && !x.isneg(); case NINF: return x.isinf() && x.isneg(); default: return x.isnan(); } }
static e_float operand(const char *n, int64_t k, const char *kn) { e_float a = ef_kind(n, k); if (k == 0) a.my_exp = 8 * vf_sym_i(kn, -100000000, 100000000); return a; }
static e_float opr(int64_t op, int64_t form, const e_float &a, const e_float &b) {
  if (form == 0) { e_float r(a); e_float *p = op == 0 ? &(r += b) : op == 1 ? &(r -= b) : op == 2 ? &(r *= b) : &(r /= b); VF_ASSERT(p == &r, "compound assignment returns its left operand"); return r; }
  return op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : a / b; }
static void check_result(int64_t op, int64_t k, int64_t m, const e_float &a, const e_float &b, bool na, bool nb, const e_float &r) {
  if (k == 4 || m == 4) { VF_ASSERT(is(r, NAN_), "NaN operand gives NaN"); return; }
  bool ia = k == 2 || k == 3, ib = m == 2 || m == 3;
  if (op <= 1) { bool nbs = op == 1 ? !nb : nb;
    if (ia && ib) { if (na == nbs) VF_ASSERT(is(r, na ? NINF : PINF), "inf+inf"); else VF_ASSERT(is(r, NAN_), "inf-inf is NaN"); }
    else if (ia) VF_ASSERT(is(r, na ? NINF : PINF), "inf+x"); else if (ib) VF_ASSERT(is(r, nbs ? NINF : PINF), "x+inf");
    else if (k == 1 && m == 1) VF_ASSERT(is(r, ZERO), "0+0"); else if (k == 1) { VF_ASSERT(ef_same_mag(r, b), "0+x"); VF_ASSERT(vf_iff(r.my_neg, nbs), "0+x sign"); } else if (m == 1) VF_ASSERT(ef_same(r, a), "x+0"); else VF_ASSERT(ef_fin(r), "finite"); }
  else if (op == 2) {
    if ((ia && m == 1) || (ib && k == 1)) VF_ASSERT(is(r, NAN_), "inf*0 is NaN"); else if (ia || ib) VF_ASSERT(is(r, na != nb ? NINF : PINF), "inf*x"); else if (k == 1 || m == 1) VF_ASSERT(is(r, ZERO), "0*x"); else { VF_ASSERT(is(r, FIN), "finite"); VF_ASSERT(vf_iff(r.my_neg, na != nb), "sign"); } }
  else {
    if ((ia && ib) || (k == 1 && m == 1)) VF_ASSERT(is(r, NAN_), "inf/inf and 0/0 are NaN"); else if (ia) VF_ASSERT(is(r, na != nb ? NINF : PINF), "inf/x"); else if (ib) VF_ASSERT(is(r, ZERO), "x/inf"); else if (m == 1) VF_ASSERT(is(r, na ? NINF : PINF), "x/0"); else if (k == 1) VF_ASSERT(is(r, ZERO), "0/x"); else { VF_ASSERT(is(r, FIN), "finite"); VF_ASSERT(vf_iff(r.my_neg, na != nb), "sign"); } } }
// contract of the reciprocal of a finite non-zero number (its accuracy is C04's subject)
extern "C" e_float &inv_model(e_float &x) { e_float r = ef_sym("inv", 0, x.my_neg); r.my_exp = -x.my_exp - (vf_sym_u("invd", 0, 1) ? 8 : 0); x = r; return x; }
VF_ENTRY(c07_pair) { // params: op, form, kinds
  int64_t op = vf_param(0), form = vf_param(1), k = vf_param(2), m = vf_param(3); e_float a = operand("a", k, "ka"), b = operand("b", m, "kb"); const e_float a0(a), b0(b); bool na = k == 3 || (k == 0 && a.my_neg), nb = m == 3 || (m == 0 && b.my_neg);
  if (k == 0 && m == 0 && op < 2) { vf_reach("end"); return; }
  e_float r = opr(op, form, a, b); check_result(op, k, m, a, b, na, nb, r); VF_ASSERT(ef_same(a, a0) && ef_same(b, b0), "operands unchanged"); vf_reach("end"); vf_observe("r", (int)r.my_fpclass); if (!(op == 3 && m == 0)) ef_obs("r", r); }
VF_ENTRY(c07_self) { // params: op, kind: an operand combined with itself in place
  int64_t op = vf_param(0), k = vf_param(1); e_float a = operand("a", k, "ka"); const e_float a0(a); e_float &r = op == 0 ? (a += a) : op == 1 ? (a -= a) : op == 2 ? (a *= a) : (a /= a); VF_ASSERT(&r == &a, "returns its left operand"); bool inf = k == 2 || k == 3;
  if (k == 4) VF_ASSERT(is(a, NAN_), "NaN"); else if (inf) { if (op == 0) VF_ASSERT(is(a, (int)k), "inf+inf"); if (op == 1 || op == 3) VF_ASSERT(is(a, NAN_), "inf-inf, inf/inf"); if (op == 2) VF_ASSERT(is(a, PINF), "inf*inf"); } else if (k == 1) { VF_ASSERT(is(a, op == 3 ? NAN_ : ZERO), "zero"); }
  else { if (op == 0) VF_ASSERT(is(a, FIN), "finite"); if (op == 1) VF_ASSERT(is(a, ZERO), "x-x"); if (op == 2) { VF_ASSERT(is(a, FIN), "finite"); VF_ASSERT(!a.my_neg, "square"); } if (op == 3) VF_ASSERT(a == 1 && a.isone(), "x/x is exactly one"); }
  vf_reach("end"); ef_obs("a", a); }
// special operand with built-in integers. params: op, kind, form (0 unsigned, 1 signed, 2 compound unsigned, 3 compound signed)
VF_ENTRY(c07_int) {
  int64_t op = vf_param(0), k = vf_param(1), f = vf_param(2); e_float a = operand("a", k, "ka"); const e_float a0(a); bool na = k == 3 || (k == 0 && a.my_neg); int64_t s; e_float r;
  if (f == 0 || f == 2) { unsigned long long n = vf_sym_u("n", 0, 18446744073709551615ULL); if (k == 0 || k == 1) vf_assume(n == 0); s = n != 0; if (f == 0) r = op == 0 ? a + n : op == 1 ? a - n : op == 2 ? a * n : a / n; else { r = a; if (op == 0) r += n; if (op == 1) r -= n; if (op == 2) r *= n; if (op == 3) r /= n; } }
  else { long long n = vf_sym_i("n", -9223372036854775807LL - 1, 9223372036854775807LL); if (k == 0 || k == 1) vf_assume(n == 0); s = n > 0 ? 1 : n < 0 ? -1 : 0; if (f == 1) r = op == 0 ? a + n : op == 1 ? a - n : op == 2 ? a * n : a / n; else { r = a; if (op == 0) r += n; if (op == 1) r -= n; if (op == 2) r *= n; if (op == 3) r /= n; } }
  bool inf = k == 2 || k == 3; if (k == 4) VF_ASSERT(is(r, NAN_), "NaN operand"); else if (inf) { if (op <= 1) VF_ASSERT(is(r, na ? NINF : PINF), "inf+n"); else if (op == 2) { if (s == 0) VF_ASSERT(is(r, NAN_), "inf*0"); else VF_ASSERT(is(r, na != (s < 0) ? NINF : PINF), "inf*n"); } else VF_ASSERT(is(r, na != (s < 0) ? NINF : PINF), "inf/n"); }
  else { if (op <= 1) VF_ASSERT(ef_same(r, a), "x+0"); else if (op == 2) VF_ASSERT(is(r, ZERO), "x*0"); else { if (k == 1) VF_ASSERT(is(r, NAN_), "0/0"); else VF_ASSERT(is(r, na ? NINF : PINF), "x/0"); } }
  VF_ASSERT(ef_same(a, a0), "operand unchanged"); vf_reach("end"); ef_obs("r", r); }
// built-in integer on the left. params: op (1 minus, 3 divide, 0 plus, 2 times), kind
VF_ENTRY(c07_nint) { int64_t op = vf_param(0), k = vf_param(1); e_float b = operand("b", k, "kb"); bool nb = k == 3; int n = (int)vf_sym_i("n", -2147483647 - 1, 2147483647); if (k == 0) vf_stop(); if (k == 1 && op != 3) { vf_reach("end"); return; } e_float r = op == 0 ? n + b : op == 1 ? n - b : op == 2 ? n * b : n / b; bool inf = k == 2 || k == 3;
  if (k == 4) VF_ASSERT(is(r, NAN_), "NaN"); else if (inf) { if (op == 0) VF_ASSERT(is(r, nb ? NINF : PINF), "n+inf"); if (op == 1) VF_ASSERT(is(r, nb ? PINF : NINF), "n-inf"); if (op == 2) { if (n == 0) VF_ASSERT(is(r, NAN_), "0*inf"); else VF_ASSERT(is(r, nb != (n < 0) ? NINF : PINF), "n*inf"); } if (op == 3) VF_ASSERT(is(r, ZERO), "n/inf"); } else { if (n == 0) VF_ASSERT(is(r, NAN_), "0/0"); else VF_ASSERT(is(r, n < 0 ? NINF : PINF), "n/0"); }
  vf_reach("end"); }
VF_ENTRY(c07_unary) { // params: kind. Negation, reciprocal, root, increments, rounding-free extractions of special values
  int64_t k = vf_param(0); e_float a = operand("a", k, "ka"); const e_float a0(a); e_float n(a); e_float &q = n.negate(); VF_ASSERT(&q == &n, "negate returns its object"); bool na = k == 3 || (k == 0 && a.my_neg);
  e_float m = -a, p = +a; VF_ASSERT(ef_same(p, a), "unary plus");
  if (k == 4) VF_ASSERT(is(n, NAN_) && is(m, NAN_), "-NaN"); else if (k == 1) VF_ASSERT(is(n, ZERO) && is(m, ZERO), "-0 is 0"); else { VF_ASSERT(ef_same_mag(n, a) && ef_same_mag(m, a), "magnitude kept"); VF_ASSERT(vf_iff(n.my_neg, !na) && vf_iff(m.my_neg, !na), "sign flipped"); n.negate(); VF_ASSERT(ef_same(n, a), "negating twice"); }
  if (k != 0) { e_float i(a); i.calculate_inv(); if (k == 1) VF_ASSERT(is(i, PINF), "1/0"); if (k == 2 || k == 3) VF_ASSERT(is(i, ZERO), "1/inf"); if (k == 4) VF_ASSERT(is(i, NAN_), "1/NaN"); }
  if (k == 1 || k == 3 || k == 4 || na) { e_float s(a); s.calculate_sqrt(); if (k == 1) VF_ASSERT(is(s, ZERO), "root of 0"); else VF_ASSERT(is(s, NAN_), "root of a negative number or NaN"); }
  if (k >= 2) { e_float i(a); ++i; VF_ASSERT(is(i, (int)k), "++"); --i; VF_ASSERT(is(i, (int)k), "--"); }
  VF_ASSERT(ef_same(a, a0), "operand unchanged"); vf_reach("end"); }
// ---- C08
static const int64_t KM = 268435452; // EMAX / 8
static void assume_max(const e_float &x) { vf_assume(zle(ef_sig(x), zten(1) - zten(-102))); } // not above the largest number
static void check_range(const e_float &r, ZZ ex, int64_t e0, bool neg, const char *m) { // ex: exact magnitude times 10^-e0; e0 near one of the limits
  (void)m;
  if (e0 > 0) { // overflow side: 10^(EMAX+1) is the first magnitude that must overflow; up to the largest number it must not
    ZZ lim = zten(EMAX + 1 - e0), mx = lim - zten(EMAX - 102 - e0); // 9.99..9e+EMAX with 103 digits
    if (zle(lim, ex)) { VF_ASSERT(r.isinf(), "overflow gives infinity"); VF_ASSERT(vf_iff(r.isneg(), neg), "sign of the infinity"); vf_reach("inf"); }
    else if (zle(ex, mx)) { VF_ASSERT(ef_fin(r) && !r.iszero(), "in-range result is finite"); vf_reach("fin"); } }
  else { ZZ lim = zten(-EMAX - e0);
    ZZ sl = lim * zten(-100); if (zlt(ex, lim)) { VF_ASSERT(r.iszero() && !r.isneg() && ef_fin(r), "underflow gives zero"); vf_reach("zero"); } else if (zle(lim + sl, ex)) { VF_ASSERT(ef_fin(r) && !r.iszero(), "in-range result is kept"); vf_reach("fin"); } }
  if (ef_fin(r) && !r.iszero()) { ef_check_rep(r, "result is normalised"); VF_ASSERT(r.my_exp <= EMAX && r.my_exp >= -EMAX, "exponent within the limits"); ZZ err = zabs(ex - ef_mag(r, e0)); VF_ASSERT(zle(err, ex * ZZ(32) * zten(-104)), "in-range result is accurate"); VF_ASSERT(vf_iff(r.my_neg, neg), "sign"); } }
VF_ENTRY(c08_mul) { // params: sum of the operands' exponents / 8 relative to a limit, side (1 upper, -1 lower), form, elements per operand
  int64_t d = vf_param(0), side = vf_param(1), form = vf_param(2), S = side * KM + d; int nl = (int)vf_param(3); int64_t ka = vf_sym_i("ka", -KM, KM); vf_assume(S - ka <= KM && S - ka >= -KM); e_float a = ef_syms("a", 0, nl), b = ef_syms("b", 0, nl); a.my_exp = 8 * ka; b.my_exp = 8 * (S - ka); if (ka == KM) assume_max(a); if (S - ka == KM) assume_max(b);
  e_float r = opr(2, form, a, b); check_range(r, ef_sig(a) * ef_sig(b) * zten(0), 8 * S, a.my_neg != b.my_neg, ""); vf_reach("end"); ef_obs("r", r); }
VF_ENTRY(c08_mulfar) { // far beyond the limits, exponents symbolic. params: side
  int64_t side = vf_param(0); int64_t ka = vf_sym_i("ka", -KM, KM), kb = vf_sym_i("kb", -KM, KM); if (side > 0) vf_assume(ka + kb >= KM + 1); else vf_assume(ka + kb <= -KM - 2); e_float a = ef_syms("a", 0), b = ef_syms("b", 0); a.my_exp = 8 * ka; b.my_exp = 8 * kb; e_float r = a * b;
  if (side > 0) { VF_ASSERT(r.isinf(), "overflow gives infinity"); VF_ASSERT(vf_iff(r.isneg(), a.my_neg != b.my_neg), "sign of the infinity"); } else VF_ASSERT(is(r, ZERO), "underflow gives zero"); vf_reach("end"); ef_obs("r", r); }
VF_ENTRY(c08_int) { // params: exponent / 8 relative to the limit, side, multiply or divide (0/1), signed?
  int64_t d = vf_param(0), side = vf_param(1), div = vf_param(2), sg = vf_param(3), K = side * KM + d; e_float a = ef_syms("a", 8 * K); if (d == 0 && side > 0) assume_max(a); uint64_t n = vf_sym_u("n", 1, BASE - 1); e_float r(a); bool neg = a.my_neg;
  if (sg) { long long q = (long long)n; q = -q; if (div) r /= q; else r *= q; neg = !neg; } else if (div) r /= (unsigned long long)n; else r *= (unsigned long long)n;
  if (!div) check_range(r, ef_sig(a) * ZZ(n), 8 * K, neg, ""); else { // compare exact quotient without dividing: |a| < n * 10^-EMAX
    if (side > 0) VF_ASSERT(is(r, FIN), "quotient stays in range"); else { ZZ lim = ZZ(n) * zten(-EMAX - 8 * K); if (zlt(ef_sig(a), lim)) { VF_ASSERT(is(r, ZERO), "underflow gives zero"); vf_reach("zero"); } else { VF_ASSERT(is(r, FIN), "in-range quotient is kept"); vf_reach("fin"); } }
    if (is(r, FIN)) { VF_ASSERT(r.my_exp >= -EMAX && r.my_exp <= EMAX, "exponent within the limits"); VF_ASSERT(vf_iff(r.my_neg, neg), "sign"); } }
  vf_reach("end"); ef_obs("r", r); }
VF_ENTRY(c08_add) { // params: side, offset of the second operand (<= 0), op
  int64_t side = vf_param(0), off = vf_param(1), op = vf_param(2), K = side > 0 ? KM : -KM + vf_param(3); e_float a = ef_syms("a", 8 * K), b = ef_syms("b", 8 * (K + off)); if (side > 0) { assume_max(a); if (off == 0) assume_max(b); } e_float r = opr(op, 0, a, b); ZZ e = op ? ef_val(a, 8 * K) - ef_val(b, 8 * K) : ef_val(a, 8 * K) + ef_val(b, 8 * K), ex = zabs(e);
  if (side > 0) { ZZ lim = zten(1), mx = lim - zten(-102); if (zle(lim, ex)) { VF_ASSERT(r.isinf(), "overflow gives infinity"); VF_ASSERT(vf_iff(r.isneg(), zlt(e, ZZ(0))), "sign of the infinity"); vf_reach("inf"); } else if (zle(ex, mx)) { VF_ASSERT(ef_fin(r), "in-range sum is finite"); vf_reach("fin"); } }
  else { ZZ lim = zten(-EMAX - 8 * K), slack = ZZ(200000000) * zten(-120); if (zlt(ex + slack, lim)) { VF_ASSERT(is(r, ZERO), "underflow gives zero"); vf_reach("zero"); } else if (zle(lim + slack, ex)) { VF_ASSERT(is(r, FIN), "in-range sum is kept"); VF_ASSERT(r.my_exp >= -EMAX, "exponent within the limits"); vf_reach("fin"); } }
  vf_reach("end"); ef_obs("r", r); }
