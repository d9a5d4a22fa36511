// C12 reading, C13 printing, C14 round trip
#include "ef.h"
#include <e_float/e_float_functions.h>
static int dig(const char *nm, int i, int lo = 0) { return (int)vf_sym_u_at(nm, lo, 9, i); }
static char ch(int d) { return (char)('0' + d); }
// value of x scaled so that digit string D (an integer) times 10^sc is the exact value; the exponent part may be symbolic: e
static void check_value(const e_float &x, ZZ D, int64_t sc, int64_t e, bool neg, int ndig, const char *m) {
  VF_ASSERT(ef_fin(x), m); ef_check_rep(x, "normalised"); VF_ASSERT(x.my_prec_elem == NL, "full precision"); int64_t de = vf_concrete(x.my_exp - e); ZZ v = ef_sig(x) * zten(de), ex = D * zten(sc);
  if (ndig <= 121) { VF_ASSERT(zeq(v, ex), m); } else { VF_ASSERT(zle(v, ex), "cut off beyond the stored width"); VF_ASSERT(zlt(ex - v, zten(-120 + de)), "differs only beyond the stored width"); } VF_ASSERT(x.my_neg == neg, "sign"); }
// params: integer digits, fraction digits (-1: no point), sign style (0 none, 1 '+', 2 '-'), exponent style, free: 1 all digits free (leading and trailing zeros), 0 leading digit of the whole string non-zero
// exponent styles: 0 none; 1 'e' and 1 digit; 2 "E+dd"; 3 "e-dd"; 4 "e-ddd"; 5 "e0ddddddddd" ; 6 "E-0ddddddddd"
VF_ENTRY(c12_read) {
  int ni = (int)vf_param(0), nf = (int)vf_param(1), sg = (int)vf_param(2), es = (int)vf_param(3), fr = (int)vf_param(4), how = (int)vf_param(5); std::string s; if (sg == 1) s += '+'; if (sg == 2) s += '-'; ZZ D(0); int n = 0;
  for (int i = 0; i < ni; ++i) { int d = i == 0 && !fr ? (int)vf_sym_u("first", 1, 9) : dig("d", n); s += ch(d); D = D * ZZ(10) + ZZ(d); ++n; }
  if (nf >= 0) { s += '.'; for (int i = 0; i < nf; ++i) { int d = i == 0 && ni == 0 && !fr ? (int)vf_sym_u("first", 1, 9) : dig("d", n); s += ch(d); D = D * ZZ(10) + ZZ(d); ++n; } }
  int64_t e = 0; static const int W[7] = {0, 1, 2, 2, 3, 9, 9}; if (es) { s += (es == 2 || es == 6) ? 'E' : 'e'; bool en = es == 3 || es == 4 || es == 6; if (es == 2) s += '+'; if (en) s += '-'; if (es >= 5) s += '0'; for (int i = 0; i < W[es]; ++i) { int d = dig("x", i); s += ch(d); e = e * 10 + d; } if (en) e = -e; }
  e_float x; if (how == 0) x = e_float(s); else if (how == 1) x = e_float(s.c_str()); else { x = ef_kind("p", how == 2 ? 2 : 4); x.my_prec_elem = 5; std::stringstream ss; ss << s; ss >> x; }
  bool z = true; { ZZ t = D; z = zeq(t, ZZ(0)); } if (z) { VF_ASSERT(ef_fin(x) && x.iszero() && !x.isneg(), "zero"); vf_reach("end"); return; }
  check_value(x, D, nf > 0 ? -nf : 0, e, sg == 2, n, "value of the string"); vf_reach("end"); ef_obs("x", x); }
// params: sign, exponent digits: out-of-range exponents (more than 10 digits) give infinity or zero
VF_ENTRY(c12_range) { bool neg = vf_param(0) != 0; int w = (int)vf_param(1), ni = (int)vf_param(2); std::string s; if (vf_param(3)) s += '-'; for (int i = 0; i < ni; ++i) s += ch(i == 0 ? (int)vf_sym_u("first", 1, 9) : dig("d", i)); s += ".5e"; if (neg) s += '-'; s += ch((int)vf_sym_u("lead", w == 10 ? 3 : 1, 9)); for (int i = 1; i < w; ++i) s += ch(dig("x", i)); e_float x(s); if (neg) VF_ASSERT(ef_fin(x) && x.iszero(), "below the range: zero"); else { VF_ASSERT(x.isinf(), "above the range: infinity"); VF_ASSERT(x.isneg() == (vf_param(3) != 0), "sign of the infinity"); } vf_reach("end"); }
// exponents next to the limits. params: integer digits, sign of the exponent, sign. The value is d.ddd * 10^E with E within 60 of the limit
VF_ENTRY(c12_edge) { int ni = (int)vf_param(0); bool en = vf_param(1) != 0, neg = vf_param(2) != 0; std::string s; if (neg) s += '-'; ZZ D(0); for (int i = 0; i < ni; ++i) { int d = i == 0 ? (int)vf_sym_u("first", 1, 9) : dig("d", i); s += ch(d); D = D * ZZ(10) + ZZ(d); } s += en ? "e-21474836" : "e21474836"; int d1 = (int)vf_sym_u_at("x", 0, 2, 0), d0 = dig("x", 1); s += ch(d1); s += ch(d0); int64_t e = 2147483600 + 10 * d1 + d0; if (en) e = -e; e_float x(s); int64_t order = e + ni - 1;
  if (order > EMAX) { VF_ASSERT(x.isinf() && x.my_neg == neg, "above the largest number: infinity"); vf_reach("inf"); } else if (order < -EMAX) { VF_ASSERT(ef_fin(x) && x.iszero() && !x.my_neg, "below the smallest number: zero"); vf_reach("zero"); } else check_value(x, D, 0, e, neg, ni, "value of the string"); vf_reach("end"); }
// ---- printing ----
struct Pr { bool minus = false, plus = false, point = false, ex = false, upper = false; int ni = 0, nf = 0, ne = 0; int64_t e = 0; ZZ D; int first = 0, last = 0; bool lead0 = false; };
// reads a printed number back by the grammar [sign] digits [. digits] [e sign digits]; every deviation is a violation
static void pr_parse(const std::string &s, Pr &r) {
  size_t i = 0, n = s.size(); r.D = ZZ(0); if (i < n && s[i] == '-') { r.minus = true; ++i; } else if (i < n && s[i] == '+') { r.plus = true; ++i; }
  bool ok = true; for (; i < n; ++i) { int c = (unsigned char)s[i]; if (c == '.' && !r.point) { r.point = true; continue; } if (c == 'e' || c == 'E') break; ok = both(ok, both(c >= '0', c <= '9')); if (r.ni + r.nf == 0) r.first = c - '0'; r.last = c - '0'; if (r.point) ++r.nf; else ++r.ni; r.D = r.D * ZZ(10) + ZZ(c - '0'); }
  VF_ASSERT(ok, "only digits around the decimal point"); VF_ASSERT(r.ni >= 1, "a digit before the decimal point");
  if (i < n) { r.ex = true; r.upper = s[i] == 'E'; ++i; VF_ASSERT(i < n && (s[i] == '+' || s[i] == '-'), "the exponent has a sign"); bool en = i < n && s[i] == '-'; ++i; bool ok2 = true; for (; i < n; ++i) { int c = (unsigned char)s[i]; ok2 = both(ok2, both(c >= '0', c <= '9')); r.e = r.e * 10 + (c - '0'); ++r.ne; } VF_ASSERT(ok2 && r.ne > 0, "only digits in the exponent"); r.e = vf_concrete(en ? -r.e : r.e); } }
static e_float pr_num(int64_t k, int d, bool neg, int ns) { e_float x = ef_symd("a", 8 * k, neg, d, ns); return x; }
static std::string pr_print(const e_float &x, int64_t p, int64_t mode, int64_t fl) { std::stringstream os; os.precision(p); if (mode == 1) os.setf(std::ios::scientific, std::ios::floatfield); if (mode == 2) os.setf(std::ios::fixed, std::ios::floatfield); if (fl & 1) os.setf(std::ios::showpos); if (fl & 2) os.setf(std::ios::showpoint); if (fl & 4) os.setf(std::ios::uppercase); os << x; return os.str(); }
static void pr_near(const Pr &r, const e_float &x, int64_t unit, const char *m) { ZZ v = r.D * zten(r.e - r.nf - x.my_exp), w = ef_sig(x), h = zten(unit - x.my_exp) / ZZ(2); VF_ASSERT(zle(v - w, h), m); VF_ASSERT(zle(w - v, h), m); }
// params: exponent / 8, position of the leading digit in its element, precision, flags (1 showpos, 2 showpoint, 4 uppercase, 8 negative), elements with symbolic digits
VF_ENTRY(c13_sci) {
  int64_t k = vf_param(0); int d = (int)vf_param(1); int64_t p = vf_param(2), fl = vf_param(3); bool neg = (fl & 8) != 0; e_float x = pr_num(k, d, neg, (int)vf_param(4)), x0 = x; std::string s = pr_print(x, p, 1, fl); Pr r; pr_parse(s, r); int64_t E = 8 * k + d, q = p <= 0 ? 6 : p;
  VF_ASSERT(r.minus == neg, "sign"); VF_ASSERT(r.plus == (!neg && (fl & 1)), "positive sign only when asked for"); VF_ASSERT(r.ex && r.upper == ((fl & 4) != 0), "exponent letter"); VF_ASSERT(r.ni == 1 && r.nf == q && r.point, "one digit before and precision digits after the point"); VF_ASSERT(r.first != 0, "the leading digit is not zero"); VF_ASSERT(r.ne % 3 == 0, "exponent width");
  VF_ASSERT(r.e == E || r.e == E + 1, "exponent"); pr_near(r, x, E - (q < 102 ? q : 102), "value rounded to the requested digits"); VF_ASSERT(ef_same(x, x0), "the number is not changed"); vf_reach("end"); vf_observe("n", s.size()); for (size_t i = 0; i < s.size(); i += 7) vf_observe("c", (unsigned char)s[i]); }
VF_ENTRY(c13_fix) {
  int64_t k = vf_param(0); int d = (int)vf_param(1); int64_t p = vf_param(2), fl = vf_param(3); bool neg = (fl & 8) != 0; e_float x = pr_num(k, d, neg, (int)vf_param(4)); std::string s = pr_print(x, p, 2, fl); Pr r; pr_parse(s, r); int64_t E = 8 * k + d, q = p <= 0 ? 6 : p;
  VF_ASSERT(r.minus == neg, "sign"); VF_ASSERT(r.plus == (!neg && (fl & 1)), "positive sign only when asked for"); VF_ASSERT(!r.ex, "no exponent"); VF_ASSERT(r.nf == q && r.point, "precision digits after the point");
  if (E >= 0) { VF_ASSERT(r.ni == E + 1 || r.ni == E + 2, "digits before the point"); VF_ASSERT(r.first != 0, "no leading zero"); } else VF_ASSERT(r.ni == 1, "one digit before the point");
  pr_near(r, x, E + 1 + q <= 103 ? -q : E + 1 - 103, "value rounded to the requested decimals"); vf_reach("end"); vf_observe("n", s.size()); for (size_t i = 0; i < s.size(); i += 7) vf_observe("c", (unsigned char)s[i]); }
VF_ENTRY(c13_def) {
  int64_t k = vf_param(0); int d = (int)vf_param(1); int64_t p = vf_param(2), fl = vf_param(3); bool neg = (fl & 8) != 0; e_float x = pr_num(k, d, neg, (int)vf_param(4)); std::string s = pr_print(x, p, 0, fl); Pr r; pr_parse(s, r); int64_t E = 8 * k + d, q = p <= 0 ? 6 : p, n = q < 102 ? q : 102;
  VF_ASSERT(r.minus == neg, "sign"); VF_ASSERT(r.plus == (!neg && (fl & 1)), "positive sign only when asked for"); if (r.ex) VF_ASSERT(r.upper == ((fl & 4) != 0) && r.ne % 3 == 0, "exponent form"); int64_t unit = E - (n - 1); pr_near(r, x, unit, "value rounded to the requested digits"); VF_ASSERT(E - 200 > 0 || E + 200 < 0 ? r.ex : true, "scientific notation for very large and very small numbers");
  if (r.ex) { VF_ASSERT(r.ni == 1 && r.first != 0, "one non-zero digit before the point"); } else { if (E >= 0) { VF_ASSERT(r.ni == E + 1 || r.ni == E + 2, "digits before the point"); VF_ASSERT(r.first != 0, "no leading zero"); } else VF_ASSERT(r.ni == 1, "one digit before the point"); }
  if (!(fl & 2)) { VF_ASSERT(r.point == (r.nf > 0), "no dangling point"); if (r.nf > 0) { VF_ASSERT(r.last != 0, "no trailing zeros"); VF_ASSERT(r.e - r.nf >= unit, "no more digits than requested"); } }
  else { VF_ASSERT(r.point, "the point is shown"); int64_t dg = r.ex ? 1 + r.nf : E >= 0 ? r.ni + r.nf : r.first != 0 ? 1 + r.nf : r.nf + E + 1; VF_ASSERT(E >= 0 && !r.ex ? dg == (q > r.ni ? q : (int64_t)r.ni) : r.ex || r.first != 0 ? dg == q : (dg == q || dg == q - 1), "zero-extended to the precision"); }
  vf_reach("end"); vf_observe("n", s.size()); for (size_t i = 0; i < s.size(); i += 7) vf_observe("c", (unsigned char)s[i]); }
// zero, infinities, NaN in every notation and flag combination; params: notation
VF_ENTRY(c13_special) { int64_t mode = vf_param(0); for (int64_t fl = 0; fl < 8; ++fl) for (int64_t p = 1; p < 12; p += 5) { e_float z, pi = ef_kind("x", 2), ni = ef_kind("x", 3), na = ef_kind("x", 4); bool sp = fl & 1, up = fl & 4;
    VF_ASSERT(pr_print(pi, p, mode, fl) == std::string(sp ? "+" : "") + (up ? "INF" : "inf"), "positive infinity"); VF_ASSERT(pr_print(ni, p, mode, fl) == std::string(up ? "-INF" : "-inf"), "negative infinity"); VF_ASSERT(pr_print(na, p, mode, fl) == std::string(up ? "NAN" : "nan"), "NaN");
    Pr r; pr_parse(pr_print(z, p, mode, fl), r); VF_ASSERT(!r.minus && r.plus == sp, "sign of zero"); VF_ASSERT(zeq(r.D, ZZ(0)), "zero"); VF_ASSERT(r.e == 0, "exponent of zero"); VF_ASSERT(r.ex == (mode == 1), "notation of zero"); VF_ASSERT(r.ni == 1, "one digit before the point"); if (mode) VF_ASSERT(r.nf == p && r.point, "precision digits of zero"); else VF_ASSERT((fl & 2) ? r.point : (!r.point && r.nf == 0), "zero by default"); }
  vf_reach("end"); vf_observe("end", 1); }
// params: width, adjustment (0 none, 1 left, 2 right, 3 internal), kind (0 finite, 1 zero, 2 +inf, 3 -inf, 4 NaN)
VF_ENTRY(c13_width) { int64_t w = vf_param(0), ad = vf_param(1), kd = vf_param(2); e_float x = kd ? ef_kind("x", kd) : pr_num(1, 2, vf_sym_u("neg", 0, 1) != 0, 3); std::stringstream a, b; a.precision(9); b.precision(9); a << x; if (ad == 1) b << std::left; if (ad == 2) b << std::right; if (ad == 3) b << std::internal; b << std::setfill('*') << std::setw((int)w) << x; std::string s = a.str(), t = b.str();
  size_t n = s.size() > (size_t)w ? s.size() : (size_t)w, f = n - s.size(); if (kd < 2) { VF_ASSERT(t.size() == n, "field width"); bool ok = true; for (size_t i = 0; i < n; ++i) { char e = ad == 1 ? (i < s.size() ? s[i] : '*') : (i < f ? '*' : s[i - f]); ok = both(ok, t[i] == e); } VF_ASSERT(ok, "fill characters on the right side"); } else VF_ASSERT(t.find(s) != std::string::npos && t.size() >= s.size(), "special value"); vf_reach("end"); vf_observe("n", t.size()); }
// C14: print, read back, print again; params: exponent / 8, leading digit position, precision, notation, flags, elements, how it is read
VF_ENTRY(c14_trip) {
  int64_t k = vf_param(0); int d = (int)vf_param(1); int64_t p = vf_param(2), mode = vf_param(3), fl = vf_param(4); bool neg = (fl & 8) != 0; e_float x = pr_num(k, d, neg, (int)vf_param(5)); std::string s = pr_print(x, p, mode, fl); e_float y; if (vf_param(6) == 0) y = e_float(s); else { std::stringstream ss(s); ss >> y; }
  VF_ASSERT(ef_fin(y), "finite"); ef_check_rep(y, "normalised"); VF_ASSERT(y.my_neg == neg, "sign"); int64_t E = 8 * k + d; if (mode == 0) p -= 1; int64_t unit = mode == 2 ? (E + 1 + p <= 103 ? -p : E + 1 - 103) : E - (p < 102 ? p : 102); int64_t de = vf_concrete(y.my_exp - x.my_exp); ZZ v = ef_sig(y) * zten(de), w = ef_sig(x), h = zten(unit - x.my_exp) / ZZ(2);
  VF_ASSERT(zle(v - w, h), "equal to all printed digits"); VF_ASSERT(zle(w - v, h), "equal to all printed digits"); std::string t = pr_print(y, vf_param(2), mode, fl); if (mode == 0) { Pr a, b; pr_parse(s, a); pr_parse(t, b); if (a.ex != b.ex) { VF_ASSERT(zeq(a.D * zten(a.e - a.nf), b.D * zten(b.e - b.nf)), "printing again gives the same value"); vf_reach("end"); return; } } VF_ASSERT(t.size() == s.size(), "same length"); if (t.size() == s.size()) { bool ok = true; for (size_t i = 0; i < s.size(); ++i) ok = both(ok, s[i] == t[i]); VF_ASSERT(ok, "printing again gives the same string"); } vf_reach("end"); ef_obs("y", y); }
