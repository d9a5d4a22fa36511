// Minimal standard streams for symbolic execution (native replays use the real library).
// Formatting rules follow [istream], [ostream] for the conversions the library uses.
#pragma once
#include <bits/c++config.h>
#include <bits/postypes.h>
#include <cstdint>
#include <iosfwd>
#include <limits>
#include <string>
#include <locale_stub.h>
extern "C" { bool vf_z_lt(int, int); int vf_z_u(uint64_t); int vf_z_add(int, int); int vf_z_mul(int, int); int vf_z_pow(int, int64_t); int vf_z_sub(int, int); double vf_d_z(int); long double vf_ld_z(int); void vf_fail_unsupported(const char *); }
namespace std {
class ios_base { public:
  typedef unsigned fmtflags; typedef unsigned iostate; typedef unsigned openmode; typedef int seekdir;
  static const fmtflags boolalpha = 1, dec = 2, fixed = 4, hex = 8, internal = 16, left = 32, oct = 64, right = 128, scientific = 256, showbase = 512, showpoint = 1024, showpos = 2048, skipws = 4096, unitbuf = 8192, uppercase = 16384, adjustfield = 176, basefield = 74, floatfield = 260;
  static const iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4; static const openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32; static const seekdir beg = 0, cur = 1, end = 2;
  class failure {};
  fmtflags fl = skipws | dec; streamsize pr = 6, wi = 0; iostate st = goodbit;
  fmtflags flags() const { return fl; } fmtflags flags(fmtflags f) { fmtflags o = fl; fl = f; return o; } fmtflags setf(fmtflags f) { fmtflags o = fl; fl |= f; return o; } fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = fl; fl = (fl & ~m) | (f & m); return o; } void unsetf(fmtflags m) { fl &= ~m; }
  streamsize precision() const { return pr; } streamsize precision(streamsize p) { streamsize o = pr; pr = p; return o; } streamsize width() const { return wi; } streamsize width(streamsize p) { streamsize o = wi; wi = p; return o; }
  locale getloc() const { return locale(); } locale imbue(const locale &l) { return l; }
};
template <typename C, typename T> class basic_ios : public ios_base { public: C fc = C(' '); basic_string<C, T> buf; size_t rp = 0;
  C fill() const { return fc; } C fill(C c) { C o = fc; fc = c; return o; } bool good() const { return st == 0; } bool eof() const { return st & eofbit; } bool fail() const { return st & (failbit | badbit); } bool bad() const { return st & badbit; } iostate rdstate() const { return st; } void clear(iostate s = 0) { st = s; } void setstate(iostate s) { st |= s; } explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); } };
template <typename C, typename T> class basic_ostream : virtual public basic_ios<C, T> { public: typedef C char_type;
  struct sentry { explicit sentry(basic_ostream &) {} explicit operator bool() const { return true; } };
  basic_ostream &operator<<(basic_ostream &(*f)(basic_ostream &)) { return f(*this); } basic_ostream &operator<<(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
  void vf_pad(const basic_string<C, T> &s) { size_t w = this->wi > 0 ? (size_t)this->wi : 0; if (s.size() < w) { if (this->fl & ios_base::left) { this->buf += s; this->buf.append(w - s.size(), this->fc); } else { this->buf.append(w - s.size(), this->fc); this->buf += s; } } else this->buf += s; this->wi = 0; }
  void vf_num(unsigned long long v, bool neg) { // decimal
    basic_string<C, T> s; size_t n = 1; unsigned long long p = 10; size_t w = this->wi > 0 ? (size_t)this->wi : 0; if (this->fc == C('0') && !neg && w > 1 && !(this->fl & ios_base::left) && !(this->fl & ios_base::showpos)) { n = w; p = 1; for (size_t i = 0; i < w && i < 19; i++) p *= 10; }
    while (n < 20 && v >= p) { n++; if (n < 20) p *= 10; } if (n > 20) n = 20; if (neg) s.push_back(C('-')); else if (this->fl & ios_base::showpos) s.push_back(C('+')); size_t f = s.size(); s.append(n, C('0')); for (size_t i = 0; i < n; i++) { s[f + n - 1 - i] = C('0' + (int)(v % 10)); v /= 10; } vf_pad(s); }
  basic_ostream &operator<<(unsigned long long v) { vf_num(v, false); return *this; } basic_ostream &operator<<(unsigned long v) { vf_num(v, false); return *this; } basic_ostream &operator<<(unsigned v) { vf_num(v, false); return *this; } basic_ostream &operator<<(unsigned short v) { vf_num(v, false); return *this; }
  basic_ostream &operator<<(long long v) { if (v < 0) vf_num(0ULL - (unsigned long long)v, true); else vf_num((unsigned long long)v, false); return *this; } basic_ostream &operator<<(long v) { return *this << (long long)v; } basic_ostream &operator<<(int v) { return *this << (long long)v; } basic_ostream &operator<<(short v) { return *this << (long long)v; } basic_ostream &operator<<(bool v) { vf_num(v ? 1 : 0, false); return *this; }
  basic_ostream &operator<<(double) { vf_fail_unsupported("printing a double"); return *this; } basic_ostream &operator<<(float) { vf_fail_unsupported("printing a float"); return *this; } basic_ostream &operator<<(long double) { vf_fail_unsupported("printing a long double"); return *this; } basic_ostream &operator<<(const void *) { vf_fail_unsupported("printing a pointer"); return *this; }
  basic_ostream &write(const C *s, streamsize n) { this->buf.append(s, (size_t)n); return *this; } basic_ostream &put(C c) { this->buf.push_back(c); return *this; } basic_ostream &flush() { return *this; } };
template <typename C, typename T> class basic_istream : virtual public basic_ios<C, T> { public: typedef C char_type; streamsize gc = 0;
  struct sentry { bool ok; explicit sentry(basic_istream &i, bool = false) : ok(i.vf_skip()) {} explicit operator bool() const { return ok; } };
  static bool vf_space(C c) { return c == ' ' || (c >= 9 && c <= 13); }
  bool vf_skip() { if (this->st) { this->st |= ios_base::failbit; return false; } if (this->fl & ios_base::skipws) while (this->rp < this->buf.size() && vf_space(this->buf[this->rp])) this->rp++; if (this->rp >= this->buf.size()) { this->st |= ios_base::eofbit | ios_base::failbit; return false; } return true; }
  bool vf_end() { if (this->rp >= this->buf.size()) { this->st |= ios_base::eofbit; return true; } return false; }
  basic_istream &operator>>(basic_istream &(*f)(basic_istream &)) { return f(*this); } basic_istream &operator>>(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
  template <typename I> void vf_int(I &r) { if (!vf_skip()) return; bool neg = false, any = false, big = false; C c = this->buf[this->rp]; if (c == '-' || c == '+') { neg = c == '-'; this->rp++; } unsigned long long v = 0; while (!vf_end()) { c = this->buf[this->rp]; if (!(c >= '0' && c <= '9')) break; unsigned d = (unsigned)(c - '0'); any = true; if (v > (~0ULL - d) / 10) big = true; v = v * 10 + d; this->rp++; }
    if (!any) { r = 0; this->st |= ios_base::failbit; return; } unsigned long long mx = (unsigned long long)numeric_limits<I>::max(); bool sg = numeric_limits<I>::is_signed; unsigned long long lim = sg && neg ? mx + 1 : mx; if (big || v > lim) { r = sg && neg ? numeric_limits<I>::min() : numeric_limits<I>::max(); this->st |= ios_base::failbit; return; } r = neg ? (I)(0ULL - v) : (I)v; }
  basic_istream &operator>>(unsigned long long &v) { vf_int(v); return *this; } basic_istream &operator>>(unsigned long &v) { vf_int(v); return *this; } basic_istream &operator>>(unsigned &v) { vf_int(v); return *this; } basic_istream &operator>>(unsigned short &v) { vf_int(v); return *this; } basic_istream &operator>>(long long &v) { vf_int(v); return *this; } basic_istream &operator>>(long &v) { vf_int(v); return *this; } basic_istream &operator>>(int &v) { vf_int(v); return *this; } basic_istream &operator>>(short &v) { vf_int(v); return *this; }
  // decimal floating-point input: the correctly rounded value of d.ddd[e[+-]dd], handed to the solver's rounding model
  bool vf_dec(int &z, bool &neg) { if (!vf_skip()) return false; neg = false; C c = this->buf[this->rp]; if (c == '-' || c == '+') { neg = c == '-'; this->rp++; } int m = vf_z_u(0); int64_t sc = 0; bool dot = false, any = false; while (!vf_end()) { c = this->buf[this->rp]; if (c == '.') { if (dot) break; dot = true; } else if (c >= '0' && c <= '9') { m = vf_z_add(vf_z_mul(m, vf_z_u(10)), vf_z_u((uint64_t)(c - '0'))); any = true; if (dot) sc--; } else break; this->rp++; }
    if (!any) { this->st |= ios_base::failbit; return false; } if (!vf_end() && (this->buf[this->rp] == 'e' || this->buf[this->rp] == 'E')) { this->rp++; bool en = false; if (!vf_end() && (this->buf[this->rp] == '-' || this->buf[this->rp] == '+')) { en = this->buf[this->rp] == '-'; this->rp++; } int64_t e = 0; while (!vf_end() && this->buf[this->rp] >= '0' && this->buf[this->rp] <= '9') { e = e * 10 + (this->buf[this->rp] - '0'); this->rp++; } sc += en ? -e : e; } z = vf_z_mul(m, vf_z_pow(vf_z_u(10), sc)); return true; }
  basic_istream &operator>>(double &d) { int z; bool n; d = 0; if (vf_dec(z, n)) { d = vf_d_z(z); if (n) d = -d; } return *this; } basic_istream &operator>>(long double &d) { int z; bool n; d = 0; if (vf_dec(z, n)) { d = vf_ld_z(z); if (n) d = -d; } return *this; } basic_istream &operator>>(float &) { vf_fail_unsupported("reading a float"); return *this; }
  int get() { if (vf_end()) return -1; return (int)(unsigned char)this->buf[this->rp++]; } basic_istream &get(C &c) { if (vf_end()) { this->st |= ios_base::failbit; return *this; } c = this->buf[this->rp++]; return *this; } int peek() { if (vf_end()) return -1; return (int)(unsigned char)this->buf[this->rp]; } basic_istream &putback(C c) { this->st &= ~ios_base::eofbit; if (this->rp > 0) this->buf[--this->rp] = c; else this->buf.insert(this->buf.begin(), c); return *this; } basic_istream &unget() { if (this->rp) this->rp--; return *this; } streamsize gcount() const { return gc; } };
template <typename C, typename T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> {};
_GLIBCXX_BEGIN_NAMESPACE_CXX11
template <typename C, typename T, typename A> class basic_stringstream : public basic_iostream<C, T> { public: basic_stringstream() {} explicit basic_stringstream(ios_base::openmode) {} explicit basic_stringstream(const basic_string<C, T, A> &s, ios_base::openmode = 0) { this->buf = s; } basic_string<C, T, A> str() const { return this->buf; } void str(const basic_string<C, T, A> &s) { this->buf = s; this->rp = 0; } };
template <typename C, typename T, typename A> class basic_ostringstream : public basic_ostream<C, T> { public: basic_ostringstream() {} explicit basic_ostringstream(ios_base::openmode) {} basic_string<C, T, A> str() const { return this->buf; } void str(const basic_string<C, T, A> &s) { this->buf = s; } };
template <typename C, typename T, typename A> class basic_istringstream : public basic_istream<C, T> { public: basic_istringstream() {} explicit basic_istringstream(const basic_string<C, T, A> &s) { this->buf = s; } basic_string<C, T, A> str() const { return this->buf; } };
_GLIBCXX_END_NAMESPACE_CXX11
inline ostream &operator<<(ostream &o, const string &s) { o.vf_pad(s); return o; } inline ostream &operator<<(ostream &o, const char *s) { o.vf_pad(string(s)); return o; } inline ostream &operator<<(ostream &o, char c) { o.vf_pad(string(1, c)); return o; } inline ostream &operator<<(ostream &o, unsigned char c) { o.vf_pad(string(1, (char)c)); return o; } inline ostream &operator<<(ostream &o, signed char c) { o.vf_pad(string(1, (char)c)); return o; }
inline istream &operator>>(istream &i, string &s) { s.clear(); if (!i.vf_skip()) return i; while (!i.vf_end()) { char c = i.buf[i.rp]; if (istream::vf_space(c)) break; s.push_back(c); i.rp++; } i.wi = 0; return i; } inline istream &operator>>(istream &i, char &c) { if (i.vf_skip()) c = i.buf[i.rp++]; return i; }
template <typename C, typename T> inline basic_ostream<C, T> &endl(basic_ostream<C, T> &o) { return o.put('\n'); } template <typename C, typename T> inline basic_ostream<C, T> &flush(basic_ostream<C, T> &o) { return o; } template <typename C, typename T> inline basic_ostream<C, T> &ends(basic_ostream<C, T> &o) { return o.put(0); } template <typename C, typename T> inline basic_istream<C, T> &ws(basic_istream<C, T> &i) { while (i.rp < i.buf.size() && basic_istream<C, T>::vf_space(i.buf[i.rp])) i.rp++; return i; }
#define VF_FL(n, f, m) inline ios_base &n(ios_base &b) { b.setf(ios_base::f, ios_base::m); return b; }
VF_FL(fixed, fixed, floatfield) VF_FL(scientific, scientific, floatfield) VF_FL(dec, dec, basefield) VF_FL(hex, hex, basefield) VF_FL(oct, oct, basefield) VF_FL(left, left, adjustfield) VF_FL(right, right, adjustfield) VF_FL(internal, internal, adjustfield) VF_FL(showpoint, showpoint, showpoint) VF_FL(showpos, showpos, showpos) VF_FL(uppercase, uppercase, uppercase) VF_FL(boolalpha, boolalpha, boolalpha) VF_FL(skipws, skipws, skipws)
#undef VF_FL
inline ios_base &noshowpoint(ios_base &b) { b.unsetf(ios_base::showpoint); return b; } inline ios_base &noshowpos(ios_base &b) { b.unsetf(ios_base::showpos); return b; } inline ios_base &nouppercase(ios_base &b) { b.unsetf(ios_base::uppercase); return b; } inline ios_base &noskipws(ios_base &b) { b.unsetf(ios_base::skipws); return b; } inline ios_base &defaultfloat(ios_base &b) { b.unsetf(ios_base::floatfield); return b; }
struct vf_setw { int n; }; struct vf_setp { int n; }; template <typename C> struct vf_setf { C c; }; inline vf_setw setw(int n) { return {n}; } inline vf_setp setprecision(int n) { return {n}; } template <typename C> inline vf_setf<C> setfill(C c) { return {c}; }
template <typename C, typename T> inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, vf_setw s) { o.width(s.n); return o; } template <typename C, typename T> inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, vf_setp s) { o.precision(s.n); return o; } template <typename C, typename T> inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, vf_setf<C> s) { o.fill(s.c); return o; }
static ostream cout, cerr, clog; static istream cin;

}
