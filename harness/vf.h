// Harness interface: interpreted by the symbolic executor, implemented with GMP for native replay.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint64_t vf_sym_u(const char *, uint64_t lo, uint64_t hi); int64_t vf_sym_i(const char *, int64_t lo, int64_t hi);
uint64_t vf_sym_u_at(const char *, uint64_t lo, uint64_t hi, int64_t idx); int64_t vf_sym_i_at(const char *, int64_t lo, int64_t hi, int64_t idx);
int64_t vf_param(int); void vf_assume(bool); void vf_assert_(bool, const char *); void vf_reach(const char *);
void vf_observe(const char *, uint64_t); void vf_observe_i(const char *, int64_t); void vf_observe_z(const char *, int);
int64_t vf_concrete(int64_t); bool vf_is_native(); void vf_allow_throw(int); int64_t vf_live_heap(); void vf_fail(const char *); void vf_stop();
bool vf_and(bool, bool); bool vf_or(bool, bool); bool vf_not(bool); bool vf_iff(bool, bool);
int vf_z_str(const char *); int vf_z_u(uint64_t); int vf_z_i(int64_t); int vf_z_add(int, int); int vf_z_sub(int, int); int vf_z_mul(int, int); int vf_z_pow(int, int64_t); int vf_z_div(int, int); int vf_z_floor(int);
bool vf_z_le(int, int); bool vf_z_lt(int, int); bool vf_z_eq(int, int); int vf_z_ite(bool, int, int); int vf_z_ediv(int, int); int vf_real(const char *, const char *, const char *); int vf_fresh(const char *, int, int, int); bool vf_z_is_const(int); int vf_z_cut(int); int64_t vf_z_to_i(int);
float vf_make_f(int64_t, int); double vf_make_d(int64_t, int); long double vf_make_ld(uint64_t, int, bool); int vf_z_f(float); int vf_z_d(double); int vf_z_ld(long double); double vf_d_z(int); long double vf_ld_z(int); bool vf_fp_finite(double);
void vf_print(const char *, uint64_t); void vf_print_z(const char *, int);
}
#define VF_ASSERT(c, m) vf_assert_((c), (m))
struct ZZ {
  int h; ZZ() : h(vf_z_u(0)) {} ZZ(int x) : h(vf_z_i(x)) {} ZZ(long x) : h(vf_z_i(x)) {} ZZ(long long x) : h(vf_z_i(x)) {} ZZ(unsigned x) : h(vf_z_u(x)) {} ZZ(unsigned long x) : h(vf_z_u(x)) {} ZZ(unsigned long long x) : h(vf_z_u(x)) {} ZZ(const char *s) : h(vf_z_str(s)) {}
  static ZZ H(int h) { ZZ z(raw{}); z.h = h; return z; }
  struct raw {}; explicit ZZ(raw) : h(0) {}
};
inline ZZ operator+(ZZ a, ZZ b) { return ZZ::H(vf_z_add(a.h, b.h)); } inline ZZ operator-(ZZ a, ZZ b) { return ZZ::H(vf_z_sub(a.h, b.h)); } inline ZZ operator*(ZZ a, ZZ b) { return ZZ::H(vf_z_mul(a.h, b.h)); } inline ZZ operator/(ZZ a, ZZ b) { return ZZ::H(vf_z_ediv(a.h, b.h)); } inline ZZ operator-(ZZ a) { return ZZ(0) - a; }
inline bool zle(ZZ a, ZZ b) { return vf_z_le(a.h, b.h); } inline bool zlt(ZZ a, ZZ b) { return vf_z_lt(a.h, b.h); } inline bool zeq(ZZ a, ZZ b) { return vf_z_eq(a.h, b.h); }
inline ZZ zpow(ZZ a, int64_t e) { return ZZ::H(vf_z_pow(a.h, e)); } inline ZZ zfloor(ZZ a) { return ZZ::H(vf_z_floor(a.h)); } inline ZZ zite(bool c, ZZ a, ZZ b) { return ZZ::H(vf_z_ite(c, a.h, b.h)); }
inline ZZ zabs(ZZ a) { return zite(zle(ZZ(0), a), a, -a); }
inline bool both(bool a, bool b) { return vf_and(a, b); } inline bool either(bool a, bool b) { return vf_or(a, b); }
#ifdef VF_NATIVE
typedef void (*vf_fn)(); struct VfReg { VfReg(const char *, vf_fn); };
#define VF_ENTRY(n) extern "C" void n(); static VfReg vfreg_##n(#n, n); extern "C" void n()
#else
#define VF_ENTRY(n) extern "C" __attribute__((noinline, used)) void n()
#endif
