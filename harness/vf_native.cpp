// Native side of the harness interface: replays concrete inputs against the real code.
#define VF_NATIVE 1
#include "vf.h"
#include <gmpxx.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <cstring>
#include <ctime>
#include <fstream>
#include <iostream>
#include <map>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
typedef mpq_class Q; typedef mpz_class Z;
static std::vector<Q> &hs() { static std::vector<Q> v; return v; }
static std::map<std::string, Q> &ins() { static std::map<std::string, Q> m; return m; }
static std::map<std::string, vf_fn> &regs() { static std::map<std::string, vf_fn> m; return m; }
static std::vector<int64_t> pars; static int fails = 0;
VfReg::VfReg(const char *n, vf_fn f) { regs()[n] = f; }
static int nh(Q q) { q.canonicalize(); hs().push_back(q); return (int)hs().size() - 1; }
static bool searching = false; static uint64_t rs = 1; static char *shm = nullptr; static size_t shmN = 0, shmCap = 1 << 20; static int rmode = 0;
static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static Q pick(const std::string &n, Q lo, Q hi, bool integer) {
  auto it = ins().find(n); if (it != ins().end()) return it->second; Q v; int r = (int)(rnd() % 12); Q sp = hi - lo;
  if (rmode == 0) v = r < 2 ? lo : hi; else if (rmode == 1) v = r < 9 ? lo : hi; else if (r == 0) v = lo; else if (r == 1) v = hi; else if (r == 2 && integer) v = lo + (sp > 5 ? Q((unsigned long)(rnd() % 5)) : Q(0)); else if (r == 3 && integer) v = hi - (sp > 5 ? Q((unsigned long)(rnd() % 5)) : Q(0));
  else if (integer) { mpz_class z((unsigned long)rnd()); z <<= 64; z += (unsigned long)rnd(); mpz_class m = sp.get_num() / sp.get_den() + 1; if (r < 6) { mpz_class k; unsigned long sh = rnd() % (mpz_sizeinbase(m.get_mpz_t(), 2) + 1); mpz_fdiv_q_2exp(k.get_mpz_t(), m.get_mpz_t(), sh); m = k + 1; if (m > sp.get_num() / sp.get_den() + 1) m = sp.get_num() / sp.get_den() + 1; } v = lo + Q(z % m); }
  else { Q f((unsigned long)(rnd() % 1000003), 1000003); f.canonicalize(); v = lo + sp * f; }
  ins()[n] = v; std::string l = n + " " + v.get_str() + "\n"; if (shmN + l.size() + 1 < shmCap) { memcpy(shm + shmN, l.data(), l.size()); shmN += l.size(); shm[shmN] = 0; } return v;
}
static Q zq(const std::string &n, Q lo, Q hi, bool integer = true) { if (searching) return pick(n, lo, hi, integer); auto it = ins().find(n); Q v; if (it == ins().end()) v = lo > 0 ? lo : hi < 0 ? hi : Q(0); else v = it->second; if (v < lo || v > hi) { std::cout << "INPUT-RANGE " << n << "\n"; std::cout.flush(); _Exit(77); } return v; }
static Z zu(uint64_t x) { Z z; mpz_import(z.get_mpz_t(), 1, -1, 8, 0, 0, &x); return z; }
static Z zi(int64_t x) { return x < 0 ? Z(-zu(0 - (uint64_t)x)) : zu((uint64_t)x); }
static uint64_t uz(const Z &z) { uint64_t r = 0; Z m; mpz_fdiv_r_2exp(m.get_mpz_t(), z.get_mpz_t(), 64); mpz_export(&r, nullptr, -1, 8, 0, 0, m.get_mpz_t()); return r; }
static Z fl(const Q &q) { Z r; mpz_fdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return r; }
static Q fromLd(long double x) { int e; long double m = frexpl(x, &e); bool ng = m < 0; if (ng) m = -m; uint64_t u = (uint64_t)ldexpl(m, 64); Q q(zu(u)); e -= 64; if (e >= 0) mpq_mul_2exp(q.get_mpq_t(), q.get_mpq_t(), e); else mpq_div_2exp(q.get_mpq_t(), q.get_mpq_t(), -e); return ng ? Q(-q) : q; }
static long double toLd(Q q) { // round to nearest even, 64-bit significand
  bool ng = q < 0; if (ng) q = -q; if (q == 0) return 0; long e = (long)mpz_sizeinbase(q.get_num_mpz_t(), 2) - (long)mpz_sizeinbase(q.get_den_mpz_t(), 2); auto p2 = [](long k) { Q r = 1; if (k >= 0) mpq_mul_2exp(r.get_mpq_t(), r.get_mpq_t(), k); else mpq_div_2exp(r.get_mpq_t(), r.get_mpq_t(), -k); return r; };
  while (p2(e) <= q) e++; while (p2(e - 1) > q) e--; Q m = q * p2(64 - e); Z f = fl(m); Q r = m - Q(f); if (r > Q(1, 2) || (r == Q(1, 2) && mpz_odd_p(f.get_mpz_t()))) f += 1; if (mpz_sizeinbase(f.get_mpz_t(), 2) > 64) { f /= 2; e++; } long double v = ldexpl((long double)uz(f), (int)(e - 64)); return ng ? -v : v; }
static double toD(Q q) { bool ng = q < 0; if (ng) q = -q; if (q == 0) return 0; double lo = q.get_d(), hi = nextafter(lo, INFINITY); Q a(lo), b(hi); Q da = q - a, db = b - q; double v = da < db ? lo : db < da ? hi : (std::fmod(ldexp(lo, 53 - ilogb(lo) - 1), 2) == 0 ? lo : hi); return ng ? -v : v; }
extern "C" {
uint64_t vf_sym_u(const char *n, uint64_t lo, uint64_t hi) { return uz(fl(zq(n, Q(zu(lo)), Q(zu(hi))))); }
int64_t vf_sym_i(const char *n, int64_t lo, int64_t hi) { return (int64_t)uz(fl(zq(n, Q(zi(lo)), Q(zi(hi))))); }
uint64_t vf_sym_u_at(const char *n, uint64_t lo, uint64_t hi, int64_t i) { return vf_sym_u((std::string(n) + "[" + std::to_string(i) + "]").c_str(), lo, hi); }
int64_t vf_sym_i_at(const char *n, int64_t lo, int64_t hi, int64_t i) { return vf_sym_i((std::string(n) + "[" + std::to_string(i) + "]").c_str(), lo, hi); }
int64_t vf_param(int i) { if ((size_t)i >= pars.size()) { std::cout << "MISSING-PARAM\n"; _Exit(78); } return pars[i]; }
void vf_assume(bool b) { if (!b) { std::cout << "ASSUME-FALSE\n"; std::cout.flush(); _Exit(77); } }
void vf_assert_(bool b, const char *m) { if (!b) { std::cout << "ASSERT-FAIL: " << m << std::endl; _exit(1); } }
void vf_reach(const char *l) { std::cout << "REACH " << l << "\n"; }
void vf_observe(const char *n, uint64_t v) { std::cout << "OBS " << n << " " << v << "\n"; } void vf_observe_i(const char *n, int64_t v) { std::cout << "OBS " << n << " " << v << "\n"; } void vf_observe_z(const char *n, int h) { std::cout << "OBS " << n << " " << hs()[h].get_str() << "\n"; }
int64_t vf_concrete(int64_t v) { return v; } bool vf_is_native() { return true; } void vf_allow_throw(int) {} int64_t vf_live_heap() { return 0; }
void vf_fail(const char *m) { fails++; std::cout << "ASSERT-FAIL: " << m << std::endl; exit(1); } void vf_stop() { std::cout.flush(); exit(fails ? 1 : 0); }
bool vf_and(bool a, bool b) { return a && b; } bool vf_or(bool a, bool b) { return a || b; } bool vf_not(bool a) { return !a; } bool vf_iff(bool a, bool b) { return a == b; }
int vf_z_str(const char *s) { return nh(Q(s)); } int vf_z_u(uint64_t x) { return nh(Q(zu(x))); } int vf_z_i(int64_t x) { return nh(Q(zi(x))); }
int vf_z_add(int a, int b) { return nh(hs()[a] + hs()[b]); } int vf_z_sub(int a, int b) { return nh(hs()[a] - hs()[b]); } int vf_z_mul(int a, int b) { return nh(hs()[a] * hs()[b]); }
int vf_z_pow(int a, int64_t e) { Q b = hs()[a], r; bool n = e < 0; if (n) e = -e; mpz_pow_ui(r.get_num_mpz_t(), b.get_num_mpz_t(), e); mpz_pow_ui(r.get_den_mpz_t(), b.get_den_mpz_t(), e); return nh(n ? Q(1 / r) : r); }
int vf_z_div(int a, int b) { return nh(hs()[a] / hs()[b]); } int vf_z_ediv(int a, int b) { return vf_z_div(a, b); } int vf_z_floor(int a) { return nh(Q(fl(hs()[a]))); }
bool vf_z_le(int a, int b) { return hs()[a] <= hs()[b]; } bool vf_z_lt(int a, int b) { return hs()[a] < hs()[b]; } bool vf_z_eq(int a, int b) { return hs()[a] == hs()[b]; } int vf_z_ite(bool c, int a, int b) { return c ? a : b; }
int vf_real(const char *n, const char *lo, const char *hi) { Q l(lo), h(hi); l.canonicalize(); h.canonicalize(); return nh(zq(n, l, h, false)); }
int vf_fresh(const char *, int, int lo, int) { return lo; } bool vf_z_is_const(int) { return true; } int vf_z_cut(int h) { return h; } int64_t vf_z_to_i(int h) { return (int64_t)uz(fl(hs()[h])); }
float vf_make_f(int64_t m, int e) { return (float)ldexp((double)m, e); } double vf_make_d(int64_t m, int e) { return ldexp((double)m, e); } long double vf_make_ld(uint64_t m, int e, bool n) { long double v = ldexpl((long double)m, e); return n ? -v : v; }
int vf_z_f(float x) { return nh(fromLd(x)); } int vf_z_d(double x) { if (!std::isfinite(x)) { std::cout << "ASSERT-FAIL: non-finite double\n"; fails++; return nh(Q(0)); } return nh(fromLd(x)); } int vf_z_ld(long double x) { if (!std::isfinite(x)) { std::cout << "ASSERT-FAIL: non-finite long double\n"; fails++; return nh(Q(0)); } return nh(fromLd(x)); }
double vf_d_z(int h) { return toD(hs()[h]); } long double vf_ld_z(int h) { return toLd(hs()[h]); } bool vf_fp_finite(double d) { return std::isfinite(d); }
void vf_print(const char *n, uint64_t v) { std::cout << "PRINT " << n << " " << (int64_t)v << "\n"; } void vf_print_z(const char *n, int h) { std::cout << "PRINT " << n << " " << hs()[h].get_str() << "\n"; }
}
// usage: prog ENTRY param,param,... < lines "name value"
int main(int c, char **v) {
  if (c < 2) { for (auto &p : regs()) std::cout << p.first << "\n"; return 0; }
  if (c > 2) { std::string s = v[2], t; for (char ch : s + ",") if (ch == ',') { if (!t.empty()) pars.push_back(atoll(t.c_str())); t.clear(); } else t += ch; }
  std::string l; while (std::getline(std::cin, l)) { size_t p = l.rfind(' '); if (p == std::string::npos) continue; Q q(l.substr(p + 1)); q.canonicalize(); ins()[l.substr(0, p)] = q; }
  auto it = regs().find(v[1]); if (it == regs().end()) { std::cout << "NO-ENTRY\n"; return 79; }
  if (c > 5 && !strcmp(v[3], "--search")) { // prog ENTRY params --search seed seconds: look for a concrete input that fails
    shm = (char *)mmap(nullptr, shmCap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); uint64_t seed = strtoull(v[4], nullptr, 10); double lim = atof(v[5]); time_t t0 = time(nullptr); std::map<std::string, Q> base = ins(); long tries = 0, ran = 0;
    while (difftime(time(nullptr), t0) < lim) { tries++; shm[0] = 0; std::cout.flush(); pid_t p = fork();
      if (p == 0) { alarm(20); if (!freopen("/dev/null", "w", stdout) || !freopen("/dev/null", "w", stderr)) {} searching = true; rs = (seed + 1) * 0x9E3779B97F4A7C15ull + tries * 0xD1342543DE82EF95ull; if (!rs) rs = 1; for (int i = 0; i < 4; i++) rnd(); rmode = (int)(rnd() % 6); ins().clear(); it->second(); _Exit(fails ? 1 : 0); }
      int st = 0; waitpid(p, &st, 0); int code = WIFEXITED(st) ? WEXITSTATUS(st) : 200; if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) continue; if (code == 77 || code == 78) continue; ran++; if (code != 0) { std::cout << "FOUND\n" << shm << "END\n"; return 0; } }
    std::cout << "NOTFOUND tries " << tries << " ran " << ran << "\n"; return 0; }
  it->second(); std::cout.flush(); std::cout << "DONE\n"; return fails ? 1 : 0;
}
