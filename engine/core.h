// Symbolic term layer: interned monomials, polynomials and formulas over integer/real atoms,
// intervals, and the query layer on top of z3.
#pragma once
#include <gmpxx.h>
#include <z3++.h>
#include <algorithm>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

typedef mpz_class Z;
typedef mpq_class Q;
typedef unsigned __int128 u128;
typedef __int128 i128;

inline Z zFromU128(u128 v) {
  Z r; uint64_t w[2] = {(uint64_t)v, (uint64_t)(v >> 64)};
  mpz_import(r.get_mpz_t(), 2, -1, 8, 0, 0, w); return r;
}
inline u128 u128FromZ(const Z &z) { // z >= 0, < 2^128
  uint64_t w[2] = {0, 0}; size_t n = 0;
  mpz_export(w, &n, -1, 8, 0, 0, z.get_mpz_t());
  return ((u128)w[1] << 64) | w[0];
}
inline Z pow2z(unsigned k) { Z r; mpz_setbit(r.get_mpz_t(), k); return r; }
inline Z floorDiv(const Z &a, const Z &b) { Z r; mpz_fdiv_q(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }
inline Z ceilDiv(const Z &a, const Z &b) { Z r; mpz_cdiv_q(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }
inline Z floorQ(const Q &q) { return floorDiv(q.get_num(), q.get_den()); }
inline Z ceilQ(const Q &q) { return ceilDiv(q.get_num(), q.get_den()); }
inline u128 maskW(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline Q pow2q(int k) { return k >= 0 ? Q(pow2z(k)) : Q(Z(1), pow2z(-k)); }

struct Bound {
  bool lof = false, hif = false; Q lo, hi;
  static Bound mk(const Q &a, const Q &b) { Bound r; r.lof = r.hif = true; r.lo = a; r.hi = b; return r; }
  void meet(const Bound &o) {
    if (o.lof && (!lof || o.lo > lo)) { lof = true; lo = o.lo; }
    if (o.hif && (!hif || o.hi < hi)) { hif = true; hi = o.hi; }
  }
};

struct Form; struct Poly;
struct Mono { std::vector<int> a; int id; };
struct Term { const Mono *m; Q c; };
struct Poly {
  std::vector<Term> t; // sorted by mono id, no zero coefficient
  int id = 0; bool isInt = true; // every atom integer and every coefficient integer
  bool allIntAtoms = true;
  bool isConst() const { return t.empty() || (t.size() == 1 && t[0].m->a.empty()); }
  Q cst() const { return (!t.empty() && t[0].m->a.empty()) ? t[0].c : Q(0); }
};
enum FK { F_TRUE, F_FALSE, F_LE0, F_LT0, F_EQ0, F_AND, F_OR, F_NOT };
struct Form { FK k; const Poly *p = nullptr; std::vector<const Form *> ch; int id = 0; std::vector<int> atoms; };
typedef const Poly *PP; typedef const Form *FP;

struct Atom {
  int id; bool isInt; std::string name; Bound b; std::vector<FP> defs; bool isInput = false; bool undef = false;
  PP qT = nullptr; Z qC; // floor(qT/qC)
  int ek = 0; PP ex = nullptr, ey = nullptr; FP ef = nullptr; int eprec = 0; // how to compute the atom: 1 [ef], 2 floor(ex), 3 floor(ex/ey), 4 ex mod ey, 5 ef ? ex : ey, 6 ex/ey, 7 rounding error of ex
};

struct Core {
  std::vector<Atom *> atoms; std::vector<Mono *> monos; std::vector<Poly *> polys; std::vector<Form *> forms;
  std::unordered_map<size_t, std::vector<Mono *>> monoTab; std::unordered_map<size_t, std::vector<Poly *>> polyTab;
  std::unordered_map<size_t, std::vector<Form *>> formTab;
  std::unordered_map<int, Bound> facts; // key poly id -> bound (globally valid)
  std::map<std::pair<int, std::string>, int> quotCache; std::map<std::pair<int, int>, int> quotSymCache;
  std::map<int, int> bitCache; std::map<std::vector<int>, int> iteCache;
  FP T, Fa; PP P0, P1; const Mono *M1;
  Core() { M1 = mono({}); P0 = cst(0); P1 = cst(1); T = mkForm(F_TRUE, nullptr, {}); Fa = mkForm(F_FALSE, nullptr, {}); }
  const Mono *mono(std::vector<int> a) {
    std::sort(a.begin(), a.end()); size_t h = 17; for (int x : a) h = h * 1000003 + x;
    for (auto *m : monoTab[h]) if (m->a == a) return m;
    Mono *m = new Mono{a, (int)monos.size()}; monos.push_back(m); monoTab[h].push_back(m); return m;
  }
  PP intern(std::vector<Term> &&t) {
    size_t h = 31; for (auto &x : t) { h = h * 1000003 + x.m->id; h = h * 31 + (size_t)mpz_get_ui(x.c.get_num_mpz_t()) * (mpz_sgn(x.c.get_num_mpz_t()) < 0 ? 7 : 1) + (size_t)mpz_get_ui(x.c.get_den_mpz_t()); }
    auto &b = polyTab[h];
    for (auto *p : b) { if (p->t.size() != t.size()) continue; bool eq = true;
      for (size_t i = 0; i < t.size() && eq; i++) eq = p->t[i].m == t[i].m && p->t[i].c == t[i].c;
      if (eq) return p; }
    Poly *p = new Poly; p->t = std::move(t); p->id = polys.size();
    for (auto &x : p->t) { if (x.c.get_den() != 1) p->isInt = false; for (int a : x.m->a) if (!atoms[a]->isInt) { p->isInt = false; p->allIntAtoms = false; } }
    polys.push_back(p); b.push_back(p); return p;
  }
  PP cst(const Q &q) { std::vector<Term> t; if (q != 0) t.push_back({M1, q}); return intern(std::move(t)); }
  PP var(int a) { std::vector<Term> t; t.push_back({mono({a}), Q(1)}); return intern(std::move(t)); }
  PP lin(PP a, const Q &ca, PP b, const Q &cb) { // ca*a + cb*b
    std::vector<Term> r; r.reserve(a->t.size() + b->t.size()); size_t i = 0, j = 0;
    while (i < a->t.size() || j < b->t.size()) {
      if (j >= b->t.size() || (i < a->t.size() && a->t[i].m->id < b->t[j].m->id)) { Q c = a->t[i].c * ca; if (c != 0) r.push_back({a->t[i].m, c}); i++; }
      else if (i >= a->t.size() || b->t[j].m->id < a->t[i].m->id) { Q c = b->t[j].c * cb; if (c != 0) r.push_back({b->t[j].m, c}); j++; }
      else { Q c = a->t[i].c * ca + b->t[j].c * cb; if (c != 0) r.push_back({a->t[i].m, c}); i++; j++; }
    }
    return intern(std::move(r));
  }
  PP add(PP a, PP b) { return lin(a, 1, b, 1); }
  PP sub(PP a, PP b) { return lin(a, 1, b, -1); }
  PP addc(PP a, const Q &c) { return c == 0 ? a : lin(a, 1, cst(c), 1); }
  PP scale(PP a, const Q &c) { return lin(a, c, P0, 0); }
  PP neg(PP a) { return scale(a, -1); }
  std::unordered_map<int, std::pair<int, PP>> rwQ; // q -> (y, p): the product q*y equals p
  PP mul(PP a, PP b) {
    if (a->isConst()) return scale(b, a->cst());
    if (b->isConst()) return scale(a, b->cst());
    std::map<int, std::pair<const Mono *, Q>> acc;
    for (auto &x : a->t) for (auto &y : b->t) {
      std::vector<int> v = x.m->a; v.insert(v.end(), y.m->a.begin(), y.m->a.end());
      // 0/1 atoms are idempotent
      std::sort(v.begin(), v.end());
      std::vector<int> u; for (int e : v) { if (!u.empty() && u.back() == e && is01(e)) continue; u.push_back(e); }
      if (!rwQ.empty()) { bool hit = false; for (size_t i = 0; i < u.size() && !hit; i++) { auto it = rwQ.find(u[i]); if (it == rwQ.end()) continue; for (size_t j = 0; j < u.size(); j++) if (j != i && u[j] == it->second.first) { std::vector<int> v2; for (size_t k = 0; k < u.size(); k++) if (k != i && k != j) v2.push_back(u[k]); std::vector<Term> mt; mt.push_back({mono(v2), x.c * y.c}); PP sub = mul(it->second.second, intern(std::move(mt))); for (auto &t : sub->t) { auto &s = acc[t.m->id]; s.first = t.m; s.second += t.c; } hit = true; break; } } if (hit) continue; }
      const Mono *m = mono(u); auto &s = acc[m->id]; s.first = m; s.second += x.c * y.c;
    }
    std::vector<Term> r; for (auto &k : acc) if (k.second.second != 0) r.push_back({k.second.first, k.second.second});
    return intern(std::move(r));
  }
  std::set<int> zeroOne;
  bool is01(int a) { return zeroOne.count(a); }
  int newAtom(bool isInt, const std::string &n, const Bound &b) {
    Atom *a = new Atom; a->id = atoms.size(); a->isInt = isInt; a->name = n; a->b = b; atoms.push_back(a); return a->id;
  }
  std::unordered_map<int, std::vector<PP>> keyIdx; std::set<int> keySeen; // fact keys by last monomial
  void note(PP k) { if (k->t.size() < 2 || !keySeen.insert(k->id).second) return; int best = -1; for (auto &t : k->t) best = std::max(best, t.m->id); keyIdx[best].push_back(k); }
  // ---- canonical key for linear facts: non-constant part scaled to leading coefficient 1
  PP keyOf(PP p, Q &scaleOut, Q &cOut) { // p = scale*key + c
    cOut = p->cst(); PP n = cOut == 0 ? p : addc(p, -cOut); scaleOut = n->t[0].c; return scaleOut == 1 ? n : scale(n, 1 / scaleOut);
  }
  // ---- formulas
  FP mkForm(FK k, PP p, std::vector<FP> ch) {
    size_t h = k * 7919 + (p ? p->id + 1 : 0); for (auto *c : ch) h = h * 1000003 + c->id;
    for (auto *f : formTab[h]) if (f->k == k && f->p == p && f->ch == ch) return f;
    Form *f = new Form; f->k = k; f->p = p; f->ch = ch; f->id = forms.size();
    std::set<int> s; if (p) for (auto &t : p->t) for (int a : t.m->a) s.insert(a);
    for (auto *c : ch) s.insert(c->atoms.begin(), c->atoms.end());
    f->atoms.assign(s.begin(), s.end()); forms.push_back(f); formTab[h].push_back(f); return f;
  }
  PP clearDen(PP p, Q *mult = nullptr) { // positive scaling to coprime integer coefficients of the non-constant part
    Z l = 1, g = 0;
    for (auto &t : p->t) if (!t.m->a.empty()) mpz_lcm(l.get_mpz_t(), l.get_mpz_t(), t.c.get_den_mpz_t());
    for (auto &t : p->t) if (!t.m->a.empty()) { Z n = Z(t.c.get_num() * (l / t.c.get_den())); mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), n.get_mpz_t()); }
    if (g == 0) return p; Q m(l, g); m.canonicalize(); if (mult) *mult = m; return m == 1 ? p : scale(p, m);
  }
  FP le0(PP p) { // p <= 0
    if (p->isConst()) return p->cst() <= 0 ? T : Fa;
    p = clearDen(p);
    if (p->allIntAtoms) { Q c = p->cst(); Z cc = ceilQ(c); if (Q(cc) != c) p = addc(p, Q(cc) - c); }
    return mkForm(F_LE0, p, {});
  }
  FP lt0(PP p) {
    if (p->isConst()) return p->cst() < 0 ? T : Fa;
    p = clearDen(p);
    if (p->allIntAtoms) { Q c = p->cst(); Z f = floorQ(c); return le0(addc(p, Q(f + 1) - c)); }
    return mkForm(F_LT0, p, {});
  }
  FP eq0(PP p) {
    if (p->isConst()) return p->cst() == 0 ? T : Fa;
    p = clearDen(p); if (p->allIntAtoms && p->cst().get_den() != 1) return Fa;
    const Term &l = p->t[0].m->a.empty() ? p->t[1] : p->t[0]; if (l.c < 0) p = neg(p);
    return mkForm(F_EQ0, p, {});
  }
  FP Not(FP f) {
    switch (f->k) { case F_TRUE: return Fa; case F_FALSE: return T; case F_NOT: return f->ch[0];
      case F_LE0: return lt0(neg(f->p)); case F_LT0: return le0(neg(f->p));
      case F_AND: { std::vector<FP> c; for (auto *x : f->ch) c.push_back(Not(x)); return Or(c); }
      case F_OR: { std::vector<FP> c; for (auto *x : f->ch) c.push_back(Not(x)); return And(c); }
      default: return mkForm(F_NOT, nullptr, {f}); }
  }
  FP And(const std::vector<FP> &in) {
    std::vector<FP> c; std::set<int> s;
    for (auto *f : in) { if (f->k == F_FALSE) return Fa; if (f->k == F_TRUE) continue;
      if (f->k == F_AND) { for (auto *g : f->ch) if (s.insert(g->id).second) c.push_back(g); } else if (s.insert(f->id).second) c.push_back(f); }
    for (auto *f : c) if (s.count(Not1(f))) return Fa;
    if (c.empty()) return T; if (c.size() == 1) return c[0];
    std::sort(c.begin(), c.end(), [](FP a, FP b) { return a->id < b->id; }); return mkForm(F_AND, nullptr, c);
  }
  int Not1(FP f) { if (f->k == F_NOT) return f->ch[0]->id; if (f->k == F_LE0 || f->k == F_LT0 || f->k == F_EQ0) return Not(f)->id; return -1; }
  FP Or(const std::vector<FP> &in) {
    std::vector<FP> c; std::set<int> s;
    for (auto *f : in) { if (f->k == F_TRUE) return T; if (f->k == F_FALSE) continue;
      if (f->k == F_OR) { for (auto *g : f->ch) if (s.insert(g->id).second) c.push_back(g); } else if (s.insert(f->id).second) c.push_back(f); }
    for (auto *f : c) if (s.count(Not1(f))) return T;
    if (c.empty()) return Fa; if (c.size() == 1) return c[0];
    std::sort(c.begin(), c.end(), [](FP a, FP b) { return a->id < b->id; }); return mkForm(F_OR, nullptr, c);
  }
  FP Xor(FP a, FP b) { return Or({And({a, Not(b)}), And({Not(a), b})}); }
  FP Ite(FP c, FP a, FP b) { return Or({And({c, a}), And({Not(c), b})}); }
};
extern Core C;

// State-dependent facts (path condition summary)
struct Facts { std::unordered_map<int, Bound> m; std::set<int> known; }; // known: forms assumed true

Bound monoBound(const Mono *m, const Facts *fs);
Bound atomBound(int a, const Facts *fs);
Bound interval(PP p, const Facts *fs);
FP simplify(FP f, const Facts *fs);
void learn(FP f, Facts &fs);

enum Res { R_SAT, R_UNSAT, R_UNK };
struct Model { std::map<int, Q> v; };
struct Stats { uint64_t queries = 0, sat = 0, unsat = 0, unk = 0, cached = 0, quick = 0; double t = 0; double maxT = 0; };
extern Stats ST;
extern unsigned OPT_TIMEOUT; extern bool OPT_DUMP; extern std::string OPT_DUMPDIR; extern bool OPT_VERBOSE;
Res query(const std::vector<FP> &pc, const std::vector<FP> &extra, const Facts *fs, unsigned timeoutMs, int level);
Res modelFor(const std::vector<FP> &pc, const std::vector<FP> &extra, const Facts *fs, unsigned timeoutMs, Model &out, bool &exact, bool hard = true);
bool evalForm(FP f, const Model &m, bool &ok);
bool evalAtom(int a, Model &m, int depth = 0); bool evalAtoms(PP p, Model &m, int depth = 0); bool evalAtoms(FP f, Model &m, int depth = 0);
Q evalPoly(PP p, const Model &m, bool &ok);
std::string polyStr(PP p); std::string formStr(FP f);
