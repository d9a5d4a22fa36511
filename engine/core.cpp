#include "core.h"
Core C; Stats ST; unsigned OPT_TIMEOUT = 20000; bool OPT_DUMP = false; std::string OPT_DUMPDIR; bool OPT_VERBOSE = false;

Bound atomBound(int a, const Facts *fs) {
  Bound b = C.atoms[a]->b; PP v = C.var(a);
  auto it = C.facts.find(v->id); if (it != C.facts.end()) b.meet(it->second);
  if (fs) { auto j = fs->m.find(v->id); if (j != fs->m.end()) b.meet(j->second); }
  return b;
}
static Bound bmul(const Bound &x, const Bound &y) {
  Bound r;
  if (x.lof && x.hif && y.lof && y.hif) {
    Q c[4] = {x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi};
    return Bound::mk(*std::min_element(c, c + 4), *std::max_element(c, c + 4));
  }
  if (x.lof && y.lof && x.lo >= 0 && y.lo >= 0) { r.lof = true; r.lo = x.lo * y.lo; if (x.hif && y.hif) { r.hif = true; r.hi = x.hi * y.hi; } }
  return r;
}
static Bound bscale(const Bound &b, const Q &c) {
  Bound r; if (c > 0) { r = b; if (r.lof) r.lo *= c; if (r.hif) r.hi *= c; }
  else { r.lof = b.hif; r.hif = b.lof; if (r.lof) r.lo = b.hi * c; if (r.hif) r.hi = b.lo * c; } return r;
}
static void badd(Bound &a, const Bound &b) {
  if (a.lof) { if (b.lof) a.lo += b.lo; else a.lof = false; }
  if (a.hif) { if (b.hif) a.hi += b.hi; else a.hif = false; }
}
Bound monoBound(const Mono *m, const Facts *fs) {
  if (m->a.empty()) return Bound::mk(1, 1);
  Bound b = atomBound(m->a[0], fs);
  if (m->a.size() == 1) return b;
  for (size_t i = 1; i < m->a.size(); i++) b = bmul(b, atomBound(m->a[i], fs));
  if (m->a.size() == 2 && m->a[0] == m->a[1]) { Bound z; z.lof = true; z.lo = 0; b.meet(z); }
  if (m->a.size() >= 2) { // facts on the product itself
    std::vector<Term> t; t.push_back({m, Q(1)}); PP p = C.intern(std::move(t));
    auto it = C.facts.find(p->id); if (it != C.facts.end()) b.meet(it->second);
    if (fs) { auto j = fs->m.find(p->id); if (j != fs->m.end()) b.meet(j->second); }
  }
  return b;
}
static void meetKey(Bound &b, PP p, const Facts *fs) {
  Q s, c; PP k = C.keyOf(p, s, c);
  auto app = [&](const Bound &f) { Bound g = bscale(f, s); badd(g, Bound::mk(c, c)); b.meet(g); };
  auto it = C.facts.find(k->id); if (it != C.facts.end()) app(it->second);
  if (fs) { auto j = fs->m.find(k->id); if (j != fs->m.end()) app(j->second); }
}
Bound interval(PP p, const Facts *fs) {
  if (p->isConst()) return Bound::mk(p->cst(), p->cst());
  Bound r = Bound::mk(0, 0);
  for (auto &t : p->t) { if (t.m->a.empty()) badd(r, Bound::mk(t.c, t.c)); else badd(r, bscale(monoBound(t.m, fs), t.c)); if (!r.lof && !r.hif) break; }
  meetKey(r, p, fs);
  if (p->t.size() >= 2 && p->t.size() <= 64 && !C.keyIdx.empty()) { // p = l*key + rest with a recorded bound for key
    static thread_local int depth = 0; int best = -1; const Term *bt = nullptr; for (auto &t : p->t) if (t.m->id > best) { best = t.m->id; bt = &t; }
    auto it = C.keyIdx.find(best); if (depth < 40 && it != C.keyIdx.end()) { int tried = 0; depth++;
      for (size_t i = it->second.size(); i-- > 0 && tried < 6;) { PP k = it->second[i]; if (k->t.size() > p->t.size()) continue; const Bound *gb = nullptr, *sb = nullptr; auto g = C.facts.find(k->id); if (g != C.facts.end()) gb = &g->second; if (fs) { auto j = fs->m.find(k->id); if (j != fs->m.end()) sb = &j->second; } if (!gb && !sb) continue;
        const Term *kt = nullptr; for (auto &t : k->t) if (t.m->id == best) kt = &t; Q la = bt->c / kt->c; PP rest = C.lin(p, 1, k, -la); if (rest->t.size() >= p->t.size()) continue; tried++;
        Bound b; if (gb) b.meet(*gb); if (sb) b.meet(*sb); b = bscale(b, la); badd(b, interval(rest, fs)); r.meet(b); }
      depth--; } }
  return r;
}
static bool knownTrue(FP f, const Facts *fs) { return fs->known.count(f->id); }
static bool knownFalse(FP f, const Facts *fs) { int n = C.Not1(f); if (n < 0 && (f->k == F_AND || f->k == F_OR)) n = C.Not(f)->id; return n >= 0 && fs->known.count(n); }
static FP recheck(FP g, FP f, const Facts *fs) { if (g == f || !fs || fs->known.empty() || g->k <= F_FALSE) return g; if (knownTrue(g, fs)) return C.T; if (knownFalse(g, fs)) return C.Fa; return g; }
FP simplify(FP f, const Facts *fs) {
  if (fs && !fs->known.empty() && f->k > F_FALSE) { if (knownTrue(f, fs)) return C.T; if (knownFalse(f, fs)) return C.Fa; }
  switch (f->k) {
  case F_LE0: { Bound b = interval(f->p, fs); if (b.hif && b.hi <= 0) return C.T; if (b.lof && b.lo > 0) return C.Fa; return f; }
  case F_LT0: { Bound b = interval(f->p, fs); if (b.hif && b.hi < 0) return C.T; if (b.lof && b.lo >= 0) return C.Fa; return f; }
  case F_EQ0: { Bound b = interval(f->p, fs); if ((b.hif && b.hi < 0) || (b.lof && b.lo > 0)) return C.Fa; if (b.lof && b.hif && b.lo == 0 && b.hi == 0) return C.T; return f; }
  case F_AND: { std::vector<FP> c; for (auto *g : f->ch) c.push_back(simplify(g, fs)); return recheck(C.And(c), f, fs); }
  case F_OR: { std::vector<FP> c; for (auto *g : f->ch) c.push_back(simplify(g, fs)); return recheck(C.Or(c), f, fs); }
  case F_NOT: return C.Not(simplify(f->ch[0], fs));
  default: return f;
  }
}
static void learnLE(PP p, Facts &fs, bool eq) {
  Q s, c; PP k = C.keyOf(p, s, c); Bound b; Q v = -c / s;
  if (s > 0 || eq) { b.hif = true; b.hi = v; } if (s < 0 || eq) { b.lof = true; b.lo = v; }
  if (k->isInt) { if (b.lof) b.lo = ceilQ(b.lo); if (b.hif) b.hi = floorQ(b.hi); }
  C.note(k), fs.m[k->id].meet(b);
  if (p->t.size() <= 8 && p->t.size() > 1) { // propagate to single atoms
    for (int dir = 0; dir < (eq ? 2 : 1); dir++) {
      for (size_t i = 0; i < p->t.size(); i++) {
        if (p->t[i].m->a.size() != 1) continue;
        Bound r = Bound::mk(0, 0);
        for (size_t j = 0; j < p->t.size(); j++) if (j != i) badd(r, bscale(monoBound(p->t[j].m, &fs), p->t[j].c));
        Q a = p->t[i].c; Bound nb; // a*x + r <= 0  (dir 0) ; >= 0 (dir 1)
        if (dir == 0) { if (!r.lof) continue; Q lim = -r.lo / a; if (a > 0) { nb.hif = true; nb.hi = lim; } else { nb.lof = true; nb.lo = lim; } }
        else { if (!r.hif) continue; Q lim = -r.hi / a; if (a > 0) { nb.lof = true; nb.lo = lim; } else { nb.hif = true; nb.hi = lim; } }
        int at = p->t[i].m->a[0]; if (C.atoms[at]->isInt) { if (nb.lof) nb.lo = ceilQ(nb.lo); if (nb.hif) nb.hi = floorQ(nb.hi); }
        fs.m[C.var(at)->id].meet(nb);
      }
    }
  }
}
void learn(FP f, Facts &fs) {
  if (f->k > F_FALSE) fs.known.insert(f->id);
  switch (f->k) {
  case F_LE0: case F_LT0: learnLE(f->p, fs, false); break;
  case F_EQ0: learnLE(f->p, fs, true); break;
  case F_AND: for (auto *g : f->ch) learn(g, fs); break;
  case F_NOT: if (f->ch[0]->k == F_EQ0) { // p != 0 : shave integer endpoints
      PP p = f->ch[0]->p; Q s, c; PP k = C.keyOf(p, s, c); if (!k->isInt) break; Q v = -c / s; Bound b = interval(k, &fs); Bound nb;
      if (b.lof && b.lo == v) { nb.lof = true; nb.lo = v + 1; } if (b.hif && b.hi == v) { nb.hif = true; nb.hi = v - 1; }
      if (nb.lof || nb.hif) C.note(k), fs.m[k->id].meet(nb); } break;
  default: break;
  }
}
std::string polyStr(PP p) {
  std::ostringstream o; if (p->t.empty()) return "0"; bool first = true;
  for (auto &t : p->t) { o << (first ? "" : " + ") << t.c.get_str(); first = false; for (int a : t.m->a) o << "*" << C.atoms[a]->name; } return o.str();
}
std::string formStr(FP f) {
  std::ostringstream o; switch (f->k) { case F_TRUE: return "true"; case F_FALSE: return "false"; case F_LE0: return polyStr(f->p) + " <= 0"; case F_LT0: return polyStr(f->p) + " < 0";
  case F_EQ0: return polyStr(f->p) + " = 0"; case F_NOT: return "!(" + formStr(f->ch[0]) + ")"; default: o << (f->k == F_AND ? "(and" : "(or"); for (auto *g : f->ch) o << " " << formStr(g); o << ")"; return o.str(); }
}
Q evalPoly(PP p, const Model &m, bool &ok) {
  Q r = 0; for (auto &t : p->t) { Q x = t.c; for (int a : t.m->a) { auto it = m.v.find(a); if (it == m.v.end()) { ok = false; return 0; } x *= it->second; } r += x; } return r;
}
bool evalAtoms(PP p, Model &m, int d) { for (auto &t : p->t) for (int a : t.m->a) if (!evalAtom(a, m, d)) return false; return true; }
bool evalAtoms(FP f, Model &m, int d) { for (int a : f->atoms) if (!evalAtom(a, m, d)) return false; return true; }
bool evalAtom(int a, Model &m, int d) {
  if (m.v.count(a)) return true; Atom *at = C.atoms[a]; if (d > 3000) return false; bool o = true; Q v;
  if (at->qT) { if (!evalAtoms(at->qT, m, d + 1)) return false; v = Q(floorDiv(floorQ(evalPoly(at->qT, m, o)), at->qC)); }
  else switch (at->ek) {
    case 1: if (!evalAtoms(at->ef, m, d + 1)) return false; v = evalForm(at->ef, m, o) ? 1 : 0; break;
    case 2: if (!evalAtoms(at->ex, m, d + 1)) return false; v = Q(floorQ(evalPoly(at->ex, m, o))); break;
    case 3: case 4: case 6: { if (!evalAtoms(at->ex, m, d + 1) || !evalAtoms(at->ey, m, d + 1)) return false; Q x = evalPoly(at->ex, m, o), y = evalPoly(at->ey, m, o); if (!o || y == 0) return false; Q q = x / y; v = at->ek == 6 ? q : at->ek == 3 ? Q(floorQ(q)) : Q(x - y * Q(floorQ(q))); break; }
    case 5: { if (!evalAtoms(at->ef, m, d + 1)) return false; PP p = evalForm(at->ef, m, o) ? at->ex : at->ey; if (!evalAtoms(p, m, d + 1)) return false; v = evalPoly(p, m, o); break; }
    case 7: { if (!evalAtoms(at->ex, m, d + 1)) return false; Q x = evalPoly(at->ex, m, o); if (!o) return false; if (x == 0) { v = 0; break; } Q y = abs(x); long e = (long)mpz_sizeinbase(y.get_num_mpz_t(), 2) - (long)mpz_sizeinbase(y.get_den_mpz_t(), 2); while (pow2q((int)e) <= y) e++; while (pow2q((int)e - 1) > y) e--; Q mm = y * pow2q(at->eprec - (int)e); Z f = floorQ(mm); Q r = mm - Q(f); if (r > Q(1, 2) || (r == Q(1, 2) && mpz_odd_p(f.get_mpz_t()))) f += 1; Q w = Q(f) * pow2q((int)e - at->eprec); v = (x < 0 ? Q(-w) : w) - x; break; }
    default: return false; }
  if (!o) return false; m.v[a] = v; return true;
}
bool evalForm(FP f, const Model &m, bool &ok) {
  switch (f->k) { case F_TRUE: return true; case F_FALSE: return false; case F_LE0: return evalPoly(f->p, m, ok) <= 0; case F_LT0: return evalPoly(f->p, m, ok) < 0; case F_EQ0: return evalPoly(f->p, m, ok) == 0;
  case F_NOT: return !evalForm(f->ch[0], m, ok); case F_AND: for (auto *g : f->ch) if (!evalForm(g, m, ok)) return false; return true; default: for (auto *g : f->ch) if (evalForm(g, m, ok)) return true; return false; }
}

// ---------------------------------------------------------------- z3 layer
struct ZCtx {
  z3::context c; std::unordered_map<int, z3::expr> av[3], mv[3]; std::unordered_map<int, z3::expr> fv[3];
  z3::expr atom(int a, int lv) {
    auto it = av[lv].find(a); if (it != av[lv].end()) return it->second;
    std::string n = "a" + std::to_string(a);
    z3::expr e = (lv == 0 || !C.atoms[a]->isInt) ? c.real_const((n + (lv == 0 && C.atoms[a]->isInt ? "r" : "")).c_str()) : c.int_const(n.c_str());
    av[lv].emplace(a, e); return e;
  }
  z3::expr mono(const Mono *m, int lv) {
    if (m->a.size() == 1) return atom(m->a[0], lv);
    auto it = mv[lv].find(m->id); if (it != mv[lv].end()) return it->second;
    bool allInt = true; for (int a : m->a) allInt &= C.atoms[a]->isInt;
    z3::expr e(c);
    if (lv < 2) { std::string n = "m" + std::to_string(m->id); e = (lv == 0 || !allInt) ? c.real_const((n + "r").c_str()) : c.int_const(n.c_str()); }
    else { bool first = true; for (int a : m->a) { z3::expr x = atom(a, lv); if (!allInt && x.is_int()) x = z3::to_real(x); e = first ? x : e * x; first = false; } }
    mv[lv].emplace(m->id, e); return e;
  }
  z3::expr num(const Q &q, bool isInt) { return isInt ? c.int_val(q.get_num().get_str().c_str()) : c.real_val(q.get_str().c_str()); }
  z3::expr poly(PP p, int lv) {
    bool isInt = lv > 0 && p->isInt; z3::expr_vector v(c);
    for (auto &t : p->t) {
      if (t.m->a.empty()) { v.push_back(num(t.c, isInt)); continue; }
      z3::expr m = mono(t.m, lv); if (!isInt && m.is_int()) m = z3::to_real(m);
      v.push_back(t.c == 1 ? m : num(t.c, isInt) * m);
    }
    if (v.empty()) return num(Q(0), isInt); if (v.size() == 1) return v[0]; return z3::sum(v);
  }
  z3::expr form(FP f, int lv) {
    auto it = fv[lv].find(f->id); if (it != fv[lv].end()) return it->second;
    z3::expr e(c); auto zero = [&]() { return num(Q(0), lv > 0 && f->p->isInt); };
    switch (f->k) {
    case F_TRUE: e = c.bool_val(true); break; case F_FALSE: e = c.bool_val(false); break;
    case F_LE0: e = poly(f->p, lv) <= zero(); break; case F_LT0: e = poly(f->p, lv) < zero(); break; case F_EQ0: e = poly(f->p, lv) == zero(); break;
    case F_NOT: e = !form(f->ch[0], lv); break;
    default: { z3::expr_vector v(c); for (auto *g : f->ch) v.push_back(form(g, lv)); e = f->k == F_AND ? z3::mk_and(v) : z3::mk_or(v); }
    }
    fv[lv].emplace(f->id, e); return e;
  }
};
static ZCtx &ZC() { static ZCtx *z = new ZCtx; return *z; }
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Slice { std::vector<FP> fs; std::set<int> atoms; std::set<const Mono *> monos; };
static void collectMonos(FP f, std::set<const Mono *> &m) {
  if (f->p) for (auto &t : f->p->t) if (t.m->a.size() > 1) m.insert(t.m); for (auto *g : f->ch) collectMonos(g, m);
}
static void mkSlice(const std::vector<FP> &pc, const std::vector<FP> &extra, Slice &s, bool full) {
  std::vector<int> wl; std::set<int> fids;
  auto addF = [&](FP f) { if (f->k == F_TRUE || !fids.insert(f->id).second) return; s.fs.push_back(f); for (int a : f->atoms) if (s.atoms.insert(a).second) wl.push_back(a); };
  for (auto *f : extra) addF(f);
  if (full) for (auto *f : pc) addF(f);
  std::unordered_map<int, std::vector<FP>> idx; for (auto *f : pc) for (int a : f->atoms) idx[a].push_back(f);
  while (!wl.empty()) { int a = wl.back(); wl.pop_back(); for (auto *d : C.atoms[a]->defs) addF(d); auto it = idx.find(a); if (it != idx.end()) for (auto *f : it->second) addF(f); }
  for (auto *f : s.fs) collectMonos(f, s.monos);
  for (auto *m : s.monos) for (int a : m->a) s.atoms.insert(a);
}
static void addBounds(z3::solver &sv, ZCtx &z, const z3::expr &e, const Bound &b, bool isInt) {
  if (b.lof) sv.add(e >= (isInt && e.is_int() ? z.num(Q(ceilQ(b.lo)), true) : z.num(b.lo, false)));
  if (b.hif) sv.add(e <= (isInt && e.is_int() ? z.num(Q(floorQ(b.hi)), true) : z.num(b.hi, false)));
}
static void load(z3::solver &sv, const Slice &s, const Facts *fs, int lv) {
  ZCtx &z = ZC();
  for (int a : s.atoms) addBounds(sv, z, z.atom(a, lv), atomBound(a, fs), C.atoms[a]->isInt);
  for (auto *m : s.monos) {
    if (lv == 2) { addBounds(sv, z, z.mono(m, lv), monoBound(m, fs), true); continue; }
    z3::expr e = z.mono(m, lv); addBounds(sv, z, e, monoBound(m, fs), true);
    if (m->a.size() == 2) { // McCormick envelope
      Bound x = atomBound(m->a[0], fs), y = atomBound(m->a[1], fs); PP px = C.var(m->a[0]), py = C.var(m->a[1]); std::vector<Term> t; t.push_back({m, Q(1)}); PP pm = C.intern(std::move(t));
      auto cut = [&](const Q &bx, const Q &by, bool ge) { // (x-bx)(y-by) >= 0 / <= 0
        PP p = C.lin(C.lin(pm, 1, py, -bx), 1, C.addc(C.scale(px, -by), bx * by), 1); sv.add(z.form(ge ? C.le0(C.neg(p)) : C.le0(p), lv)); };
      if (x.lof && y.lof) cut(x.lo, y.lo, true); if (x.hif && y.hif) cut(x.hi, y.hi, true);
      if (x.lof && y.hif) cut(x.lo, y.hi, false); if (x.hif && y.lof) cut(x.hi, y.lo, false);
    }
  }
  for (auto *f : s.fs) sv.add(z.form(f, lv));
}
static std::map<std::vector<int>, Res> qcache;
#include <thread>
#include <mutex>
#include <condition_variable>
struct Watch { // interrupts a query that overruns its time limit
  std::mutex m; std::condition_variable cv; double until = 0; std::thread t;
  static Watch &get() { static Watch *w = new Watch; return *w; }
  Watch() : t([this] { std::unique_lock<std::mutex> l(m); for (;;) { if (until == 0) cv.wait(l); else { double d = until - now(); if (d <= 0) { ZC().c.interrupt(); cv.wait_for(l, std::chrono::milliseconds(100)); } else cv.wait_for(l, std::chrono::duration<double>(d)); } } }) { t.detach(); }
  void arm(unsigned ms) { std::lock_guard<std::mutex> l(m); until = now() + ms / 1000.0; cv.notify_one(); }
  void disarm() { std::lock_guard<std::mutex> l(m); until = 0; }
};
static Res runSolver(z3::solver &sv, unsigned timeoutMs) {
  z3::params p(ZC().c); p.set("timeout", timeoutMs); sv.set(p);
  double t0 = now(); z3::check_result r;
  Watch::get().arm(timeoutMs + 500);
  try { r = sv.check(); } catch (z3::exception &e) { r = z3::unknown; }
  Watch::get().disarm();
  double dt = now() - t0; ST.queries++; ST.t += dt; ST.maxT = std::max(ST.maxT, dt);
  if (OPT_DUMP) { static int n = 0; FILE *f = fopen((OPT_DUMPDIR + "/q" + std::to_string(n++) + (r == z3::unsat ? ".unsat" : r == z3::sat ? ".sat" : ".unk") + ".smt2").c_str(), "w"); if (f) { fputs(sv.to_smt2().c_str(), f); fclose(f); } }
  if (OPT_VERBOSE && dt > 1) fprintf(stderr, "slow query %.2fs %s\n", dt, r == z3::sat ? "sat" : r == z3::unsat ? "unsat" : "unknown");
  if (r == z3::sat) { ST.sat++; return R_SAT; } if (r == z3::unsat) { ST.unsat++; return R_UNSAT; } ST.unk++; return R_UNK;
}
// level 0: real relaxation, 1: + integrality, 2: + true products. UNSAT at any level is a real UNSAT.
Res query(const std::vector<FP> &pc, const std::vector<FP> &extra0, const Facts *fs, unsigned timeoutMs, int level) {
  std::vector<FP> extra; for (auto *f : extra0) { FP g = simplify(f, fs); if (g->k == F_FALSE) { ST.quick++; return R_UNSAT; } extra.push_back(g); }
  Slice s; mkSlice(pc, extra, s, false);
  if (s.fs.empty()) return R_SAT;
  std::vector<int> key; for (auto *f : s.fs) key.push_back(f->id); std::sort(key.begin(), key.end()); key.push_back(-1 - level);
  auto it = qcache.find(key); if (it != qcache.end()) { ST.cached++; return it->second; }
  Res r = R_UNK; bool hasInt = false; for (int a : s.atoms) hasInt |= C.atoms[a]->isInt;
  for (int lv = 0; lv <= level; lv++) {
    if (lv == 2 && s.monos.empty()) break; if (lv == 1 && !hasInt) continue;
    z3::solver sv(ZC().c, z3::solver::simple()); load(sv, s, fs, lv);
    r = runSolver(sv, lv == 0 ? std::min(timeoutMs, 5000u) : timeoutMs);
    if (r == R_UNSAT) break;
  }
  qcache[key] = r; return r;
}
static bool getModel(z3::solver &sv, const Slice &s, int lv, Model &out) {
  z3::model m = sv.get_model(); ZCtx &z = ZC();
  for (int a : s.atoms) { z3::expr v = m.eval(z.atom(a, lv), true); std::string str;
    if (!v.is_numeral(str)) { // algebraic number
      try { str = v.get_decimal_string(30); if (!str.empty() && str.back() == '?') str.pop_back(); size_t d = str.find('.'); std::string frac = d == std::string::npos ? "" : str.substr(d + 1);
        if (d != std::string::npos) str.erase(d, 1); Q q; q.get_num() = Z(str); Z den = 1; for (size_t i = 0; i < frac.size(); i++) den *= 10; q.get_den() = den; q.canonicalize(); out.v[a] = q; continue; } catch (...) { return false; } }
    Q q; size_t d = str.find('.');
    if (d != std::string::npos) { std::string fr = str.substr(d + 1); str.erase(d, 1); Z den = 1; for (size_t i = 0; i < fr.size(); i++) den *= 10; q = Q(Z(str), den); } else q = Q(str);
    q.canonicalize(); out.v[a] = q; }
  return true;
}
Res modelFor(const std::vector<FP> &pc, const std::vector<FP> &extra, const Facts *fs, unsigned timeoutMs, Model &out, bool &exact, bool hard) {
  Slice s; mkSlice(pc, extra, s, true); exact = true; Model lin; bool haveLin = false;
  bool nl = !s.monos.empty();
  { z3::solver sv(ZC().c, z3::solver::simple()); load(sv, s, fs, 0); if (runSolver(sv, std::min(timeoutMs, 5000u)) == R_UNSAT) return R_UNSAT; }
  { z3::solver sv(ZC().c, z3::solver::simple()); load(sv, s, fs, 1); Res r = runSolver(sv, timeoutMs);
    if (r == R_UNSAT) return R_UNSAT;
    if (r == R_SAT && getModel(sv, s, 1, lin)) { haveLin = true; if (!nl) { out = lin; return R_SAT; } } }
  if (nl) {
    // the linear model may already satisfy the products
    if (haveLin) { bool ok = true, good = true; for (auto *f : s.fs) if (!evalForm(f, lin, ok) || !ok) { good = false; break; } if (good) { out = lin; return R_SAT; } }
    { z3::solver sv(ZC().c, z3::solver::simple()); load(sv, s, fs, 2); Res r = runSolver(sv, timeoutMs); if (r == R_UNSAT) return R_UNSAT; if (r == R_SAT && getModel(sv, s, 2, out)) return R_SAT; }
    // concretise one side of every product, then the rest is linear
    for (int attempt = 0; attempt < 10; attempt++) {
      std::map<int, Q> fix; std::vector<const Mono *> rest(s.monos.begin(), s.monos.end());
      while (true) { std::map<int, int> cnt; bool any = false;
        for (auto *m : rest) { std::vector<int> fr; for (int a : m->a) if (!fix.count(a)) fr.push_back(a); if (fr.size() < 2) continue; any = true; for (int a : fr) cnt[a] += C.atoms[a]->isInput ? 3 : 1; }
        if (!any) break; int best = -1; for (auto &k : cnt) if (best < 0 || k.second > cnt[best]) best = k.first;
        Bound b = atomBound(best, fs); Q v;
        if (attempt == 0 && haveLin) v = lin.v[best]; else if (attempt == 1 && b.lof) v = b.lo; else if (attempt == 2 && b.hif) v = b.hi;
        else if (b.lof && b.hif) { Z w = floorQ(b.hi - b.lo) + 1; Z r = (Z((unsigned long)rand()) * Z((unsigned long)2147483647) + rand()) % w; v = b.lo + (attempt % 2 ? r : (rand() % 2 ? Z(0) : Z(w - 1))); } else v = 1;
        fix[best] = v; }
      z3::solver sv(ZC().c, z3::solver::simple()); ZCtx &z = ZC(); load(sv, s, fs, 1);
      for (auto &k : fix) sv.add(z.form(C.eq0(C.addc(C.var(k.first), -k.second)), 1));
      for (auto *m : s.monos) { Q c = 1; int free = -1; for (int a : m->a) { auto f = fix.find(a); if (f != fix.end()) c *= f->second; else free = a; }
        std::vector<Term> t; t.push_back({m, Q(1)}); PP pm = C.intern(std::move(t)); PP rhs = free >= 0 ? C.scale(C.var(free), c) : C.cst(c); sv.add(z.form(C.eq0(C.sub(pm, rhs)), 1)); }
      Res r = runSolver(sv, timeoutMs / 2 + 1000); if (r == R_SAT && getModel(sv, s, 1, out)) return R_SAT;
    }
    exact = false; if (haveLin) { out = lin; return R_SAT; }
  }
  return R_UNK;
}
