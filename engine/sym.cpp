// Symbolic executor over LLVM bitcode (compiled from /repo's sources plus a harness).
#include "sym.h"
#include <cmath>
#include <cstring>
#include <fstream>
#include <sys/resource.h>
#include <unistd.h>
#include <csignal>
using namespace llvm;

static std::unique_ptr<Module> M; static const DataLayout *DL; static LLVMContext Ctx;
static std::unordered_map<const Function *, DF *> dfs; static std::unordered_map<uint64_t, DF *> fnByAddr;
static std::unordered_map<const GlobalVariable *, uint64_t> gaddr;
static std::unordered_map<uint32_t, std::shared_ptr<Obj>> gmem; static uint32_t nextGlobId = 1;
static std::map<std::string, std::string> overrides; // demangled -> model function name
static std::vector<PP> handles; static std::map<std::string, int> inputAtom; static std::vector<int64_t> params;
static uint64_t optMaxInstr = 40000000, optMaxPaths = 200000; static double optDeadline = 1e18; static unsigned optFeas = 2000, optAssert = 30000; static int optSamples = 3, optMaxViol = 4;
static std::string entryName; static bool optTrace = false; static std::string srcRoot = "/repo/";
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Viol { std::string kind, msg; std::map<std::string, Q> in; bool exact; bool solverSat; std::string where; };
static std::vector<Viol> viols; static std::map<std::string, uint64_t> reachCnt, violCnt, endCnt; static uint64_t nPaths = 0, nInstr = 0, nAsserts = 0, nAssertSolved = 0, nForks = 0, nInconcl = 0; static std::vector<std::string> inconcl;
static std::set<std::string> coveredFns; static std::map<std::string, std::set<unsigned>> coveredLines; static std::map<std::string, std::pair<uint64_t, uint64_t>> assertStat;
struct Sample { std::map<std::string, Q> in; std::vector<std::pair<std::string, std::string>> obs; };
static std::vector<Sample> samples; static uint64_t sampleTried = 0;

static const int RES = 24; // object address bits
static inline uint64_t baseOf(uint32_t id) { return (uint64_t)(id + 1) << RES; }

// ------------------------------------------------------------------ types
static unsigned tyW(Type *T) {
  if (T->isIntegerTy()) return T->getIntegerBitWidth(); if (T->isPointerTy()) return 64; if (T->isFloatTy()) return 32; if (T->isDoubleTy()) return 64; if (T->isX86_FP80Ty()) return 80; return 0;
}
static int fpTy(Type *T) { return T->isFloatTy() ? 32 : T->isDoubleTy() ? 64 : T->isX86_FP80Ty() ? 80 : 0; }
static double asD(u128 c) { uint64_t b = (uint64_t)c; double d; memcpy(&d, &b, 8); return d; }
static float asF(u128 c) { uint32_t b = (uint32_t)c; float d; memcpy(&d, &b, 4); return d; }
static long double asL(u128 c) { long double d = 0; memcpy(&d, &c, 10); return d; }
static long double asFP(u128 c, int ty) { return ty == 32 ? asF(c) : ty == 64 ? asD(c) : asL(c); }
static Val fromFP(long double x, int ty) {
  if (ty == 32) { float f = (float)x; uint32_t b; memcpy(&b, &f, 4); return Val::con(b, 32); }
  if (ty == 64) { double f = (double)x; uint64_t b; memcpy(&b, &f, 8); return Val::con(b, 64); }
  u128 c = 0; memcpy(&c, &x, 10); return Val::con(c, 80);
}
static Q ldToQ(long double x) { int e; long double m = frexpl(x, &e); bool n = m < 0; if (n) m = -m; uint64_t i = (uint64_t)ldexpl(m, 64); Q q(zFromU128(i)); q *= pow2q(e - 64); return n ? Q(-q) : q; }

// ------------------------------------------------------------------ normalisation
static std::unordered_map<int, FP> fpStrong; // x < c on floating-point values: x <= the number below c
static bool assume(State &s, FP f) {
  FP g = simplify(f, &s.facts); if (g->k == F_TRUE) return true; if (g->k == F_FALSE) return false;
  if (g->k == F_AND) { for (auto *c : g->ch) if (!assume(s, c)) return false; return true; }
  s.pc.push_back(g); learn(g, s.facts); auto st = fpStrong.find(g->id); if (st != fpStrong.end()) learn(st->second, s.facts), s.pc.push_back(st->second); return true;
}
static void addGlobalFact(PP p, const Bound &b) { // lo <= p <= hi always holds
  if (p->isConst()) return; Q sc, c; PP k = C.keyOf(p, sc, c); Bound r;
  if (b.lof) { Q v = (b.lo - c) / sc; if (sc > 0) { r.lof = true; r.lo = v; } else { r.hif = true; r.hi = v; } }
  if (b.hif) { Q v = (b.hi - c) / sc; if (sc > 0) { r.hif = true; r.hi = v; } else { r.lof = true; r.lo = v; } }
  C.note(k), C.facts[k->id].meet(r);
}
static PP bitOfF(FP f0, const Facts *fs);
static void stateFact(const Facts *fs, PP p, const Bound &b) { // lo <= p <= hi in this state
  if (p->isConst() || !fs) return; Q sc, c; PP k = C.keyOf(p, sc, c); Bound r; Q v1 = (b.lo - c) / sc, v2 = (b.hi - c) / sc; r = v1 <= v2 ? Bound::mk(v1, v2) : Bound::mk(v2, v1); C.note(k), const_cast<Facts *>(fs)->m[k->id].meet(r);
}
static PP mkQuot(PP t, const Z &c, const Facts *fs) { // floor(t/c), t integer poly
  // split exactly divisible terms
  std::vector<Term> A, R; Q k = 0; Q kc = 0;
  for (auto &x : t->t) {
    Z n = x.c.get_num();
    if (x.m->a.empty()) { Z q = floorDiv(n, c); kc = q; Z r = n - q * c; if (r != 0) R.push_back({x.m, Q(r)}); if (q != 0) A.push_back({x.m, Q(q)}); continue; }
    if (mpz_divisible_p(n.get_mpz_t(), c.get_mpz_t())) A.push_back({x.m, Q(n / c)}); else R.push_back(x);
  }
  PP pa = C.intern(std::move(A)), pr = C.intern(std::move(R));
  if (pr->isConst()) return C.addc(pa, Q(floorDiv(pr->cst().get_num(), c)));
  auto tight = [&](PP p, PP &out) { Bound b = interval(p, fs); if (b.lof && b.hif) { Z l = floorDiv(floorQ(b.lo), c), h = floorDiv(floorQ(b.hi), c); if (l == h) { out = C.cst(Q(l)); return true; } } return false; };
  PP o; if (tight(pr, o)) return C.add(pa, o);
  // fold part of a coefficient: x.c = c*q + r with r small
  { std::vector<Term> A2, R2; bool any = false; for (auto &x : pr->t) { Z n = x.c.get_num(), q; if (!x.m->a.empty() && (abs(n) > c)) { q = floorDiv(n + c / 2, c); Z r = n - q * c; if (q != 0) { any = true; A2.push_back({x.m, Q(q)}); } if (r != 0) R2.push_back({x.m, Q(r)}); } else R2.push_back(x); }
    if (any) { pa = C.add(pa, C.intern(std::move(A2))); pr = C.intern(std::move(R2)); if (pr->isConst()) return C.addc(pa, Q(floorDiv(pr->cst().get_num(), c))); if (tight(pr, o)) return C.add(pa, o); } }
  // nested quotient: floor(floor(T/C)/c) = floor(T/(C*c))
  if (pr->t.size() == 1 && pr->t[0].c == 1 && pr->t[0].m->a.size() == 1) { Atom *at = C.atoms[pr->t[0].m->a[0]]; if (at->qT) return C.add(pa, mkQuot(at->qT, Z(at->qC * c), fs)); }
  { // two possible values: the quotient is a comparison
    Bound sb = interval(pr, fs); if (sb.lof && sb.hif) { Z l = floorDiv(floorQ(sb.lo), c), h = floorDiv(floorQ(sb.hi), c);
      if (h - l == 1) { PP bit = bitOfF(C.le0(C.addc(C.neg(pr), Q(h * c))), fs); PP q = C.addc(bit, Q(l)); PP r = C.lin(pr, 1, q, Q(-c)); Bound gb = interval(pr, nullptr);
        if (gb.lof && gb.hif && gb.lo >= Q(l * c) && gb.hi <= Q((h + 1) * c - 1)) addGlobalFact(r, Bound::mk(0, Q(c - 1))); else stateFact(fs, r, Bound::mk(0, Q(c - 1)));
        return C.add(pa, q); } } }
  auto key = std::make_pair(pr->id, c.get_str()); auto it = C.quotCache.find(key); int a;
  Bound b = interval(pr, nullptr); Bound qb; if (b.lof) { qb.lof = true; qb.lo = Q(floorDiv(floorQ(b.lo), c)); } if (b.hif) { qb.hif = true; qb.hi = Q(floorDiv(floorQ(b.hi), c)); }
  if (it != C.quotCache.end()) a = it->second;
  else {
    a = C.newAtom(true, "q" + std::to_string(C.atoms.size()), qb); Atom *at = C.atoms[a]; at->qT = pr; at->qC = c; C.quotCache[key] = a;
    if (qb.lof && qb.hif && qb.lo == 0 && qb.hi == 1) C.zeroOne.insert(a);
    PP r = C.lin(pr, 1, C.var(a), Q(-c)); at->defs.push_back(C.le0(C.neg(r))); at->defs.push_back(C.le0(C.addc(r, Q(1 - c))));
    addGlobalFact(r, Bound::mk(0, Q(c - 1)));
  }
  if (fs) { // state bounds are tighter than global ones
    Bound sb = interval(pr, fs), nb; if (sb.lof) { nb.lof = true; nb.lo = Q(floorDiv(floorQ(sb.lo), c)); } if (sb.hif) { nb.hif = true; nb.hi = Q(floorDiv(floorQ(sb.hi), c)); }
    const_cast<Facts *>(fs)->m[C.var(a)->id].meet(nb);
  }
  return C.add(pa, C.var(a));
}
static bool within(PP p, const Q &lo, const Q &hi, const Facts *fs) { Bound b = interval(p, fs); return b.lof && b.hif && b.lo >= lo && b.hi <= hi; }
static PP normRange(State &s, PP p, unsigned w, bool sgn) {
  Q lo = sgn ? -pow2q(w - 1) : Q(0), hi = lo + pow2q(w) - 1;
  Bound b = interval(p, &s.facts);
  if (b.lof && b.hif) { Z m = pow2z(w); Z a = floorDiv(floorQ(b.lo - lo), m), c = floorDiv(floorQ(b.hi - lo), m); if (a == c) return a == 0 ? p : C.addc(p, -Q(Z(a * m))); }
  // drop multiples of 2^w from coefficients
  { std::vector<Term> t; bool ch = false; Z m = pow2z(w), h = pow2z(w - 1); for (auto &x : p->t) { Z n = x.c.get_num(); if (abs(n) >= h) { Z q = floorDiv(n + h, m); if (q != 0) { n -= q * m; ch = true; } } if (n != 0) t.push_back({x.m, Q(n)}); } if (ch) { PP np = C.intern(std::move(t)); return normRange(s, np, w, sgn); } }
  // does the solver know it is in range?
  if (b.lof && b.hif) {
    Z m = pow2z(w); // try the range block containing most of the interval
    if (b.hi - b.lo < pow2q(w + 2)) {
      FP out = C.Or({C.lt0(C.addc(p, -lo)), C.lt0(C.addc(C.neg(p), hi))});
      if (query(s.pc, {out}, &s.facts, 500, 0) == R_UNSAT) { Bound nb = Bound::mk(lo, hi); Q sc, cc; PP k = C.keyOf(p, sc, cc); Bound r; Q v1 = (lo - cc) / sc, v2 = (hi - cc) / sc; r = v1 <= v2 ? Bound::mk(v1, v2) : Bound::mk(v2, v1); C.note(k), s.facts.m[k->id].meet(r); return p; }
    }
  }
  PP q = mkQuot(C.addc(p, -lo), pow2z(w), &s.facts);
  PP r = C.lin(p, 1, q, -pow2q(w)); return r;
}
static PP bitOf(State &s, FP f); 
static PP asPoly(State &s, const Val &v) {
  switch (v.k) { case VC: return C.cst(Q(zFromU128(v.c))); case VP: return v.p; case VB: return bitOf(s, v.f);
  case VU: { int a = C.newAtom(true, "undef" + std::to_string(s.undefs++), Bound::mk(0, Q(zFromU128(maskW(v.w))))); C.atoms[a]->undef = true; return C.var(a); }
  default: throw EngineErr{"integer operation on a symbolic floating-point or aggregate value"}; }
}
static PP uns(State &s, const Val &v) { if (v.k == VC) return C.cst(Q(zFromU128(v.c))); PP p = asPoly(s, v); return normRange(s, p, v.w, false); }
static PP sgn(State &s, const Val &v) {
  if (v.k == VC) { i128 x = sx(v.c, v.w); Z z = x < 0 ? Z(-zFromU128((u128)(-x))) : zFromU128((u128)x); return C.cst(Q(z)); }
  if (v.k == VB) return C.neg(bitOf(s, v.f)); return normRange(s, asPoly(s, v), v.w, true);
}
static Val mk(PP p, unsigned w) { return Val::poly(p, w); }

static PP bitOfF(FP f0, const Facts *fs) {
  FP f = simplify(f0, fs); if (f->k == F_TRUE) return C.P1; if (f->k == F_FALSE) return C.P0;
  if (f->k == F_NOT && f->ch[0]->k == F_EQ0) return C.addc(C.neg(bitOfF(f->ch[0], fs)), 1);
  auto single = [&](PP p, int &at, Q &co) { if (p->t.size() < 1 || p->t.size() > 2) return false; const Term *v = nullptr; for (auto &t : p->t) if (!t.m->a.empty()) { if (v || t.m->a.size() != 1) return false; v = &t; } if (!v) return false; at = v->m->a[0]; co = v->c; return C.is01(at); };
  int at; Q co;
  if ((f->k == F_EQ0 || f->k == F_LE0) && single(f->p, at, co)) {
    // evaluate at 0 and 1
    Q v0 = f->p->cst(), v1 = v0 + co; bool t0 = f->k == F_EQ0 ? v0 == 0 : v0 <= 0, t1 = f->k == F_EQ0 ? v1 == 0 : v1 <= 0;
    if (t0 && t1) return C.P1; if (!t0 && !t1) return C.P0; return t1 ? C.var(at) : C.addc(C.neg(C.var(at)), 1);
  }
  if (f->k == F_LE0 && f->p->t.size() > 2) { // decided by its leading 0/1 variable
    const Term *v = nullptr; for (auto &t : f->p->t) if (t.m->a.size() == 1 && C.is01(t.m->a[0]) && (!v || abs(t.c) > abs(v->c))) v = &t;
    if (v) { PP x = C.var(v->m->a[0]); Bound b = interval(C.lin(f->p, 1, x, -v->c), fs); if (b.lof && b.hif) { auto dec = [&](const Q &o) { return b.hi + o <= 0 ? 1 : b.lo + o > 0 ? 0 : -1; }; int t0 = dec(0), t1 = dec(v->c); if (t0 >= 0 && t1 >= 0) return t0 == t1 ? (t0 ? C.P1 : C.P0) : t1 ? x : C.addc(C.neg(x), 1); } }
  }
  FP n = C.Not(f); bool flip = false; if (n->id < f->id) { auto j = C.bitCache.find(n->id); if (j != C.bitCache.end()) { flip = true; return C.addc(C.neg(C.var(j->second)), 1); } }
  auto it = C.bitCache.find(f->id); (void)flip;
  if (it != C.bitCache.end()) return C.var(it->second);
  auto j = C.bitCache.find(n->id); if (j != C.bitCache.end()) return C.addc(C.neg(C.var(j->second)), 1);
  int a = C.newAtom(true, "b" + std::to_string(C.atoms.size()), Bound::mk(0, 1)); C.zeroOne.insert(a); C.bitCache[f->id] = a; C.atoms[a]->ek = 1; C.atoms[a]->ef = f;
  FP is1 = C.eq0(C.addc(C.var(a), -1)), is0 = C.eq0(C.var(a));
  Bound pb; if (f->k == F_LE0 && f->p->isInt) pb = interval(f->p, nullptr);
  if (pb.lof && pb.hif) { // convex hull of the definition
    PP bit = C.var(a); C.atoms[a]->defs.push_back(C.le0(C.addc(C.lin(f->p, 1, bit, pb.hi), -pb.hi))); C.atoms[a]->defs.push_back(C.le0(C.addc(C.lin(f->p, -1, bit, pb.lo - 1), 1)));
  } else C.atoms[a]->defs.push_back(C.Or({C.And({is1, f}), C.And({is0, n})}));
  return C.var(a);
}
static PP bitOf(State &s, FP f) { return bitOfF(f, &s.facts); }
static FP asForm(State &s, const Val &v) { // i1
  if (v.k == VC) return (v.c & 1) ? C.T : C.Fa; if (v.k == VB) return v.f;
  PP p = uns(s, v); return C.eq0(C.addc(p, -1));
}
static PP iteP(State &s, FP c, PP a, PP b) { // value = c ? a : b
  if (a == b) return a; FP f = simplify(c, &s.facts); if (f->k == F_TRUE) return a; if (f->k == F_FALSE) return b;
  PP bit = bitOf(s, f); PP d = C.sub(a, b); PP r;
  if (d->isConst()) r = C.lin(b, 1, bit, d->cst());
  else {
    std::vector<int> key = {f->id, a->id, b->id}; auto it = C.iteCache.find(key); int at;
    if (it != C.iteCache.end()) at = it->second;
    else {
      Bound ba = interval(a, nullptr), bb = interval(b, nullptr), bd; bd.lof = ba.lof && bb.lof; if (bd.lof) bd.lo = std::min(ba.lo, bb.lo); bd.hif = ba.hif && bb.hif; if (bd.hif) bd.hi = std::max(ba.hi, bb.hi);
      at = C.newAtom(a->isInt && b->isInt, "ite" + std::to_string(C.atoms.size()), bd); C.iteCache[key] = at; C.atoms[at]->ek = 5; C.atoms[at]->ef = f; C.atoms[at]->ex = a; C.atoms[at]->ey = b;
      C.atoms[at]->defs.push_back(C.Or({C.And({f, C.eq0(C.sub(C.var(at), a))}), C.And({C.Not(f), C.eq0(C.sub(C.var(at), b))})}));
    }
    r = C.var(at);
  }
  Facts f1 = s.facts, f2 = s.facts; learn(f, f1); learn(C.Not(f), f2);
  Bound x = interval(a, &f1), y = interval(b, &f2), u; u.lof = x.lof && y.lof; if (u.lof) u.lo = std::min(x.lo, y.lo); u.hif = x.hif && y.hif; if (u.hif) u.hi = std::max(x.hi, y.hi);
  if (!r->isConst()) { Q sc, cc; PP k = C.keyOf(r, sc, cc); Bound nb; if (u.lof) { Q v = (u.lo - cc) / sc; if (sc > 0) { nb.lof = true; nb.lo = v; } else { nb.hif = true; nb.hi = v; } } if (u.hif) { Q v = (u.hi - cc) / sc; if (sc > 0) { nb.hif = true; nb.hi = v; } else { nb.lof = true; nb.lo = v; } } C.note(k), s.facts.m[k->id].meet(nb); }
  return r;
}
static bool feasible(State &s, FP f) { FP g = simplify(f, &s.facts); if (g->k == F_TRUE) return true; if (g->k == F_FALSE) return false; return query(s.pc, {g}, &s.facts, optFeas, 1) != R_UNSAT; }
// decide a form: returns true/false when determined, else forks
static bool decide(State &s, FP f) {
  FP g = simplify(f, &s.facts); if (g->k == F_TRUE) return true; if (g->k == F_FALSE) return false;
  throw ForkReq{{g, C.Not(g)}};
}
static Z concretize(State &s, PP p) { // p in canonical range
  if (p->isConst()) return p->cst().get_num(); Bound b = interval(p, &s.facts);
  if (b.lof && b.hif && b.lo == b.hi) return floorQ(b.lo);
  ForkReq r; std::vector<FP> block;
  if (b.lof && b.hif && b.hi - b.lo < 48) { for (Z k = ceilQ(b.lo); Q(k) <= b.hi; k++) r.alts.push_back(C.eq0(C.addc(p, -Q(k)))); throw r; }
  for (int n = 0; n < 400; n++) { Model m; bool ex; std::vector<FP> e = block; e.push_back(C.le0(C.sub(C.P0, C.P0))); Res mr = modelFor(s.pc, block, &s.facts, optFeas * 3, m, ex); if (mr != R_SAT) { if (mr == R_UNSAT || query(s.pc, block, &s.facts, optFeas * 5, 1) == R_UNSAT) { if (r.alts.empty()) throw PathEnd{1, "infeasible"}; throw r; } throw EngineErr{"cannot enumerate the values of " + polyStr(p)}; }
    bool ok = true; for (auto &t : p->t) for (int a : t.m->a) if (!m.v.count(a)) { Bound q = atomBound(a, &s.facts); m.v[a] = q.lof ? q.lo : Q(0); } Q v = evalPoly(p, m, ok); if (!ok) throw EngineErr{"concretize eval"}; FP f = C.eq0(C.addc(p, -v)); r.alts.push_back(f); block.push_back(C.Not(f)); }
  throw EngineErr{"too many values to concretise: " + polyStr(p)};
}
static u128 concU(State &s, const Val &v) { if (v.k == VC) return v.c; return u128FromZ(concretize(s, uns(s, v))); }
static int64_t concS(State &s, const Val &v) { if (v.k == VC) return (int64_t)sx(v.c, v.w); return concretize(s, sgn(s, v)).get_si(); }

// ------------------------------------------------------------------ integer ops
static Val binInt(State &s, unsigned op, const Val &a, const Val &b, unsigned w, bool disjoint) {
  if (a.k == VC && b.k == VC) {
    u128 x = a.c, y = b.c, r = 0;
    switch (op) {
    case Instruction::Add: r = x + y; break; case Instruction::Sub: r = x - y; break; case Instruction::Mul: r = x * y; break;
    case Instruction::UDiv: if (!y) throw PathEnd{2, "arith: division by zero"}; r = x / y; break; case Instruction::URem: if (!y) throw PathEnd{2, "arith: division by zero"}; r = x % y; break;
    case Instruction::SDiv: if (!y) throw PathEnd{2, "arith: division by zero"}; r = (u128)(sx(x, w) / sx(y, w)); break; case Instruction::SRem: if (!y) throw PathEnd{2, "arith: division by zero"}; r = (u128)(sx(x, w) % sx(y, w)); break;
    case Instruction::Shl: r = y >= w ? 0 : x << (unsigned)y; break; case Instruction::LShr: r = y >= w ? 0 : x >> (unsigned)y; break; case Instruction::AShr: r = (u128)(sx(x, w) >> (unsigned)std::min<u128>(y, w - 1)); break;
    case Instruction::And: r = x & y; break; case Instruction::Or: r = x | y; break; case Instruction::Xor: r = x ^ y; break; default: throw EngineErr{"binop"};
    }
    return Val::con(r, w);
  }
  if (w == 1) {
    FP x = asForm(s, a), y = asForm(s, b);
    switch (op) { case Instruction::And: case Instruction::Mul: return Val::form(C.And({x, y})); case Instruction::Or: return Val::form(C.Or({x, y})); case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return Val::form(C.Xor(x, y)); default: throw EngineErr{"i1 binop"}; }
  }
  auto low = [&](const Val &v, unsigned k) -> PP { // v mod 2^k
    if (k >= w) return uns(s, v); Val t = v; t.w = k; if (t.k == VC) t.c &= maskW(k); return uns(s, t); };
  auto lsr = [&](const Val &v, unsigned k) -> PP { return mkQuot(uns(s, v), pow2z(k), &s.facts); };
  switch (op) {
  case Instruction::Add: return mk(C.add(asPoly(s, a), asPoly(s, b)), w);
  case Instruction::Sub: return mk(C.sub(asPoly(s, a), asPoly(s, b)), w);
  case Instruction::Mul: {
    PP x = asPoly(s, a), y = asPoly(s, b); if (x->isConst() || y->isConst()) return mk(C.mul(x, y), w);
    if (x->t.size() * y->t.size() > 4000) throw EngineErr{"product too large"};
    // keep the factors normalised so that the product has a small interval
    Bound bx = interval(x, &s.facts), by = interval(y, &s.facts); Q lim = pow2q(w); auto ok = [&](Bound &q) { return q.lof && q.hif && q.lo > -lim && q.hi < lim; };
    if (!ok(bx)) x = uns(s, a); if (!ok(by)) y = uns(s, b);
    return mk(C.mul(x, y), w); }
  case Instruction::Shl: { if (b.k != VC) { u128 k = concU(s, b); return binInt(s, op, a, Val::con(k, w), w, false); } if (b.c >= w) return Val::con(0, w); return mk(C.scale(asPoly(s, a), pow2q((int)b.c)), w); }
  case Instruction::LShr: { if (b.k != VC) { u128 k = concU(s, b); return binInt(s, op, a, Val::con(k, w), w, false); } if (b.c >= w) return Val::con(0, w); return mk(lsr(a, (unsigned)b.c), w); }
  case Instruction::AShr: { if (b.k != VC) { u128 k = concU(s, b); return binInt(s, op, a, Val::con(k, w), w, false); } return mk(mkQuot(sgn(s, a), pow2z((unsigned)std::min<u128>(b.c, w - 1)), &s.facts), w); }
  case Instruction::And: {
    if (a.k == VC) return binInt(s, op, b, a, w, false);
    if (b.k == VC) {
      u128 m = b.c & maskW(w); PP r = C.P0; unsigned i = 0;
      while (i < w) { if (!((m >> i) & 1)) { i++; continue; } unsigned j = i; while (j < w && ((m >> j) & 1)) j++;
        // bits i..j-1 : (v mod 2^j) - (v mod 2^i)
        PP hi = low(a, j); PP part = i == 0 ? hi : C.scale(mkQuot(hi, pow2z(i), &s.facts), pow2q(i)); r = C.add(r, part); i = j; }
      return mk(r, w);
    }
    // -bit & x
    PP x = uns(s, a), y = uns(s, b);
    if (within(x, 0, 1, &s.facts) && within(y, 0, 1, &s.facts)) return mk(C.mul(x, y), w);
    for (int t = 0; t < 2; t++) { const Val &u = t ? b : a; const Val &v = t ? a : b; PP sv = sgn(s, u); if (within(sv, -1, 0, &s.facts)) return mk(iteP(s, C.eq0(C.addc(sv, 1)), uns(s, v), C.P0), w); }
    { Bound bb = interval(y, &s.facts), ba = interval(x, &s.facts); Q l = std::min(ba.hi, bb.hi); if (l < 65536) { const Val &sm = ba.hi < bb.hi ? a : b; const Val &ot = ba.hi < bb.hi ? b : a; u128 k = concU(s, sm); return binInt(s, op, ot, Val::con(k, w), w, false); } }
    throw EngineErr{"symbolic and"};
  }
  case Instruction::Or: {
    if (disjoint) return mk(C.add(asPoly(s, a), asPoly(s, b)), w);
    if (a.k == VC) return binInt(s, op, b, a, w, false);
    if (b.k == VC) { Val an = binInt(s, Instruction::And, a, b, w, false); return mk(C.addc(C.sub(uns(s, a), asPoly(s, an)), Q(zFromU128(b.c))), w); }
    PP x = uns(s, a), y = uns(s, b); Bound bx = interval(x, &s.facts), by = interval(y, &s.facts);
    if (within(x, 0, 1, &s.facts) && within(y, 0, 1, &s.facts)) return mk(C.sub(C.add(x, y), C.mul(x, y)), w);
    // one operand a multiple of 2^k, the other below 2^k
    for (int t = 0; t < 2; t++) { PP u = t ? y : x; Bound &bv = t ? bx : by; unsigned k = 0; { Z h = ceilQ(bv.hi) + 1; while (pow2z(k) < h) k++; } bool mult = true; for (auto &q : u->t) mult &= (bool)mpz_divisible_2exp_p(q.c.get_num_mpz_t(), k); if (mult) return mk(C.add(x, y), w); }
    { Q l = std::min(bx.hi, by.hi); if (l < 65536) { const Val &sm = bx.hi < by.hi ? a : b; const Val &ot = bx.hi < by.hi ? b : a; u128 k = concU(s, sm); return binInt(s, op, ot, Val::con(k, w), w, false); } }
    throw EngineErr{"symbolic or"};
  }
  case Instruction::Xor: {
    if (a.k == VC) return binInt(s, op, b, a, w, false);
    if (b.k == VC) { if (b.c == maskW(w)) return mk(C.addc(C.neg(asPoly(s, a)), -1), w); Val an = binInt(s, Instruction::And, a, b, w, false); return mk(C.addc(C.lin(uns(s, a), 1, asPoly(s, an), -2), Q(zFromU128(b.c))), w); }
    PP x = uns(s, a), y = uns(s, b); if (x == y) return Val::con(0, w);
    if (within(x, 0, 1, &s.facts) && within(y, 0, 1, &s.facts)) return mk(C.lin(C.add(x, y), 1, C.mul(x, y), -2), w);
    for (int t = 0; t < 2; t++) { const Val &u = t ? b : a; const Val &v = t ? a : b; PP sv = sgn(s, u); if (within(sv, -1, 0, &s.facts)) { PP z = asPoly(s, v); return mk(iteP(s, C.eq0(C.addc(sv, 1)), C.addc(C.neg(z), -1), z), w); } }
    { Bound bb = interval(y, &s.facts), ba = interval(x, &s.facts); Q l = std::min(ba.hi, bb.hi); if (l < 65536) { const Val &sm = ba.hi < bb.hi ? a : b; const Val &ot = ba.hi < bb.hi ? b : a; u128 k = concU(s, sm); return binInt(s, op, ot, Val::con(k, w), w, false); } }
    throw EngineErr{"symbolic xor"};
  }
  case Instruction::UDiv: case Instruction::URem: {
    PP x = uns(s, a), y = uns(s, b); if (!y->isConst()) { Bound yb = interval(y, &s.facts); if (yb.lof && yb.hif && yb.lo == yb.hi) y = C.cst(yb.lo); }
    if (y->isConst()) { Z c = y->cst().get_num(); if (c == 0) throw PathEnd{2, "arith: division by zero"}; PP q = mkQuot(x, c, &s.facts); return mk(op == Instruction::UDiv ? q : C.lin(x, 1, q, Q(-c)), w); }
    if (decide(s, C.eq0(y))) throw PathEnd{2, "arith: division by zero"};
    { FP lt = simplify(C.lt0(C.sub(x, y)), &s.facts); if (lt->k == F_TRUE) return op == Instruction::UDiv ? Val::con(0, w) : mk(x, w); }
    auto key = std::make_pair(x->id, y->id); auto it = C.quotSymCache.find(key); int q; static std::map<int, int> remOf; Bound bx = interval(x, &s.facts), by = interval(y, &s.facts);
    if (it != C.quotSymCache.end()) q = it->second;
    else {
      Bound gx = interval(x, nullptr), gy = interval(y, nullptr); q = C.newAtom(true, "qs" + std::to_string(C.atoms.size()), Bound::mk(0, gx.hif ? gx.hi : Q(pow2q(w)))); C.quotSymCache[key] = q; C.atoms[q]->ek = 3; C.atoms[q]->ex = x; C.atoms[q]->ey = y;
      bool single = y->t.size() == 1 && y->t[0].c == 1 && y->t[0].m->a.size() == 1; int ya = single ? y->t[0].m->a[0] : -1;
      int ra = C.newAtom(true, "rs" + std::to_string(C.atoms.size()), Bound::mk(0, (gy.hif && gy.hi >= 1) ? Q(gy.hi - 1) : Q(pow2q(w)))); remOf[q] = ra; C.atoms[ra]->ek = 4; C.atoms[ra]->ex = x; C.atoms[ra]->ey = y; PP r = C.var(ra), e = C.add(C.sub(C.mul(C.var(q), y), x), r);
      if (gy.lof && gy.lo >= 1) { C.atoms[q]->defs.push_back(C.eq0(e)); C.atoms[q]->defs.push_back(C.le0(C.addc(C.sub(r, y), 1))); addGlobalFact(e, Bound::mk(0, 0)); }
      else { FP pos = C.le0(C.addc(C.neg(y), 1)); C.atoms[q]->defs.push_back(C.Or({C.Not(pos), C.And({C.eq0(e), C.le0(C.addc(C.sub(r, y), 1))})})); }
      C.atoms[ra]->defs = C.atoms[q]->defs; if (single) C.rwQ[q] = {ya, C.sub(x, C.var(ra))};
    }
    PP r = C.var(remOf[q]); stateFact(&s.facts, C.add(C.sub(C.mul(C.var(q), y), x), r), Bound::mk(0, 0)); stateFact(&s.facts, C.sub(y, r), Bound::mk(1, by.hi)); stateFact(&s.facts, r, Bound::mk(0, by.hi - 1));
    Q ylo = by.lo < 1 ? Q(1) : by.lo; s.facts.m[C.var(q)->id].meet(Bound::mk(0, Q(floorQ(bx.hi / ylo))));
    static std::map<int, std::vector<PP>> rems; // divisor -> remainders seen (each below the divisor)
    for (auto *rp : rems[y->id]) if (rp != r && x->t.size() >= rp->t.size()) {
      const Term &lt = rp->t.back(); const Term *xt = nullptr; for (auto &t : x->t) if (t.m == lt.m) xt = &t; if (!xt) continue;
      Q la = xt->c / lt.c; if (la <= 0) continue; PP rest = C.lin(x, 1, rp, -la); if (rest->t.size() >= x->t.size()) continue; Bound rb = interval(rest, &s.facts); if (!rb.hif) continue;
      // x <= la*(y-1) + rest
      Q hi = rb.hi < la ? Q(ceilQ(la) - 1) : Q(floorQ(la + (rb.hi - la) / ylo)); Bound nb; nb.hif = true; nb.hi = hi; s.facts.m[C.var(q)->id].meet(nb); }
    if (!r->isConst()) rems[y->id].push_back(r);
    return mk(op == Instruction::UDiv ? C.var(q) : r, w);
  }
  case Instruction::SDiv: case Instruction::SRem: {
    PP x = sgn(s, a), y = sgn(s, b); if (!y->isConst()) { Z k = concretize(s, y); y = C.cst(Q(k)); }
    Z c = y->cst().get_num(); if (c == 0) throw PathEnd{2, "arith: division by zero"}; bool ng = c < 0; Z ac = abs(c);
    Bound bx = interval(x, &s.facts); bool exactDiv = true; for (auto &t : x->t) exactDiv &= (bool)mpz_divisible_p(t.c.get_num_mpz_t(), ac.get_mpz_t());
    PP q; if (exactDiv) q = C.scale(x, Q(Z(1), ac)); else if (bx.lof && bx.lo >= 0) q = mkQuot(x, ac, &s.facts); else if (bx.hif && bx.hi <= 0) q = C.neg(mkQuot(C.neg(x), ac, &s.facts));
    else { bool nn = decide(s, C.le0(C.neg(x))); q = nn ? mkQuot(x, ac, &s.facts) : C.neg(mkQuot(C.neg(x), ac, &s.facts)); }
    if (ng) q = C.neg(q); return mk(op == Instruction::SDiv ? q : C.lin(x, 1, q, Q(-c)), w);
  }
  default: throw EngineErr{std::string("int op ") + Instruction::getOpcodeName(op)};
  }
}
static FP icmp(State &s, int pred, const Val &a, const Val &b) {
  unsigned w = a.w;
  if (a.k == VC && b.k == VC) {
    bool r; i128 x = sx(a.c, w), y = sx(b.c, w);
    switch (pred) { case CmpInst::ICMP_EQ: r = a.c == b.c; break; case CmpInst::ICMP_NE: r = a.c != b.c; break; case CmpInst::ICMP_ULT: r = a.c < b.c; break; case CmpInst::ICMP_ULE: r = a.c <= b.c; break; case CmpInst::ICMP_UGT: r = a.c > b.c; break; case CmpInst::ICMP_UGE: r = a.c >= b.c; break;
      case CmpInst::ICMP_SLT: r = x < y; break; case CmpInst::ICMP_SLE: r = x <= y; break; case CmpInst::ICMP_SGT: r = x > y; break; default: r = x >= y; }
    return r ? C.T : C.Fa;
  }
  if (w == 1) { FP x = asForm(s, a), y = asForm(s, b); switch (pred) { case CmpInst::ICMP_EQ: return C.Not(C.Xor(x, y)); case CmpInst::ICMP_NE: return C.Xor(x, y); case CmpInst::ICMP_ULT: case CmpInst::ICMP_SGT: return C.And({C.Not(x), y}); case CmpInst::ICMP_UGT: case CmpInst::ICMP_SLT: return C.And({x, C.Not(y)}); case CmpInst::ICMP_ULE: case CmpInst::ICMP_SGE: return C.Or({C.Not(x), y}); default: return C.Or({x, C.Not(y)}); } }
  PP x, y;
  switch (pred) {
  case CmpInst::ICMP_EQ: case CmpInst::ICMP_NE: {
    PP d = C.sub(asPoly(s, a), asPoly(s, b)); Q m = pow2q(w);
    FP f;
    if (within(d, -m + 1, m - 1, &s.facts)) f = C.eq0(d);
    else { PP xs = asPoly(s, a), ys = asPoly(s, b); Q h = pow2q(w - 1); bool sx_ = within(xs, -h, h - 1, &s.facts), sy_ = within(ys, -h, h - 1, &s.facts); if (sx_ || sy_) { x = sgn(s, a); y = sgn(s, b); } else { x = uns(s, a); y = uns(s, b); } f = C.eq0(C.sub(x, y)); }
    return pred == CmpInst::ICMP_EQ ? f : C.Not(f); }
  case CmpInst::ICMP_ULT: return C.lt0(C.sub(uns(s, a), uns(s, b))); case CmpInst::ICMP_ULE: return C.le0(C.sub(uns(s, a), uns(s, b)));
  case CmpInst::ICMP_UGT: return C.lt0(C.sub(uns(s, b), uns(s, a))); case CmpInst::ICMP_UGE: return C.le0(C.sub(uns(s, b), uns(s, a)));
  case CmpInst::ICMP_SLT: return C.lt0(C.sub(sgn(s, a), sgn(s, b))); case CmpInst::ICMP_SLE: return C.le0(C.sub(sgn(s, a), sgn(s, b)));
  case CmpInst::ICMP_SGT: return C.lt0(C.sub(sgn(s, b), sgn(s, a))); default: return C.le0(C.sub(sgn(s, b), sgn(s, a)));
  }
}
// ------------------------------------------------------------------ floating point
static int precOf(int ty) { return ty == 32 ? 24 : ty == 64 ? 53 : 64; }
static FP leQ(PP p, const Q &q) { return C.le0(C.addc(p, -q)); }
static bool isRepr(const Q &q, int ty) { if (q == 0) return true; Z n = q.get_num(), d = q.get_den(); if (mpz_popcount(d.get_mpz_t()) != 1) return false; n = abs(n); size_t tz = mpz_scan1(n.get_mpz_t(), 0); return mpz_sizeinbase(n.get_mpz_t(), 2) - tz <= (size_t)precOf(ty); }
static std::map<std::pair<int, int>, int> errCache; static std::map<std::pair<int, int>, int> fdivCache;
static Q rnQ(const Q &x, int prec) { // nearest-even rounding of x to prec bits
  if (x == 0) return x; Q y = abs(x); long e = (long)mpz_sizeinbase(y.get_num_mpz_t(), 2) - (long)mpz_sizeinbase(y.get_den_mpz_t(), 2); while (pow2q((int)e) <= y) e++; while (pow2q((int)e - 1) > y) e--;
  Q m = y * pow2q(prec - (int)e); Z f = floorQ(m); Q r = m - Q(f); if (r > Q(1, 2) || (r == Q(1, 2) && mpz_odd_p(f.get_mpz_t()))) f += 1; Q w = Q(f) * pow2q((int)e - prec); return x < 0 ? Q(-w) : w; }
static PP floorPoly(State &s, PP v);
static Val mkFP(State &s, PP v, int ty) {
  if (v->isConst() && isRepr(v->cst(), ty)) { // exactly representable constant
    Q q = v->cst(); if (q == 0) return fromFP(0, ty); mpf_class f(q, 200); long e; bool ng = q < 0; Z n = abs(q.get_num()); (void)f; size_t bits = mpz_sizeinbase(n.get_mpz_t(), 2); size_t tz = mpz_scan1(n.get_mpz_t(), 0); n >>= tz; e = (long)tz - (long)(mpz_sizeinbase(q.get_den_mpz_t(), 2) - 1); (void)bits; long double x = ldexpl((long double)mpz_get_ui(n.get_mpz_t()), e); return fromFP(ng ? -x : x, ty); }
  int prec = precOf(ty); Bound b = interval(v, &s.facts); if (!b.lof || !b.hif) throw EngineErr{"unbounded floating-point value"};
  Q mx = std::max(Q(abs(b.lo)), Q(abs(b.hi))); if (ty != 80 && mx > pow2q(ty == 32 ? 127 : 1023)) { Q thr = ty == 32 ? Q(pow2q(128) - pow2q(103)) : Q(pow2q(1024) - pow2q(970)); bool ok = (b.hi < thr || decide(s, C.lt0(C.addc(v, -thr)))) && (b.lo > -thr || decide(s, C.lt0(C.addc(C.neg(v), -thr)))); if (!ok) throw EngineErr{"possible floating-point overflow"}; }
  // exact?
  Z D = 1; bool p2 = v->allIntAtoms; for (auto &t : v->t) { mpz_lcm(D.get_mpz_t(), D.get_mpz_t(), t.c.get_den_mpz_t()); } if (mpz_popcount(D.get_mpz_t()) != 1) p2 = false;
  if (p2) { size_t tz = SIZE_MAX; for (auto &t : v->t) { Z n = t.c.get_num() * (D / t.c.get_den()); tz = std::min(tz, (size_t)mpz_scan1(n.get_mpz_t(), 0)); } long e = (long)tz - (long)(mpz_sizeinbase(D.get_mpz_t(), 2) - 1); if (mx <= pow2q((int)(e + prec))) { FPV *d = new FPV{v, ty}; return Val::fp(d, ty); } }
  auto key = std::make_pair(v->id, ty); auto it = errCache.find(key); int a; Q u = pow2q(-prec); Bound gb = interval(v, nullptr);
  if (it != errCache.end()) a = it->second;
  else { Q gm = (gb.lof && gb.hif) ? Q(std::max(Q(abs(gb.lo)), Q(abs(gb.hi)))) : mx; Bound eb; if (gb.lof && gb.hif) { eb = Bound::mk(-gm * u, gm * u); } a = C.newAtom(false, "err" + std::to_string(C.atoms.size()), eb); errCache[key] = a; C.atoms[a]->ek = 7; C.atoms[a]->ex = v; C.atoms[a]->eprec = prec;
    // |err| <= u*|v|
    C.atoms[a]->defs.push_back(C.Or({C.And({C.le0(C.neg(v)), C.le0(C.lin(C.var(a), 1, v, -u)), C.le0(C.lin(C.var(a), -1, v, -u))}), C.And({C.le0(v), C.le0(C.lin(C.var(a), 1, v, u)), C.le0(C.lin(C.var(a), -1, v, u))})})); }
  s.facts.m[C.var(a)->id].meet(Bound::mk(-mx * u, mx * u));
  PP r = C.add(v, C.var(a));
  Q sc, cc; PP k = C.keyOf(r, sc, cc); // rounding is monotone
  { Q lo = rnQ(b.lo, prec), hi = rnQ(b.hi, prec); Q v1 = (lo - cc) / sc, v2 = (hi - cc) / sc; C.note(k), s.facts.m[k->id].meet(v1 <= v2 ? Bound::mk(v1, v2) : Bound::mk(v2, v1)); }
  return Val::fp(new FPV{r, ty}, ty);
}
static PP fpReal(State &s, const Val &v, int ty) { if (v.k == VF) return v.d->v; if (v.k == VC) { long double x = asFP(v.c, ty); if (std::isnan(x) || std::isinf(x)) throw EngineErr{"nan/inf mixed with a symbolic floating-point value"}; return C.cst(ldToQ(x)); } throw EngineErr{"undefined floating-point value"}; }
static PP floorPoly(State &s, PP v) {
  if (v->isConst()) return C.cst(Q(floorQ(v->cst())));
  if (v->allIntAtoms) { Z D = 1; for (auto &t : v->t) mpz_lcm(D.get_mpz_t(), D.get_mpz_t(), t.c.get_den_mpz_t()); return D == 1 ? v : mkQuot(C.scale(v, Q(D)), D, &s.facts); }
  Bound b = interval(v, &s.facts); if (b.lof && b.hif && floorQ(b.lo) == floorQ(b.hi)) return C.cst(Q(floorQ(b.lo)));
  static std::map<int, int> cache; auto it = cache.find(v->id); int a;
  if (it != cache.end()) a = it->second; else { Bound g = interval(v, nullptr), qb; if (g.lof) { qb.lof = true; qb.lo = Q(floorQ(g.lo)); } if (g.hif) { qb.hif = true; qb.hi = Q(floorQ(g.hi)); } a = C.newAtom(true, "fl" + std::to_string(C.atoms.size()), qb); cache[v->id] = a; C.atoms[a]->ek = 2; C.atoms[a]->ex = v; C.atoms[a]->defs.push_back(C.le0(C.sub(C.var(a), v))); C.atoms[a]->defs.push_back(C.lt0(C.addc(C.sub(v, C.var(a)), -1))); addGlobalFact(C.sub(v, C.var(a)), Bound::mk(0, 1)); }
  Bound nb; if (b.lof) { nb.lof = true; nb.lo = Q(floorQ(b.lo)); } if (b.hif) { nb.hif = true; nb.hi = Q(floorQ(b.hi)); } s.facts.m[C.var(a)->id].meet(nb);
  return C.var(a);
}
static PP truncPoly(State &s, PP v) { Bound b = interval(v, &s.facts); if (b.lof && b.lo > -1) { PP f = (b.lo >= 0) ? floorPoly(s, v) : nullptr; if (f) return f; } if (b.hif && b.hi <= 0) return C.neg(floorPoly(s, C.neg(v))); bool nn = decide(s, C.le0(C.neg(v))); return nn ? floorPoly(s, v) : C.neg(floorPoly(s, C.neg(v))); }
static Val binFP(State &s, unsigned op, const Val &a, const Val &b, int ty) {
  if (a.k == VU || b.k == VU) return Val::undef(ty);
  if (a.k == VC && b.k == VC) {
    if (ty == 64) { double x = asD(a.c), y = asD(b.c), r; switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = fmod(x, y); } return fromFP(r, 64); }
    if (ty == 32) { float x = asF(a.c), y = asF(b.c), r; switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = fmodf(x, y); } return fromFP(r, 32); }
    long double x = asL(a.c), y = asL(b.c), r; switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = fmodl(x, y); } return fromFP(r, 80);
  }
  PP x = fpReal(s, a, ty), y = fpReal(s, b, ty);
  switch (op) {
  case Instruction::FAdd: return mkFP(s, C.add(x, y), ty); case Instruction::FSub: { Bound bx = interval(x, &s.facts); // a non-negative value minus its own integer part is exact, and below one by at least one unit
    if (bx.lof && bx.lo >= 0 && bx.hif && !y->isConst() && a.k == VF && floorPoly(s, x) == y) { PP d = C.sub(x, y); stateFact(&s.facts, d, Bound::mk(0, 1 - pow2q(-precOf(ty)))); return Val::fp(new FPV{d, ty}, ty); }
    return mkFP(s, C.sub(x, y), ty); } case Instruction::FMul: return mkFP(s, C.mul(x, y), ty);
  case Instruction::FDiv: {
    if (y->isConst()) { if (y->cst() == 0) throw EngineErr{"symbolic / 0.0"}; return mkFP(s, C.scale(x, 1 / y->cst()), ty); }
    Bound bx = interval(x, &s.facts), by = interval(y, &s.facts); if (!(by.lof && by.lo > 0) && !(by.hif && by.hi < 0)) throw EngineErr{"floating-point divisor may be zero"};
    auto key = std::make_pair(x->id, y->id); auto it = fdivCache.find(key); int q; if (it != fdivCache.end()) q = it->second; else { q = C.newAtom(false, "fq" + std::to_string(C.atoms.size()), Bound()); fdivCache[key] = q; C.atoms[q]->ek = 6; C.atoms[q]->ex = x; C.atoms[q]->ey = y; C.atoms[q]->defs.push_back(C.eq0(C.sub(C.mul(C.var(q), y), x))); }
    Q c[4] = {bx.lo / by.lo, bx.lo / by.hi, bx.hi / by.lo, bx.hi / by.hi}; Bound nb = Bound::mk(*std::min_element(c, c + 4), *std::max_element(c, c + 4)); s.facts.m[C.var(q)->id].meet(nb);
    return mkFP(s, C.var(q), ty); }
  default: throw EngineErr{"symbolic frem"};
  }
}
static FP fcmpF(State &s, int pred, const Val &a, const Val &b, int ty) {
  if (pred == CmpInst::FCMP_TRUE) return C.T; if (pred == CmpInst::FCMP_FALSE) return C.Fa;
  if (a.k == VC && b.k == VC) {
    long double x = asFP(a.c, ty), y = asFP(b.c, ty); bool un = std::isnan(x) || std::isnan(y); bool r;
    switch (pred) { case CmpInst::FCMP_OEQ: r = !un && x == y; break; case CmpInst::FCMP_OGT: r = !un && x > y; break; case CmpInst::FCMP_OGE: r = !un && x >= y; break; case CmpInst::FCMP_OLT: r = !un && x < y; break; case CmpInst::FCMP_OLE: r = !un && x <= y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break;
      case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; default: r = un || x != y; }
    return r ? C.T : C.Fa;
  }
  // comparisons of a finite symbolic value with an infinity or NaN
  for (int t = 0; t < 2; t++) { const Val &v = t ? a : b; if (v.k == VC) { long double x = asFP(v.c, ty); if (std::isnan(x)) return (pred == CmpInst::FCMP_UNO || (pred >= CmpInst::FCMP_UEQ && pred <= CmpInst::FCMP_UNE)) ? C.T : C.Fa; if (std::isinf(x)) { Val big = fromFP(x > 0 ? 1 : -1, ty), zero = fromFP(0, ty); return t ? fcmpF(s, pred, big, zero, ty) : fcmpF(s, pred, zero, big, ty); } } }
  if (pred == CmpInst::FCMP_ORD) return C.T; if (pred == CmpInst::FCMP_UNO) return C.Fa;
  PP d = C.sub(fpReal(s, a, ty), fpReal(s, b, ty));
  if ((a.k == VC) != (b.k == VC)) { bool ca = a.k == VC; long double c = asFP(ca ? a.c : b.c, ty); auto nx = [&](bool up) { return ty == 64 ? (long double)nextafter((double)c, up ? HUGE_VAL : -HUGE_VAL) : ty == 32 ? (long double)nextafterf((float)c, up ? HUGE_VALF : -HUGE_VALF) : nextafterl(c, up ? HUGE_VALL : -HUGE_VALL); };
    PP x = fpReal(s, ca ? b : a, ty); long double l = nx(false), h = nx(true); if (std::isfinite(l) && std::isfinite(h) && c != 0 && !x->isConst()) { FP below = C.lt0(C.addc(x, -ldToQ(c))), above = C.lt0(C.addc(C.neg(x), ldToQ(c))); fpStrong[below->id] = C.le0(C.addc(x, -ldToQ(l))); fpStrong[above->id] = C.le0(C.addc(C.neg(x), ldToQ(h))); } }
  switch (pred) { case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return C.eq0(d); case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return C.Not(C.eq0(d)); case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return C.lt0(C.neg(d)); case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return C.le0(C.neg(d)); case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return C.lt0(d); default: return C.le0(d); }
}
#include "sym_mem.inc"
#include "sym_calls.inc"
#include "sym_main.inc"
