// ------------------------------------------------------------------ built-in calls
typedef std::function<Val(State &, DI &, std::vector<Val> &)> BI;
static std::vector<BI> bis; static std::unordered_map<std::string, int> bimap;
static int builtinOf(const std::string &n) {
  auto it = bimap.find(n); if (it != bimap.end()) return it->second;
  if (n.compare(0, 5, "llvm.") == 0) { std::string m = n; size_t p; while ((p = m.rfind('.')) != std::string::npos) { m = m.substr(0, p); it = bimap.find(m); if (it != bimap.end()) return it->second; } }
  if (n.compare(0, 10, "_ZSt20__th") == 0 || n.find("__throw_") != std::string::npos) return bimap["__throw"];
  return -1;
}
static PP hget(const Val &v) { if (v.k != VC) throw EngineErr{"symbolic handle"}; size_t i = (size_t)v.c; if (i >= handles.size()) throw EngineErr{"bad handle"}; return handles[i]; }
static Val hnew(PP p) { handles.push_back(p); return Val::con(handles.size() - 1, 32); }
static uint64_t rngS = 88172645463325252ull; static uint64_t rnd() { rngS ^= rngS << 13; rngS ^= rngS >> 7; rngS ^= rngS << 17; return rngS; }
// tries concrete input assignments on the path; only used to pick witnesses (samples, counterexamples), never to decide
static bool randomModel(State &s, const std::vector<FP> &extra, Model &out, int tries) {
  for (int n = 0; n < tries; n++) {
    Model m; int mode = (int)(rnd() % 6); std::map<int, Q> pin; for (auto *f : s.pc) if (f->k == F_EQ0 && f->p->t.size() <= 2) { int a = -1; bool one = true; for (auto &t : f->p->t) if (!t.m->a.empty()) { if (t.m->a.size() == 1 && a < 0) a = t.m->a[0]; else one = false; } if (one && a >= 0) { Q c = 0, k = 1; for (auto &t : f->p->t) if (t.m->a.empty()) c = t.c; else k = t.c; pin[a] = -c / k; } }
    for (int a : s.inputs) { Bound b = atomBound(a, &s.facts); auto it = pin.find(a); Q v; if (it != pin.end()) v = it->second; else if (!b.lof || !b.hif) v = b.lof ? b.lo : b.hif ? b.hi : Q(0); else { int r = (int)(rnd() % 12); if (mode == 0) v = r < 2 ? b.lo : r < 10 ? b.hi : Q((b.lo + b.hi) / 2); else if (mode == 1) v = r < 9 ? b.lo : b.hi; else if (r == 0) v = b.lo; else if (r == 1) v = b.hi; else if (C.atoms[a]->isInt) { Z w = ceilQ(b.lo), sp = floorQ(b.hi) - w + 1; Z rr = (Z((unsigned long)(rnd() >> 1)) << 64) + (unsigned long)rnd(); if (sp > 0) w += rr % sp; v = Q(w); } else { Q fr((long)(rnd() % 1000003), 1000003); fr.canonicalize(); v = b.lo + (b.hi - b.lo) * fr; } } if (C.atoms[a]->isInt) v = Q(ceilQ(v)); m.v[a] = v; }
    bool good = true, ok = true; for (auto *f : s.pc) { if (!evalAtoms(f, m) || !evalForm(f, m, ok) || !ok) { good = false; break; } }
    if (good) for (auto *f : extra) if (!evalAtoms(f, m) || !evalForm(f, m, ok) || !ok) { good = false; break; }
    if (good) { out = m; return true; }
  }
  return false;
}
static bool recordViol(State &s, const std::string &kind, const std::string &msg, const std::vector<FP> &extra, bool sat) {
  Model m; bool ex = false; Res mr = modelFor(s.pc, extra, &s.facts, optAssert, m, ex); if (mr == R_UNSAT) return false;
  if (mr != R_SAT || !ex) { Model r; if (randomModel(s, extra, r, 400)) { m = r; mr = R_SAT; ex = true; } }
  violCnt[kind + ": " + msg]++; uint64_t have = 0; for (auto &v : viols) have += v.msg == msg; if ((int)have >= optMaxViol) return true;
  Viol v; v.kind = kind; v.msg = msg; v.solverSat = sat; v.exact = mr == R_SAT && ex;
  for (int a : s.inputs) { auto it = m.v.find(a); Bound b = C.atoms[a]->b; v.in[C.atoms[a]->name] = it != m.v.end() ? it->second : (b.lof && b.lo > 0) ? b.lo : (b.hif && b.hi < 0) ? b.hi : Q(0); }
  for (auto &f : s.st) v.where += f.f->dem.substr(0, 80) + " < ";
  viols.push_back(v); return true;
}
static bool pathFeasibleStrict(State &s, const std::vector<FP> &extra) { return true; }
static void doAssert(State &s, FP f, const std::string &msg) {
  nAsserts++; auto &as = assertStat[msg]; as.first++;
  FP g = simplify(f, &s.facts); if (g->k == F_TRUE) return;
  std::vector<FP> parts; if (g->k == F_AND) parts = g->ch; else parts = {g};
  for (auto *p : parts) {
    FP n = C.Not(p); nAssertSolved++; as.second++; Res r = query(s.pc, {n}, &s.facts, optAssert, 2);
    if (r == R_UNSAT) continue;
    if (!recordViol(s, "assert", msg, {n}, r == R_SAT)) continue;
    if (r == R_UNK) { nInconcl++; if (inconcl.size() < 20) inconcl.push_back("assertion undecided: " + msg); }
  }
  if (g->k == F_FALSE || !feasible(s, g)) throw PathEnd{1, "assertion cannot hold"};
  if (!assume(s, g)) throw PathEnd{1, "assertion cannot hold"};
}
static Val fpFromQ(State &s, PP p, int ty) { return mkFP(s, p, ty); }
static Val fpUnary(State &s, DI &I, const Val &v, int ty, const char *n) {
  std::string f = n;
  if (v.k == VC) {
    long double x = asFP(v.c, ty);
    auto R = [&](long double r) { return fromFP(r, ty); };
#define FN(name) if (f == #name) { if (ty == 64) { double d = asD(v.c); return fromFP(::name(d), 64); } if (ty == 32) { float d = asF(v.c); return fromFP(::name##f(d), 32); } return R(::name##l(x)); }
    FN(floor) FN(ceil) FN(sqrt) FN(trunc) FN(round) FN(log10) FN(log) FN(log2) FN(exp) FN(exp2) FN(sin) FN(cos) FN(tan) FN(rint) FN(nearbyint) FN(sinh) FN(cosh) FN(tanh) FN(asin) FN(acos) FN(atan) FN(tgamma) FN(lgamma) FN(cbrt) FN(log1p) FN(expm1)
#undef FN
    if (f == "fabs") { if (ty == 64) return Val::con(v.c & (maskW(63)), 64); if (ty == 32) return Val::con(v.c & maskW(31), 32); return Val::con(v.c & maskW(79), 80); }
    throw EngineErr{"fp function " + f};
  }
  if (v.k == VU) return Val::undef(ty);
  PP p = v.d->v; Bound b = interval(p, &s.facts);
  if (f == "fabs") { bool nn = (b.lof && b.lo >= 0) ? true : (b.hif && b.hi <= 0) ? false : decide(s, C.le0(C.neg(p))); return nn ? v : Val::fp(new FPV{C.neg(p), ty}, ty); }
  if (f == "floor") return mkFP(s, floorPoly(s, p), ty);
  if (f == "ceil") return mkFP(s, C.neg(floorPoly(s, C.neg(p))), ty);
  if (f == "trunc") return mkFP(s, truncPoly(s, p), ty);
  if (f == "log10" || f == "log" || f == "log2") {
    if (!(b.lof && b.lo > 0 && b.hif)) { bool pos = decide(s, C.lt0(C.neg(p))); if (!pos) throw EngineErr{"log of a non-positive symbolic value"}; throw EngineErr{"log of an unbounded symbolic value"}; }
    if (f == "log10") { Q t = 1; while (t <= b.lo) t *= 10; while (t > b.lo) t /= 10; t *= 10; if (t <= b.hi) { decide(s, C.le0(C.addc(C.neg(p), t))); b = interval(p, &s.facts); } }
    auto ev = [&](const Q &q) { double d = q.get_d(); return f == "log10" ? log10(d) : f == "log" ? log(d) : log2(d); };
    static std::map<std::pair<int, std::string>, int> cache; auto k = std::make_pair(p->id, f); auto it = cache.find(k); int a = it != cache.end() ? it->second : (cache[k] = C.newAtom(false, f + std::to_string(C.atoms.size()), Bound()));
    double l = ev(b.lo), h = ev(b.hi); if (p->allIntAtoms && p->isInt) {} else { l = nextafter(l, -1e300); h = nextafter(h, 1e300); }
    s.facts.m[C.var(a)->id].meet(Bound::mk(ldToQ(l), ldToQ(h))); return Val::fp(new FPV{C.var(a), ty}, ty);
  }
  if (f == "sqrt") {
    if (!(b.lof && b.lo >= 0 && b.hif)) throw EngineErr{"sqrt of a possibly negative value"};
    static std::map<int, int> cache; auto it = cache.find(p->id); int a; if (it != cache.end()) a = it->second; else { Bound nn; nn.lof = true; nn.lo = 0; a = cache[p->id] = C.newAtom(false, "sqrt" + std::to_string(C.atoms.size()), nn); C.atoms[a]->defs.push_back(C.eq0(C.sub(C.mul(C.var(a), C.var(a)), p))); }
    double l = sqrt(b.lo.get_d()), h = sqrt(b.hi.get_d()); s.facts.m[C.var(a)->id].meet(Bound::mk(ldToQ(l * (1 - 1e-15)), ldToQ(h * (1 + 1e-15)))); return mkFP(s, C.var(a), ty);
  }
  throw EngineErr{"symbolic fp function " + f};
}
static int fpTyOfArg(DI &I, unsigned k) { return fpTy(cast<CallBase>(I.I)->getArgOperand(k)->getType()); }
static void reg(const std::string &n, BI f) { bimap[n] = (int)bis.size(); bis.push_back(f); }
static Val minmax(State &s, const Val &a, const Val &b, bool sg, bool mx) {
  if (a.k == VC && b.k == VC) { bool lt = sg ? sx(a.c, a.w) < sx(b.c, b.w) : a.c < b.c; return (lt == mx) ? b : a; }
  PP x = sg ? sgn(s, a) : uns(s, a), y = sg ? sgn(s, b) : uns(s, b); FP c = simplify(C.le0(C.sub(x, y)), &s.facts); return mk(mx ? iteP(s, c, y, x) : iteP(s, c, x, y), a.w);
}
static Val ovf(State &s, unsigned op, bool sg, std::vector<Val> &a) {
  unsigned w = a[0].w; PP x = sg ? sgn(s, a[0]) : uns(s, a[0]), y = sg ? sgn(s, a[1]) : uns(s, a[1]); PP r = op == 0 ? C.add(x, y) : op == 1 ? C.sub(x, y) : C.mul(x, y);
  Q lo = sg ? -pow2q(w - 1) : Q(0), hi = lo + pow2q(w) - 1; FP o = C.Or({C.lt0(C.addc(r, -lo)), C.lt0(C.addc(C.neg(r), hi))}); o = simplify(o, &s.facts); auto *g = new Agg{mk(r, w), Val::form(o)}; return Val::agg(g);
}
static Val sat(State &s, unsigned op, bool sg, std::vector<Val> &a) {
  unsigned w = a[0].w; PP x = sg ? sgn(s, a[0]) : uns(s, a[0]), y = sg ? sgn(s, a[1]) : uns(s, a[1]); PP r = op == 0 ? C.add(x, y) : C.sub(x, y); Q lo = sg ? -pow2q(w - 1) : Q(0), hi = lo + pow2q(w) - 1;
  r = iteP(s, C.lt0(C.addc(r, -lo)), C.cst(lo), r); r = iteP(s, C.lt0(C.addc(C.neg(r), hi)), C.cst(hi), r); return mk(r, w);
}
static Val doAlloc(State &s, const Val &n, const char *nm) { u128 k = concU(s, n); s.liveHeap++; if (k > (1u << 23)) throw PathEnd{4, "allocation of more than 8 MB"}; return Val::con(baseOf(newObj(s, (uint32_t)k, 2, nm)), 64); }
static Val doFree(State &s, const Val &p) { u128 a = concU(s, p); if (!a) return Val(); uint32_t off; Obj *o = writable(s, (uint64_t)a, off); if (!o || o->kind != 2 || off || o->freed) throw PathEnd{2, std::string("memory: invalid free") + (o && o->freed ? " (double free)" : "")}; o->freed = true; s.liveHeap--; return Val(); }
static Q parseQ(const std::string &t) { Q q(t); q.canonicalize(); return q; }
static void regAll() {
  auto nop = [](State &, DI &, std::vector<Val> &) { return Val(); };
  for (const char *n : {"llvm.lifetime.start", "llvm.lifetime.end", "llvm.dbg.value", "llvm.dbg.declare", "llvm.dbg.label", "llvm.assume", "llvm.experimental.noalias.scope.decl", "llvm.donothing", "llvm.stackrestore", "llvm.prefetch", "llvm.invariant.start", "llvm.invariant.end", "llvm.var.annotation", "__cxa_guard_abort", "llvm.va_start", "llvm.va_end"}) reg(n, nop);
  reg("llvm.stacksave", [](State &, DI &, std::vector<Val> &) { return Val::con(0, 64); });
  reg("llvm.memcpy", [](State &s, DI &, std::vector<Val> &a) { uint64_t d = (uint64_t)concU(s, a[0]), r = (uint64_t)concU(s, a[1]); uint32_t n = (uint32_t)concU(s, a[2]); copyMem(s, d, r, n); return Val(); });
  bimap["llvm.memmove"] = bimap["llvm.memcpy"];
  auto mcp = [](State &s, DI &, std::vector<Val> &a) { uint64_t d = (uint64_t)concU(s, a[0]), r = (uint64_t)concU(s, a[1]); u128 n = concU(s, a[2]); if (n >= (1u << RES)) throw PathEnd{2, "memory: copy with a huge length"}; copyMem(s, d, r, (uint32_t)n); return Val::con(d, 64); };
  reg("memcpy", mcp); reg("memmove", mcp);
  auto mset = [](State &s, DI &I, std::vector<Val> &a) { uint64_t d = (uint64_t)concU(s, a[0]); u128 n = concU(s, a[2]); if (n >= (1u << RES)) throw PathEnd{2, "memory: fill with a huge length"}; if (!n) return Val::con(d, 64); Val v = a[1]; if (v.w != 8) { v.w = 8; if (v.k == VC) v.c &= 255; else if (v.k == VP) v = mk(v.p, 8); }
    if (v.k == VC) { uint32_t off; Obj *o = chk(s, d, (uint64_t)n, true, off); clearRange(s, o, off, (uint32_t)n); memset(o->b.data() + off, (int)v.c, (size_t)n); memset(o->st.data() + off, 1, (size_t)n); } else for (uint32_t i = 0; i < n; i++) storeVal(s, d + i, 1, v); return Val::con(d, 64); };
  reg("llvm.memset", mset); reg("memset", mset);
  auto nw = [](State &s, DI &, std::vector<Val> &a) { return doAlloc(s, a[0], "new"); }; reg("_Znwm", nw); reg("_Znam", nw); reg("malloc", nw); reg("_ZnwmSt11align_val_t", nw); reg("_ZnwmRKSt9nothrow_t", nw);
  reg("calloc", [](State &s, DI &, std::vector<Val> &a) { u128 n = concU(s, a[0]) * concU(s, a[1]); Val v = doAlloc(s, Val::con(n, 64), "calloc"); uint32_t off; Obj *o = writable(s, (uint64_t)v.c, off); memset(o->st.data(), 1, o->size); return v; });
  auto dl = [](State &s, DI &, std::vector<Val> &a) { return doFree(s, a[0]); }; for (const char *n : {"_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "free", "_ZdlPvSt11align_val_t"}) reg(n, dl);
  reg("__cxa_guard_acquire", [](State &s, DI &, std::vector<Val> &a) { Val v = loadVal(s, (uint64_t)concU(s, a[0]), 1, 8, false); return Val::con(v.k == VC && v.c ? 0 : 1, 32); });
  reg("__cxa_guard_release", [](State &s, DI &, std::vector<Val> &a) { storeVal(s, (uint64_t)concU(s, a[0]), 1, Val::con(1, 8)); return Val(); });
  reg("__cxa_atexit", [](State &, DI &, std::vector<Val> &) { return Val::con(0, 32); });
  reg("__cxa_allocate_exception", [](State &s, DI &, std::vector<Val> &a) { return Val::con(baseOf(newObj(s, (uint32_t)concU(s, a[0]), 2, "exception")), 64); });
  reg("__cxa_free_exception", nop);
  auto thr = [](State &s, DI &I, std::vector<Val> &) -> Val { std::string n = I.callee ? I.callee->dem : "throw"; if (s.allowThrow) throw PathEnd{3, "throw"}; throw PathEnd{2, "exception: " + n}; };
  reg("__throw", thr); reg("__cxa_throw", thr); reg("__cxa_rethrow", thr); reg("_ZSt9terminatev", thr); reg("abort", thr); reg("__assert_fail", thr); reg("llvm.trap", thr); reg("__cxa_pure_virtual", thr); reg("exit", thr);
  auto mm = [](bool sg, bool mx) { return [sg, mx](State &s, DI &, std::vector<Val> &a) { return minmax(s, a[0], a[1], sg, mx); }; };
  reg("llvm.umax", mm(false, true)); reg("llvm.umin", mm(false, false)); reg("llvm.smax", mm(true, true)); reg("llvm.smin", mm(true, false));
  reg("llvm.abs", [](State &s, DI &, std::vector<Val> &a) { if (a[0].k == VC) { i128 x = sx(a[0].c, a[0].w); return Val::con((u128)(x < 0 ? -x : x), a[0].w); } PP x = sgn(s, a[0]); return mk(iteP(s, C.le0(C.neg(x)), x, C.neg(x)), a[0].w); });
  for (int sg = 0; sg < 2; sg++) for (int op = 0; op < 3; op++) { std::string n = std::string("llvm.") + (sg ? "s" : "u") + (op == 0 ? "add" : op == 1 ? "sub" : "mul"); reg(n + ".with.overflow", [sg, op](State &s, DI &, std::vector<Val> &a) { return ovf(s, op, sg, a); }); if (op < 2) reg(n + ".sat", [sg, op](State &s, DI &, std::vector<Val> &a) { return sat(s, op, sg, a); }); }
  reg("llvm.fshl", [](State &s, DI &, std::vector<Val> &a) { unsigned w = a[0].w; u128 k = concU(s, a[2]) % w; if (k == 0) return a[0]; Val h = binInt(s, Instruction::Shl, a[0], Val::con(k, w), w, false), l = binInt(s, Instruction::LShr, a[1], Val::con(w - k, w), w, false); PP hp = h.k == VC ? uns(s, h) : uns(s, h); return mk(C.add(hp, uns(s, l)), w); });
  reg("llvm.fshr", [](State &s, DI &, std::vector<Val> &a) { unsigned w = a[0].w; u128 k = concU(s, a[2]) % w; if (k == 0) return a[1]; Val h = binInt(s, Instruction::Shl, a[0], Val::con(w - k, w), w, false), l = binInt(s, Instruction::LShr, a[1], Val::con(k, w), w, false); return mk(C.add(uns(s, h), uns(s, l)), w); });
  reg("llvm.ctlz", [](State &s, DI &, std::vector<Val> &a) { unsigned w = a[0].w; if (a[0].k != VC) { PP p = uns(s, a[0]); for (unsigned k = 0; k < w; k++) if (decide(s, C.le0(C.addc(C.neg(p), pow2q(w - 1 - k))))) return Val::con(k, w); return Val::con(w, w); } unsigned n = 0; while (n < w && !((a[0].c >> (w - 1 - n)) & 1)) n++; return Val::con(n, w); });
  reg("llvm.cttz", [](State &s, DI &, std::vector<Val> &a) { u128 v = concU(s, a[0]); unsigned w = a[0].w, n = 0; while (n < w && !((v >> n) & 1)) n++; return Val::con(n, w); });
  reg("llvm.ctpop", [](State &s, DI &, std::vector<Val> &a) { u128 v = concU(s, a[0]); unsigned n = 0; for (unsigned i = 0; i < a[0].w; i++) n += (unsigned)((v >> i) & 1); return Val::con(n, a[0].w); });
  reg("llvm.bswap", [](State &s, DI &, std::vector<Val> &a) { unsigned n = a[0].w / 8; PP p = uns(s, a[0]); PP r = C.P0; for (unsigned i = 0; i < n; i++) { PP lo = C.sub(mkQuot(p, pow2z(8 * i), &s.facts), C.scale(mkQuot(p, pow2z(8 * i + 8), &s.facts), 256)); r = C.lin(r, 1, lo, pow2q(8 * (n - 1 - i))); } return mk(r, a[0].w); });
  reg("llvm.expect", [](State &, DI &, std::vector<Val> &a) { return a[0]; }); reg("llvm.launder.invariant.group", [](State &, DI &, std::vector<Val> &a) { return a[0]; });
  reg("llvm.objectsize", [](State &, DI &I, std::vector<Val> &) { return Val::con(~(u128)0, I.w); }); reg("llvm.is.constant", [](State &, DI &, std::vector<Val> &) { return Val::con(0, 1); });
  reg("llvm.eh.typeid.for", [](State &, DI &, std::vector<Val> &) { return Val::con(1, 32); });
  reg("llvm.ucmp", [](State &s, DI &I, std::vector<Val> &a) { PP x = uns(s, a[0]), y = uns(s, a[1]); return mk(iteP(s, C.lt0(C.sub(x, y)), C.cst(-1), iteP(s, C.eq0(C.sub(x, y)), C.P0, C.P1)), I.w); });
  // floating point
  for (const char *n : {"floor", "ceil", "sqrt", "trunc", "round", "log10", "log", "log2", "exp", "exp2", "sin", "cos", "tan", "rint", "nearbyint", "sinh", "cosh", "tanh", "asin", "acos", "atan", "tgamma", "lgamma", "cbrt", "log1p", "expm1", "fabs"}) {
    std::string b = n; auto f = [b](State &s, DI &I, std::vector<Val> &a) { return fpUnary(s, I, a[0], fpTyOfArg(I, 0), b.c_str()); };
    reg(b, f); reg(b + "f", f); reg(b + "l", f); reg("llvm." + b, f);
  }
  reg("llvm.fmuladd", [](State &s, DI &I, std::vector<Val> &a) { int ty = I.dstTy; return binFP(s, Instruction::FAdd, binFP(s, Instruction::FMul, a[0], a[1], ty), a[2], ty); });
  reg("llvm.copysign", [](State &s, DI &I, std::vector<Val> &a) { int ty = I.dstTy; if (a[1].k != VC) throw EngineErr{"copysign"}; bool ng = (a[1].c >> (ty - 1)) & 1; if (a[0].k == VC) return Val::con((a[0].c & maskW(ty - 1)) | (ng ? (u128)1 << (ty - 1) : 0), ty); Val m = fpUnary(s, I, a[0], ty, "fabs"); return ng ? Val::fp(new FPV{C.neg(m.d->v), ty}, ty) : m; });
  auto fmm = [](bool mx) { return [mx](State &s, DI &I, std::vector<Val> &a) { int ty = I.dstTy; if (a[0].k == VC && a[1].k == VC) { long double x = asFP(a[0].c, ty), y = asFP(a[1].c, ty); return fromFP(mx ? fmaxl(x, y) : fminl(x, y), ty); } bool lt = decide(s, C.lt0(C.sub(fpReal(s, a[0], ty), fpReal(s, a[1], ty)))); return lt == mx ? a[1] : a[0]; }; };
  for (const char *n : {"llvm.maxnum", "fmax", "fmaxf", "fmaxl"}) reg(n, fmm(true)); for (const char *n : {"llvm.minnum", "fmin", "fminf", "fminl"}) reg(n, fmm(false));
  auto powf = [](State &s, DI &I, std::vector<Val> &a) { int ty = I.dstTy; if (a[0].k != VC || a[1].k != VC) throw EngineErr{"symbolic pow"}; if (ty == 64) return fromFP(pow(asD(a[0].c), asD(a[1].c)), 64); if (ty == 32) return fromFP(::powf(asF(a[0].c), asF(a[1].c)), 32); return fromFP(powl(asL(a[0].c), asL(a[1].c)), 80); };
  reg("pow", powf); reg("llvm.pow", powf); reg("powl", powf); reg("powf", powf);
  auto fm = [](State &s, DI &I, std::vector<Val> &a) { return binFP(s, Instruction::FRem, a[0], a[1], I.dstTy); }; reg("fmod", fm); reg("fmodl", fm);
  auto frx2 = [](State &s, const Val &x, int ty) -> std::pair<Val, int> {
    if (x.k == VC) { int e = 0; long double l = asFP(x.c, ty), r = frexpl(l, &e); if (!std::isfinite(l)) e = 0; return {fromFP(r, ty), e}; }
    PP v = x.d->v; Bound b = interval(v, &s.facts); bool ng = false; if (!(b.lof && b.lo > 0)) { ng = !decide(s, C.lt0(C.neg(v))); if (ng) { if (decide(s, C.eq0(v))) return {fromFP(0, ty), 0}; } }
    PP m = ng ? C.neg(v) : v; b = interval(m, &s.facts); if (!(b.lof && b.hif && b.lo > 0)) throw EngineErr{"frexp range"};
    auto ex = [](const Q &q) { int e = (int)mpz_sizeinbase(q.get_num_mpz_t(), 2) - (int)mpz_sizeinbase(q.get_den_mpz_t(), 2); while (pow2q(e) <= q) e++; while (pow2q(e - 1) > q) e--; return e; };
    int lo = ex(b.lo), hi = ex(b.hi); if (lo != hi) { if (hi - lo > 300) throw EngineErr{"frexp range too wide"}; ForkReq r; for (int e = lo; e <= hi; e++) r.alts.push_back(C.And({C.le0(C.addc(C.neg(m), pow2q(e - 1))), C.lt0(C.addc(m, -pow2q(e)))})); throw r; }
    return {Val::fp(new FPV{C.scale(v, pow2q(-lo)), ty}, ty), lo}; };
  auto frx = [frx2](State &s, DI &I, std::vector<Val> &a) { uint64_t pa = (uint64_t)concU(s, a[1]); auto r = frx2(s, a[0], I.dstTy); storeVal(s, pa, 4, Val::con((uint32_t)r.second, 32)); return r.first; };
  reg("llvm.frexp", [frx2](State &s, DI &I, std::vector<Val> &a) { auto r = frx2(s, a[0], a[0].w); return Val::agg(new Agg{r.first, Val::con((uint32_t)r.second, 32)}); });
  reg("frexp", frx); reg("frexpl", frx); reg("frexpf", frx);
  auto ldx = [](State &s, DI &I, std::vector<Val> &a) { int ty = I.dstTy; int e = (int)concS(s, a[1]); if (a[0].k == VC) return ty == 64 ? fromFP(ldexp(asD(a[0].c), e), 64) : fromFP(ldexpl(asFP(a[0].c, ty), e), ty); return mkFP(s, C.scale(a[0].d->v, pow2q(e)), ty); };
  reg("ldexp", ldx); reg("ldexpl", ldx); reg("ldexpf", ldx); reg("llvm.ldexp", ldx); reg("scalbn", ldx);
  reg("llvm.is.fpclass", [](State &s, DI &I, std::vector<Val> &a) { int ty = fpTyOfArg(I, 0); unsigned m = (unsigned)a[1].c;
    if (a[0].k == VC) { long double x = asFP(a[0].c, ty); bool sg = std::signbit(x); unsigned c; if (std::isnan(x)) c = 2; else if (std::isinf(x)) c = sg ? 4 : 512; else if (x == 0) c = sg ? 32 : 64; else { long double mn = ty == 64 ? 0x1p-1022L : ty == 32 ? 0x1p-126L : 0x1p-16382L; bool nrm = fabsl(x) >= mn; c = nrm ? (sg ? 8 : 256) : (sg ? 16 : 128); } return Val::con((m & c) || (std::isnan(x) && (m & 3)), 1); }
    unsigned fin = 8 | 16 | 32 | 64 | 128 | 256; if ((m & fin) == fin) return Val::con(1, 1); if ((m & fin) == 0) return Val::con(0, 1); PP v = fpReal(s, a[0], ty); unsigned neg = 8 | 16, pos = 128 | 256, z = 96; std::vector<FP> o; if ((m & neg) == neg) o.push_back(C.lt0(v)); else if (m & neg) throw EngineErr{"fpclass"}; if ((m & pos) == pos) o.push_back(C.lt0(C.neg(v))); else if (m & pos) throw EngineErr{"fpclass"}; if (m & z) o.push_back(C.eq0(v)); return Val::form(C.Or(o)); });
  // ---- harness interface
  auto symI = [](bool sg) { return [sg](State &s, DI &I, std::vector<Val> &a) { std::string n = cstr(s, (uint64_t)a[0].c); i128 lo = sg ? sx(a[1].c, 64) : (i128)a[1].c, hi = sg ? sx(a[2].c, 64) : (i128)a[2].c; auto z = [](i128 x) { return x < 0 ? Z(-zFromU128((u128)-x)) : zFromU128((u128)x); }; if (a[1].k != VC || a[2].k != VC) throw EngineErr{"symbolic range"};
    if (a.size() > 3) n += "[" + std::to_string((int64_t)concS(s, a[3])) + "]"; if (lo > hi) throw PathEnd{1, "empty range"}; if (lo == hi) { }
    auto it = inputAtom.find(n); int at; Bound b = Bound::mk(Q(z(lo)), Q(z(hi))); if (it == inputAtom.end()) { at = C.newAtom(true, n, b); C.atoms[at]->isInput = true; inputAtom[n] = at; if (lo == 0 && hi == 1) C.zeroOne.insert(at); } else { at = it->second; Bound g = C.atoms[at]->b; if (g.lo != b.lo || g.hi != b.hi) { Q l = std::min(g.lo, b.lo), h = std::max(g.hi, b.hi); if (l != g.lo || h != g.hi) throw EngineErr{"symbolic input " + n + " re-declared with a wider range"}; s.facts.m[C.var(at)->id].meet(b); s.pc.push_back(C.le0(C.addc(C.neg(C.var(at)), b.lo))); s.pc.push_back(leQ(C.var(at), b.hi)); } }
    if (std::find(s.inputs.begin(), s.inputs.end(), at) == s.inputs.end()) s.inputs.push_back(at);
    return mk(C.var(at), 64); }; };
  reg("vf_sym_u", symI(false)); reg("vf_sym_i", symI(true)); reg("vf_sym_u_at", symI(false)); reg("vf_sym_i_at", symI(true));
  reg("vf_param", [](State &s, DI &, std::vector<Val> &a) { size_t i = (size_t)concU(s, a[0]); if (i >= params.size()) throw EngineErr{"missing parameter"}; return Val::con((u128)(i128)params[i], 64); });
  reg("vf_assume", [](State &s, DI &, std::vector<Val> &a) { FP f = simplify(asForm(s, a[0]), &s.facts); if (f->k == F_TRUE) return Val(); if (f->k == F_FALSE || !feasible(s, f) || !assume(s, f)) throw PathEnd{1, "assume"}; return Val(); });
  reg("vf_assert_", [](State &s, DI &, std::vector<Val> &a) { doAssert(s, asForm(s, a[0]), cstr(s, (uint64_t)a[1].c)); return Val(); });
  reg("vf_reach", [](State &s, DI &, std::vector<Val> &a) { std::string n = cstr(s, (uint64_t)a[0].c); s.reach.push_back(n); return Val(); });
  reg("vf_observe", [](State &s, DI &, std::vector<Val> &a) { s.obs.push_back({cstr(s, (uint64_t)a[0].c), uns(s, a[1])}); return Val(); });
  reg("vf_observe_i", [](State &s, DI &, std::vector<Val> &a) { s.obs.push_back({cstr(s, (uint64_t)a[0].c), sgn(s, a[1])}); return Val(); });
  reg("vf_observe_z", [](State &s, DI &, std::vector<Val> &a) { s.obs.push_back({cstr(s, (uint64_t)a[0].c), hget(a[1])}); return Val(); });
  reg("vf_concrete", [](State &s, DI &, std::vector<Val> &a) { return Val::con((u128)(i128)concS(s, a[0]), 64); });
  reg("vf_is_native", [](State &, DI &, std::vector<Val> &) { return Val::con(0, 1); });
  reg("vf_allow_throw", [](State &s, DI &, std::vector<Val> &a) { s.allowThrow = (int)a[0].c; return Val(); });
  reg("vf_live_heap", [](State &s, DI &, std::vector<Val> &) { return Val::con((u128)(i128)s.liveHeap, 64); });
  reg("vf_fail", [](State &s, DI &, std::vector<Val> &a) -> Val { throw PathEnd{2, cstr(s, (uint64_t)a[0].c)}; });
  reg("vf_stop", [](State &s, DI &, std::vector<Val> &a) -> Val { throw PathEnd{0, "stop"}; });
  reg("vf_and", [](State &s, DI &, std::vector<Val> &a) { return Val::form(C.And({asForm(s, a[0]), asForm(s, a[1])})); });
  reg("vf_or", [](State &s, DI &, std::vector<Val> &a) { return Val::form(C.Or({asForm(s, a[0]), asForm(s, a[1])})); });
  reg("vf_not", [](State &s, DI &, std::vector<Val> &a) { return Val::form(C.Not(asForm(s, a[0]))); });
  reg("vf_iff", [](State &s, DI &, std::vector<Val> &a) { return Val::form(C.Not(C.Xor(asForm(s, a[0]), asForm(s, a[1])))); });
  // rationals
  reg("vf_z_str", [](State &s, DI &, std::vector<Val> &a) { return hnew(C.cst(parseQ(cstr(s, (uint64_t)a[0].c)))); });
  reg("vf_z_u", [](State &s, DI &, std::vector<Val> &a) { return hnew(uns(s, a[0])); }); reg("vf_z_i", [](State &s, DI &, std::vector<Val> &a) { return hnew(sgn(s, a[0])); });
  reg("vf_z_add", [](State &, DI &, std::vector<Val> &a) { return hnew(C.add(hget(a[0]), hget(a[1]))); }); reg("vf_z_sub", [](State &, DI &, std::vector<Val> &a) { return hnew(C.sub(hget(a[0]), hget(a[1]))); }); reg("vf_z_mul", [](State &, DI &, std::vector<Val> &a) { return hnew(C.mul(hget(a[0]), hget(a[1]))); });
  reg("vf_z_pow", [](State &s, DI &, std::vector<Val> &a) { Q b = hget(a[0])->cst(); int64_t e = concS(s, a[1]); Q r = 1; bool n = e < 0; if (n) e = -e; if (e > 100000) throw EngineErr{"vf_z_pow exponent"}; mpz_pow_ui(r.get_num_mpz_t(), b.get_num_mpz_t(), (unsigned long)e); mpz_pow_ui(r.get_den_mpz_t(), b.get_den_mpz_t(), (unsigned long)e); return hnew(C.cst(n ? 1 / r : r)); });
  reg("vf_z_div", [](State &s, DI &, std::vector<Val> &a) { PP d = hget(a[1]); if (!d->isConst()) throw EngineErr{"vf_z_div by a symbolic value"}; return hnew(C.scale(hget(a[0]), 1 / d->cst())); });
  reg("vf_z_floor", [](State &s, DI &, std::vector<Val> &a) { return hnew(floorPoly(s, hget(a[0]))); });
  reg("vf_z_le", [](State &, DI &, std::vector<Val> &a) { return Val::form(C.le0(C.sub(hget(a[0]), hget(a[1])))); }); reg("vf_z_lt", [](State &, DI &, std::vector<Val> &a) { return Val::form(C.lt0(C.sub(hget(a[0]), hget(a[1])))); }); reg("vf_z_eq", [](State &, DI &, std::vector<Val> &a) { return Val::form(C.eq0(C.sub(hget(a[0]), hget(a[1])))); });
  reg("vf_z_ite", [](State &s, DI &, std::vector<Val> &a) { return hnew(iteP(s, asForm(s, a[0]), hget(a[1]), hget(a[2]))); });
  reg("vf_z_ediv", [](State &s, DI &, std::vector<Val> &a) { // exact real quotient n/d, d != 0 known
    PP x = hget(a[0]), y = hget(a[1]); if (y->isConst()) { if (y->cst() == 0) throw EngineErr{"vf_z_ediv by zero"}; return hnew(C.scale(x, 1 / y->cst())); } auto key = std::make_pair(x->id, y->id); auto it = fdivCache.find(key); int q; if (it != fdivCache.end()) q = it->second; else { q = C.newAtom(false, "fq" + std::to_string(C.atoms.size()), Bound()); fdivCache[key] = q; C.atoms[q]->ek = 6; C.atoms[q]->ex = x; C.atoms[q]->ey = y; C.atoms[q]->defs.push_back(C.eq0(C.sub(C.mul(C.var(q), y), x))); } return hnew(C.var(q)); });
  reg("vf_real", [](State &s, DI &, std::vector<Val> &a) { std::string n = cstr(s, (uint64_t)a[0].c); Q lo = parseQ(cstr(s, (uint64_t)a[1].c)), hi = parseQ(cstr(s, (uint64_t)a[2].c)); auto it = inputAtom.find(n); int at; if (it == inputAtom.end()) { at = C.newAtom(false, n, Bound::mk(lo, hi)); C.atoms[at]->isInput = true; inputAtom[n] = at; } else at = it->second; if (std::find(s.inputs.begin(), s.inputs.end(), at) == s.inputs.end()) s.inputs.push_back(at); return hnew(C.var(at)); });
  reg("vf_fresh", [](State &s, DI &, std::vector<Val> &a) { // unconstrained real in [lo, hi], same per (tag, argument)
    std::string n = cstr(s, (uint64_t)a[0].c); static std::map<std::pair<std::string, int>, int> cache; PP arg = hget(a[1]); auto k = std::make_pair(n, arg->id); auto it = cache.find(k); int at; if (it == cache.end()) { Q lo = hget(a[2])->cst(), hi = hget(a[3])->cst(); at = cache[k] = C.newAtom(false, n + std::to_string(C.atoms.size()), Bound::mk(lo, hi)); } else at = it->second; return hnew(C.var(at)); });
  reg("vf_z_cut", [](State &s, DI &, std::vector<Val> &a) { // forget how a real value was computed, keep its interval
    PP p = hget(a[0]); Bound b = interval(p, &s.facts); if (p->isConst()) return hnew(p); if (!b.lof || !b.hif) throw EngineErr{"cut of an unbounded value"}; auto rnd = [](const Q &q, bool up) { if (q == 0) return q; Q y = abs(q); long e = (long)mpz_sizeinbase(y.get_num_mpz_t(), 2) - (long)mpz_sizeinbase(y.get_den_mpz_t(), 2); Q m = q * pow2q((int)(40 - e)); return Q(Q(up ? ceilQ(m) : floorQ(m)) * pow2q((int)(e - 40))); };
    return hnew(C.var(C.newAtom(false, "cut" + std::to_string(C.atoms.size()), Bound::mk(rnd(b.lo, false), rnd(b.hi, true))))); });
  reg("vf_z_is_const", [](State &s, DI &, std::vector<Val> &a) { PP p = hget(a[0]); Bound b = interval(p, &s.facts); return Val::con(p->isConst() || (b.lof && b.hif && b.lo == b.hi), 1); });
  reg("vf_z_to_i", [](State &s, DI &, std::vector<Val> &a) { PP p = hget(a[0]); return mk(floorPoly(s, p), 64); });
  // floating point values
  auto mkd = [](int ty) { return [ty](State &s, DI &, std::vector<Val> &a) { PP m = sgn(s, a[0]); int e = (int)concS(s, a[1]); PP v = C.scale(m, pow2q(e)); if (v->isConst()) return mkFP(s, v, ty); return Val::fp(new FPV{v, ty}, ty); }; };
  reg("vf_make_f", mkd(32)); reg("vf_make_d", mkd(64));
  reg("vf_make_ld", [](State &s, DI &, std::vector<Val> &a) { PP m = uns(s, a[0]); int e = (int)concS(s, a[1]); PP v = C.scale(m, pow2q(e)); FP ng = simplify(asForm(s, a[2]), &s.facts); if (ng->k == F_TRUE) v = C.neg(v); else if (ng->k != F_FALSE) throw EngineErr{"vf_make_ld sign"}; if (v->isConst()) return mkFP(s, v, 80); return Val::fp(new FPV{v, 80}, 80); });
  reg("vf_z_d", [](State &s, DI &, std::vector<Val> &a) { return hnew(fpReal(s, a[0], 64)); }); reg("vf_z_ld", [](State &s, DI &, std::vector<Val> &a) { return hnew(fpReal(s, a[0], 80)); }); reg("vf_z_f", [](State &s, DI &, std::vector<Val> &a) { return hnew(fpReal(s, a[0], 32)); });
  reg("vf_d_z", [](State &s, DI &, std::vector<Val> &a) { return mkFP(s, hget(a[0]), 64); }); reg("vf_ld_z", [](State &s, DI &, std::vector<Val> &a) { return mkFP(s, hget(a[0]), 80); });
  reg("vf_fp_finite", [](State &s, DI &, std::vector<Val> &a) { if (a[0].k == VF) return Val::con(1, 1); double d = asD(a[0].c); return Val::con(std::isfinite(d), 1); });
  reg("vf_print", [](State &s, DI &, std::vector<Val> &a) { std::string n = cstr(s, (uint64_t)a[0].c); std::cerr << "PRINT " << n << " "; if (a[1].k == VC) std::cerr << (int64_t)a[1].c; else if (a[1].k == VP) std::cerr << polyStr(a[1].p); else if (a[1].k == VB) std::cerr << formStr(a[1].f); else if (a[1].k == VU) std::cerr << "undef"; std::cerr << "\n"; return Val(); });
  reg("vf_print_z", [](State &s, DI &, std::vector<Val> &a) { Bound b = interval(hget(a[1]), &s.facts); std::cerr << "PRINT " << cstr(s, (uint64_t)a[0].c) << " " << polyStr(hget(a[1])).substr(0, 2000) << " in [" << (b.lof ? b.lo.get_str() : "-inf") << "," << (b.hif ? b.hi.get_str() : "inf") << "]\n"; return Val(); });
}
