// ------------------------------------------------------------------ interpreter
static inline Val get(Frame &f, const Opd &o) { return o.slot >= 0 ? f.L[o.slot] : o.c; }
static void enterBlock(State &s, int from, int to) {
  Frame &f = s.st.back(); BB &bb = f.f->bb[to]; if (!bb.seen) cover(bb);
  if (!bb.phis.empty()) { Val tmp[64]; std::vector<Val> big; size_t n = bb.phis.size(); Val *t = tmp; if (n > 64) { big.resize(n); t = big.data(); } for (size_t i = 0; i < n; i++) { auto it = bb.phis[i].in.find(from); if (it == bb.phis[i].in.end()) throw EngineErr{"phi"}; t[i] = get(f, it->second); } for (size_t i = 0; i < n; i++) f.L[bb.phis[i].dst] = t[i]; }
  f.b = to; f.i = 0;
}
static void pushCall(State &s, DF *d, const std::vector<Val> &a) {
  if (!d->decoded) decode(d); if (s.st.size() > 400) throw PathEnd{2, "call depth exceeded"};
  d->calls++; s.st.emplace_back(); Frame &f = s.st.back(); f.f = d; f.L.resize(d->nslots); for (int i = 0; i < d->nargs && i < (int)a.size(); i++) f.L[i] = a[i]; f.b = 0; f.i = 0; if (!d->bb[0].seen) cover(d->bb[0]);
}
static void popFrame(State &s) { for (uint32_t id : s.st.back().al) s.mem.erase(id); s.st.pop_back(); }
static Val insertV(const Val &a, const std::vector<int> &ix, size_t k, const Val &v) { Agg *n = new Agg(*a.a); if (k + 1 == ix.size()) (*n)[ix[k]] = v; else (*n)[ix[k]] = insertV((*a.a)[ix[k]], ix, k + 1, v); return Val::agg(n); }
static Val truncV(State &s, const Val &v, unsigned w) {
  if (v.k == VC) return Val::con(v.c, w); if (v.k == VU) return Val::undef(w);
  if (v.k == VF) throw EngineErr{"trunc of symbolic fp bits"};
  if (w == 1) { PP p = asPoly(s, v); PP lo = normRange(s, p, 1, false); return Val::form(simplify(C.eq0(C.addc(lo, -1)), &s.facts)); }
  return mk(asPoly(s, v), w);
}
static bool undefBranch(FP f) { for (int a : f->atoms) if (C.atoms[a]->undef) return true; return false; }
static uint64_t undefBranches = 0; static std::set<std::string> undefWhere;
// executes one instruction; returns false when the path is complete
static bool step(State &s) {
  Frame &f = s.st.back(); BB &bb = f.f->bb[f.b]; if (f.i >= (int)bb.in.size()) throw EngineErr{"fell off a block"}; DI &I = bb.in[f.i];
  auto G = [&](int k) -> Val { return get(f, I.o[k]); };
  auto set = [&](const Val &v) { f.L[I.dst] = v; f.i++; };
  switch (I.op) {
  case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::And: case Instruction::Or: case Instruction::Xor: set(binInt(s, I.op, G(0), G(1), I.w, I.disjoint)); return true;
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: set(binFP(s, I.op, G(0), G(1), I.dstTy)); return true;
  case Instruction::FNeg: { Val a = G(0); if (a.k == VC) a.c ^= (u128)1 << (I.dstTy - 1); else if (a.k == VF) a = Val::fp(new FPV{C.neg(a.d->v), I.dstTy}, I.dstTy); set(a); return true; }
  case Instruction::ICmp: { Val a = G(0), b = G(1); if (a.k == VF || b.k == VF) throw EngineErr{"integer comparison of symbolic fp bits"}; FP r = icmp(s, I.pred, a, b); set(Val::form(simplify(r, &s.facts))); return true; }
  case Instruction::FCmp: set(Val::form(simplify(fcmpF(s, I.pred, G(0), G(1), I.srcTy), &s.facts))); return true;
  case Instruction::Trunc: set(truncV(s, G(0), I.w)); return true;
  case Instruction::ZExt: { Val a = G(0); if (a.k == VC) a = Val::con(a.c, I.w); else if (a.k == VU) a = Val::undef(I.w); else a = mk(uns(s, a), I.w); set(a); return true; }
  case Instruction::SExt: { Val a = G(0); if (a.k == VC) a = Val::con((u128)sx(a.c, a.w), I.w); else if (a.k == VU) a = Val::undef(I.w); else a = mk(sgn(s, a), I.w); set(a); return true; }
  case Instruction::PtrToInt: case Instruction::IntToPtr: { Val a = G(0); if (a.k == VC) a = Val::con(a.c, I.w); else if (a.k == VP) a = mk(a.w < I.w ? uns(s, a) : a.p, I.w); set(a); return true; }
  case Instruction::BitCast: { Val a = G(0); a.w = I.w; set(a); return true; }
  case Instruction::FPTrunc: case Instruction::FPExt: { Val a = G(0); if (a.k == VC) a = fromFP(asFP(a.c, I.srcTy), I.dstTy); else if (a.k == VF) a = I.op == Instruction::FPExt ? Val::fp(new FPV{a.d->v, I.dstTy}, I.dstTy) : mkFP(s, a.d->v, I.dstTy); else a = Val::undef(I.dstTy); set(a); return true; }
  case Instruction::UIToFP: case Instruction::SIToFP: { Val a = G(0); bool sg = I.op == Instruction::SIToFP; if (a.k == VC) { if (I.dstTy == 64) { double d = sg ? (double)sx(a.c, a.w) : (double)a.c; set(fromFP(d, 64)); } else if (I.dstTy == 32) { float d = sg ? (float)sx(a.c, a.w) : (float)a.c; set(fromFP(d, 32)); } else { long double d = sg ? (long double)sx(a.c, a.w) : (long double)a.c; set(fromFP(d, 80)); } } else if (a.k == VU) set(Val::undef(I.dstTy)); else set(mkFP(s, sg ? sgn(s, a) : uns(s, a), I.dstTy)); return true; }
  case Instruction::FPToUI: case Instruction::FPToSI: { Val a = G(0); bool sg = I.op == Instruction::FPToSI; if (a.k == VU) { set(Val::undef(I.w)); return true; } if (a.k == VC) { long double x = asFP(a.c, I.srcTy); if (std::isnan(x) || std::isinf(x) || fabsl(x) > 1e38L) { set(sg ? Val::con((u128)1 << (I.w - 1), I.w) : Val::con((u128)1 << (I.w - 1), I.w)); } else { i128 v = (i128)x; set(Val::con((u128)v, I.w)); } return true; } PP p = truncPoly(s, a.d->v); set(mk(p, I.w)); return true; }
  case Instruction::Freeze: { Val a = G(0); if (a.k == VU) a = I.fpt ? Val::con(0, I.w) : mk(asPoly(s, a), I.w); set(a); return true; }
  case Instruction::Select: {
    Val c = G(0); if (c.k == VU) c = Val::form(C.eq0(C.addc(asPoly(s, c), -1))); Val a = G(1), b = G(2); FP cf = simplify(asForm(s, c), &s.facts);
    if (cf->k == F_TRUE) { set(a); return true; } if (cf->k == F_FALSE) { set(b); return true; }
    if (a.k == VC && b.k == VC && a.c == b.c) { set(a); return true; }
    if (a.k == VU && b.k == VU) { set(a); return true; } if (a.k == VU && b.k != VA) { set(b); return true; } if (b.k == VU && a.k != VA) { set(a); return true; }
    if (a.k == VA || b.k == VA) { bool t = decide(s, cf); set(t ? a : b); return true; }
    if (I.fpt) { bool sp = false; for (auto *v : {&a, &b}) if (v->k == VC) { long double x = asFP(v->c, I.dstTy); sp |= std::isnan(x) || std::isinf(x); } if (sp) { bool t = decide(s, cf); set(t ? a : b); return true; } PP r = iteP(s, cf, fpReal(s, a, I.dstTy), fpReal(s, b, I.dstTy)); if (r->isConst()) set(mkFP(s, r, I.dstTy)); else set(Val::fp(new FPV{r, I.dstTy}, I.dstTy)); return true; }
    if (a.k == VF || b.k == VF) { bool t = decide(s, cf); set(t ? a : b); return true; }
    if (I.w == 1) { set(Val::form(simplify(C.Ite(cf, asForm(s, a), asForm(s, b)), &s.facts))); return true; }
    // choose the interpretation with the smaller spread
    PP x, y; Q h = pow2q(I.w - 1); PP xp = asPoly(s, a), yp = asPoly(s, b); if (a.k == VP && within(xp, -h, h - 1, &s.facts)) { x = xp; y = sgn(s, b); } else if (b.k == VP && within(yp, -h, h - 1, &s.facts)) { x = sgn(s, a); y = yp; } else { x = sgn(s, a); y = sgn(s, b); }
    set(mk(iteP(s, cf, x, y), I.w)); return true; }
  case Instruction::GetElementPtr: {
    Val p = G(0); bool conc = p.k == VC; u128 acc = p.c + (u128)(i128)I.off; PP sp = nullptr;
    for (size_t k = 0; k < I.sc.size(); k++) { Val ix = G((int)k + 1); if (ix.k == VC) acc += (u128)(sx(ix.c, ix.w) * (i128)I.sc[k]); else if (ix.k == VU) { set(Val::undef(64)); return true; } else { PP q = C.scale(ix.w < 64 ? sgn(s, ix) : asPoly(s, ix), Q(Z((long)I.sc[k]))); sp = sp ? C.add(sp, q) : q; } }
    if (p.k == VU) { set(Val::undef(64)); return true; }
    if (conc && !sp) set(Val::con(acc, 64)); else { if (!conc) { acc -= p.c; } PP base = conc ? C.cst(Q(zFromU128(acc & maskW(64)))) : C.addc(asPoly(s, p), Q(Z(zFromU128(acc & maskW(64))))); set(mk(sp ? C.add(base, sp) : base, 64)); }
    return true; }
  case Instruction::Load: { Val a = G(0); if (a.k == VU) throw PathEnd{2, "memory: read through an uninitialised pointer"}; uint64_t ad = (uint64_t)concU(s, a); set(loadVal(s, ad, I.size, I.w, I.fpt)); return true; }
  case Instruction::Store: { Val a = G(1); if (a.k == VU) throw PathEnd{2, "memory: write through an uninitialised pointer"}; uint64_t ad = (uint64_t)concU(s, a); storeVal(s, ad, I.size, G(0)); f.i++; return true; }
  case Instruction::Alloca: { u128 n = concU(s, G(0)); uint32_t id = newObj(s, (uint32_t)(I.size * n), 1, "alloca"); f.al.push_back(id); set(Val::con(baseOf(id), 64)); return true; }
  case Instruction::ExtractValue: { Val a = G(0); for (int k : I.blk) { if (a.k != VA) throw EngineErr{"extractvalue"}; a = (*a.a)[k]; } set(a); return true; }
  case Instruction::InsertValue: set(insertV(G(0), I.blk, 0, G(1))); return true;
  case Instruction::Br: {
    if (I.o.empty()) { enterBlock(s, f.b, I.blk[0]); return true; }
    Val c = G(0); if (c.k == VU) { c = Val::form(C.eq0(C.addc(asPoly(s, c), -1))); } FP cf = simplify(asForm(s, c), &s.facts);
    if (cf->k != F_TRUE && cf->k != F_FALSE) { if (undefBranch(cf)) { undefBranches++; s.flags["undef"] = 1; if (undefWhere.size() < 10) undefWhere.insert(f.f->dem.substr(0, 120)); } throw ForkReq{{cf, C.Not(cf)}}; }
    enterBlock(s, f.b, cf->k == F_TRUE ? I.blk[0] : I.blk[1]); return true; }
  case Instruction::Switch: {
    Val c = G(0); if (c.k == VU) c = mk(asPoly(s, c), c.w); if (c.k == VB) { c = mk(bitOf(s, c.f), 1); }
    if (c.k == VC) { int t = I.blk[0]; for (size_t k = 0; k < I.cases.size(); k++) if (I.cases[k] == c.c) { t = I.blk[k + 1]; break; } enterBlock(s, f.b, t); return true; }
    PP p = uns(s, c); Bound b = interval(p, &s.facts); if (b.lof && b.hif && b.lo == b.hi) { u128 v = u128FromZ(floorQ(b.lo)); int t = I.blk[0]; for (size_t k = 0; k < I.cases.size(); k++) if (I.cases[k] == v) { t = I.blk[k + 1]; break; } enterBlock(s, f.b, t); return true; }
    // group cases by target so that equal targets do not fork
    std::map<int, std::vector<FP>> by; std::vector<FP> none; for (size_t k = 0; k < I.cases.size(); k++) { FP e = C.eq0(C.addc(p, -Q(zFromU128(I.cases[k])))); e = simplify(e, &s.facts); if (e->k == F_TRUE) { enterBlock(s, f.b, I.blk[k + 1]); return true; } none.push_back(C.Not(e)); if (e->k != F_FALSE) by[I.blk[k + 1]].push_back(e); }
    FP d = simplify(C.And(none), &s.facts); for (auto it = by.begin(); it != by.end(); ++it) { FP o = C.Or(it->second); bool holds = false; for (auto *x : s.pc) if (x == o) holds = true; if (holds) { enterBlock(s, f.b, it->first); return true; } }
    { bool allPc = d->k == F_TRUE; if (!allPc) { std::vector<FP> parts = d->k == F_AND ? d->ch : std::vector<FP>{d}; allPc = true; for (auto *q : parts) if (std::find(s.pc.begin(), s.pc.end(), q) == s.pc.end()) { allPc = false; break; } } if (allPc) { enterBlock(s, f.b, I.blk[0]); return true; } }
    ForkReq r; for (auto &k : by) r.alts.push_back(C.Or(k.second)); r.alts.push_back(d); throw r; }
  case Instruction::Ret: {
    Val rv; bool has = !I.o.empty(); if (has) rv = G(0); popFrame(s); if (s.st.empty()) return false;
    Frame &g = s.st.back(); if (g.f == nullptr) return false; DI &ci = g.f->bb[g.b].in[g.i]; if (ci.dst >= 0) g.L[ci.dst] = rv; if (ci.op == Instruction::Invoke) enterBlock(s, g.b, ci.blk[0]); else g.i++; return true; }
  case Instruction::Call: case Instruction::Invoke: {
    std::vector<Val> a; a.reserve(I.o.size()); for (size_t k = 0; k < I.o.size(); k++) a.push_back(get(f, I.o[k]));
    if (I.bi >= 0) { Val r = bis[I.bi](s, I, a); Frame &g = s.st.back(); if (I.dst >= 0) { if (r.k == VC && r.w != I.w && I.w) r = Val::con(r.c, I.w); g.L[I.dst] = r; } if (I.op == Instruction::Invoke) enterBlock(s, g.b, I.blk[0]); else g.i++; return true; }
    DF *t = I.callee; if (I.bi == -3) throw EngineErr{"inline asm"};
    if (!t) { Val fp = a.back(); a.pop_back(); uint64_t ad = (uint64_t)concU(s, fp); auto it = fnByAddr.find(ad); if (it == fnByAddr.end()) throw PathEnd{2, "memory: call through an invalid function pointer"}; t = it->second; auto ov = overrides.find(t->dem); if (ov != overrides.end()) t = dfs[M->getFunction(ov->second)]; int bi = builtinOf(t->name); if (bi >= 0) { Val r = bis[bi](s, I, a); if (I.dst >= 0) f.L[I.dst] = r; if (I.op == Instruction::Invoke) enterBlock(s, f.b, I.blk[0]); else f.i++; return true; } }
    if (t->F->isDeclaration()) throw EngineErr{"call to undefined function " + t->dem};
    pushCall(s, t, a); return true; }
  case Instruction::Unreachable: throw PathEnd{2, "unreachable code reached"};
  case Instruction::Resume: throw PathEnd{2, "exception propagated"};
  case Instruction::Fence: f.i++; return true;
  case Instruction::AtomicRMW: { auto *R = cast<AtomicRMWInst>(I.I); uint64_t ad = (uint64_t)concU(s, G(0)); Val v = G(1); uint32_t n = (uint32_t)DL->getTypeStoreSize(R->getValOperand()->getType()); Val o = loadVal(s, ad, n, I.w, false), r; switch (R->getOperation()) { case AtomicRMWInst::Add: r = binInt(s, Instruction::Add, o, v, I.w, false); break; case AtomicRMWInst::Sub: r = binInt(s, Instruction::Sub, o, v, I.w, false); break; case AtomicRMWInst::Xchg: r = v; break; default: throw EngineErr{"atomicrmw"}; } storeVal(s, ad, n, r); set(o); return true; }
  default: { std::string str; raw_string_ostream os(str); I.I->print(os); throw EngineErr{"unsupported instruction in " + f.f->dem.substr(0, 100) + ": " + str.substr(0, 200)}; }
  }
}
static std::string jstr(const std::string &s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static void endPath(State &s, int kind, const std::string &why) {
  nInstr += s.instrs; static const char *kn[] = {"normal", "assume", "event", "throw", "limit"}; 
  if (kind == 1) { endCnt[kn[kind]]++; return; }
  nPaths++; endCnt[kn[kind]]++; for (auto &r : s.reach) reachCnt[r]++;
  if (kind == 2) { recordViol(s, "event", why, {}, false); return; }
  if (kind == 4) { nInconcl++; if (inconcl.size() < 20) inconcl.push_back(why); return; }
  if ((kind == 0) && (int)samples.size() < optSamples && !s.obs.empty() && sampleTried < (uint64_t)optSamples * 4) {
    // spread the samples over the exploration
    if ((nPaths & (nPaths - 1)) == 0 || nPaths % 37 == 0) { sampleTried++; Model m; bool ex = true; if (randomModel(s, {}, m, 60) || (modelFor(s.pc, {}, &s.facts, 5000, m, ex) == R_SAT && ex)) {
      // complete the model for atoms of the observations through their definitions
      Sample sm; for (int a : s.inputs) { auto it = m.v.find(a); Bound b = atomBound(a, &s.facts); Q v = it != m.v.end() ? it->second : (b.lof && b.hif) ? Q(floorQ((b.lo + b.hi) / 2)) : Q(0); m.v[a] = v; sm.in[C.atoms[a]->name] = v; }
      for (auto &o : s.obs) { bool o2 = evalAtoms(o.second, m); Q v; if (o2) v = evalPoly(o.second, m, o2); sm.obs.push_back({o.first, o2 ? v.get_str() : std::string("?")}); }
      if (!sm.obs.empty()) samples.push_back(sm); } }
  }
}
static void explore(State init) {
  std::vector<State> work; work.push_back(std::move(init)); double t0 = now();
  while (!work.empty()) {
    if (nPaths >= optMaxPaths || now() - t0 > optDeadline) { nInconcl += work.size(); inconcl.push_back(nPaths >= optMaxPaths ? "path limit reached" : "time limit reached"); break; }
    State s = std::move(work.back()); work.pop_back(); uint64_t chkT = 0;
    for (;;) {
      try {
        for (;;) { s.instrs++; if ((s.instrs & 0xfffff) == 0 && now() - t0 > optDeadline) throw PathEnd{4, "time limit reached"}; if (s.instrs > optMaxInstr) throw PathEnd{4, "instruction limit on a path"}; if (!step(s)) throw PathEnd{0, ""}; }
      } catch (ForkReq &r) {
        s.instrs--; nForks++; std::vector<FP> ok; if (now() - t0 > optDeadline) { endPath(s, 4, "time limit reached"); break; }
        if (optTrace) { std::cerr << "FORK " << s.st.back().f->dem.substr(0, 60) << " depth " << s.depth << " pc " << s.pc.size() << " :"; for (auto *a : r.alts) std::cerr << " | " << formStr(a).substr(0, 150); std::cerr << "\n"; }
        for (size_t i = 0; i < r.alts.size(); i++) { if (i + 1 == r.alts.size() && ok.empty()) { FP g = simplify(r.alts[i], &s.facts); if (g->k != F_FALSE) ok.push_back(r.alts[i]); } else if (feasible(s, r.alts[i])) ok.push_back(r.alts[i]); }
        if (ok.empty()) { endPath(s, 1, "infeasible"); break; }
        s.depth += ok.size() > 1; bool dead = false;
        for (size_t i = 1; i < ok.size(); i++) { State c = s; c.instrs = 0; if (assume(c, ok[i])) work.push_back(std::move(c)); }
        if (!assume(s, ok[0])) dead = true; if (dead) break; (void)chkT; continue;
      } catch (PathEnd &e) { endPath(s, e.kind, e.why); break; }
      catch (EngineErr &e) { // a construct the encoding lacks, met on a path that no input reaches, is no loss: the sliced feasibility queries may have let such a path through
        Model m; bool ex = false; if (modelFor(s.pc, {}, &s.facts, optAssert, m, ex) != R_UNSAT) throw; endPath(s, 1, "infeasible"); break; }
    }
    int nv = 0; for (auto &v : violCnt) nv += v.second > 0; (void)nv; uint64_t tot = 0; for (auto &v : violCnt) tot += v.second; if (tot >= 40) { inconcl.push_back("stopped after 40 violating paths"); break; }
  }
}
static void writeJson(const std::string &out, const std::string &err, double wall) {
  std::ofstream o(out); o << "{\n\"entry\": " << jstr(entryName) << ", \"params\": ["; for (size_t i = 0; i < params.size(); i++) o << (i ? "," : "") << params[i]; o << "],\n";
  o << "\"error\": " << (err.empty() ? "null" : jstr(err)) << ",\n\"paths\": " << nPaths << ", \"instructions\": " << nInstr << ", \"forks\": " << nForks << ", \"asserts\": " << nAsserts << ", \"asserts_by_solver\": " << nAssertSolved << ",\n";
  o << "\"queries\": " << ST.queries << ", \"cached\": " << ST.cached << ", \"sat\": " << ST.sat << ", \"unsat\": " << ST.unsat << ", \"unknown\": " << ST.unk << ", \"by_interval\": " << ST.quick << ", \"solver_s\": " << ST.t << ", \"max_query_s\": " << ST.maxT << ", \"wall_s\": " << wall << ",\n";
  o << "\"inconclusive\": " << nInconcl << ", \"inconclusive_why\": ["; for (size_t i = 0; i < inconcl.size(); i++) o << (i ? "," : "") << jstr(inconcl[i]); o << "],\n\"ends\": {"; bool first = true; for (auto &k : endCnt) { o << (first ? "" : ",") << jstr(k.first) << ":" << k.second; first = false; } o << "},\n\"reach\": {"; first = true; for (auto &k : reachCnt) { o << (first ? "" : ",") << jstr(k.first) << ":" << k.second; first = false; }
  o << "},\n\"assert_stat\": {"; first = true; for (auto &k : assertStat) { o << (first ? "" : ",") << jstr(k.first) << ":[" << k.second.first << "," << k.second.second << "]"; first = false; }
  o << "},\n\"undef_branches\": " << undefBranches << ", \"undef_where\": ["; first = true; for (auto &k : undefWhere) { o << (first ? "" : ",") << jstr(k); first = false; }
  o << "],\n\"functions\": ["; first = true; for (auto &k : coveredFns) { o << (first ? "" : ",") << jstr(k); first = false; } o << "],\n\"lines\": {"; first = true; for (auto &k : coveredLines) { o << (first ? "" : ",") << jstr(k.first) << ":" << k.second.size(); first = false; }
  o << "},\n\"violation_counts\": {"; first = true; for (auto &k : violCnt) { o << (first ? "" : ",") << jstr(k.first) << ":" << k.second; first = false; } o << "},\n\"violations\": ["; first = true;
  for (auto &v : viols) { o << (first ? "" : ",") << "\n{\"kind\": " << jstr(v.kind) << ", \"msg\": " << jstr(v.msg) << ", \"exact\": " << (v.exact ? "true" : "false") << ", \"solver_sat\": " << (v.solverSat ? "true" : "false") << ", \"where\": " << jstr(v.where) << ", \"inputs\": {"; bool g = true; for (auto &k : v.in) { o << (g ? "" : ",") << jstr(k.first) << ":" << jstr(k.second.get_str()); g = false; } o << "}}"; first = false; }
  o << "],\n\"samples\": ["; first = true; for (auto &v : samples) { o << (first ? "" : ",") << "\n{\"inputs\": {"; bool g = true; for (auto &k : v.in) { o << (g ? "" : ",") << jstr(k.first) << ":" << jstr(k.second.get_str()); g = false; } o << "}, \"obs\": ["; g = true; for (auto &k : v.obs) { o << (g ? "" : ",") << "[" << jstr(k.first) << "," << jstr(k.second) << "]"; g = false; } o << "]}"; first = false; } o << "]\n}\n";
}
int main(int argc, char **argv) {
  std::string bc, out = "/dev/stdout"; double t0 = now();
  struct rlimit rl; rl.rlim_cur = rl.rlim_max = (rlim_t)1 << 30; setrlimit(RLIMIT_STACK, &rl);
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") entryName = nx(); else if (a == "--param") params.push_back(std::stoll(nx())); else if (a == "--out") out = nx(); else if (a == "--max-paths") optMaxPaths = std::stoull(nx()); else if (a == "--max-instr") optMaxInstr = std::stoull(nx()); else if (a == "--deadline") optDeadline = std::stod(nx()); else if (a == "--feas") optFeas = std::stoul(nx()); else if (a == "--assert-timeout") optAssert = std::stoul(nx()); else if (a == "--samples") optSamples = std::stoi(nx()); else if (a == "--seed") { rngS ^= std::stoull(nx()) * 0x9E3779B97F4A7C15ull; if (!rngS) rngS = 1; } else if (a == "--trace") optTrace = true; else if (a == "--verbose") OPT_VERBOSE = true; else if (a == "--dump") { OPT_DUMP = true; OPT_DUMPDIR = nx(); } else if (a == "--override") { std::string o = nx(); size_t p = o.find("=>"); overrides[o.substr(0, p)] = o.substr(p + 2); } else bc = a; }
  std::string err;
  try {
    SMDiagnostic d; M = parseIRFile(bc, d, Ctx); if (!M) { std::cerr << "cannot read " << bc << ": " << d.getMessage().str() << "\n"; return 3; } DL = &M->getDataLayout(); regAll();
    uint32_t id = 1; for (auto &F : *M) { DF *x = new DF; x->F = &F; x->name = F.getName().str(); x->dem = demangle(x->name); x->addr = baseOf(id); auto o = std::make_shared<Obj>(); o->size = 1; o->kind = 3; o->name = x->name; o->b.resize(1); o->st.resize(1); gmem[id++] = o; dfs[&F] = x; fnByAddr[x->addr] = x; }
    for (auto &Gv : M->globals()) { gaddr[&Gv] = baseOf(id++); }
    for (auto &Gv : M->globals()) { uint32_t gi = (uint32_t)(gaddr[&Gv] >> RES) - 1; auto o = std::make_shared<Obj>(); o->size = (uint32_t)DL->getTypeAllocSize(Gv.getValueType()); o->name = Gv.getName().str(); if (o->name.size() > 60) o->name.resize(60); o->ro = Gv.isConstant(); o->b.resize(o->size); o->st.resize(o->size); if (Gv.hasInitializer()) { if (Gv.getName() != "llvm.global_ctors" && Gv.getName() != "llvm.used" && Gv.getName() != "llvm.compiler.used") initBytes(*o, 0, Gv.getInitializer()); } else { std::fill(o->st.begin(), o->st.end(), 1); } gmem[gi] = o; }
    State s; s.nextId = id; Function *E = M->getFunction(entryName); if (!E) { std::cerr << "no entry " << entryName << "\n"; return 3; }
    auto runConc = [&](Function *F) { pushCall(s, dfs[F], {}); try { while (step(s)) {} } catch (ForkReq &) { throw EngineErr{"fork in a global constructor"}; } catch (PathEnd &e) { throw EngineErr{"global constructor ended: " + e.why}; } };
    if (auto *GC = M->getGlobalVariable("llvm.global_ctors")) if (GC->hasInitializer()) if (auto *A = dyn_cast<ConstantArray>(GC->getInitializer())) { std::vector<std::pair<uint64_t, Function *>> cs; for (auto &Op : A->operands()) { auto *S = cast<ConstantStruct>(Op); if (auto *F = dyn_cast<Function>(S->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(S->getOperand(0))->getZExtValue(), F}); } std::stable_sort(cs.begin(), cs.end(), [](auto &a, auto &b) { return a.first < b.first; }); for (auto &c : cs) runConc(c.second); }
    s.liveHeap = 0; pushCall(s, dfs[E], {}); explore(std::move(s));
  } catch (EngineErr &e) { err = e.msg; } catch (z3::exception &e) { err = std::string("z3: ") + e.msg(); } catch (ForkReq &) { err = "fork outside the interpreter"; } catch (PathEnd &e) { err = "path end outside the interpreter: " + e.why; }
  writeJson(out, err, now() - t0); if (!err.empty()) std::cerr << "ENGINE ERROR: " << err << "\n"; _exit(err.empty() ? 0 : 2);
}
