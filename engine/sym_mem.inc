// ------------------------------------------------------------------ memory
static Obj *findObj(State &s, uint64_t addr, uint32_t &off) {
  uint64_t id1 = addr >> RES; if (id1 == 0) return nullptr; uint32_t id = (uint32_t)(id1 - 1); off = (uint32_t)(addr & ((1u << RES) - 1));
  auto it = s.mem.find(id); if (it != s.mem.end()) return it->second.get(); auto g = gmem.find(id); if (g != gmem.end()) return g->second.get(); return nullptr;
}
static Obj *writable(State &s, uint64_t addr, uint32_t &off) {
  uint64_t id1 = addr >> RES; if (id1 == 0) return nullptr; uint32_t id = (uint32_t)(id1 - 1); off = (uint32_t)(addr & ((1u << RES) - 1));
  auto it = s.mem.find(id);
  if (it == s.mem.end()) { auto g = gmem.find(id); if (g == gmem.end()) return nullptr; it = s.mem.emplace(id, std::make_shared<Obj>(*g->second)).first; }
  else if (it->second.use_count() > 1) it->second = std::make_shared<Obj>(*it->second);
  return it->second.get();
}
static void memErr(State &s, const std::string &w, uint64_t addr, uint64_t n, Obj *o) {
  std::ostringstream m; m << "memory: " << w << " of " << n << " bytes"; if (o) m << " at offset " << (addr & ((1u << RES) - 1)) << " of " << (o->kind == 0 ? "global " : o->kind == 1 ? "stack " : o->kind == 2 ? "heap " : "function ") << o->name << " (" << o->size << " bytes" << (o->freed ? ", freed" : "") << ")"; else m << " at an invalid address"; throw PathEnd{2, m.str()};
}
static Obj *chk(State &s, uint64_t addr, uint64_t n, bool wr, uint32_t &off) {
  Obj *o = wr ? writable(s, addr, off) : findObj(s, addr, off); const char *w = wr ? "write" : "read";
  if (!o) { memErr(s, w, addr, n, nullptr); } if (o->freed || o->kind == 3 || (uint64_t)off + n > o->size || (wr && o->ro)) memErr(s, w, addr, n, o); return o;
}
static uint32_t newObj(State &s, uint32_t size, uint8_t kind, const std::string &name) {
  if (size >= (1u << RES)) throw EngineErr{"object too large"};
  auto o = std::make_shared<Obj>(); o->size = size; o->kind = kind; o->b.resize(size); o->st.resize(size); o->name = name; uint32_t id = s.nextId++; s.mem[id] = o; return id;
}
static PP bytesOf(State &s, const Cell &c, uint32_t from, uint32_t n) { // unsigned value of bytes [from, from+n) of a cell
  Val v = c.v; if (v.k == VF) throw EngineErr{"partial access to a symbolic floating-point cell"}; if (v.k == VU) return asPoly(s, Val::undef(n * 8));
  Val t = v; PP p; if (from == 0 && n * 8 >= v.w) p = uns(s, v);
  else { unsigned hi = (from + n) * 8; if (hi < v.w) { t.w = hi; if (t.k == VC) t.c &= maskW(hi); } p = uns(s, t); if (from) p = mkQuot(p, pow2z(from * 8), &s.facts); }
  return p;
}
static void splitAt(State &s, Obj *o, uint32_t off) { // make sure no cell straddles off
  auto it = o->cells.upper_bound(off); if (it == o->cells.begin()) return; --it; if (it->first >= off || it->first + it->second.size <= off) return;
  uint32_t b = it->first; Cell c = it->second; uint32_t k = off - b; PP lo = bytesOf(s, c, 0, k), hi = bytesOf(s, c, k, c.size - k);
  o->cells.erase(it); o->cells[b] = Cell{mk(lo, k * 8), k}; o->cells[off] = Cell{mk(hi, (c.size - k) * 8), c.size - k};
}
static void clearRange(State &s, Obj *o, uint32_t off, uint32_t n) {
  if (o->cells.empty() || n == 0) return; splitAt(s, o, off); splitAt(s, o, off + n);
  auto it = o->cells.lower_bound(off); while (it != o->cells.end() && it->first < off + n) it = o->cells.erase(it);
}
static Val loadVal(State &s, uint64_t addr, uint32_t n, unsigned w, bool isFP) {
  uint32_t off; Obj *o = chk(s, addr, n, false, off); uint8_t *st = o->st.data() + off;
  bool allC = true, allU = true; for (uint32_t i = 0; i < n; i++) { allC &= st[i] == 1; allU &= st[i] == 0; }
  if (allC) { u128 c = 0; for (uint32_t i = 0; i < n && i < 16; i++) c |= (u128)o->b[off + i] << (8 * i); return Val::con(c, w); }
  if (allU) return Val::undef(w);
  auto it = o->cells.find(off);
  if (it != o->cells.end() && it->second.size == n) { Val v = it->second.v; if (v.k == VF) return v; if (isFP) throw EngineErr{"symbolic integer bits read as floating point"}; if (v.w == w) return v; if (w < v.w) { v.w = w; if (v.k == VC) v.c &= maskW(w); if (v.k == VP) return mk(w == 1 ? uns(s, v) : v.p, w); return v; } return mk(uns(s, v), w); }
  if (n > 16) throw EngineErr{"wide mixed load"};
  PP r = C.P0; uint32_t i = 0;
  while (i < n) {
    if (st[i] == 1) { uint32_t j = i; Z c = 0; while (j < n && st[j] == 1) { c += Z((unsigned long)o->b[off + j]) * pow2z(8 * (j - i)); j++; } r = C.addc(r, Q(Z(c * pow2z(8 * i)))); i = j; }
    else if (st[i] == 0) { r = C.lin(r, 1, asPoly(s, Val::undef(8)), pow2q(8 * i)); i++; }
    else { auto c = o->cells.upper_bound(off + i); --c; uint32_t from = off + i - c->first, m = std::min(c->second.size - from, n - i); r = C.lin(r, 1, bytesOf(s, c->second, from, m), pow2q(8 * i)); i += m; }
  }
  if (isFP) throw EngineErr{"mixed bytes read as floating point"};
  return mk(r, w);
}
static void storeVal(State &s, uint64_t addr, uint32_t n, Val v) {
  uint32_t off; Obj *o = chk(s, addr, n, true, off); clearRange(s, o, off, n);
  if (v.k == VC) { for (uint32_t i = 0; i < n; i++) { o->b[off + i] = (uint8_t)(v.c >> (8 * i)); o->st[off + i] = 1; } return; }
  if (v.k == VU) { memset(o->st.data() + off, 0, n); return; }
  if (v.k == VB) { PP p = bitOf(s, v.f); v = mk(p, 8); if (v.k == VC) { storeVal(s, addr, n, v); return; } }
  if (v.k == VP && v.w < n * 8) { v = mk(uns(s, v), n * 8); if (v.k == VC) { storeVal(s, addr, n, v); return; } }
  if (v.k == VP && within(v.p, -pow2q(64), pow2q(64), nullptr) == false) { v = mk(uns(s, v), v.w); if (v.k == VC) { storeVal(s, addr, n, v); return; } }
  memset(o->st.data() + off, 2, n); o->cells[off] = Cell{v, n};
}
static void copyMem(State &s, uint64_t d, uint64_t sr, uint32_t n) {
  if (!n) return; uint32_t so, dO; Obj *a = chk(s, sr, n, false, so); 
  std::vector<uint8_t> b(a->b.begin() + so, a->b.begin() + so + n), st(a->st.begin() + so, a->st.begin() + so + n); std::vector<std::pair<uint32_t, Cell>> cells;
  if (!a->cells.empty()) {
    auto it = a->cells.upper_bound(so); if (it != a->cells.begin()) --it;
    for (; it != a->cells.end() && it->first < so + n; ++it) {
      uint32_t lo = std::max(it->first, so), hi = std::min(it->first + it->second.size, so + n); if (lo >= hi) continue;
      if (lo == it->first && hi == it->first + it->second.size) cells.push_back({lo - so, it->second});
      else { Cell c; c.size = hi - lo; c.v = mk(bytesOf(s, it->second, lo - it->first, hi - lo), (hi - lo) * 8); cells.push_back({lo - so, c}); }
    }
  }
  Obj *o = chk(s, d, n, true, dO); clearRange(s, o, dO, n);
  memcpy(o->b.data() + dO, b.data(), n); memcpy(o->st.data() + dO, st.data(), n);
  for (auto &c : cells) { if (c.second.v.k == VC) { for (uint32_t i = 0; i < c.second.size; i++) { o->b[dO + c.first + i] = (uint8_t)(c.second.v.c >> (8 * i)); o->st[dO + c.first + i] = 1; } } else o->cells[dO + c.first] = c.second; }
}
static std::string cstr(State &s, uint64_t a) { std::string r; for (;;) { Val v = loadVal(s, a++, 1, 8, false); if (v.k != VC) throw EngineErr{"symbolic C string in an intrinsic"}; if (!v.c) return r; r += (char)v.c; if (r.size() > 100000) throw EngineErr{"long string"}; } }

// ------------------------------------------------------------------ constants and decoding
static uint64_t fnAddr(const Function *F) { auto it = dfs.find(F); return it->second->addr; }
static Val constVal(const Constant *K);
static void initBytes(Obj &o, uint32_t off, const Constant *K) {
  Type *T = K->getType(); uint32_t n = (uint32_t)DL->getTypeAllocSize(T);
  if (isa<UndefValue>(K)) return;
  if (isa<ConstantAggregateZero>(K)) { for (uint32_t i = 0; i < n; i++) { o.b[off + i] = 0; o.st[off + i] = 1; } return; }
  if (auto *A = dyn_cast<ConstantDataSequential>(K)) { uint32_t es = (uint32_t)DL->getTypeAllocSize(A->getElementType()); for (unsigned i = 0; i < A->getNumElements(); i++) initBytes(o, off + i * es, A->getElementAsConstant(i)); return; }
  if (auto *A = dyn_cast<ConstantArray>(K)) { uint32_t es = (uint32_t)DL->getTypeAllocSize(A->getType()->getElementType()); for (unsigned i = 0; i < A->getNumOperands(); i++) initBytes(o, off + i * es, A->getOperand(i)); return; }
  if (auto *A = dyn_cast<ConstantStruct>(K)) { for (uint32_t i = 0; i < n; i++) { o.b[off + i] = 0; o.st[off + i] = 1; } auto *L = DL->getStructLayout(A->getType()); for (unsigned i = 0; i < A->getNumOperands(); i++) initBytes(o, off + (uint32_t)L->getElementOffset(i), A->getOperand(i)); return; }
  Val v = constVal(K); uint32_t sz = (uint32_t)DL->getTypeStoreSize(T); if (v.k != VC) throw EngineErr{"global initialiser"}; for (uint32_t i = 0; i < sz; i++) { o.b[off + i] = i < 16 ? (uint8_t)(v.c >> (8 * i)) : 0; o.st[off + i] = 1; }
}
static u128 apTo(const APInt &a) { u128 r = a.getRawData()[0]; if (a.getNumWords() > 1) r |= (u128)a.getRawData()[1] << 64; return r; }
static Val constVal(const Constant *K) {
  Type *T = K->getType();
  if (auto *I = dyn_cast<ConstantInt>(K)) return Val::con(apTo(I->getValue()), I->getBitWidth());
  if (auto *F = dyn_cast<ConstantFP>(K)) { APInt a = F->getValueAPF().bitcastToAPInt(); return Val::con(apTo(a), tyW(T)); }
  if (isa<ConstantPointerNull>(K)) return Val::con(0, 64);
  if (auto *F = dyn_cast<Function>(K)) return Val::con(fnAddr(F), 64);
  if (auto *G = dyn_cast<GlobalVariable>(K)) { auto it = gaddr.find(G); if (it == gaddr.end()) throw EngineErr{"global " + G->getName().str()}; return Val::con(it->second, 64); }
  if (auto *A = dyn_cast<GlobalAlias>(K)) return constVal(A->getAliasee());
  if (isa<UndefValue>(K)) { if (T->isAggregateType()) { auto *a = new Agg; unsigned n = T->isStructTy() ? T->getStructNumElements() : (unsigned)T->getArrayNumElements(); for (unsigned i = 0; i < n; i++) a->push_back(constVal(UndefValue::get(T->isStructTy() ? T->getStructElementType(i) : T->getArrayElementType()))); return Val::agg(a); } return Val::undef(tyW(T)); }
  if (T->isAggregateType()) { auto *a = new Agg; unsigned n = T->isStructTy() ? T->getStructNumElements() : (unsigned)T->getArrayNumElements(); for (unsigned i = 0; i < n; i++) a->push_back(constVal(K->getAggregateElement(i))); return Val::agg(a); }
  if (auto *E = dyn_cast<ConstantExpr>(K)) {
    switch (E->getOpcode()) {
    case Instruction::GetElementPtr: { auto *G = cast<GEPOperator>(E); APInt off(64, 0); if (!G->accumulateConstantOffset(*DL, off)) throw EngineErr{"constant gep"}; Val b = constVal(cast<Constant>(G->getPointerOperand())); return Val::con(b.c + (u128)off.getSExtValue(), 64); }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::Trunc: { Val b = constVal(E->getOperand(0)); return Val::con(b.c, tyW(T)); }
    case Instruction::Sub: { Val a = constVal(E->getOperand(0)), b = constVal(E->getOperand(1)); return Val::con(a.c - b.c, tyW(T)); }
    case Instruction::Add: { Val a = constVal(E->getOperand(0)), b = constVal(E->getOperand(1)); return Val::con(a.c + b.c, tyW(T)); }
    default: break; }
  }
  std::string str; raw_string_ostream os(str); K->print(os); throw EngineErr{"constant " + str.substr(0, 200)};
}
static std::unordered_map<std::string, int> builtinId; static int builtinOf(const std::string &n);
static void decode(DF *d) {
  if (d->decoded) return; d->decoded = true; Function &F = *d->F; std::unordered_map<const Value *, int> slot; std::unordered_map<const BasicBlock *, int> bid;
  int n = 0; for (auto &A : F.args()) slot[&A] = n++; d->nargs = n; int b = 0; for (auto &B : F) { bid[&B] = b++; for (auto &I : B) if (!I.getType()->isVoidTy()) slot[&I] = n++; } d->nslots = n; d->bb.resize(b);
  auto opd = [&](const Value *v) { Opd o; auto it = slot.find(v); if (it != slot.end()) { o.slot = it->second; return o; } if (auto *K = dyn_cast<Constant>(v)) { o.c = constVal(K); return o; } if (isa<MetadataAsValue>(v)) { o.c = Val::con(0, 64); return o; } if (isa<InlineAsm>(v)) { o.c = Val::con(0, 64); return o; } throw EngineErr{"operand"}; };
  b = 0;
  for (auto &B : F) {
    BB &bb = d->bb[b++]; bb.B = &B;
    for (auto &I : B) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      if (auto *P = dyn_cast<PHINode>(&I)) { Phi p; p.dst = slot[P]; for (unsigned i = 0; i < P->getNumIncomingValues(); i++) p.in[bid[P->getIncomingBlock(i)]] = opd(P->getIncomingValue(i)); bb.phis.push_back(p); continue; }
      DI x; x.op = I.getOpcode(); x.I = &I; x.dst = I.getType()->isVoidTy() ? -1 : slot[&I]; x.w = tyW(I.getType()); x.dstTy = fpTy(I.getType()); x.fpt = x.dstTy != 0; if (I.getNumOperands() && !isa<CallBase>(I)) x.srcTy = fpTy(I.getOperand(0)->getType());
      if (I.getType()->isVectorTy()) { x.op = 9999; bb.in.push_back(x); continue; }
      switch (I.getOpcode()) {
      case Instruction::Br: { auto *Br = cast<BranchInst>(&I); if (Br->isConditional()) x.o.push_back(opd(Br->getCondition())); for (unsigned i = 0; i < Br->getNumSuccessors(); i++) x.blk.push_back(bid[Br->getSuccessor(i)]); break; }
      case Instruction::Switch: { auto *S = cast<SwitchInst>(&I); x.o.push_back(opd(S->getCondition())); x.blk.push_back(bid[S->getDefaultDest()]); for (auto &c : S->cases()) { x.cases.push_back(apTo(c.getCaseValue()->getValue())); x.blk.push_back(bid[c.getCaseSuccessor()]); } break; }
      case Instruction::GetElementPtr: {
        auto *G = cast<GetElementPtrInst>(&I); x.o.push_back(opd(G->getPointerOperand()));
        for (gep_type_iterator it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
          if (StructType *ST_ = it.getStructTypeOrNull()) { x.off += (int64_t)DL->getStructLayout(ST_)->getElementOffset((unsigned)cast<ConstantInt>(it.getOperand())->getZExtValue()); continue; }
          int64_t sc = (int64_t)DL->getTypeAllocSize(it.getIndexedType()); if (auto *K = dyn_cast<ConstantInt>(it.getOperand())) x.off += K->getSExtValue() * sc; else { x.o.push_back(opd(it.getOperand())); x.sc.push_back(sc); } }
        break; }
      case Instruction::Load: x.o.push_back(opd(I.getOperand(0))); x.size = (uint32_t)DL->getTypeStoreSize(I.getType()); if (I.getType()->isAggregateType()) x.op = 9998; break;
      case Instruction::Store: x.o.push_back(opd(I.getOperand(0))); x.o.push_back(opd(I.getOperand(1))); x.size = (uint32_t)DL->getTypeStoreSize(I.getOperand(0)->getType()); if (I.getOperand(0)->getType()->isVectorTy()) x.op = 9999; if (I.getOperand(0)->getType()->isAggregateType()) x.op = 9998; break;
      case Instruction::Alloca: { auto *A = cast<AllocaInst>(&I); x.size = (uint32_t)DL->getTypeAllocSize(A->getAllocatedType()); x.o.push_back(opd(A->getArraySize())); break; }
      case Instruction::Call: case Instruction::Invoke: {
        auto *CB = cast<CallBase>(&I); for (auto &A : CB->args()) x.o.push_back(opd(A.get())); Value *cv = CB->getCalledOperand()->stripPointerCasts();
        if (auto *GA = dyn_cast<GlobalAlias>(cv)) cv = GA->getAliaseeObject();
        if (auto *CF = dyn_cast<Function>(cv)) {
          DF *t = dfs[CF]; auto ov = overrides.find(t->dem); if (ov == overrides.end()) ov = overrides.find(t->name); if (ov != overrides.end()) { Function *MF = M->getFunction(ov->second); if (!MF) throw EngineErr{"override target " + ov->second}; if (I.getFunction() != MF) { t = dfs[MF]; CF = MF; } } // a model reaches the original by a qualified call
          x.callee = t; if (CF->isDeclaration() || builtinOf(t->name) >= 0) x.bi = builtinOf(t->name); if (CF->isDeclaration() && x.bi < 0) x.bi = -2; else if (x.bi >= 0) x.callee = t; }
        else if (isa<InlineAsm>(cv)) { x.bi = -3; } else x.o.push_back(opd(CB->getCalledOperand()));
        if (auto *IV = dyn_cast<InvokeInst>(&I)) x.blk = {bid[IV->getNormalDest()], bid[IV->getUnwindDest()]}; break; }
      case Instruction::ICmp: case Instruction::FCmp: x.pred = cast<CmpInst>(&I)->getPredicate(); x.o = {opd(I.getOperand(0)), opd(I.getOperand(1))}; if (I.getOperand(0)->getType()->isVectorTy()) x.op = 9999; break;
      case Instruction::ExtractValue: x.o.push_back(opd(I.getOperand(0))); for (unsigned k : cast<ExtractValueInst>(&I)->indices()) x.blk.push_back((int)k); break;
      case Instruction::InsertValue: x.o = {opd(I.getOperand(0)), opd(I.getOperand(1))}; for (unsigned k : cast<InsertValueInst>(&I)->indices()) x.blk.push_back((int)k); break;
      case Instruction::Or: if (auto *D = dyn_cast<PossiblyDisjointInst>(&I)) x.disjoint = D->isDisjoint(); [[fallthrough]];
      default: for (auto &U : I.operands()) { if (isa<BasicBlock>(U.get())) continue; if (U->getType()->isVectorTy()) { x.op = 9999; break; } x.o.push_back(opd(U.get())); } break;
      }
      bb.in.push_back(std::move(x));
    }
  }
}
static void cover(BB &bb) {
  bb.seen = true;
  for (auto &I : *bb.B) for (const DILocation *L = I.getDebugLoc().get(); L; L = L->getInlinedAt()) { std::string f = L->getFilename().str(); if (f.compare(0, srcRoot.size(), srcRoot) && f.find("e_float/src") == std::string::npos) continue; if (auto *SP = L->getScope()->getSubprogram()) { std::string nm = demangle(SP->getLinkageName().empty() ? SP->getName().str() : SP->getLinkageName().str()); coveredFns.insert(nm); } coveredLines[f].insert(L->getLine()); }
}
