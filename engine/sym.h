// Symbolic executor over LLVM IR: values, memory, states, decoded code.
#pragma once
#include "core.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <deque>

enum VK : uint8_t { VU, VC, VP, VB, VF, VA };
struct FPV { PP v; int ty; };
struct Val;
typedef std::vector<Val> Agg;
struct Val {
  VK k = VU; uint16_t w = 0; u128 c = 0;
  union { PP p; FP f; const FPV *d; const Agg *a; };
  Val() : p(nullptr) {}
  static Val con(u128 v, unsigned w) { Val r; r.k = VC; r.w = w; r.c = v & maskW(w); return r; }
  static Val poly(PP p, unsigned w) { if (p->isConst()) { Z z = p->cst().get_num(); Z m; mpz_fdiv_r_2exp(m.get_mpz_t(), z.get_mpz_t(), w); return con(u128FromZ(m), w); } Val r; r.k = VP; r.w = w; r.p = p; return r; }
  static Val form(FP f) { if (f->k == F_TRUE) return con(1, 1); if (f->k == F_FALSE) return con(0, 1); Val r; r.k = VB; r.w = 1; r.f = f; return r; }
  static Val fp(const FPV *d, unsigned w) { Val r; r.k = VF; r.w = w; r.d = d; return r; }
  static Val agg(const Agg *a) { Val r; r.k = VA; r.a = a; return r; }
  static Val undef(unsigned w) { Val r; r.k = VU; r.w = w; return r; }
};
inline i128 sx(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 m = (u128)1 << (w - 1); return (i128)((v ^ m)) - (i128)m; }

struct Cell { Val v; uint32_t size; };
struct Obj {
  uint32_t size = 0; bool freed = false, ro = false; uint8_t kind = 0; // 0 global 1 stack 2 heap 3 function
  std::vector<uint8_t> b, st; // st: 0 uninit, 1 concrete, 2 symbolic cell
  std::map<uint32_t, Cell> cells; std::string name;
};
struct DF;
struct Opd { int slot = -1; Val c; };
struct DI {
  unsigned op = 0; llvm::Instruction *I = nullptr; int dst = -1; uint16_t w = 0; std::vector<Opd> o;
  int bi = -1; DF *callee = nullptr; int pred = 0; int64_t off = 0; std::vector<int64_t> sc; std::vector<int> blk; std::vector<u128> cases; uint32_t size = 0; bool fpt = false; int srcTy = 0; int dstTy = 0; bool disjoint = false;
};
struct Phi { int dst; std::map<int, Opd> in; };
struct BB { std::vector<DI> in; std::vector<Phi> phis; bool seen = false; llvm::BasicBlock *B = nullptr; };
struct DF { llvm::Function *F = nullptr; std::string name, dem; std::vector<BB> bb; int nslots = 0, nargs = 0; bool decoded = false; uint64_t addr = 0; uint64_t calls = 0; };
struct Frame { DF *f; int b = 0, i = 0; std::vector<Val> L; std::vector<uint32_t> al; };
struct State {
  std::vector<Frame> st; std::unordered_map<uint32_t, std::shared_ptr<Obj>> mem; uint32_t nextId; std::vector<FP> pc; Facts facts;
  std::vector<std::pair<std::string, PP>> obs; std::vector<std::string> reach; uint64_t instrs = 0; int undefs = 0; std::vector<int> inputs; int allowThrow = 0; int depth = 0; int64_t liveHeap = 0;
  std::map<std::string, int> flags;
};
struct ForkReq { std::vector<FP> alts; };
struct PathEnd { int kind; std::string why; }; // kind 0 normal, 1 assume false, 2 error event (violation), 3 allowed throw
struct EngineErr { std::string msg; };
