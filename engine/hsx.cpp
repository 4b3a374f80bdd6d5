// hsx: a symbolic executor for LLVM IR (whole-program bitcode), with z3 as decision procedure.
#include "state.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <deque>
#include <fstream>
#include <sstream>
#include <unordered_set>
#include <algorithm>

using namespace llvm;
namespace hsx {

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ decode
enum IOp : uint16_t {
  I_BIN, I_ICMP, I_CAST, I_GEP, I_ALLOCA, I_LOAD, I_STORE, I_SELECT, I_BR, I_CBR, I_SWITCH, I_CALL, I_RET,
  I_UNREACH, I_MOV, I_LPAD, I_RESUME, I_ATOMRMW, I_CMPXCHG, I_NOP, I_FBIN, I_FCMP, I_FCAST, I_UNSUP, I_FREEZE, I_MOVS
};
struct Leaf { uint32_t off; uint8_t w; };
struct Edge { int target; std::vector<std::pair<int32_t, int32_t>> copies; };  // dst,src operand
struct Inst {
  IOp op; uint16_t sub = 0; uint8_t w = 0, w2 = 0; int32_t dst = -1; int32_t a = 0, b = 0, c = 0; uint32_t n = 1;
  const Instruction* I = nullptr; int bb = 0;
  std::vector<int32_t> args; std::vector<uint64_t> imm; std::vector<Leaf> leaves;
  const Func* callee = nullptr; int builtin = -1;
  std::vector<Edge> edges;
};
struct Func {
  Function* F; std::string name; uint64_t addr; bool decoded = false; bool interesting = false; bool entered = false;
  std::vector<Inst> code; std::vector<int> bbStart; std::vector<uint8_t> bbSeen; uint32_t nregs = 0; std::vector<Val> consts;
  std::vector<int32_t> argSlots; int builtin = -1; uint32_t retSlots = 0;
};

enum B : int {
  B_NONE = -1, B_SYM, B_BYTES, B_RANGE, B_ASSUME, B_ASSERT, B_REACH, B_FREEZE, B_THAW, B_OBSERVE, B_OBSERVE_BYTES, B_CONCRETIZE, B_LEAKOK, B_STOP, B_ISSYM,
  B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_NEW, B_NEWA, B_DEL, B_DELA, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_MEMCMP, B_BCMP,
  B_ABORT, B_ASSERTFAIL, B_TERMINATE, B_EXIT, B_PUREVIRT, B_ATEXIT, B_EXC_ALLOC, B_EXC_FREE, B_THROW, B_RETHROW, B_BEGIN, B_END, B_GETEXC,
  B_GUARD_ACQ, B_GUARD_REL, B_DYNCAST, B_UNCAUGHT, B_NOP, B_TYPEID_FOR, B_IDENT, B_TRAP, B_LIFETIME,
  B_UMIN, B_UMAX, B_SMIN, B_SMAX, B_ABS, B_BSWAP, B_CTLZ, B_CTTZ, B_CTPOP, B_SADDO, B_UADDO, B_SSUBO, B_USUBO, B_SMULO, B_UMULO, B_USUBSAT, B_UADDSAT,
  B_FSHL, B_FSHR, B_OBJSIZE, B_EXPECT, B_ISCONST, B_ASSUMEI, B_STACKSAVE, B_UNSUP, B_CEIL, B_LOADREL, B_PRINT, B_TIME0, B_ERRNO, B_VASTART, B_VACOPY
};

struct Shared { std::atomic<int> active, stop, paths; std::atomic<long> sampled; };

struct Violation { std::string kind, label, where; std::vector<std::string> stack; std::string assign; };

struct Engine {
  LLVMContext ctx; std::unique_ptr<Module> M; const DataLayout* DL;
  ExprCtx X;
  std::vector<std::unique_ptr<Func>> funcs; std::unordered_map<const Function*, Func*> fmap; std::unordered_map<std::string, Func*> fbyname;
  std::unordered_map<const GlobalVariable*, uint64_t> gaddr;
  std::map<uint64_t, std::string> typeIdIdx; std::unordered_map<uint64_t, int> typeIds;
  uint64_t vt_class = 0, vt_si = 0, vt_vmi = 0; uint64_t errnoObj = 0;
  std::vector<std::unique_ptr<Obj>> roGlobals;
  static constexpr uint64_t FBASE = 1ull << 62; std::unordered_set<uint64_t> tlsObjs;
  std::vector<std::string> symNames; std::unordered_map<std::string, uint32_t> symNameIdx;
  // options
  int jobs = 8; uint64_t maxSteps = 50000000; double timeLimit = 600; std::string outDir; long sampleStride = 97; long sampleMax = 60; int maxViol = 4; size_t memLimitMB = 3000; bool crossDump = false;
  std::string entry = "hsx_main"; bool verbose = false;
  // stats
  uint64_t nPaths = 0, nSteps = 0, nBranches = 0, nForks = 0, nQ = 0, nQsat = 0, nQunsat = 0, nQcache = 0, nFast = 0, nAssert = 0, nAssertQ = 0, nAssertConst = 0, nAssumeCut = 0, nAssertUnique = 0;
  double solverT = 0, maxQ = 0;
  std::set<std::string> reached, expectedReach; std::map<std::string, uint64_t> assertCount;
  std::vector<Violation> viols; std::set<std::string> violKeys; std::string fatal;
  std::vector<std::string> samples; std::vector<std::string> dumped;
  Shared* sh; double t0;
  std::vector<State*> work;
  Z3_context z3; Z3_solver zs; std::unordered_map<uint32_t, Z3_ast> zcache;

  [[noreturn]] void die(const std::string& m) { fatal = m; throw std::string(m); }

  // ---------------------------------------------------------------- layout
  unsigned slots(Type* T) {
    if (T->isVoidTy()) return 0;
    if (auto* S = dyn_cast<StructType>(T)) { unsigned n = 0; for (auto* t : S->elements()) n += slots(t); return n; }
    if (auto* A = dyn_cast<ArrayType>(T)) return A->getNumElements() * slots(A->getElementType());
    if (auto* V = dyn_cast<FixedVectorType>(T)) return V->getNumElements() * slots(V->getElementType());
    if (T->isIntegerTy() && T->getIntegerBitWidth() > 64) return (T->getIntegerBitWidth() + 63) / 64;
    return 1;
  }
  unsigned bits(Type* T) {
    if (T->isPointerTy()) return 64; if (T->isIntegerTy()) return T->getIntegerBitWidth(); if (T->isFloatTy()) return 32; if (T->isDoubleTy()) return 64;
    if (auto* V = dyn_cast<FixedVectorType>(T)) return bits(V->getElementType());
    return 0;
  }
  void leaves(Type* T, uint32_t off, std::vector<Leaf>& out) {
    if (auto* S = dyn_cast<StructType>(T)) { auto* L = DL->getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); ++i) leaves(S->getElementType(i), off + (uint32_t)L->getElementOffset(i), out); return; }
    if (auto* A = dyn_cast<ArrayType>(T)) { uint64_t sz = DL->getTypeAllocSize(A->getElementType()); for (uint64_t i = 0; i < A->getNumElements(); ++i) leaves(A->getElementType(), off + i * sz, out); return; }
    if (auto* V = dyn_cast<FixedVectorType>(T)) { uint64_t sz = DL->getTypeStoreSize(V->getElementType()); if (bits(T) % 8) { out.push_back({off, 255}); return; } for (unsigned i = 0; i < V->getNumElements(); ++i) leaves(V->getElementType(), off + i * sz, out); return; }
    if (T->isIntegerTy() && bits(T) > 64) { unsigned w = bits(T); for (unsigned k = 0; k < w; k += 64) out.push_back({off + k / 8, (uint8_t)std::min(64u, w - k)}); return; }
    unsigned w = bits(T); out.push_back({off, (uint8_t)(w ? w : 255)});
  }
  void constSlots(const Constant* C, std::vector<uint64_t>& out) {
    Type* T = C->getType();
    if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C) || isa<ConstantPointerNull>(C)) { unsigned n = slots(T); out.insert(out.end(), n, 0); return; }
    if (auto* I = dyn_cast<ConstantInt>(C)) { unsigned w = bits(T); if (w <= 64) out.push_back(I->getZExtValue()); else for (unsigned k = 0; k < slots(T); ++k) out.push_back(I->getValue().getRawData()[k]); return; }
    if (auto* F = dyn_cast<ConstantFP>(C)) { out.push_back(F->getValueAPF().bitcastToAPInt().getZExtValue()); return; }
    if (auto* S = dyn_cast<ConstantDataSequential>(C)) { for (unsigned i = 0; i < S->getNumElements(); ++i) constSlots(S->getElementAsConstant(i), out); return; }
    if (auto* S = dyn_cast<ConstantAggregate>(C)) { for (auto& o : S->operands()) constSlots(cast<Constant>(o), out); return; }
    out.push_back(constAddr(C));
  }
  uint64_t constAddr(const Constant* C) {
    if (auto* G = dyn_cast<GlobalVariable>(C)) return gaddr.at(G);
    if (auto* F = dyn_cast<Function>(C)) return fmap.at(F)->addr;
    if (auto* A = dyn_cast<GlobalAlias>(C)) return constAddr(A->getAliasee());
    if (auto* I = dyn_cast<ConstantInt>(C)) return I->getZExtValue();
    if (isa<ConstantPointerNull>(C) || isa<UndefValue>(C)) return 0;
    if (auto* E = dyn_cast<ConstantExpr>(C)) {
      switch (E->getOpcode()) {
        case Instruction::GetElementPtr: { APInt off(64, 0); cast<GEPOperator>(E)->accumulateConstantOffset(*DL, off); return constAddr(E->getOperand(0)) + off.getSExtValue(); }
        case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: return constAddr(E->getOperand(0)) & maskw(bits(E->getType()));
        case Instruction::Add: return (constAddr(E->getOperand(0)) + constAddr(E->getOperand(1))) & maskw(bits(E->getType()));
        case Instruction::Sub: return (constAddr(E->getOperand(0)) - constAddr(E->getOperand(1))) & maskw(bits(E->getType()));
        case Instruction::Trunc: return constAddr(E->getOperand(0)) & maskw(bits(E->getType()));
        case Instruction::ICmp: { uint64_t a = constAddr(E->getOperand(0)), b = constAddr(E->getOperand(1)); auto p = (CmpInst::Predicate)E->getPredicate(); if (p == CmpInst::ICMP_EQ) return a == b; if (p == CmpInst::ICMP_NE) return a != b; break; }
        case Instruction::Xor: return constAddr(E->getOperand(0)) ^ constAddr(E->getOperand(1));
        default: break;
      }
    }
    std::string s; raw_string_ostream os(s); C->print(os); die("constant not supported: " + os.str());
  }
  void writeConst(Obj* o, uint64_t off, const Constant* C) {
    Type* T = C->getType();
    if (isa<ConstantAggregateZero>(C) || isa<ConstantPointerNull>(C) || isa<UndefValue>(C)) return;
    if (auto* S = dyn_cast<ConstantDataSequential>(C)) { StringRef r = S->getRawDataValues(); memcpy(o->data + off, r.data(), r.size()); return; }
    if (auto* S = dyn_cast<ConstantStruct>(C)) { auto* L = DL->getStructLayout(S->getType()); for (unsigned i = 0; i < S->getNumOperands(); ++i) writeConst(o, off + L->getElementOffset(i), S->getOperand(i)); return; }
    if (auto* A = dyn_cast<ConstantArray>(C)) { uint64_t sz = DL->getTypeAllocSize(A->getType()->getElementType()); for (unsigned i = 0; i < A->getNumOperands(); ++i) writeConst(o, off + i * sz, A->getOperand(i)); return; }
    if (auto* A = dyn_cast<ConstantVector>(C)) { uint64_t sz = DL->getTypeStoreSize(A->getType()->getElementType()); for (unsigned i = 0; i < A->getNumOperands(); ++i) writeConst(o, off + i * sz, A->getOperand(i)); return; }
    std::vector<uint64_t> v; constSlots(C, v); memcpy(o->data + off, v.data(), std::min<uint64_t>(DL->getTypeStoreSize(T), 8 * v.size()));
  }

  // ---------------------------------------------------------------- builtins
  std::unordered_map<std::string, int> bnames;
  void initBuiltins() {
    auto& m = bnames;
    m["hsx_sym_"] = B_SYM; m["hsx_bytes_"] = B_BYTES; m["hsx_range_"] = B_RANGE; m["hsx_assume_"] = B_ASSUME; m["hsx_assert_"] = B_ASSERT; m["hsx_reach_"] = B_REACH;
    m["hsx_freeze"] = B_FREEZE; m["hsx_thaw"] = B_THAW; m["hsx_observe_"] = B_OBSERVE; m["hsx_observe_bytes_"] = B_OBSERVE_BYTES; m["hsx_concretize_"] = B_CONCRETIZE; m["hsx_leak_ok"] = B_LEAKOK; m["hsx_stop"] = B_STOP; m["hsx_is_symbolic"] = B_ISSYM; m["hsx_print_"] = B_PRINT;
    m["malloc"] = B_MALLOC; m["calloc"] = B_CALLOC; m["realloc"] = B_REALLOC; m["free"] = B_FREE;
    m["_Znwm"] = B_NEW; m["_ZnwmRKSt9nothrow_t"] = B_NEW; m["_Znam"] = B_NEWA; m["_ZnamRKSt9nothrow_t"] = B_NEWA; m["_ZdlPv"] = B_DEL; m["_ZdlPvm"] = B_DEL; m["_ZdaPv"] = B_DELA; m["_ZdaPvm"] = B_DELA; m["_ZdlPvRKSt9nothrow_t"] = B_DEL;
    m["memcpy"] = B_MEMCPY; m["memmove"] = B_MEMMOVE; m["memset"] = B_MEMSET; m["memcmp"] = B_MEMCMP; m["bcmp"] = B_BCMP;
    m["abort"] = B_ABORT; m["__assert_fail"] = B_ASSERTFAIL; m["_ZSt9terminatev"] = B_TERMINATE; m["exit"] = B_EXIT; m["_exit"] = B_EXIT; m["__cxa_pure_virtual"] = B_PUREVIRT; m["__cxa_atexit"] = B_ATEXIT; m["atexit"] = B_ATEXIT; m["__cxa_thread_atexit"] = B_ATEXIT;
    m["__cxa_allocate_exception"] = B_EXC_ALLOC; m["__cxa_free_exception"] = B_EXC_FREE; m["__cxa_throw"] = B_THROW; m["__cxa_rethrow"] = B_RETHROW; m["__cxa_begin_catch"] = B_BEGIN; m["__cxa_end_catch"] = B_END; m["__cxa_get_exception_ptr"] = B_GETEXC;
    m["__cxa_guard_acquire"] = B_GUARD_ACQ; m["__cxa_guard_release"] = B_GUARD_REL; m["__cxa_guard_abort"] = B_GUARD_REL; m["__dynamic_cast"] = B_DYNCAST; m["_ZSt19uncaught_exceptionsv"] = B_UNCAUGHT; m["_ZSt18uncaught_exceptionv"] = B_UNCAUGHT;
    m["__errno_location"] = B_ERRNO; m["__cxa_call_unexpected"] = B_TERMINATE;
  }
  int intrinsic(Function* F) {
    switch (F->getIntrinsicID()) {
      case Intrinsic::memcpy: case Intrinsic::memcpy_inline: return B_MEMCPY; case Intrinsic::memmove: return B_MEMMOVE; case Intrinsic::memset: return B_MEMSET;
      case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::invariant_end: case Intrinsic::stackrestore: case Intrinsic::assume: return B_NOP;
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::invariant_start: return B_LIFETIME;
      case Intrinsic::vastart: return B_VASTART; case Intrinsic::vacopy: return B_VACOPY; case Intrinsic::vaend: return B_NOP;
      case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: return B_TRAP;
      case Intrinsic::eh_typeid_for: return B_TYPEID_FOR;
      case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::annotation: case Intrinsic::ssa_copy: return B_IDENT;
      case Intrinsic::umin: return B_UMIN; case Intrinsic::umax: return B_UMAX; case Intrinsic::smin: return B_SMIN; case Intrinsic::smax: return B_SMAX; case Intrinsic::abs: return B_ABS;
      case Intrinsic::bswap: return B_BSWAP; case Intrinsic::ctlz: return B_CTLZ; case Intrinsic::cttz: return B_CTTZ; case Intrinsic::ctpop: return B_CTPOP;
      case Intrinsic::sadd_with_overflow: return B_SADDO; case Intrinsic::uadd_with_overflow: return B_UADDO; case Intrinsic::ssub_with_overflow: return B_SSUBO; case Intrinsic::usub_with_overflow: return B_USUBO; case Intrinsic::smul_with_overflow: return B_SMULO; case Intrinsic::umul_with_overflow: return B_UMULO;
      case Intrinsic::usub_sat: return B_USUBSAT; case Intrinsic::uadd_sat: return B_UADDSAT; case Intrinsic::fshl: return B_FSHL; case Intrinsic::fshr: return B_FSHR;
      case Intrinsic::objectsize: return B_OBJSIZE; case Intrinsic::is_constant: return B_ISCONST; case Intrinsic::stacksave: return B_STACKSAVE; case Intrinsic::load_relative: return B_LOADREL;
      default: return B_UNSUP;
    }
  }

  // ---------------------------------------------------------------- module load
  State* init(const std::string& path) {
    SMDiagnostic err; M = parseIRFile(path, err, ctx);
    if (!M) { err.print("hsx", errs()); exit(2); }
    DL = &M->getDataLayout(); initBuiltins();
    for (auto& F : *M) {
      auto f = std::make_unique<Func>(); f->F = &F; f->name = F.getName().str(); f->addr = FBASE + 16 * (funcs.size() + 1);
      if (F.isIntrinsic()) f->builtin = intrinsic(&F);
      else { auto it = bnames.find(f->name); if (it != bnames.end()) f->builtin = it->second; else if (F.isDeclaration()) f->builtin = B_UNSUP; }
      f->retSlots = slots(F.getReturnType());
      fmap[&F] = f.get(); fbyname[f->name] = f.get(); funcs.push_back(std::move(f));
    }
    State* s = new State; s->model = Rc<Model>(new Model); s->model->stamp = ++X.stampGen;
    for (auto& G : M->globals()) {
      uint64_t sz = DL->getTypeAllocSize(G.getValueType());
      if (sz >= (1 << 24)) die("global too big");
      Obj* o = new Obj((uint32_t)(G.isDeclaration() ? std::max<uint64_t>(sz, 256) : sz), K_GLOBAL, true); o->site = &G;
      uint64_t id = s->mem.add(o); gaddr[&G] = id << 24; if (G.isThreadLocal()) tlsObjs.insert(id);
      if (G.getName() == "_ZTVN10__cxxabiv117__class_type_infoE") vt_class = id; if (G.getName() == "_ZTVN10__cxxabiv120__si_class_type_infoE") vt_si = id; if (G.getName() == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") vt_vmi = id;
    }
    for (auto& G : M->globals()) if (G.hasInitializer()) {
      Obj* o = s->mem.getw(gaddr[&G] >> 24); writeConst(o, 0, G.getInitializer()); o->readonly = G.isConstant();
    }
    { Obj* o = new Obj(4, K_GLOBAL, true); errnoObj = s->mem.add(o); }
    // expected reach labels and interesting functions
    for (auto& F : *M) for (auto& BB : F) for (auto& I : BB) if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* cf = CB->getCalledFunction()) if (cf->getName() == "hsx_reach_") {
      std::vector<Value*> todo{CB->getArgOperand(0)}; std::set<Value*> seen;
      while (!todo.empty()) { Value* v = todo.back(); todo.pop_back(); if (!seen.insert(v).second) continue;
        if (auto* S = dyn_cast<SelectInst>(v)) { todo.push_back(S->getTrueValue()); todo.push_back(S->getFalseValue()); continue; }
        if (auto* P = dyn_cast<PHINode>(v)) { for (auto& u : P->incoming_values()) todo.push_back(u); continue; }
        std::string l; if (constStr(v, l)) expectedReach.insert(l); } }
    z3init();
    return s;
  }
  bool constStr(Value* v, std::string& out) {
    auto* G = dyn_cast<GlobalVariable>(v->stripPointerCasts()); if (!G || !G->hasInitializer()) return false;
    auto* D = dyn_cast<ConstantDataArray>(G->getInitializer()); if (!D || !D->isCString()) return false; out = D->getAsCString().str(); return true;
  }

  // ---------------------------------------------------------------- decode
  struct DecCtx { Func* f; std::unordered_map<const Value*, int32_t> slot; std::unordered_map<uint64_t, int32_t> cpool; std::unordered_map<const BasicBlock*, int> bbIdx; };
  int32_t cidx(DecCtx& d, uint64_t v) { auto it = d.cpool.find(v); if (it != d.cpool.end()) return it->second; d.f->consts.push_back({v, nullptr}); int32_t r = ~(int32_t)(d.f->consts.size() - 1); d.cpool[v] = r; return r; }
  void ops(DecCtx& d, const Value* v, std::vector<int32_t>& out) {
    if (auto* C = dyn_cast<Constant>(v)) { std::vector<uint64_t> k; constSlots(C, k); for (auto x : k) out.push_back(cidx(d, x)); return; }
    auto it = d.slot.find(v); if (it == d.slot.end()) { if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) { out.push_back(cidx(d, 0)); return; } die("operand without slot"); }
    unsigned n = slots(v->getType()); for (unsigned i = 0; i < n; ++i) out.push_back(it->second + (int)i);
  }
  int32_t op1(DecCtx& d, const Value* v) { std::vector<int32_t> o; ops(d, v, o); if (o.size() != 1) die("operand not scalar"); return o[0]; }
  unsigned aggSlot(Type* T, ArrayRef<unsigned> idx) {
    unsigned r = 0; for (unsigned i : idx) { if (auto* S = dyn_cast<StructType>(T)) { for (unsigned k = 0; k < i; ++k) r += slots(S->getElementType(k)); T = S->getElementType(i); } else { auto* A = cast<ArrayType>(T); r += i * slots(A->getElementType()); T = A->getElementType(); } } return r;
  }
  Edge mkEdge(DecCtx& d, const BasicBlock* from, const BasicBlock* to) {
    Edge e; e.target = d.bbIdx[to];
    for (auto& P : to->phis()) { std::vector<int32_t> src; ops(d, P.getIncomingValueForBlock(from), src); int32_t ds = d.slot[&P]; for (size_t i = 0; i < src.size(); ++i) e.copies.push_back({ds + (int)i, src[i]}); }
    return e;
  }
  void decode(Func* f) {
    if (f->decoded) return; f->decoded = true;
    DecCtx d; d.f = f; uint32_t n = 0;
    for (auto& A : f->F->args()) { d.slot[&A] = n; for (unsigned i = 0; i < slots(A.getType()); ++i) f->argSlots.push_back(n + i); n += slots(A.getType()); }
    int bi = 0;
    for (auto& BB : *f->F) { d.bbIdx[&BB] = bi++; for (auto& I : BB) { unsigned k = slots(I.getType()); if (k) { d.slot[&I] = n; n += k; } } }
    f->nregs = n; f->bbSeen.assign(bi, 0);
    if (auto* SP = f->F->getSubprogram()) { StringRef fn = SP->getFilename(); StringRef dir = SP->getDirectory(); std::string p = fn.starts_with("/") ? fn.str() : (dir + "/" + fn).str(); f->interesting = p.find("/repo/") != std::string::npos; }
    for (auto& BB : *f->F) {
      f->bbStart.push_back((int)f->code.size());
      for (auto& I : BB) {
        if (isa<PHINode>(I)) continue;
        Inst x; x.I = &I; x.bb = d.bbIdx[&BB]; auto sl = d.slot.find(&I); x.dst = sl == d.slot.end() ? -1 : sl->second; x.n = slots(I.getType()); x.w = (uint8_t)std::min(255u, bits(I.getType()));
        decodeInst(d, I, x);
        if (x.op != I_NOP) f->code.push_back(std::move(x));
      }
    }
  }
  void decodeInst(DecCtx& d, const Instruction& I, Inst& x) {
    if (auto* B = dyn_cast<BinaryOperator>(&I)) {
      bool fp = B->getType()->isFPOrFPVectorTy(); x.op = fp ? I_FBIN : I_BIN; x.sub = B->getOpcode();
      if (!fp) switch (B->getOpcode()) {
        case Instruction::Add: x.sub = O_ADD; break; case Instruction::Sub: x.sub = O_SUB; break; case Instruction::Mul: x.sub = O_MUL; break; case Instruction::UDiv: x.sub = O_UDIV; break; case Instruction::SDiv: x.sub = O_SDIV; break; case Instruction::URem: x.sub = O_UREM; break; case Instruction::SRem: x.sub = O_SREM; break;
        case Instruction::And: x.sub = O_AND; break; case Instruction::Or: x.sub = O_OR; break; case Instruction::Xor: x.sub = O_XOR; break; case Instruction::Shl: x.sub = O_SHL; break; case Instruction::LShr: x.sub = O_LSHR; break; case Instruction::AShr: x.sub = O_ASHR; break; default: x.op = I_UNSUP; }
      if (B->getType()->isIntegerTy() && bits(B->getType()) > 64) { x.op = I_UNSUP; }
      std::vector<int32_t> a, b; ops(d, B->getOperand(0), a); ops(d, B->getOperand(1), b); x.a = a[0]; x.b = b[0]; if (x.n > 1) { x.args = a; x.args.insert(x.args.end(), b.begin(), b.end()); } return;
    }
    if (auto* C = dyn_cast<ICmpInst>(&I)) { x.op = I_ICMP; x.sub = C->getPredicate(); x.w = bits(C->getOperand(0)->getType()); if (C->getOperand(0)->getType()->isIntegerTy() && x.w > 64) { x.op = I_UNSUP; return; } std::vector<int32_t> a, b; ops(d, C->getOperand(0), a); ops(d, C->getOperand(1), b); x.a = a[0]; x.b = b[0]; if (x.n > 1) { x.args = a; x.args.insert(x.args.end(), b.begin(), b.end()); } return; }
    if (auto* C = dyn_cast<FCmpInst>(&I)) { x.op = I_FCMP; x.sub = C->getPredicate(); x.w = bits(C->getOperand(0)->getType()); x.a = op1(d, C->getOperand(0)); x.b = op1(d, C->getOperand(1)); return; }
    if (auto* C = dyn_cast<CastInst>(&I)) {
      x.op = I_CAST; x.sub = C->getOpcode(); x.w2 = bits(C->getSrcTy()); std::vector<int32_t> a; ops(d, C->getOperand(0), a); x.a = a[0]; 
      switch (C->getOpcode()) { case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: x.op = I_FCAST; return; default: break; }
      unsigned sn = slots(C->getSrcTy());
      if (C->getOpcode() == Instruction::BitCast) { if (sn == x.n && (sn == 1 || bits(C->getSrcTy()) == bits(C->getDestTy()))) { x.op = sn == 1 ? I_MOV : I_MOVS; x.args = a; return; } x.op = I_CAST; x.args = a; x.sub = 1000; x.w2 = bits(C->getSrcTy()); return; }
      if (sn != x.n) { // i128 <-> i64 conversions
        if (C->getOpcode() == Instruction::ZExt && x.n == 2) { x.op = I_MOVS; x.args = {a[0], cidx(d, 0)}; if (x.w2 < 64) { /* registers are kept zero-extended */ } return; }
        if (C->getOpcode() == Instruction::Trunc && sn == 2 && bits(C->getDestTy()) == 64) { x.op = I_MOV; x.args = {a[0]}; return; }
        x.op = I_UNSUP; return; }
      if (x.n > 1) x.args = a; return;
    }
    switch (I.getOpcode()) {
      case Instruction::FNeg: { x.op = I_FBIN; x.sub = 999; x.a = op1(d, I.getOperand(0)); x.b = x.a; return; }
      case Instruction::GetElementPtr: {
        auto& G = cast<GetElementPtrInst>(I); if (G.getType()->isVectorTy()) { x.op = I_UNSUP; return; }
        x.op = I_GEP; x.a = op1(d, G.getPointerOperand()); uint64_t off = 0;
        for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
          if (auto* S = it.getStructTypeOrNull()) { off += DL->getStructLayout(S)->getElementOffset(cast<ConstantInt>(it.getOperand())->getZExtValue()); continue; }
          uint64_t sz = DL->getTypeAllocSize(it.getIndexedType());
          if (auto* C = dyn_cast<ConstantInt>(it.getOperand())) off += C->getSExtValue() * sz;
          else { x.args.push_back(op1(d, it.getOperand())); x.imm.push_back(sz); x.imm.push_back(bits(it.getOperand()->getType())); }
        }
        x.imm.insert(x.imm.begin(), off); return; }
      case Instruction::Alloca: { auto& A = cast<AllocaInst>(I); x.op = I_ALLOCA; x.imm.push_back(DL->getTypeAllocSize(A.getAllocatedType())); x.a = op1(d, A.getArraySize()); return; }
      case Instruction::Load: { x.op = I_LOAD; leaves(I.getType(), 0, x.leaves); x.a = op1(d, cast<LoadInst>(I).getPointerOperand()); for (auto& l : x.leaves) if (l.w == 255) x.op = I_UNSUP; return; }
      case Instruction::Store: { x.op = I_STORE; leaves(I.getOperand(0)->getType(), 0, x.leaves); ops(d, I.getOperand(0), x.args); x.a = op1(d, cast<StoreInst>(I).getPointerOperand()); for (auto& l : x.leaves) if (l.w == 255) x.op = I_UNSUP; return; }
      case Instruction::Select: { x.op = I_SELECT; std::vector<int32_t> c; ops(d, I.getOperand(0), c); x.a = c[0]; std::vector<int32_t> t, f; ops(d, I.getOperand(1), t); ops(d, I.getOperand(2), f); x.args = t; x.args.insert(x.args.end(), f.begin(), f.end()); x.sub = I.getType()->isPointerTy(); std::vector<Leaf> L; leaves(I.getType(), 0, L); x.leaves = L; if (c.size() > 1) { x.sub = 2; x.args.insert(x.args.end(), c.begin(), c.end()); } return; }
      case Instruction::Br: { auto& Bi = cast<BranchInst>(I); x.op = Bi.isConditional() ? I_CBR : I_BR; if (Bi.isConditional()) x.a = op1(d, Bi.getCondition()); for (unsigned i = 0; i < Bi.getNumSuccessors(); ++i) x.edges.push_back(mkEdge(d, I.getParent(), Bi.getSuccessor(i))); return; }
      case Instruction::Switch: { auto& S = cast<SwitchInst>(I); x.op = I_SWITCH; x.a = op1(d, S.getCondition()); x.w = bits(S.getCondition()->getType()); x.edges.push_back(mkEdge(d, I.getParent(), S.getDefaultDest())); for (auto& c : S.cases()) { x.imm.push_back(c.getCaseValue()->getZExtValue()); x.edges.push_back(mkEdge(d, I.getParent(), c.getCaseSuccessor())); } return; }
      case Instruction::Call: case Instruction::Invoke: {
        auto& C = cast<CallBase>(I); x.op = I_CALL; if (C.isInlineAsm()) { x.op = isa<CallInst>(I) && C.arg_size() == 0 ? I_NOP : I_UNSUP; return; }
        Value* cv = C.getCalledOperand()->stripPointerCasts(); if (auto* GA = dyn_cast<GlobalAlias>(cv)) cv = GA->getAliaseeObject();
        if (auto* F = dyn_cast<Function>(cv)) { Func* f = fmap.at(F); x.callee = f; x.builtin = f->builtin; if (x.builtin == B_NOP) { x.op = I_NOP; return; } if (x.builtin == B_TYPEID_FOR) { x.imm.push_back(typeId(C.getArgOperand(0))); return; } }
        else x.a = op1(d, C.getCalledOperand());
        for (auto& A : C.args()) { if (A->getType()->isMetadataTy()) continue; 
          if (C.isByValArgument(C.getArgOperandNo(&A))) x.sub = 7; ops(d, A, x.args); x.imm.push_back(bits(A->getType())); }
        if (auto* Iv = dyn_cast<InvokeInst>(&I)) { x.edges.push_back(mkEdge(d, I.getParent(), Iv->getNormalDest())); x.edges.push_back(mkEdge(d, I.getParent(), Iv->getUnwindDest())); }
        // result width for struct-returning intrinsics
        if (x.n >= 1) { std::vector<Leaf> L; leaves(I.getType(), 0, L); x.leaves = L; x.w = L[0].w; }
        if (x.builtin == B_CALLOC) x.w = 64;
        return; }
      case Instruction::Ret: { x.op = I_RET; if (I.getNumOperands()) ops(d, I.getOperand(0), x.args); return; }
      case Instruction::Unreachable: x.op = I_UNREACH; return;
      case Instruction::ExtractValue: { auto& E = cast<ExtractValueInst>(I); std::vector<int32_t> a; ops(d, E.getAggregateOperand(), a); unsigned s0 = aggSlot(E.getAggregateOperand()->getType(), E.getIndices()); x.op = I_MOVS; x.args.assign(a.begin() + s0, a.begin() + s0 + x.n); return; }
      case Instruction::InsertValue: { auto& E = cast<InsertValueInst>(I); std::vector<int32_t> a, v; ops(d, E.getAggregateOperand(), a); ops(d, E.getInsertedValueOperand(), v); unsigned s0 = aggSlot(E.getType(), E.getIndices()); for (size_t i = 0; i < v.size(); ++i) a[s0 + i] = v[i]; x.op = I_MOVS; x.args = a; return; }
      case Instruction::ExtractElement: { auto* C = dyn_cast<ConstantInt>(I.getOperand(1)); if (!C) { x.op = I_UNSUP; return; } std::vector<int32_t> a; ops(d, I.getOperand(0), a); x.op = I_MOVS; x.args = {a[C->getZExtValue()]}; return; }
      case Instruction::InsertElement: { auto* C = dyn_cast<ConstantInt>(I.getOperand(2)); if (!C) { x.op = I_UNSUP; return; } std::vector<int32_t> a; ops(d, I.getOperand(0), a); a[C->getZExtValue()] = op1(d, I.getOperand(1)); x.op = I_MOVS; x.args = a; return; }
      case Instruction::ShuffleVector: { auto& S = cast<ShuffleVectorInst>(I); std::vector<int32_t> a; ops(d, S.getOperand(0), a); ops(d, S.getOperand(1), a); x.op = I_MOVS; for (int m : S.getShuffleMask()) x.args.push_back(m < 0 ? cidx(d, 0) : a[m]); return; }
      case Instruction::Freeze: { std::vector<int32_t> a; ops(d, I.getOperand(0), a); x.op = I_FREEZE; x.args = a; leaves(I.getType(), 0, x.leaves); return; }
      case Instruction::LandingPad: {
        x.op = I_LPAD; auto& L = cast<LandingPadInst>(I); return; }
      case Instruction::Resume: { x.op = I_RESUME; ops(d, I.getOperand(0), x.args); return; }
      case Instruction::Fence: x.op = I_NOP; return;
      case Instruction::AtomicRMW: { auto& A = cast<AtomicRMWInst>(I); x.op = I_ATOMRMW; x.sub = A.getOperation(); x.a = op1(d, A.getPointerOperand()); x.b = op1(d, A.getValOperand()); return; }
      case Instruction::AtomicCmpXchg: { auto& A = cast<AtomicCmpXchgInst>(I); x.op = I_CMPXCHG; x.a = op1(d, A.getPointerOperand()); x.b = op1(d, A.getCompareOperand()); x.c = op1(d, A.getNewValOperand()); x.w = bits(A.getCompareOperand()->getType()); return; }
      default: x.op = I_UNSUP; return;
    }
  }
  int typeId(const Value* v) { uint64_t a = constAddr(cast<Constant>(v->stripPointerCasts())); auto it = typeIds.find(a); if (it != typeIds.end()) return it->second; int n = (int)typeIds.size() + 1; typeIds[a] = n; return n; }

  // ---------------------------------------------------------------- solver
  void z3init() {
    Z3_config cfg = Z3_mk_config(); z3 = Z3_mk_context(cfg); Z3_del_config(cfg);
    zs = Z3_mk_simple_solver(z3); Z3_solver_inc_ref(z3, zs);
    Z3_params p = Z3_mk_params(z3); Z3_params_inc_ref(z3, p);
    Z3_params_set_uint(z3, p, Z3_mk_string_symbol(z3, "rlimit"), 400000000u);
    Z3_solver_set_params(z3, zs, p); Z3_params_dec_ref(z3, p);
  }
  Z3_ast zb(E e) { // boolean view of a width-1 expression
    Z3_ast a = zt(e); return Z3_mk_eq(z3, a, zconst(1, 1));
  }
  Z3_ast zconst(uint64_t v, unsigned w) { return Z3_mk_unsigned_int64(z3, v, Z3_mk_bv_sort(z3, w)); }
  Z3_ast bool2bv(Z3_ast b) { return Z3_mk_ite(z3, b, zconst(1, 1), zconst(0, 1)); }
  Z3_ast zt(E e) {
    auto it = zcache.find(e->id); if (it != zcache.end()) return it->second;
    Z3_ast r = nullptr;
    switch (e->op) {
      case O_CONST: r = zconst(e->c, e->w); break;
      case O_SYM: { char b[32]; snprintf(b, 32, "s%u_%u", (unsigned)e->c, e->w); r = Z3_mk_const(z3, Z3_mk_string_symbol(z3, b), Z3_mk_bv_sort(z3, e->w)); break; }
      case O_ADD: r = Z3_mk_bvadd(z3, zt(e->a), zt(e->b)); break; case O_SUB: r = Z3_mk_bvsub(z3, zt(e->a), zt(e->b)); break; case O_MUL: r = Z3_mk_bvmul(z3, zt(e->a), zt(e->b)); break;
      case O_UDIV: r = Z3_mk_bvudiv(z3, zt(e->a), zt(e->b)); break; case O_SDIV: r = Z3_mk_bvsdiv(z3, zt(e->a), zt(e->b)); break; case O_UREM: r = Z3_mk_bvurem(z3, zt(e->a), zt(e->b)); break; case O_SREM: r = Z3_mk_bvsrem(z3, zt(e->a), zt(e->b)); break;
      case O_AND: r = Z3_mk_bvand(z3, zt(e->a), zt(e->b)); break; case O_OR: r = Z3_mk_bvor(z3, zt(e->a), zt(e->b)); break; case O_XOR: r = Z3_mk_bvxor(z3, zt(e->a), zt(e->b)); break;
      case O_SHL: r = Z3_mk_bvshl(z3, zt(e->a), zt(e->b)); break; case O_LSHR: r = Z3_mk_bvlshr(z3, zt(e->a), zt(e->b)); break; case O_ASHR: r = Z3_mk_bvashr(z3, zt(e->a), zt(e->b)); break;
      case O_EQ: r = bool2bv(Z3_mk_eq(z3, zt(e->a), zt(e->b))); break; case O_ULT: r = bool2bv(Z3_mk_bvult(z3, zt(e->a), zt(e->b))); break; case O_ULE: r = bool2bv(Z3_mk_bvule(z3, zt(e->a), zt(e->b))); break; case O_SLT: r = bool2bv(Z3_mk_bvslt(z3, zt(e->a), zt(e->b))); break; case O_SLE: r = bool2bv(Z3_mk_bvsle(z3, zt(e->a), zt(e->b))); break;
      case O_ZEXT: r = Z3_mk_zero_ext(z3, e->w - e->a->w, zt(e->a)); break; case O_SEXT: r = Z3_mk_sign_ext(z3, e->w - e->a->w, zt(e->a)); break;
      case O_EXTRACT: r = Z3_mk_extract(z3, e->lo + e->w - 1, e->lo, zt(e->a)); break; case O_CONCAT: r = Z3_mk_concat(z3, zt(e->a), zt(e->b)); break;
      case O_ITE: r = Z3_mk_ite(z3, zb(e->a), zt(e->b), zt(e->d)); break;
    }
    Z3_inc_ref(z3, r); zcache[e->id] = r; return r;
  }
  struct QRes { bool sat; std::vector<std::pair<uint32_t, uint64_t>> m; };
  struct KeyHash { size_t operator()(const std::vector<uint64_t>& k) const { uint64_t h = 0x1234; for (auto v : k) h = ExprCtx::mix(h, v); return h; } };
  std::unordered_map<std::vector<uint64_t>, QRes, KeyHash> qcache; // exact keys: a hash collision must not decide a query
  bool inModel(State& s, E e) { return X.eval(e, s.model->v.data(), s.model->v.size(), s.model->stamp) != 0; }
  uint64_t evalM(State& s, E e) { return X.eval(e, s.model->v.data(), s.model->v.size(), s.model->stamp); }
  static bool domFull(const ExprCtx::Dom& d) { return (d[0] & d[1] & d[2] & d[3]) == ~0ull; }
  Model* cloneModel(State& s) { Model* m = new Model; m->v = s.model->v; m->stamp = ++X.stampGen; return m; }

  // ------------------------------------------------ integer back end
  // Queries with wide division are translated to linear integer arithmetic: every term t
  // stands for a bit-vector value v with v == t modulo 2^w and a known interval for t.
  // Exact (nothing is approximated); used before bit-blasting when a query contains division.
  struct IT { Z3_ast t; __int128 lo, hi; };
  struct IntFail {};
  std::unordered_map<uint32_t, IT> icache; std::unordered_map<uint32_t, Z3_ast> ibcache; std::unordered_map<uint32_t, char> hasDiv; Z3_solver zi = nullptr; std::vector<std::pair<uint32_t, unsigned>> isyms; uint64_t nIntQ = 0;
  bool divides(E e) { if (!e) return false; auto it = hasDiv.find(e->id); if (it != hasDiv.end()) return it->second; bool r = (e->op >= O_UDIV && e->op <= O_SREM && e->w > 8) || divides(e->a) || divides(e->b) || divides(e->d); hasDiv[e->id] = r; return r; }
  static __int128 p2(unsigned k) { return (__int128)1 << k; }
  Z3_ast iconst(__int128 v) { bool n = v < 0; unsigned __int128 u = n ? (unsigned __int128)0 - (unsigned __int128)v : (unsigned __int128)v; std::string r; do { r += char('0' + (int)(u % 10)); u /= 10; } while (u); if (n) r += '-'; std::reverse(r.begin(), r.end()); Z3_ast a = Z3_mk_numeral(z3, r.c_str(), Z3_mk_int_sort(z3)); Z3_inc_ref(z3, a); return a; }
  Z3_ast keep(Z3_ast a) { Z3_inc_ref(z3, a); return a; }
  Z3_ast i2(char op, Z3_ast a, Z3_ast b) { Z3_ast v[2] = {a, b}; switch (op) { case '+': return keep(Z3_mk_add(z3, 2, v)); case '-': return keep(Z3_mk_sub(z3, 2, v)); case '*': return keep(Z3_mk_mul(z3, 2, v)); case '/': return keep(Z3_mk_div(z3, a, b)); case '%': return keep(Z3_mk_mod(z3, a, b)); case '<': return keep(Z3_mk_lt(z3, a, b)); case 'l': return keep(Z3_mk_le(z3, a, b)); default: return keep(Z3_mk_eq(z3, a, b)); } }
  Z3_ast iite(Z3_ast c, Z3_ast a, Z3_ast b) { return keep(Z3_mk_ite(z3, c, a, b)); }
  IT iuns(IT x, unsigned w) { if (x.lo >= 0 && x.hi < p2(w)) return x; if (x.lo >= -p2(w) && x.hi < p2(w) && x.lo >= -p2(w - 1)) return {iite(i2('<', x.t, iconst(0)), i2('+', x.t, iconst(p2(w))), x.t), 0, p2(w) - 1}; return {i2('%', x.t, iconst(p2(w))), 0, p2(w) - 1}; }
  IT isgn(IT x, unsigned w) { if (x.lo >= -p2(w - 1) && x.hi < p2(w - 1)) return x; if (x.lo >= 0 && x.hi < p2(w)) return {iite(i2('<', x.t, iconst(p2(w - 1))), x.t, i2('-', x.t, iconst(p2(w)))), -p2(w - 1), p2(w - 1) - 1}; return {i2('-', i2('%', i2('+', x.t, iconst(p2(w - 1))), iconst(p2(w))), iconst(p2(w - 1))), -p2(w - 1), p2(w - 1) - 1}; }
  IT iclip(IT x, unsigned w) { if (x.lo < -p2(96) || x.hi > p2(96)) throw IntFail(); return x; }
  IT it(E e) {
    auto f = icache.find(e->id); if (f != icache.end()) return f->second;
    IT r; unsigned w = e->w;
    auto absv = [&](IT a) -> IT { if (a.lo >= 0) return a; if (a.hi <= 0) return {i2('-', iconst(0), a.t), -a.hi, -a.lo}; return {iite(i2('<', a.t, iconst(0)), i2('-', iconst(0), a.t), a.t), 0, std::max(-a.lo, a.hi)}; };
    auto neg = [&](IT a) -> IT { return {i2('-', iconst(0), a.t), -a.hi, -a.lo}; };
    if (w == 1 && (e->op == O_AND || e->op == O_OR || e->op == O_XOR || (e->op >= O_EQ && e->op <= O_SLE))) { Z3_ast b = ib(e); r = {iite(b, iconst(1), iconst(0)), 0, 1}; }
    else switch (e->op) {
      case O_CONST: { __int128 v = w == 1 ? (__int128)e->c : (__int128)sx(e->c, w); r = {iconst(v), v, v}; break; }
      case O_SYM: { char b[32]; snprintf(b, 32, "i%u_%u", (unsigned)e->c, w); Z3_ast t = keep(Z3_mk_const(z3, Z3_mk_string_symbol(z3, b), Z3_mk_int_sort(z3))); isyms.push_back({(uint32_t)e->c, w}); if (w > 16) r = {t, -p2(w - 1), p2(w - 1) - 1}; else r = {t, 0, p2(w) - 1}; break; }
      case O_ADD: { IT a = it(e->a), b = it(e->b); r = {i2('+', a.t, b.t), a.lo + b.lo, a.hi + b.hi}; break; }
      case O_SUB: { IT a = it(e->a), b = it(e->b); r = {i2('-', a.t, b.t), a.lo - b.hi, a.hi - b.lo}; break; }
      case O_MUL: { IT a = isgn(it(e->a), w), b = isgn(it(e->b), w); if (w > 48 && ((a.hi > p2(40) || a.lo < -p2(40)) && (b.hi > p2(40) || b.lo < -p2(40)))) throw IntFail(); __int128 c[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi}; r = {i2('*', a.t, b.t), *std::min_element(c, c + 4), *std::max_element(c, c + 4)}; break; }
      case O_UDIV: case O_UREM: { IT a = iuns(it(e->a), w), b = iuns(it(e->b), w); Z3_ast z = i2('=', b.t, iconst(0)); if (e->op == O_UDIV) { r = {i2('/', a.t, b.t), 0, a.hi}; if (b.lo <= 0) r = {iite(z, iconst(p2(w) - 1), r.t), 0, p2(w) - 1}; } else { r = {i2('%', a.t, b.t), 0, std::min(a.hi, b.hi)}; if (b.lo <= 0) r = {iite(z, a.t, r.t), 0, a.hi}; } break; }
      case O_SDIV: case O_SREM: { IT a = isgn(it(e->a), w), b = isgn(it(e->b), w); IT x = absv(a), y = absv(b); bool rem = e->op == O_SREM; IT q = {i2(rem ? '%' : '/', x.t, y.t), 0, rem ? std::min(x.hi, y.hi) : x.hi};
        IT n = neg(q); Z3_ast sgn; if (rem) { if (a.lo >= 0) r = q; else r = {iite(i2('<', a.t, iconst(0)), n.t, q.t), n.lo, q.hi}; }
        else { Z3_ast an = i2('<', a.t, iconst(0)), bn = i2('<', b.t, iconst(0)); sgn = keep(Z3_mk_xor(z3, an, bn)); r = {iite(sgn, n.t, q.t), n.lo, q.hi}; }
        if (b.lo <= 0 && b.hi >= 0) { Z3_ast z = i2('=', b.t, iconst(0)); if (rem) r = {iite(z, a.t, r.t), std::min(r.lo, a.lo), std::max(r.hi, a.hi)}; else r = {iite(z, iite(i2('<', a.t, iconst(0)), iconst(1), iconst(-1)), r.t), std::min(r.lo, (__int128)-1), std::max(r.hi, (__int128)1)}; } break; }
      case O_AND: { if (e->b->op == O_CONST && ((e->b->c + 1) & e->b->c) == 0 && e->b->c) { unsigned k = __builtin_popcountll(e->b->c); IT a = iuns(it(e->a), w); if (a.hi < p2(k)) r = a; else r = {i2('%', a.t, iconst(p2(k))), 0, p2(k) - 1}; break; } throw IntFail(); }
      case O_XOR: { if (e->b->op == O_CONST && e->b->c == maskw(w)) { IT a = it(e->a); r = {i2('-', iconst(-1), a.t), -1 - a.hi, -1 - a.lo}; break; } throw IntFail(); }
      case O_SHL: { if (e->b->op != O_CONST || e->b->c >= w) throw IntFail(); IT a = isgn(it(e->a), w); r = {i2('*', a.t, iconst(p2(e->b->c))), a.lo * p2(e->b->c), a.hi * p2(e->b->c)}; break; }
      case O_LSHR: { if (e->b->op != O_CONST || e->b->c >= w) throw IntFail(); IT a = iuns(it(e->a), w); r = {i2('/', a.t, iconst(p2(e->b->c))), 0, a.hi}; break; }
      case O_ASHR: { if (e->b->op != O_CONST || e->b->c >= w) throw IntFail(); IT a = isgn(it(e->a), w); r = {i2('/', a.t, iconst(p2(e->b->c))), std::min(a.lo, (__int128)0), std::max(a.hi, (__int128)0)}; break; }
      case O_ZEXT: r = iuns(it(e->a), e->a->w); break;
      case O_SEXT: { if (e->a->w == 1) { r = {iite(ib(e->a), iconst(-1), iconst(0)), -1, 0}; break; } r = isgn(it(e->a), e->a->w); break; }
      case O_EXTRACT: { IT a = it(e->a); if (e->lo) { a = iuns(a, e->a->w); a = {i2('/', a.t, iconst(p2(e->lo))), 0, a.hi}; } r = a; if (w == 1) r = iuns(r, 1); break; }
      case O_CONCAT: { IT a = it(e->a), b = iuns(it(e->b), e->b->w); a = isgn(a, e->a->w); r = {i2('+', i2('*', a.t, iconst(p2(e->b->w))), b.t), a.lo * p2(e->b->w) + b.lo, a.hi * p2(e->b->w) + b.hi}; break; }
      case O_ITE: { Z3_ast c = ib(e->a); IT a = it(e->b), b = it(e->d); r = {iite(c, a.t, b.t), std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; break; }
      default: throw IntFail();
    }
    if (r.lo < -p2(90) || r.hi > p2(90)) throw IntFail();
    icache[e->id] = r; return r;
  }
  Z3_ast ib(E e) {
    auto f = ibcache.find(e->id); if (f != ibcache.end()) return f->second; Z3_ast r; unsigned w = e->a ? e->a->w : 1;
    switch (e->op) {
      case O_CONST: r = keep(e->c ? Z3_mk_true(z3) : Z3_mk_false(z3)); break;
      case O_AND: { Z3_ast v[2] = {ib(e->a), ib(e->b)}; r = keep(Z3_mk_and(z3, 2, v)); break; }
      case O_OR: { Z3_ast v[2] = {ib(e->a), ib(e->b)}; r = keep(Z3_mk_or(z3, 2, v)); break; }
      case O_XOR: r = keep(Z3_mk_xor(z3, ib(e->a), ib(e->b))); break;
      case O_EQ: { if (w == 1) { r = keep(Z3_mk_iff(z3, ib(e->a), ib(e->b))); break; } IT a = it(e->a), b = it(e->b); bool ss = a.lo >= -p2(w - 1) && b.lo >= -p2(w - 1) && a.hi < p2(w - 1) && b.hi < p2(w - 1); bool uu = a.lo >= 0 && b.lo >= 0 && a.hi < p2(w) && b.hi < p2(w); if (!ss && !uu) { a = isgn(a, w); b = isgn(b, w); } r = i2('=', a.t, b.t); break; }
      case O_ULT: case O_ULE: { IT a = iuns(it(e->a), w), b = iuns(it(e->b), w); r = i2(e->op == O_ULT ? '<' : 'l', a.t, b.t); break; }
      case O_SLT: case O_SLE: { IT a = isgn(it(e->a), w), b = isgn(it(e->b), w); r = i2(e->op == O_SLT ? '<' : 'l', a.t, b.t); break; }
      case O_ITE: r = iite(ib(e->a), ib(e->b), ib(e->d)); break;
      default: { IT a = iuns(it(e), 1); r = i2('=', a.t, iconst(1)); }
    }
    ibcache[e->id] = r; return r;
  }
  // 1 sat, 0 unsat, -1 no answer
  int intCheck(State& s, const std::vector<E>& sl, E extra, uint64_t m, QRes& out) {
    try {
      isyms.clear(); icache.clear(); ibcache.clear(); std::vector<Z3_ast> as; for (E c : sl) as.push_back(ib(c)); as.push_back(ib(extra));
      if (!zi) { zi = Z3_mk_solver(z3); Z3_solver_inc_ref(z3, zi); Z3_params p = Z3_mk_params(z3); Z3_params_inc_ref(z3, p); Z3_params_set_uint(z3, p, Z3_mk_string_symbol(z3, "rlimit"), 40000000u); Z3_solver_set_params(z3, zi, p); }
      Z3_solver_push(z3, zi);
      for (auto a : as) Z3_solver_assert(z3, zi, a);
      std::set<uint32_t> have;
      for (auto& sy : isyms) { if (!have.insert(sy.first).second) continue; E se = X.symbol(sy.first, sy.second); IT t = icache[se->id]; Z3_solver_assert(z3, zi, i2('l', iconst(t.lo), t.t)); Z3_solver_assert(z3, zi, i2('l', t.t, iconst(t.hi)));
        if (sy.second == 8 && sy.first < s.dom.size() && s.dom[sy.first].p) { auto& d = s.dom[sy.first]->d; auto in = [&](int k) { return (d[k >> 6] >> (k & 63)) & 1; }; std::vector<Z3_ast> alts; int v = 0; while (v < 256) { if (!in(v)) { ++v; continue; } int lo = v; while (v < 256 && in(v)) ++v; Z3_ast p[2] = {i2('l', iconst(lo), t.t), i2('l', t.t, iconst(v - 1))}; alts.push_back(keep(Z3_mk_and(z3, 2, p))); } Z3_solver_assert(z3, zi, keep(alts.empty() ? Z3_mk_false(z3) : Z3_mk_or(z3, alts.size(), alts.data()))); } }
      Z3_lbool r = Z3_solver_check(z3, zi); int res = r == Z3_L_UNDEF ? -1 : r == Z3_L_TRUE;
      if (res == 1) {
        Z3_model zm = Z3_solver_get_model(z3, zi); Z3_model_inc_ref(z3, zm); out.m.clear();
        for (auto& sy : isyms) if (have.count(sy.first)) { Z3_ast v = nullptr; Z3_model_eval(z3, zm, icache[X.symbol(sy.first, sy.second)->id].t, true, &v); int64_t i64 = 0; Z3_get_numeral_int64(z3, v, &i64); out.m.push_back({sy.first, (uint64_t)i64 & maskw(sy.second)}); }
        Z3_model_dec_ref(z3, zm);
        // the model is checked by evaluating the bit-vector expressions
        Model* mm = cloneModel(s); for (auto& p : out.m) { if (mm->v.size() <= p.first) mm->v.resize(p.first + 1); mm->v[p.first] = p.second; }
        bool ok = X.eval(extra, mm->v.data(), mm->v.size(), mm->stamp); for (E c : sl) ok = ok && X.eval(c, mm->v.data(), mm->v.size(), mm->stamp); delete mm; if (!ok) die("integer translation disagrees with bit-vector semantics");
      }
      Z3_solver_pop(z3, zi, 1); ++nIntQ; return res;
    } catch (IntFail&) { return -1; }
  }
  // values of one wide symbol for which a comparison holds, as sorted disjoint intervals; nullptr: not of that form
  typedef std::pair<uint64_t, uint64_t> Iv; struct IvSet { bool ok; std::vector<Iv> v; };
  std::unordered_map<uint32_t, IvSet> ivCache;
  static std::vector<Iv> ivAnd(const std::vector<Iv>& a, const std::vector<Iv>& b) {
    std::vector<Iv> r; size_t i = 0, j = 0;
    while (i < a.size() && j < b.size()) { uint64_t lo = std::max(a[i].first, b[j].first), hi = std::min(a[i].second, b[j].second); if (lo <= hi) r.push_back({lo, hi}); if (a[i].second < b[j].second) ++i; else ++j; }
    return r;
  }
  static std::vector<Iv> ivNot(const std::vector<Iv>& a, unsigned w) {
    std::vector<Iv> r; uint64_t next = 0; for (auto& x : a) { if (x.first > next) r.push_back({next, x.first - 1}); if (x.second == maskw(w)) return r; next = x.second + 1; }
    r.push_back({next, maskw(w)}); return r;
  }
  unsigned ivWidth(E e) { if (e->op == O_SYM) return e->w; for (E k : {e->a, e->b, e->d}) if (k && k->mask) return ivWidth(k); return 0; }
  const IvSet* intervals(E e) {
    auto it = ivCache.find(e->id); if (it != ivCache.end()) return it->second.ok ? &it->second : nullptr;
    IvSet r{false, {}}; unsigned w = ivWidth(e);
    if (e->w == 1 && w > 8) {
      bool sx_ = e->op == O_SLT || e->op == O_SLE; uint64_t mx = maskw(w), half = 1ull << (w - 1);
      if (e->op == O_EQ && e->a->op == O_SYM && e->b->op == O_CONST) { r = {true, {{e->b->c, e->b->c}}}; }
      else if ((e->op == O_ULT || e->op == O_ULE || sx_) && e->a->op == O_SYM && e->b->op == O_CONST) {
        // order-preserving shift turns signed into unsigned order
        uint64_t c = sx_ ? (e->b->c ^ half) : e->b->c; bool strict = e->op == O_ULT || e->op == O_SLT; r.ok = true;
        if (!(strict && c == 0)) { uint64_t hi = strict ? c - 1 : c; if (!sx_) r.v = {{0, hi}}; else if (hi < half) r.v = {{half, hi + half}}; else { r.v.clear(); r.v.push_back({0, hi - half}); r.v.push_back({half, mx}); } }
      }
      else if ((e->op == O_ULT || e->op == O_ULE || sx_) && e->b->op == O_SYM && e->a->op == O_CONST) {
        uint64_t c = sx_ ? (e->a->c ^ half) : e->a->c; bool strict = e->op == O_ULT || e->op == O_SLT; r.ok = true;
        if (!(strict && c == mx)) { uint64_t lo = strict ? c + 1 : c; if (!sx_) r.v = {{lo, mx}}; else if (lo >= half) r.v = {{lo - half, half - 1}}; else { r.v.push_back({0, half - 1}); r.v.push_back({lo + half, mx}); } }
      }
      else if (e->op == O_XOR && e->b->op == O_CONST && e->b->c == 1) { if (auto* a = intervals(e->a)) r = {true, ivNot(a->v, w)}; }
      else if (e->op == O_AND || e->op == O_OR) { auto* a = intervals(e->a); auto* b = a ? intervals(e->b) : nullptr; if (a && b) { std::vector<Iv> x = a->v, y = b->v; r.ok = true; r.v = e->op == O_AND ? ivAnd(x, y) : ivNot(ivAnd(ivNot(x, w), ivNot(y, w)), w); } }
    }
    auto& slot = ivCache[e->id] = r; return slot.ok ? &slot : nullptr;
  }
  // every auditStride-th answer taken from the domain tables is asked again from the solver
  unsigned auditStride = 64; uint64_t nAudit = 0;
  void audit(State& s, E extra, bool want) {
    Model* m = nullptr; if (divides(extra)) return; for (E c : s.cons) if (divides(c)) return;
    ++nAudit; bool r = checkSat(s, extra, m, true); delete m; if (r != want) die("domain table and solver disagree");
  }
  // is (path condition and extra) satisfiable?  on sat returns a model
  bool checkSat(State& s, E extra, Model*& out, bool forceSolver = false) {
    out = nullptr;
    if (extra->op == O_CONST) { if (!extra->c) return false; out = cloneModel(s); return true; }
    if (extra->undef) die("internal: undef in solver query");
    if (!forceSolver && extra->sym != SYM_MANY && extra->sym != SYM_NONE) {
      auto& T = X.truth(extra); uint32_t sy = extra->sym; ExprCtx::Dom d = T;
      if (sy < s.dom.size() && s.dom[sy].p) for (int i = 0; i < 4; ++i) d[i] &= s.dom[sy]->d[i];
      if (!(d[0] | d[1] | d[2] | d[3])) { ++nFast; if (nFast % auditStride == 0) audit(s, extra, false); return false; }
      uint64_t bit = sy >= 63 ? 1ull << 63 : 1ull << sy;
      int tries = 0;
      bool multi = s.multiMask & bit;
      for (int i = 0; i < 4; ++i) { uint64_t b = d[i]; while (b && tries < 6) { unsigned v = i * 64 + __builtin_ctzll(b); b &= b - 1; ++tries;
        Model* m = cloneModel(s); if (m->v.size() <= sy) m->v.resize(sy + 1); m->v[sy] = v;
        bool ok = true; if (multi) for (E c : s.cons) if ((c->mask & bit) && !X.eval(c, m->v.data(), m->v.size(), m->stamp)) { ok = false; break; }
        if (ok) { ++nFast; if (nFast % auditStride == 0) audit(s, extra, true); out = m; return true; } delete m; } }
    }
    if (!forceSolver && extra->sym == SYM_MANY && extra->mask && !(extra->mask & (extra->mask - 1)) && !(extra->mask >> 63)) {
      // one wide symbol compared with constants only: decided on interval sets
      uint32_t sy = __builtin_ctzll(extra->mask); const IvSet* iv = intervals(extra);
      if (iv && sy < s.syms.size() && s.syms[sy].first > 8) {
        std::vector<Iv> cur = iv->v; bool ok = true;
        for (E c : s.cons) if (c->mask & extra->mask) { const IvSet* k = c->mask == extra->mask ? intervals(c) : nullptr; if (!k) { ok = false; break; } cur = ivAnd(cur, k->v); }
        if (ok) {
          ++nFast;
          if (cur.empty()) { if (nFast % auditStride == 0) audit(s, extra, false); return false; }
          if (nFast % auditStride == 0) audit(s, extra, true);
          Model* m = cloneModel(s); if (m->v.size() <= sy) m->v.resize(sy + 1); m->v[sy] = cur[0].first; out = m; return true;
        }
      }
    }
    // slice
    uint64_t m = extra->mask; std::vector<E> sl; std::vector<char> used(s.cons.size(), 0); bool ch = true;
    while (ch) { ch = false; for (size_t i = 0; i < s.cons.size(); ++i) if (!used[i] && (s.cons[i]->mask & m)) { used[i] = 1; sl.push_back(s.cons[i]); if (s.cons[i]->mask & ~m) { m |= s.cons[i]->mask; ch = true; } } }
    // cheap: current model satisfies?
    std::vector<uint32_t> ids; for (E c : sl) ids.push_back(c->id); std::sort(ids.begin(), ids.end());
    std::vector<uint64_t> h; h.push_back(extra->id); for (auto i : ids) h.push_back(i); h.push_back(~0ull);
    auto inSlice = [&](uint32_t i) { return i >= 63 ? (m >> 63) & 1 : (m >> i) & 1; };
    for (uint32_t i = 0; i < s.dom.size(); ++i) if (s.dom[i].p && inSlice(i)) { h.push_back(i); for (int k = 0; k < 4; ++k) h.push_back(s.dom[i]->d[k]); }
    auto it = qcache.find(h);
    const QRes* res; QRes tmp;
    if (it != qcache.end()) { ++nQcache; res = &it->second; }
    else {
      double t = now(); ++nQ;
      int ir = -1; bool dv = divides(extra); for (E c : sl) dv = dv || divides(c);
      if (dv) ir = intCheck(s, sl, extra, m, tmp);
      if (ir >= 0) { tmp.sat = ir; ir ? ++nQsat : ++nQunsat; }
      else {
      Z3_solver_push(z3, zs);
      std::string dump;
      for (E c : sl) Z3_solver_assert(z3, zs, zb(c));
      for (uint32_t i = 0; i < s.dom.size(); ++i) if (s.dom[i].p && inSlice(i)) Z3_solver_assert(z3, zs, zdom(i, s.dom[i]->d));
      Z3_solver_assert(z3, zs, zb(extra));
      Z3_lbool r = Z3_solver_check(z3, zs);
      if (Z3_get_error_code(z3) != Z3_OK) { die("z3 error"); }
      if (r == Z3_L_UNDEF) { die(std::string("solver gave no answer: ") + Z3_solver_get_reason_unknown(z3, zs)); }
      tmp.sat = r == Z3_L_TRUE;
      if (crossDump && (forceSolver || nQ % 37 == 0) && dumped.size() < 40) { std::string q = Z3_solver_to_string(z3, zs); q = "(set-logic QF_BV)\n" + q + "\n(check-sat)\n; expect " + (tmp.sat ? "sat" : "unsat") + "\n"; dumped.push_back(q); }
      if (tmp.sat) {
        Z3_model zm = Z3_solver_get_model(z3, zs); Z3_model_inc_ref(z3, zm);
        for (uint32_t i = 0; i < s.syms.size(); ++i) if (inSlice(i)) {
          Z3_ast v = nullptr; Z3_model_eval(z3, zm, zt(X.symbol(i, s.syms[i].first)), true, &v); uint64_t u = 0; Z3_get_numeral_uint64(z3, v, &u); tmp.m.push_back({i, u}); }
        Z3_model_dec_ref(z3, zm); ++nQsat;
      } else ++nQunsat;
      Z3_solver_pop(z3, zs, 1); }
      double dt = now() - t; if (verbose && dt > 1) { fprintf(stderr, "hsx: slow query (%.1f s) %s\n", dt, X.str(extra, 14).c_str()); for (E c : sl) fprintf(stderr, "   given %s\n", X.str(c, 10).c_str()); }
      solverT += dt; if (dt > maxQ) maxQ = dt;
      res = &(qcache[std::move(h)] = std::move(tmp));
    }
    if (!res->sat) return false;
    Model* nm = cloneModel(s); for (auto& p : res->m) { if (nm->v.size() <= p.first) nm->v.resize(p.first + 1); nm->v[p.first] = p.second; }
    out = nm; return true;
  }
  std::unordered_map<std::vector<uint64_t>, Z3_ast, KeyHash> zdomCache;
  Z3_ast zdom(uint32_t i, const ExprCtx::Dom& d) {
    std::vector<uint64_t> key{i, d[0], d[1], d[2], d[3]}; auto it = zdomCache.find(key); if (it != zdomCache.end()) return it->second;
    Z3_ast sy = zt(X.symbol(i, 8)); std::vector<Z3_ast> alts; int v = 0;
    auto in = [&](int k) { return (d[k >> 6] >> (k & 63)) & 1; };
    while (v < 256) { if (!in(v)) { ++v; continue; } int lo = v; while (v < 256 && in(v)) ++v; int hi = v - 1;
      Z3_ast a; if (lo == hi) a = Z3_mk_eq(z3, sy, zconst(lo, 8)); else { Z3_ast p[2] = {Z3_mk_bvuge(z3, sy, zconst(lo, 8)), Z3_mk_bvule(z3, sy, zconst(hi, 8))}; a = Z3_mk_and(z3, 2, p); } alts.push_back(a); }
    Z3_ast r = alts.empty() ? Z3_mk_false(z3) : Z3_mk_or(z3, alts.size(), alts.data()); Z3_inc_ref(z3, r); zdomCache[key] = r; return r;
  }
  static bool single(const ExprCtx::Dom& d) { int k = 0; for (int i = 0; i < 4; ++i) k += __builtin_popcountll(d[i]); return k == 1; }
  // symbol i has one value left: put it into the constraints that mention it
  void settle(State& s, uint32_t i) {
    const uint64_t bit = X.symbol(i, 8)->mask; if (!(s.multiMask & bit)) return;
    std::vector<E> old; old.swap(s.cons); s.multiMask = 0;
    for (E k : old) { if (k->mask & bit) { Simp S; k = simp(s, k, S); } addCons(s, k); }
  }
  void addCons(State& s, E c) {
    if (c->op == O_CONST) return;
    if (c->op == O_AND && c->w == 1 && c->sym == SYM_MANY) { addCons(s, c->a); addCons(s, c->b); return; }
    if (c->sym != SYM_MANY && c->sym != SYM_NONE) {
      if (s.dom.size() <= c->sym) s.dom.resize(c->sym + 1);
      auto& r = s.dom[c->sym]; DomNode* n = new DomNode; if (r.p) n->d = r->d; else n->d = {~0ull, ~0ull, ~0ull, ~0ull};
      auto& T = X.truth(c); for (int i = 0; i < 4; ++i) n->d[i] &= T[i]; const bool was = r.p && single(r.p->d), is = single(n->d); r = Rc<DomNode>(n);
      if (is && !was) settle(s, c->sym);
      return;
    }
    for (E k : s.cons) if (k == c) return;
    s.cons.push_back(c); s.multiMask |= c->mask;
  }
  struct PathEnd {};
  // syntactically implied by the path condition?
  bool known(State& s, E c) {
    if (c->op == O_CONST) return c->c;
    if (c->op == O_AND && c->w == 1 && c->sym == SYM_MANY) return known(s, c->a) && known(s, c->b);
    if (c->sym != SYM_MANY && c->sym != SYM_NONE) {
      if (c->sym >= s.dom.size() || !s.dom[c->sym].p) return false;
      auto& T = X.truth(c); auto& d = s.dom[c->sym]->d; for (int i = 0; i < 4; ++i) if (d[i] & ~T[i]) return false; return true;
    }
    for (E k : s.cons) if (k == c) return true;
    return false;
  }
  // e with every condition that the path condition already decides replaced by its value
  struct Simp { std::unordered_map<uint32_t, E> memo; std::unordered_map<uint32_t, bool> facts; int budget = 4000; };
  E simp(State& s, E e, Simp& S) {
    if (e->op == O_SYM && e->sym < s.dom.size() && s.dom[e->sym].p && single(s.dom[e->sym].p->d)) { auto& d = s.dom[e->sym].p->d; for (int i = 0; i < 4; ++i) if (d[i]) return X.konst(64 * i + __builtin_ctzll(d[i]), 8); }
    if (e->op == O_CONST || e->op == O_SYM || e->undef) return e;
    auto it = S.memo.find(e->id); if (it != S.memo.end()) return it->second;
    if (--S.budget < 0) return e;
    E r = e;
    if (e->w == 1) {
      auto f = S.facts.find(e->id); if (f != S.facts.end()) return X.konst(f->second, 1);
      if (e->sym != SYM_MANY && e->sym != SYM_NONE) {
        if (e->sym < s.dom.size() && s.dom[e->sym].p) {
          auto& T = X.truth(e); auto& d = s.dom[e->sym]->d; bool t = true, n = true; for (int i = 0; i < 4; ++i) { if (d[i] & ~T[i]) t = false; if (d[i] & T[i]) n = false; }
          if (t != n) r = X.konst(t, 1);
        }
        S.memo[e->id] = r; return r;
      }
    }
    E a = e->a ? simp(s, e->a, S) : nullptr;
    if (e->op == O_ITE) { if (a->op == O_CONST) r = simp(s, a->c ? e->b : e->d, S); else { E b = simp(s, e->b, S), d = simp(s, e->d, S); if (a != e->a || b != e->b || d != e->d) r = X.ite(a, b, d); } }
    else {
      E b = e->b ? simp(s, e->b, S) : nullptr;
      if (a != e->a || b != e->b) switch (e->op) {
        case O_ZEXT: r = X.zext(a, e->w); break;
        case O_SEXT: r = X.sext(a, e->w); break;
        case O_EXTRACT: r = X.extract(a, e->lo, e->w); break;
        case O_CONCAT: r = X.concat(a, b); break;
        default: r = X.bin(e->op, a, b);
      }
    }
    S.memo[e->id] = r; return r;
  }
  E simplified(State& s, E c) {
    if (c->sym != SYM_MANY || c->undef) return c;
    Simp S; for (E k : s.cons) { S.facts[k->id] = true; S.facts[X.notE(k)->id] = false; }
    return simp(s, c, S);
  }
  // decide a symbolic boolean in state s: returns direction taken by s; forks the other one if feasible.
  bool decide(State& s, E c) {
    if (c->op == O_CONST) return c->c;
    if (c->undef) { violation(s, "uninitialised", "decision depends on uninitialised memory"); throw PathEnd(); }
    ++nBranches; ++s.branches;
    if (c->sym == SYM_MANY) {
      E k = simplified(s, c);
      if (k->op == O_CONST) { ++nFast; if (nFast % auditStride == 0) audit(s, k->c ? X.notE(c) : c, false); return k->c; }
      c = k;
    }
    bool dir = inModel(s, c);
    E taken = dir ? c : X.notE(c), other = dir ? X.notE(c) : c;
    if (known(s, taken)) { ++nFast; if (nFast % auditStride == 0) audit(s, other, false); return dir; }
    Model* m;
    if (checkSat(s, other, m)) {
      State* n = new State(s); addCons(*n, other); n->model = Rc<Model>(m); n->depth++; push(n); ++nForks; addCons(s, taken); s.depth++;
    } else if (taken->sym == SYM_MANY) { /* implied: no need to record */ }
    return dir;
  }
  void push(State* n) { work.push_back(n); }
  uint64_t concretize(State& s, Val v, unsigned w) {
    if (!v.e) return v.c;
    if (v.e->undef) { violation(s, "uninitialised", "value depends on uninitialised memory"); throw PathEnd(); }
    uint64_t k = evalM(s, v.e); E eq = X.bin(O_EQ, v.e, X.konst(k, v.e->w));
    if (!decide(s, eq)) abort();
    return k;
  }
  E toE(Val v, unsigned w) { return v.e ? v.e : X.konst(v.c, w); }
  Val mk(E e) { if (e->op == O_CONST) return {e->c, nullptr}; return {0, e}; }

  // ---------------------------------------------------------------- reporting
  std::string loc(const Inst* i) {
    if (!i || !i->I) return "?"; if (auto& L = i->I->getDebugLoc()) { std::string r = L->getFilename().str() + ":" + std::to_string(L->getLine()); return r; } return "?";
  }
  std::string demN(const Func* f) { return demangle(f->name); }
  std::vector<std::string> stackOf(State& s) {
    std::vector<std::string> r; for (size_t i = s.frames.size(); i-- > 0 && r.size() < 24;) { auto& fr = s.frames[i]; const Inst* pc = fr.pc; if (i + 1 < s.frames.size()) pc = fr.pc; r.push_back(demN(fr.f).substr(0, 160) + " @ " + loc(pc)); } return r;
  }
  std::string jesc(const std::string& s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
  std::string assignment(State& s, Model* m) {
    std::string r = "["; for (size_t i = 0; i < s.syms.size(); ++i) { uint64_t v = i < m->v.size() ? m->v[i] & maskw(s.syms[i].first) : 0; if (i) r += ","; r += "[\"" + jesc(symNames[s.syms[i].second]) + "\"," + std::to_string(s.syms[i].first) + "," + std::to_string(v) + "]"; } return r + "]";
  }
  void violation(State& s, const std::string& kind, const std::string& label, Model* m = nullptr) {
    Violation v; v.kind = kind; v.label = label; v.stack = stackOf(s);
    for (auto& fr : v.stack) { if (fr.find("/repo/") != std::string::npos || fr.find("hext::") != std::string::npos) { v.where = fr; break; } } if (v.where.empty() && !v.stack.empty()) v.where = v.stack[0];
    std::string key = kind + "|" + label + (kind == "assert" ? "" : "|" + v.where);
    if (violKeys.count(key)) return; violKeys.insert(key);
    v.assign = assignment(s, m ? m : s.model.p); viols.push_back(v);
    if (verbose) { fprintf(stderr, "VIOL %s: %s\n", kind.c_str(), label.c_str()); for (auto& l : v.stack) fprintf(stderr, "   %s\n", l.c_str()); fprintf(stderr, "   %s\n", v.assign.c_str()); }
    if (sh->stop.fetch_add(1) + 1 >= maxViol) { }
  }
  [[noreturn]] void vend(State& s, const std::string& kind, const std::string& label) { violation(s, kind, label); throw PathEnd(); }

  // ---------------------------------------------------------------- memory
  struct Loc { uint64_t id; uint32_t off; };
  Loc check(State& s, uint64_t addr, uint64_t n, bool write) {
    uint64_t id = addr >> 24, off = addr & 0xffffff; Obj* o = (addr >> 62) ? nullptr : s.mem.get(id);
    if (!o) {
      if (addr < 4096) vend(s, "memory", std::string("null pointer ") + (write ? "write" : "read"));
      if (id < s.mem.nextId && !(addr >> 62)) vend(s, "memory", std::string(write ? "write to" : "read of") + " freed or out-of-scope memory");
      vend(s, "memory", std::string("wild pointer ") + (write ? "write" : "read"));
    }
    if (off + n > o->size) vend(s, "memory", std::string("out-of-bounds ") + (write ? "write" : "read") + " of " + kindName[o->kind] + " object");
    if (write) {
      if (o->readonly) vend(s, "memory", "write to constant");
      if (id < s.freezeBelow && id != errnoObj && !tlsObjs.count(id)) vend(s, "purity", "write to memory that existed before the call and must not change");
    }
    return {id, (uint32_t)off};
  }
  Val readObj(Obj* o, uint32_t off, unsigned w) {
    unsigned n = (w + 7) / 8;
    if (!o->sym && !o->init) { uint64_t v = 0; memcpy(&v, o->data + off, n); return {v & maskw(w), nullptr}; }
    bool symb = false; for (unsigned i = 0; i < n; ++i) if ((o->sym && o->sym[off + i]) || (o->init && !o->init[off + i])) { symb = true; break; }
    if (!symb) { uint64_t v = 0; memcpy(&v, o->data + off, n); return {v & maskw(w), nullptr}; }
    auto byte = [&](unsigned i) -> E { if (o->init && !o->init[off + i]) return X.undef8(); if (o->sym && o->sym[off + i]) return o->sym[off + i]; return X.konst(o->data[off + i], 8); };
    E e = byte(0); for (unsigned i = 1; i < n; ++i) e = X.concat(byte(i), e);
    if (n * 8 != w) e = X.extract(e, 0, w);
    return mk(e);
  }
  void writeObj(Obj* o, uint32_t off, unsigned w, Val v) {
    unsigned n = (w + 7) / 8;
    if (o->init) { for (unsigned i = 0; i < n; ++i) o->init[off + i] = 1; }
    if (!v.e) { memcpy(o->data + off, &v.c, n); if (o->sym) for (unsigned i = 0; i < n; ++i) o->sym[off + i] = nullptr; return; }
    if (!o->sym) o->sym = (E*)calloc(o->size, sizeof(E));
    E e = n * 8 == w ? v.e : X.zext(v.e, n * 8);
    for (unsigned i = 0; i < n; ++i) { E b = X.extract(e, i * 8, 8); if (b->op == O_CONST) { o->data[off + i] = b->c; o->sym[off + i] = nullptr; } else if (b == X.undefByte) { if (!o->init) { o->init = (uint8_t*)malloc(o->size); memset(o->init, 1, o->size); } o->init[off + i] = 0; o->sym[off + i] = nullptr; } else o->sym[off + i] = b; }
  }
  // make address concrete or return candidate offsets
  Val load(State& s, Val addr, unsigned w) {
    unsigned n = (w + 7) / 8;
    if (!addr.e) { Loc l = check(s, addr.c, n, false); return readObj(s.mem.get(l.id), l.off, w); }
    if (addr.e->undef) vend(s, "uninitialised", "address depends on uninitialised memory");
    uint64_t v = evalM(s, addr.e); Loc l = check(s, v, n, false); Obj* o = s.mem.get(l.id); uint64_t base = l.id << 24;
    E rel = X.bin(O_SUB, addr.e, X.konst(base, 64)); E in = X.bin(O_ULE, rel, X.konst(o->size - n, 64));
    if (!decide(s, in)) abort();
    E r = addr.e;
    if (r->sym != SYM_MANY && r->sym != SYM_NONE) {
      // unary index: exact enumeration of the feasible byte values as one expression
      uint32_t sy = r->sym; std::map<std::pair<uint64_t, E>, std::vector<unsigned>> groups; auto& scr = X.scratch; if (scr.size() <= sy) scr.resize(sy + 64);
      for (unsigned k = 0; k < 256; ++k) { if (sy < s.dom.size() && s.dom[sy].p && !((s.dom[sy]->d[k >> 6] >> (k & 63)) & 1)) continue; scr[sy] = k; uint64_t a = X.eval(r, scr.data(), scr.size(), ++X.stampGen); if (a < base || a - base > o->size - n) continue; Val x = readObj(o, (uint32_t)(a - base), w); groups[{x.e ? 0 : x.c, x.e}].push_back(k); }
      if (groups.size() <= 64 || true) {
        const std::vector<unsigned>* big = nullptr; for (auto& g : groups) if (!big || g.second.size() > big->size()) big = &g.second;
        E res = nullptr; for (auto& g : groups) if (&g.second == big) res = g.first.second ? g.first.second : X.konst(g.first.first, w);
        E se = X.symbol(sy, 8);
        for (auto& g : groups) if (&g.second != big) { E c = X.konst(0, 1); auto& vs = g.second; for (size_t i = 0; i < vs.size();) { size_t j = i; while (j + 1 < vs.size() && vs[j + 1] == vs[j] + 1) ++j; E t = i == j ? X.bin(O_EQ, se, X.konst(vs[i], 8)) : X.bin(O_AND, X.bin(O_ULE, X.konst(vs[i], 8), se), X.bin(O_ULE, se, X.konst(vs[j], 8))); c = X.bin(O_OR, c, t); i = j + 1; }
          res = X.ite(c, g.first.second ? g.first.second : X.konst(g.first.first, w), res); }
        return mk(res);
      }
    }
    if (o->size - n + 1 <= 48) {
      E res = nullptr; for (uint32_t off = 0; off + n <= o->size; ++off) { Val x = readObj(o, off, w); E xe = toE(x, w); if (xe->undef) { res = nullptr; break; } res = res ? X.ite(X.bin(O_EQ, rel, X.konst(off, 64)), xe, res) : xe; }
      if (res) return mk(res);
    }
    uint64_t a = concretize(s, addr, 64); l = check(s, a, n, false); return readObj(s.mem.get(l.id), l.off, w);
  }
  void store(State& s, Val addr, unsigned w, Val v) {
    uint64_t a = addr.e ? resolveW(s, addr, (w + 7) / 8) : addr.c; Loc l = check(s, a, (w + 7) / 8, true);
    writeObj(s.mem.getw(l.id), l.off, w, v);
  }
  uint64_t resolveW(State& s, Val addr, unsigned n) {
    if (addr.e->undef) vend(s, "uninitialised", "address depends on uninitialised memory");
    uint64_t v = evalM(s, addr.e); check(s, v, n, true); return concretize(s, addr, 64);
  }
  uint64_t allocObj(State& s, uint64_t n, Kind k, const void* site, bool init) {
    if (n >= (1u << 24)) vend(s, "memory", "allocation too large for the model (>= 16 MB)");
    Obj* o = new Obj((uint32_t)n, k, init); o->site = site; return s.mem.add(o) << 24;
  }
  void freeObj(State& s, uint64_t addr, Kind k1, const char* what) {
    if (!addr) return; uint64_t id = addr >> 24; Obj* o = (addr >> 62) ? nullptr : s.mem.get(id);
    if (!o) vend(s, "memory", std::string(what) + ": double free or wild pointer");
    if (addr & 0xffffff) vend(s, "memory", std::string(what) + ": pointer into the middle of an object");
    if (o->kind != k1) vend(s, "memory", std::string(what) + " of memory obtained by " + kindName[o->kind]);
    if (id < s.freezeBelow) vend(s, "purity", "released memory that existed before the call and must not change");
    s.mem.del(id);
  }
  std::string cstr(State& s, uint64_t a) { std::string r; for (;;) { Loc l = check(s, a, 1, false); Val v = readObj(s.mem.get(l.id), l.off, 8); uint64_t c = v.e ? evalM(s, v.e) : v.c; if (!c) break; r += (char)c; ++a; if (r.size() > 4000) break; } return r; }

  // ---------------------------------------------------------------- frames / exceptions
  Val& R(State& s, int32_t i) { return s.regs[s.frames.back().base + i]; }
  Val get(State& s, int32_t i) { return i >= 0 ? s.regs[s.frames.back().base + i] : s.frames.back().f->consts[~i]; }
  void enter(State& s, const Func* cf, const std::vector<Val>& args, uint64_t onRet = 0) {
    Func* f = const_cast<Func*>(cf); if (!f->decoded) decode(f);
    if (f->F->isDeclaration()) die("call of undefined function " + f->name);
    if (s.frames.size() > 3000) vend(s, "stack", "call depth exceeds 3000 frames");
    Frame fr; fr.f = f; fr.base = (uint32_t)s.regs.size(); fr.allocMark = (uint32_t)s.allocas.size(); fr.onRetFree = onRet; fr.pc = &f->code[0];
    s.regs.resize(fr.base + f->nregs);
    for (size_t i = 0; i < args.size() && i < f->argSlots.size(); ++i) s.regs[fr.base + f->argSlots[i]] = args[i];
    s.frames.push_back(fr); f->entered = true; f->bbSeen[0] = 1;
  }
  void popFrame(State& s) {
    Frame& fr = s.frames.back(); while (s.allocas.size() > fr.allocMark) { s.mem.del(s.allocas.back()); s.allocas.pop_back(); }
    s.regs.resize(fr.base); s.frames.pop_back();
  }
  void jump(State& s, const Edge& e) {
    Frame& fr = s.frames.back();
    if (e.copies.size() == 1) { Val v = get(s, e.copies[0].second); s.regs[fr.base + e.copies[0].first] = v; }
    else if (!e.copies.empty()) { Val tmp[64]; std::vector<Val> big; Val* t = tmp; if (e.copies.size() > 64) { big.resize(e.copies.size()); t = big.data(); } size_t k = 0; for (auto& c : e.copies) t[k++] = get(s, c.second); k = 0; for (auto& c : e.copies) s.regs[fr.base + c.first] = t[k++]; }
    fr.pc = &fr.f->code[fr.f->bbStart[e.target]]; const_cast<Func*>(fr.f)->bbSeen[e.target] = 1;
  }
  // ti: address of type_info of thrown object; want: catch type. returns true + adjusted pointer
  bool upcast(State& s, uint64_t ti, uint64_t want, uint64_t obj, uint64_t& adj) {
    if (ti == want) { adj = obj; return true; }
    uint64_t vptr = rd64(s, ti); uint64_t vid = vptr >> 24;
    if (vid == vt_si && vt_si) return upcast(s, rd64(s, ti + 16), want, obj, adj);
    if (vid == vt_vmi && vt_vmi) { uint32_t nb = (uint32_t)rdN(s, ti + 20, 32); for (uint32_t i = 0; i < nb; ++i) { uint64_t bt = rd64(s, ti + 24 + 16 * i); int64_t fl = (int64_t)rd64(s, ti + 32 + 16 * i); if (!(fl & 2)) continue; int64_t off = fl >> 8; uint64_t p = obj; if (fl & 1) { if (obj) { uint64_t vt = rd64(s, obj); off = (int64_t)rd64(s, vt + off); } else off = 0; } if (upcast(s, bt, want, p + off, adj)) return true; } }
    return false;
  }
  uint64_t rdN(State& s, uint64_t a, unsigned w) { Loc l = check(s, a, w / 8, false); Val v = readObj(s.mem.get(l.id), l.off, w); if (v.e) die("symbolic type info"); return v.c; }
  uint64_t rd64(State& s, uint64_t a) { return rdN(s, a, 64); }
  ExcInfo* findExc(State& s, uint64_t obj) { for (auto& e : s.excs) if (e.obj == obj) return &e; return nullptr; }
  // returns 0 = nothing, 1 = cleanup, 2 = handler
  int lpadMatch(State& s, const LandingPadInst* L, ExcInfo& ex, int& sel, uint64_t& adj) {
    for (unsigned i = 0; i < L->getNumClauses(); ++i) {
      if (L->isCatch(i)) { auto* c = L->getClause(i)->stripPointerCasts(); if (isa<ConstantPointerNull>(c)) { sel = 0x7fffffff; adj = ex.obj; return 2; } if (upcast(s, ex.ti, constAddr(c), ex.obj, adj)) { sel = typeId(c); return 2; } }
      else { /* filter: exception specification */ sel = -1; auto* c = L->getClause(i); if (c->getType()->isArrayTy() && c->getType()->getArrayNumElements() == 0) { adj = ex.obj; return 2; } }
    }
    return L->isCleanup() ? 1 : 0;
  }
  void unwind(State& s, uint64_t obj) {
    ExcInfo* ex = findExc(s, obj); if (!ex) die("unwind without exception");
    // phase 1
    bool found = false; int sel; uint64_t adj;
    for (size_t i = s.frames.size(); i-- > 0;) { const Inst* pc = s.frames[i].pc; if (pc->op == I_CALL && pc->edges.size() == 2) { auto* L = cast<InvokeInst>(pc->I)->getLandingPadInst(); if (lpadMatch(s, L, *ex, sel, adj) == 2) { found = true; break; } } }
    if (!found) { std::string t = "?"; for (auto& G : gaddr) if (G.second == ex->ti) t = demangle(G.first->getName().str()); vend(s, "exception", "exception escapes: " + t); }
    while (!s.frames.empty()) {
      const Inst* pc = s.frames.back().pc;
      if (pc->op == I_CALL && pc->edges.size() == 2) {
        auto* L = cast<InvokeInst>(pc->I)->getLandingPadInst(); int k = lpadMatch(s, L, *ex, sel, adj);
        if (k) {
          if (k == 1) sel = 0; else ex->adj = adj;
          jump(s, pc->edges[1]);
          const Inst* lp = s.frames.back().pc; if (lp->op != I_LPAD) die("landingpad expected");
          R(s, lp->dst) = {obj, nullptr}; R(s, lp->dst + 1) = {(uint64_t)(uint32_t)sel, nullptr}; s.frames.back().pc = lp + 1; return;
        }
      }
      popFrame(s);
    }
    die("unwind fell off the stack");
  }

  // ---------------------------------------------------------------- execution
  E icmpE(unsigned p, E a, E b) {
    switch (p) {
      case CmpInst::ICMP_EQ: return X.bin(O_EQ, a, b); case CmpInst::ICMP_NE: return X.notE(X.bin(O_EQ, a, b));
      case CmpInst::ICMP_ULT: return X.bin(O_ULT, a, b); case CmpInst::ICMP_ULE: return X.bin(O_ULE, a, b); case CmpInst::ICMP_UGT: return X.bin(O_ULT, b, a); case CmpInst::ICMP_UGE: return X.bin(O_ULE, b, a);
      case CmpInst::ICMP_SLT: return X.bin(O_SLT, a, b); case CmpInst::ICMP_SLE: return X.bin(O_SLE, a, b); case CmpInst::ICMP_SGT: return X.bin(O_SLT, b, a); default: return X.bin(O_SLE, b, a);
    }
  }
  static bool icmpC(unsigned p, uint64_t a, uint64_t b, unsigned w) {
    switch (p) {
      case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_ULE: return a <= b; case CmpInst::ICMP_UGT: return a > b; case CmpInst::ICMP_UGE: return a >= b;
      case CmpInst::ICMP_SLT: return sx(a, w) < sx(b, w); case CmpInst::ICMP_SLE: return sx(a, w) <= sx(b, w); case CmpInst::ICMP_SGT: return sx(a, w) > sx(b, w); default: return sx(a, w) >= sx(b, w);
    }
  }
  Val binop(State& s, unsigned op, Val a, Val b, unsigned w) {
    if (op >= O_UDIV && op <= O_SREM) {
      if (b.e) { E z = X.bin(O_EQ, b.e, X.konst(0, w)); if (decide(s, z)) vend(s, "arithmetic", "division by zero"); }
      else if (!b.c) vend(s, "arithmetic", "division by zero");
    }
    if (!a.e && !b.e) return {ExprCtx::fold((Op)op, w, a.c, b.c, w), nullptr};
    return mk(X.bin((Op)op, toE(a, w), toE(b, w)));
  }

  void runPath(State* sp) {
    State& s = *sp;
    try {
      while (true) {
        if (++s.steps > maxSteps) { vend(s, "nontermination", "instruction limit exceeded on one path"); }
        if ((s.steps & 0xfffff) == 0) { if (now() - t0 > timeLimit) die("time limit"); if (sh->stop.load() >= maxViol) throw PathEnd(); }
        ++nSteps;
        const Inst& x = *s.frames.back().pc;
        if (trace) { std::string t; raw_string_ostream os(t); x.I->print(os); fprintf(stderr, "%*s%s | %s\n", (int)s.frames.size(), "", demN(s.frames.back().f).substr(0, 40).c_str(), os.str().substr(0, 150).c_str()); }
        switch (x.op) {
          case I_BIN:
            if (x.n == 1) { Val a = get(s, x.a), b = get(s, x.b); Val r = binop(s, x.sub, a, b, x.w); R(s, x.dst) = r; }
            else for (unsigned i = 0; i < x.n; ++i) { Val r = binop(s, x.sub, get(s, x.args[i]), get(s, x.args[x.n + i]), x.w); R(s, x.dst + i) = r; }
            break;
          case I_ICMP:
            for (unsigned i = 0; i < x.n; ++i) { Val a = x.n == 1 ? get(s, x.a) : get(s, x.args[i]), b = x.n == 1 ? get(s, x.b) : get(s, x.args[x.n + i]); Val r; if (!a.e && !b.e) r.c = icmpC(x.sub, a.c, b.c, x.w); else r = mk(icmpE(x.sub, toE(a, x.w), toE(b, x.w))); R(s, x.dst + i) = r; }
            break;
          case I_CAST: execCast(s, x); break;
          case I_MOV: R(s, x.dst) = get(s, x.args[0]); break;
          case I_MOVS: { if (x.n == 1) { R(s, x.dst) = get(s, x.args[0]); break; } std::vector<Val> t; for (auto a : x.args) t.push_back(get(s, a)); for (unsigned i = 0; i < x.n; ++i) R(s, x.dst + i) = t[i]; break; }
          case I_FREEZE: { for (unsigned i = 0; i < x.n; ++i) { Val v = get(s, x.args[i]); if (v.e && v.e->undef) v = {0, nullptr}; R(s, x.dst + i) = v; } break; }
          case I_GEP: {
            Val b = get(s, x.a); uint64_t off = x.imm[0]; E se = b.e; uint64_t base = b.c;
            for (size_t i = 0; i < x.args.size(); ++i) { Val v = get(s, x.args[i]); uint64_t sz = x.imm[1 + 2 * i]; unsigned w = (unsigned)x.imm[2 + 2 * i]; if (!v.e) off += (uint64_t)sx(v.c, w) * sz; else { E t = X.bin(O_MUL, X.sext(v.e, 64), X.konst(sz, 64)); se = se ? X.bin(O_ADD, se, t) : t; } }
            if (!se) R(s, x.dst) = {base + off, nullptr}; else { if (b.e) R(s, x.dst) = mk(X.bin(O_ADD, se, X.konst(off, 64))); else R(s, x.dst) = mk(X.bin(O_ADD, se, X.konst(base + off, 64))); }
            break; }
          case I_ALLOCA: { uint64_t n = concretize(s, get(s, x.a), 64); uint64_t a = allocObj(s, n * x.imm[0], K_STACK, x.I, false); s.allocas.push_back(a >> 24); R(s, x.dst) = {a, nullptr}; break; }
          case I_LOAD: {
            Val a = get(s, x.a);
            if (x.leaves.size() == 1) { Val v = load(s, a, x.leaves[0].w); R(s, x.dst) = v; }
            else { uint64_t c = a.e ? concretize(s, a, 64) : a.c; for (unsigned i = 0; i < x.leaves.size(); ++i) { Val v = load(s, {c + x.leaves[i].off, nullptr}, x.leaves[i].w); R(s, x.dst + i) = v; } }
            break; }
          case I_STORE: {
            Val a = get(s, x.a);
            if (x.leaves.size() == 1) store(s, a, x.leaves[0].w, get(s, x.args[0]));
            else { uint64_t c = a.e ? concretize(s, a, 64) : a.c; for (unsigned i = 0; i < x.leaves.size(); ++i) store(s, {c + x.leaves[i].off, nullptr}, x.leaves[i].w, get(s, x.args[i])); }
            break; }
          case I_SELECT: {
            if (x.sub == 2) { for (unsigned i = 0; i < x.n; ++i) { Val c = get(s, x.args[2 * x.n + i]); Val t = get(s, x.args[i]), f = get(s, x.args[x.n + i]); R(s, x.dst + i) = !c.e ? (c.c ? t : f) : mk(X.ite(c.e, toE(t, x.leaves[i].w), toE(f, x.leaves[i].w))); } break; }
            Val c = get(s, x.a); 
            if (!c.e || x.sub == 1 || x.n > 1) { bool t = c.e ? decide(s, c.e) : c.c; std::vector<Val> v; for (unsigned i = 0; i < x.n; ++i) v.push_back(get(s, x.args[(t ? 0 : x.n) + i])); for (unsigned i = 0; i < x.n; ++i) R(s, x.dst + i) = v[i]; }
            else { Val t = get(s, x.args[0]), f = get(s, x.args[1]); 
              R(s, x.dst) = mk(X.ite(c.e, toE(t, x.w), toE(f, x.w))); }
            break; }
          case I_BR: jump(s, x.edges[0]); continue;
          case I_CBR: { Val c = get(s, x.a); bool t = c.e ? decide(s, c.e) : c.c & 1; jump(s, x.edges[t ? 0 : 1]); continue; }
          case I_SWITCH: {
            Val v = get(s, x.a);
            if (!v.e) { size_t k = 0; for (; k < x.imm.size(); ++k) if (x.imm[k] == v.c) break; jump(s, x.edges[k < x.imm.size() ? k + 1 : 0]); continue; }
            if (v.e->undef) vend(s, "uninitialised", "switch on uninitialised memory");
            { // group cases by successor
              uint64_t mv = evalM(s, v.e); int tgt = 0; for (size_t k = 0; k < x.imm.size(); ++k) if (x.imm[k] == mv) tgt = (int)k + 1;
              int bb = x.edges[tgt].target; E c = X.konst(0, 1);
              bool def = x.edges[0].target == bb && x.edges[0].copies == x.edges[tgt].copies;
              if (def) { for (size_t k = 0; k < x.imm.size(); ++k) if (!(x.edges[k + 1].target == bb && x.edges[k + 1].copies == x.edges[0].copies)) c = X.bin(O_OR, c, X.bin(O_EQ, v.e, X.konst(x.imm[k], x.w))); c = X.notE(c); tgt = 0; }
              else for (size_t k = 0; k < x.imm.size(); ++k) if (x.edges[k + 1].target == bb && x.edges[k + 1].copies == x.edges[tgt].copies) c = X.bin(O_OR, c, X.bin(O_EQ, v.e, X.konst(x.imm[k], x.w)));
              if (!decide(s, c)) abort();
              jump(s, x.edges[tgt]); continue; } }
          case I_CALL: if (execCall(s, x)) continue; break;
          case I_RET: {
            std::vector<Val> rv; for (auto a : x.args) rv.push_back(get(s, a));
            uint64_t onRet = s.frames.back().onRetFree; popFrame(s);
            if (onRet) { finishExc(s, onRet); }
            if (s.frames.empty()) { return; }
            const Inst& c = *s.frames.back().pc;
            if (!onRet || true) { if (c.dst >= 0 && c.builtin == -1) for (unsigned i = 0; i < c.n && i < rv.size(); ++i) R(s, c.dst + i) = rv[i]; }
            if (c.edges.size() == 2) { jump(s, c.edges[0]); } else s.frames.back().pc = &c + 1;
            continue; }
          case I_UNREACH: vend(s, "unreachable", "unreachable code executed");
          case I_LPAD: die("landingpad reached by fallthrough");
          case I_RESUME: { Val v = get(s, x.args[0]); unwindFromResume(s, v.c); continue; }
          case I_ATOMRMW: {
            Val a = get(s, x.a), b = get(s, x.b); uint64_t fz = s.freezeBelow; Val old = load(s, a, x.w); Val nv;
            switch (x.sub) { case AtomicRMWInst::Add: nv = binop(s, O_ADD, old, b, x.w); break; case AtomicRMWInst::Sub: nv = binop(s, O_SUB, old, b, x.w); break; case AtomicRMWInst::And: nv = binop(s, O_AND, old, b, x.w); break; case AtomicRMWInst::Or: nv = binop(s, O_OR, old, b, x.w); break; case AtomicRMWInst::Xor: nv = binop(s, O_XOR, old, b, x.w); break; case AtomicRMWInst::Xchg: nv = b; break; default: die("atomicrmw"); }
            s.freezeBelow = 0; store(s, a, x.w, nv); s.freezeBelow = fz; R(s, x.dst) = old; break; }
          case I_CMPXCHG: { Val a = get(s, x.a), c = get(s, x.b), n = get(s, x.c); Val old = load(s, a, x.w); E eq = X.bin(O_EQ, toE(old, x.w), toE(c, x.w)); bool t = decide(s, eq); uint64_t fz = s.freezeBelow; s.freezeBelow = 0; if (t) store(s, a, x.w, n); s.freezeBelow = fz; R(s, x.dst) = old; R(s, x.dst + 1) = {t, nullptr}; break; }
          case I_FBIN: { Val a = get(s, x.a), b = get(s, x.b); if (a.e || b.e) die("symbolic float"); R(s, x.dst) = {x.w == 32 ? fbin<float, uint32_t>(x.sub, a.c, b.c) : fbin<double, uint64_t>(x.sub, a.c, b.c), nullptr}; break; }
          case I_FCMP: { Val a = get(s, x.a), b = get(s, x.b); if (a.e || b.e) die("symbolic float"); double p, q; if (x.w == 32) { p = bf(a.c); q = bf(b.c); } else { p = bd(a.c); q = bd(b.c); } bool uno = p != p || q != q, r = false; switch (x.sub) { case CmpInst::FCMP_OEQ: r = p == q; break; case CmpInst::FCMP_OGT: r = p > q; break; case CmpInst::FCMP_OGE: r = p >= q; break; case CmpInst::FCMP_OLT: r = p < q; break; case CmpInst::FCMP_OLE: r = p <= q; break; case CmpInst::FCMP_ONE: r = !uno && p != q; break; case CmpInst::FCMP_ORD: r = !uno; break; case CmpInst::FCMP_UNO: r = uno; break; case CmpInst::FCMP_UEQ: r = uno || p == q; break; case CmpInst::FCMP_UGT: r = uno || p > q; break; case CmpInst::FCMP_UGE: r = uno || p >= q; break; case CmpInst::FCMP_ULT: r = uno || p < q; break; case CmpInst::FCMP_ULE: r = uno || p <= q; break; case CmpInst::FCMP_UNE: r = p != q; break; default: break; } R(s, x.dst) = {r, nullptr}; break; }
          case I_FCAST: { Val a = get(s, x.a); if (a.e) { a.c = concretize(s, a, x.w2); } double p = 0; uint64_t r = 0; switch (x.sub) { case Instruction::FPExt: p = bf(a.c); r = db(p); break; case Instruction::FPTrunc: r = fb((float)bd(a.c)); break; case Instruction::FPToUI: p = x.w2 == 32 ? bf(a.c) : bd(a.c); r = (uint64_t)p & maskw(x.w); break; case Instruction::FPToSI: p = x.w2 == 32 ? bf(a.c) : bd(a.c); r = (uint64_t)(int64_t)p & maskw(x.w); break; case Instruction::UIToFP: r = x.w == 32 ? fb((float)a.c) : db((double)a.c); break; case Instruction::SIToFP: r = x.w == 32 ? fb((float)sx(a.c, x.w2)) : db((double)sx(a.c, x.w2)); break; } R(s, x.dst) = {r, nullptr}; break; }
          case I_UNSUP: { std::string t; raw_string_ostream os(t); x.I->print(os); die("instruction not supported: " + os.str() + " in " + demN(s.frames.back().f)); }
          case I_NOP: break;
        }
        s.frames.back().pc = &x + 1;
      }
    } catch (PathEnd&) { s.leakCheck = false; s.depth = ~0u; }
  }
  static float bf(uint64_t v) { float f; uint32_t u = (uint32_t)v; memcpy(&f, &u, 4); return f; } static double bd(uint64_t v) { double f; memcpy(&f, &v, 8); return f; }
  static uint64_t fb(float f) { uint32_t u; memcpy(&u, &f, 4); return u; } static uint64_t db(double f) { uint64_t u; memcpy(&u, &f, 8); return u; }
  template <class F, class U> uint64_t fbin(unsigned op, uint64_t a, uint64_t b) { F x, y, r = 0; U u = (U)a, v = (U)b; memcpy(&x, &u, sizeof(F)); memcpy(&y, &v, sizeof(F)); switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; case 999: r = -x; break; default: die("float op"); } memcpy(&u, &r, sizeof(F)); return u; }
  void execCast(State& s, const Inst& x) {
    if (x.sub == 1000) { // bitcast between different shapes: through a byte image
      unsigned w = x.w2; E e = nullptr; for (auto a : x.args) { E k = toE(get(s, a), w); e = e ? X.concat(k, e) : k; } for (unsigned i = 0; i < x.n; ++i) R(s, x.dst + i) = mk(X.extract(e, i * x.w, x.w)); return; }
    std::vector<Val> in; if (x.n == 1) in.push_back(get(s, x.a)); else for (auto a : x.args) in.push_back(get(s, a));
    for (unsigned i = 0; i < x.n; ++i) {
      Val v = in[i], r;
      switch (x.sub) {
        case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::ZExt: if (!v.e) r.c = v.c & maskw(x.w); else r = mk(x.w < x.w2 ? X.extract(v.e, 0, x.w) : X.zext(v.e, x.w)); break;
        case Instruction::SExt: if (!v.e) r.c = (uint64_t)sx(v.c, x.w2) & maskw(x.w); else r = mk(X.sext(v.e, x.w)); break;
        default: die("cast");
      }
      R(s, x.dst + i) = r;
    }
  }
  void unwindFromResume(State& s, uint64_t obj) { // the resuming frame continues unwinding: its own pc is not an invoke
    popFrame(s); if (s.frames.empty()) die("resume at bottom"); unwind(s, obj);
  }
  void finishExc(State& s, uint64_t obj) { s.mem.del(obj >> 24); for (size_t i = 0; i < s.excs.size(); ++i) if (s.excs[i].obj == obj) { s.excs.erase(s.excs.begin() + i); break; } }

  void copyMem(State& s, Val dst, Val src, uint64_t n) {
    if (!n) return;
    uint64_t sa = src.e ? concretize(s, src, 64) : src.c; uint64_t da = dst.e ? concretize(s, dst, 64) : dst.c;
    Loc ls = check(s, sa, n, false), ld = check(s, da, n, true); if (sa == da) return;
    Obj* d = s.mem.getw(ld.id); Obj* o = s.mem.get(ls.id);
    memmove(d->data + ld.off, o->data + ls.off, n);
    if (o->sym) { if (!d->sym) d->sym = (E*)calloc(d->size, sizeof(E)); memmove(d->sym + ld.off, o->sym + ls.off, n * sizeof(E)); } else if (d->sym) memset(d->sym + ld.off, 0, n * sizeof(E));
    if (o->init) { if (!d->init) { d->init = (uint8_t*)malloc(d->size); memset(d->init, 1, d->size); } memmove(d->init + ld.off, o->init + ls.off, n); } else if (d->init) memset(d->init + ld.off, 1, n);
  }
  E newSym(State& s, const std::string& nm, unsigned w) {
    auto it = symNameIdx.find(nm); uint32_t id; if (it == symNameIdx.end()) { id = (uint32_t)symNames.size(); symNames.push_back(nm); symNameIdx[nm] = id; } else id = it->second;
    s.syms.push_back({(uint8_t)w, id}); return X.symbol((unsigned)s.syms.size() - 1, w);
  }
  // returns true if control already moved (do not advance pc)
  bool execCall(State& s, const Inst& x) {
    const Func* f = x.callee; int b = x.builtin;
    if (!f) { Val v = get(s, x.a); uint64_t a = v.e ? concretize(s, v, 64) : v.c; if (a < FBASE || (a - FBASE) % 16 || (a - FBASE) / 16 - 1 >= funcs.size()) vend(s, "memory", "call through invalid function pointer"); f = funcs[(a - FBASE) / 16 - 1].get(); b = f->builtin; }
    if (b == B_NONE) {
      std::vector<Val> args; args.reserve(x.args.size()); for (auto a : x.args) args.push_back(get(s, a));
      if (x.sub == 7) { auto& C = cast<CallBase>(*x.I); unsigned k = 0; for (unsigned i = 0; i < C.arg_size(); ++i) { unsigned n = slots(C.getArgOperand(i)->getType()); if (C.isByValArgument(i)) { uint64_t sz = DL->getTypeAllocSize(C.getParamByValType(i)); uint64_t a = allocObj(s, sz, K_STACK, x.I, false); copyMem(s, {a, nullptr}, args[k], sz); s.allocas.push_back(a >> 24); args[k] = {a, nullptr}; } k += n; } }
      uint64_t va = 0;
      if (f->F->isVarArg()) { // the variable arguments, eight bytes each, as the overflow area va_arg reads
        auto& C = cast<CallBase>(*x.I); unsigned k = 0, fixed = (unsigned)f->F->arg_size(), ex = C.arg_size() > fixed ? C.arg_size() - fixed : 0;
        for (unsigned i = 0; i < fixed; ++i) k += slots(C.getArgOperand(i)->getType());
        va = allocObj(s, 8 * (ex + 1), K_STACK, x.I, false); s.allocas.push_back(va >> 24);
        for (unsigned i = 0; i < ex; ++i, ++k) { Type* T = C.getArgOperand(fixed + i)->getType(); if (!(T->isPointerTy() || T->isIntegerTy())) die("variable argument of an unsupported type"); unsigned w = T->isPointerTy() ? 64 : T->getIntegerBitWidth(); if (w != 32 && w != 64) die("variable argument of an unsupported width"); store(s, {va + 8 * i, nullptr}, w, args[k]); }
      }
      enter(s, f, args); if (va) { Frame& fr = s.frames.back(); fr.allocMark--; fr.varargs = va; } return true;
    }
    auto A = [&](unsigned i) { return get(s, x.args[i]); };
    auto C = [&](unsigned i) { Val v = get(s, x.args[i]); return v.e ? concretize(s, v, 64) : v.c; };
    auto ret = [&](Val v) { if (x.dst >= 0) R(s, x.dst) = v; };
    switch (b) {
      case B_SYM: { std::string nm = cstr(s, C(0)); unsigned w = (unsigned)C(1); E e = newSym(s, nm, w); ret(mk(X.zext(e, 64))); break; }
      case B_BYTES: { std::string nm = cstr(s, C(2)); uint64_t p = C(0), n = C(1); if (!n) break; Loc l = check(s, p, n, true); Obj* o = s.mem.getw(l.id); for (uint64_t i = 0; i < n; ++i) writeObj(o, l.off + (uint32_t)i, 8, {0, newSym(s, nm + "[" + std::to_string(i) + "]", 8)}); break; }
      case B_RANGE: { std::string nm = cstr(s, C(0)); int64_t lo = sx(C(1), 32), hi = sx(C(2), 32);
          // range symbols are 8 bits wide (offset from lo); resolved by forking in hsx_concretize
          if (hi < lo || hi - lo > 255) die("bad hsx_range"); E e = newSym(s, nm, 8);
          if (hi - lo < 255) addCons(s, X.bin(O_ULE, e, X.konst(hi - lo, 8)));
          ret(mk(X.bin(O_ADD, X.zext(e, 32), X.konst((uint64_t)lo, 32)))); break; }
      case B_ASSUME: { Val v = A(0); if (!v.e) { if (!(v.c & 0xffffffff)) { ++nAssumeCut; throw PathEnd(); } break; }
          E c = X.notE(X.bin(O_EQ, v.e, X.konst(0, v.e->w))); if (c->op == O_CONST) { if (!c->c) { ++nAssumeCut; throw PathEnd(); } break; }
          if (inModel(s, c)) addCons(s, c); else { Model* m; if (!checkSat(s, c, m)) { ++nAssumeCut; throw PathEnd(); } addCons(s, c); s.model = Rc<Model>(m); } break; }
      case B_ASSERT: { Val v = A(0); std::string lab = cstr(s, C(1)); ++nAssert; ++assertCount[lab];
          if (!v.e) { if (!(v.c & 0xffffffff)) { violation(s, "assert", lab); throw PathEnd(); } ++nAssertConst; break; }
          if (v.e->undef) vend(s, "uninitialised", "assertion " + lab + " depends on uninitialised memory");
          E c = X.notE(X.bin(O_EQ, v.e, X.konst(0, v.e->w))); E nc = X.notE(c); Model* m = nullptr; ++nAssertQ;
          if (checkSat(s, nc, m, true)) { violation(s, "assert", lab, m); delete m; throw PathEnd(); }
          break; }
      case B_REACH: reached.insert(cstr(s, C(0))); break;
      case B_FREEZE: s.freezeBelow = s.mem.nextId; break;
      case B_THAW: s.freezeBelow = 0; break;
      case B_OBSERVE: s.observed.push_back(A(0)); s.observedW.push_back(64); break;
      case B_OBSERVE_BYTES: { uint64_t p = C(0), n = C(1); s.observed.push_back({n, nullptr}); s.observedW.push_back(64); for (uint64_t i = 0; i < n; ++i) { Loc l = check(s, p + i, 1, false); s.observed.push_back(readObj(s.mem.get(l.id), l.off, 8)); s.observedW.push_back(8); } break; }
      case B_CONCRETIZE: { Val v = A(0); uint64_t k = v.e ? concretize(s, v, 64) : v.c; ret({k, nullptr}); break; }
      case B_LEAKOK: s.leakCheck = false; break;
      case B_STOP: s.leakCheck = false; throw PathEnd();
      case B_ISSYM: ret({1, nullptr}); break;
      case B_PRINT: { fprintf(stderr, "[hsx] %s\n", cstr(s, C(0)).c_str()); break; }
      case B_MALLOC: ret({allocObj(s, C(0), K_MALLOC, x.I, false), nullptr}); break;
      case B_CALLOC: ret({allocObj(s, C(0) * C(1), K_MALLOC, x.I, true), nullptr}); break;
      case B_REALLOC: { uint64_t p = C(0), n = C(1); uint64_t q = allocObj(s, n, K_MALLOC, x.I, false); if (p) { Loc l = check(s, p, 0, false); uint64_t k = std::min<uint64_t>(n, s.mem.get(l.id)->size); copyMem(s, {q, nullptr}, {p, nullptr}, k); freeObj(s, p, K_MALLOC, "realloc"); } ret({q, nullptr}); break; }
      case B_FREE: freeObj(s, C(0), K_MALLOC, "free"); break;
      case B_NEW: ret({allocObj(s, C(0), K_NEW, x.I, false), nullptr}); break;
      case B_NEWA: ret({allocObj(s, C(0), K_NEWA, x.I, false), nullptr}); break;
      case B_DEL: freeObj(s, C(0), K_NEW, "operator delete"); break;
      case B_DELA: freeObj(s, C(0), K_NEWA, "operator delete[]"); break;
      case B_VASTART: { uint64_t p = C(0), va = s.frames.back().varargs; if (!va) die("va_start without variable arguments"); store(s, {p, nullptr}, 32, {48, nullptr}); store(s, {p + 4, nullptr}, 32, {176, nullptr}); store(s, {p + 8, nullptr}, 64, {va, nullptr}); store(s, {p + 16, nullptr}, 64, {0, nullptr}); break; }
      case B_VACOPY: copyMem(s, A(0), A(1), 24); break;
      case B_MEMCPY: case B_MEMMOVE: { uint64_t n = C(2); copyMem(s, A(0), A(1), n); ret(A(0)); break; }
      case B_MEMSET: { uint64_t n = C(2); uint64_t p = C(0); Val v = A(1); if (v.e) v = mk(X.extract(v.e, 0, 8)); else v.c &= 255; if (n) { Loc l = check(s, p, n, true); Obj* o = s.mem.getw(l.id); if (!v.e) { memset(o->data + l.off, (int)v.c, n); if (o->sym) memset(o->sym + l.off, 0, n * sizeof(E)); if (o->init) memset(o->init + l.off, 1, n); } else for (uint64_t i = 0; i < n; ++i) writeObj(o, l.off + (uint32_t)i, 8, v); } ret({p, nullptr}); break; }
      case B_MEMCMP: case B_BCMP: { uint64_t n = C(2); Val r; if (n) { uint64_t p = C(0), q = C(1); Loc a = check(s, p, n, false), c = check(s, q, n, false); Obj *oa = s.mem.get(a.id), *oc = s.mem.get(c.id);
          // first definite difference bounds the work
          E e = X.konst(0, 32); uint64_t stop = n; uint64_t i = 0; for (; i < n; ++i) { Val u = readObj(oa, a.off + (uint32_t)i, 8), v = readObj(oc, c.off + (uint32_t)i, 8); if (!u.e && !v.e && u.c != v.c) { stop = i; e = X.konst(u.c < v.c ? 0xffffffffu : 1u, 32); break; } }
          for (i = stop; i-- > 0;) { Val u = readObj(oa, a.off + (uint32_t)i, 8), v = readObj(oc, c.off + (uint32_t)i, 8); if (!u.e && !v.e) continue; E ue = toE(u, 8), ve = toE(v, 8); E eq = X.bin(O_EQ, ue, ve); if (b == B_BCMP) e = X.ite(eq, e, X.konst(1, 32)); else e = X.ite(eq, e, X.ite(X.bin(O_ULT, ue, ve), X.konst(0xffffffffu, 32), X.konst(1, 32))); }
          r = mk(e); } ret(r); break; }
      case B_ABORT: vend(s, "abort", "abort() called");
      case B_ASSERTFAIL: vend(s, "assertion", "library assertion failed: " + cstr(s, C(0)));
      case B_TERMINATE: vend(s, "exception", "std::terminate called");
      case B_EXIT: vend(s, "abort", "exit() called");
      case B_PUREVIRT: vend(s, "abort", "pure virtual call");
      case B_ATEXIT: ret({0, nullptr}); break;
      case B_ERRNO: ret({errnoObj << 24, nullptr}); break;
      case B_EXC_ALLOC: ret({allocObj(s, C(0), K_EXC, x.I, false), nullptr}); break;
      case B_EXC_FREE: freeObj(s, C(0), K_EXC, "free_exception"); break;
      case B_THROW: { ExcInfo e{C(0), C(1), C(2), 0, false, C(0)}; s.excs.push_back(e); unwind(s, e.obj); return true; }
      case B_RETHROW: { if (s.caught.empty()) vend(s, "exception", "rethrow without exception"); uint64_t o = s.caught.back(); findExc(s, o)->rethrown = true; unwind(s, o); return true; }
      case B_BEGIN: { ExcInfo* e = findExc(s, C(0)); if (!e) die("begin_catch"); e->handlers++; e->rethrown = false; s.caught.push_back(e->obj); ret({e->adj, nullptr}); break; }
      case B_GETEXC: { ExcInfo* e = findExc(s, C(0)); ret({e->adj, nullptr}); break; }
      case B_END: { if (s.caught.empty()) die("end_catch"); uint64_t o = s.caught.back(); s.caught.pop_back(); ExcInfo* e = findExc(s, o); e->handlers--; if (e->handlers == 0 && !e->rethrown) { if (e->dtor) { enter(s, funcs[(e->dtor - FBASE) / 16 - 1].get(), {{o, nullptr}}, o); return true; } finishExc(s, o); } break; }
      case B_GUARD_ACQ: { // lazily initialised static: its (single, synchronised) initialisation is not a violation of purity
          uint64_t p = C(0); Val v = load(s, {p, nullptr}, 1); if (v.c) { ret({0, nullptr}); break; }
          if (s.guardDepth++ == 0) { s.savedFreeze = s.freezeBelow; s.freezeBelow = 0; } ret({1, nullptr}); break; }
      case B_GUARD_REL: { uint64_t p = C(0); if (f->name == "__cxa_guard_release") store(s, {p, nullptr}, 1, {1, nullptr}); if (s.guardDepth && --s.guardDepth == 0) s.freezeBelow = s.savedFreeze; break; }
      case B_UNCAUGHT: ret({0, nullptr}); break;
      case B_DYNCAST: { uint64_t p = C(0), want = C(2); if (!p) { ret({0, nullptr}); break; } uint64_t vt = rd64(s, p); int64_t top = (int64_t)rd64(s, vt - 16); uint64_t ti = rd64(s, vt - 8); uint64_t adj = 0; if (upcast(s, ti, want, p + top, adj)) ret({adj, nullptr}); else ret({0, nullptr}); break; }
      case B_TYPEID_FOR: ret({x.imm[0], nullptr}); break;
      case B_IDENT: ret(A(0)); break;
      case B_TRAP: vend(s, "arithmetic", "undefined integer arithmetic (overflow, shift or division)");
      case B_LIFETIME: if (x.dst >= 0) ret({0, nullptr}); break;
      case B_UMIN: case B_UMAX: case B_SMIN: case B_SMAX: { unsigned p = b == B_UMIN ? CmpInst::ICMP_ULT : b == B_UMAX ? CmpInst::ICMP_UGT : b == B_SMIN ? CmpInst::ICMP_SLT : CmpInst::ICMP_SGT; unsigned half = (unsigned)x.args.size() / 2; for (unsigned i = 0; i < half; ++i) { Val u = A(i), v = A(half + i); Val r; if (!u.e && !v.e) r = icmpC(p, u.c, v.c, x.w) ? u : v; else { E ue = toE(u, x.w), ve = toE(v, x.w); r = mk(X.ite(icmpE(p, ue, ve), ue, ve)); } R(s, x.dst + i) = r; } break; }
      case B_ABS: { Val u = A(0); E e = toE(u, x.w); ret(mk(X.ite(X.bin(O_SLT, e, X.konst(0, x.w)), X.bin(O_SUB, X.konst(0, x.w), e), e))); break; }
      case B_BSWAP: { E e = toE(A(0), x.w); E r = X.extract(e, 0, 8); for (unsigned i = 8; i < x.w; i += 8) r = X.concat(r, X.extract(e, i, 8)); ret(mk(r)); break; }
      case B_CTLZ: case B_CTTZ: case B_CTPOP: { Val v = A(0); uint64_t k = v.e ? concretize(s, v, x.w) : v.c; uint64_t r; if (b == B_CTPOP) r = __builtin_popcountll(k); else if (b == B_CTTZ) r = k ? __builtin_ctzll(k) : x.w; else r = k ? __builtin_clzll(k) - (64 - x.w) : x.w; ret({r, nullptr}); break; }
      case B_SADDO: case B_UADDO: case B_SSUBO: case B_USUBO: case B_SMULO: case B_UMULO: execOvf(s, x, b); break;
      case B_USUBSAT: { E a = toE(A(0), x.w), c = toE(A(1), x.w); ret(mk(X.ite(X.bin(O_ULT, a, c), X.konst(0, x.w), X.bin(O_SUB, a, c)))); break; }
      case B_UADDSAT: { E a = toE(A(0), x.w), c = toE(A(1), x.w); E r = X.bin(O_ADD, a, c); ret(mk(X.ite(X.bin(O_ULT, r, a), X.konst(maskw(x.w), x.w), r))); break; }
      case B_FSHL: case B_FSHR: { Val sh_ = A(2); uint64_t k = (sh_.e ? concretize(s, sh_, x.w) : sh_.c) % x.w; E hi = toE(A(0), x.w), lo = toE(A(1), x.w); if (b == B_FSHR) k = (x.w - k) % x.w; bool r0 = k == 0; if (r0) ret(b == B_FSHL ? A(0) : A(1)); else ret(mk(X.concat(X.extract(hi, 0, x.w - k), X.extract(lo, x.w - k, k)))); break; }
      case B_OBJSIZE: ret({C(1) ? 0 : ~0ull & maskw(x.w), nullptr}); break;
      case B_ISCONST: ret({0, nullptr}); break;
      case B_STACKSAVE: ret({0, nullptr}); break;
      case B_UNSUP: die("call of unmodelled external function " + demN(f) + " [" + f->name + "] from " + demN(s.frames.back().f));
      default: die("builtin not implemented: " + f->name);
    }
    if (x.edges.size() == 2) { jump(s, x.edges[0]); return true; }
    return false;
  }
  void execOvf(State& s, const Inst& x, int b) {
    unsigned w = x.leaves[0].w; Val u = get(s, x.args[0]), v = get(s, x.args[1]); E r, o;
    E a = toE(u, w), c = toE(v, w);
    if (b == B_SMULO || b == B_UMULO) {
      bool sg = b == B_SMULO;
      if (!u.e && !v.e) { __int128 p = sg ? (__int128)sx(u.c, w) * sx(v.c, w) : (__int128)((unsigned __int128)u.c * v.c); uint64_t lo = (uint64_t)p & maskw(w); bool ov = sg ? p != (__int128)sx(lo, w) : ((unsigned __int128)p >> w) != 0; R(s, x.dst) = {lo, nullptr}; R(s, x.dst + 1) = {ov, nullptr}; return; }
      if (w <= 32) { E wa = sg ? X.sext(a, 64) : X.zext(a, 64), wc = sg ? X.sext(c, 64) : X.zext(c, 64); E p = X.bin(O_MUL, wa, wc); r = X.extract(p, 0, w); E back = sg ? X.sext(r, 64) : X.zext(r, 64); o = X.notE(X.bin(O_EQ, p, back)); }
      else { // 64 bit with a constant factor
        if (v.e) { std::swap(u, v); std::swap(a, c); } if (v.e) die("symbolic 64-bit multiply overflow"); r = X.bin(O_MUL, a, c);
        if (!sg) { o = v.c == 0 ? X.konst(0, 1) : X.bin(O_ULT, X.konst(maskw(w) / v.c, w), a); }
        else { int64_t k = sx(v.c, w); if (k <= 0) die("signed 64-bit multiply overflow by non-positive"); int64_t mx = (int64_t)(maskw(w) >> 1); o = X.bin(O_OR, X.bin(O_SLT, X.konst((uint64_t)(mx / k), w), a), X.bin(O_SLT, a, X.konst((uint64_t)((-mx - 1) / k), w))); } }
    } else if (b == B_UADDO) { r = X.bin(O_ADD, a, c); o = X.bin(O_ULT, r, a); }
    else if (b == B_USUBO) { r = X.bin(O_SUB, a, c); o = X.bin(O_ULT, a, c); }
    else { r = X.bin(b == B_SADDO ? O_ADD : O_SUB, a, c); E z = X.konst(0, w); E sa = X.bin(O_SLT, a, z), sc = X.bin(O_SLT, c, z), sr = X.bin(O_SLT, r, z);
      if (b == B_SADDO) o = X.bin(O_AND, X.bin(O_EQ, sa, sc), X.notE(X.bin(O_EQ, sa, sr))); else o = X.bin(O_AND, X.notE(X.bin(O_EQ, sa, sc)), X.notE(X.bin(O_EQ, sa, sr))); }
    R(s, x.dst) = mk(r); R(s, x.dst + 1) = mk(o);
  }

  // ---------------------------------------------------------------- exploration
  uint64_t heapBase = 0;
  void endPath(State* s) {
    ++nPaths; long idx = sh->paths.fetch_add(1);
    if (s->depth == ~0u) return;
    if (s->leakCheck) {
      std::vector<uint64_t> alive; for (uint64_t id = heapBase; id < s->mem.nextId; ++id) { Obj* o = s->mem.get(id); if (o && (o->kind == K_NEW || o->kind == K_NEWA || o->kind == K_MALLOC || o->kind == K_EXC)) alive.push_back(id); }
      if (!alive.empty()) {
        // reachable from globals?
        std::set<uint64_t> seen; std::vector<uint64_t> q; for (uint64_t id = 1; id < heapBase; ++id) { Obj* o = s->mem.get(id); if (o && !o->readonly) q.push_back(id); }
        while (!q.empty()) { uint64_t id = q.back(); q.pop_back(); Obj* o = s->mem.get(id); if (!o || !seen.insert(id).second) continue; for (uint32_t k = 0; k + 8 <= o->size; k += 8) { uint64_t v; memcpy(&v, o->data + k, 8); uint64_t t = v >> 24; if (t >= heapBase && t < s->mem.nextId) q.push_back(t); } }
        for (uint64_t id : alive) if (!seen.count(id)) { Obj* o = s->mem.get(id); auto* I = (const Instruction*)o->site; std::string w = "?"; if (I) { w = demangle(I->getFunction()->getName().str()).substr(0, 120); if (auto& L = I->getDebugLoc()) { w += " @ " + L->getFilename().str() + ":" + std::to_string(L->getLine()); } } violation(*s, "leak", "memory not released at end; allocated in " + w); break; }
      }
    }
    if (idx < 12 || (idx % sampleStride == 0)) { if (sh->sampled.fetch_add(1) < sampleMax) {
      uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < s->observed.size(); ++i) { Val v = s->observed[i]; uint64_t k = v.e ? (v.e->undef ? 0xdeadull : evalM(*s, v.e)) : v.c; h = (h ^ k) * 1099511628211ull; h ^= h >> 29; }
      samples.push_back("{\"assign\":" + assignment(*s, s->model.p) + ",\"observed\":" + std::to_string(s->observed.size()) + ",\"hash\":\"" + std::to_string(h) + "\"}"); } }
  }
  void resetLocal() {
    nPaths = nSteps = nBranches = nForks = nQ = nQsat = nQunsat = nQcache = nFast = nAssert = nAssertQ = nAssertConst = nAssumeCut = nAudit = 0; solverT = maxQ = 0; assertCount.clear(); viols.clear(); samples.clear(); dumped.clear();
  }
  bool trace = getenv("HSX_TRACE") != nullptr; double lastFork = 0; bool root = true;
  void explore() {
    try {
      while (!work.empty()) {
        if (sh->stop.load() >= maxViol) { for (auto* w : work) delete w; work.clear(); break; }
        State* s = work.back(); work.pop_back();
        runPath(s); endPath(s); delete s;
        if (now() - t0 > timeLimit) die("time limit");
        if (X.bytesUsed > (uint64_t)memLimitMB * 1000000) die("expression memory limit");
        if (work.size() >= 2 && sh->active.load() < jobs && now() - lastFork > 0.004) {
          int a = sh->active.load(); if (a < jobs && sh->active.compare_exchange_strong(a, a + 1)) {
            lastFork = now();
            std::vector<State*> mine, theirs; for (size_t i = 0; i < work.size(); ++i) (i % 2 ? mine : theirs).push_back(work[i]);
            fflush(nullptr); pid_t p = fork();
            if (p < 0) { sh->active--; }
            else if (p == 0) { root = false; resetLocal(); for (auto* w : mine) delete w; work = theirs; lastFork = now(); }
            else { for (auto* w : theirs) delete w; work = mine; }
          }
        }
      }
    } catch (std::string& m) { sh->stop.fetch_add(1000); fatal = m; }
    writeResult();
    sh->active--;
  }
  void writeResult() {
    std::ofstream o(outDir + "/r." + std::to_string(getpid()) + ".json");
    o << "{\"audits\":" << nAudit << ",\"paths\":" << nPaths << ",\"steps\":" << nSteps << ",\"branches\":" << nBranches << ",\"forks\":" << nForks << ",\"queries\":" << nQ << ",\"qsat\":" << nQsat << ",\"qunsat\":" << nQunsat << ",\"qcache\":" << nQcache << ",\"fast\":" << nFast << ",\"asserts\":" << nAssert << ",\"assertq\":" << nAssertQ << ",\"assertconst\":" << nAssertConst << ",\"assumecut\":" << nAssumeCut << ",\"solver_s\":" << solverT << ",\"maxq_s\":" << maxQ << ",\"fatal\":\"" << jesc(fatal) << "\"";
    o << ",\"reached\":["; bool f = true; for (auto& r : reached) { o << (f ? "" : ",") << "\"" << jesc(r) << "\""; f = false; } o << "]";
    o << ",\"expected\":["; f = true; for (auto& r : expectedReach) { o << (f ? "" : ",") << "\"" << jesc(r) << "\""; f = false; } o << "]";
    o << ",\"labels\":{"; f = true; for (auto& r : assertCount) { o << (f ? "" : ",") << "\"" << jesc(r.first) << "\":" << r.second; f = false; } o << "}";
    o << ",\"funcs\":{"; f = true; for (auto& fn : funcs) if (fn->entered && fn->interesting) { size_t k = 0; std::string bits; for (auto v : fn->bbSeen) { k += v; bits += v ? '1' : '0'; } o << (f ? "" : ",") << "\"" << jesc(demN(fn.get())) << "\":\"" << bits << "\""; f = false; } o << "}";
    o << ",\"viols\":["; f = true; for (auto& v : viols) { o << (f ? "" : ",") << "{\"kind\":\"" << jesc(v.kind) << "\",\"label\":\"" << jesc(v.label) << "\",\"where\":\"" << jesc(v.where) << "\",\"stack\":["; bool g = true; for (auto& l : v.stack) { o << (g ? "" : ",") << "\"" << jesc(l) << "\""; g = false; } o << "],\"assign\":" << v.assign << "}"; f = false; } o << "]";
    o << ",\"samples\":["; f = true; for (auto& v : samples) { o << (f ? "" : ",") << v; f = false; } o << "]";
    o << ",\"dumped\":["; f = true; for (auto& v : dumped) { o << (f ? "" : ",") << "\"" << jesc(v) << "\""; f = false; } o << "]}\n";
  }
};

} // namespace hsx

int main(int argc, char** argv) {
  using namespace hsx;
  Engine* e = new Engine; std::string bc;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "-j") e->jobs = std::stoi(nx()); else if (a == "-o") e->outDir = nx(); else if (a == "-t") e->timeLimit = std::stod(nx()); else if (a == "-s") e->maxSteps = std::stoull(nx()); else if (a == "--stride") e->sampleStride = std::stol(nx()); else if (a == "--samples") e->sampleMax = std::stol(nx()); else if (a == "--max-viol") e->maxViol = std::stoi(nx()); else if (a == "-v") e->verbose = true; else if (a == "--dump") e->crossDump = true; else if (a == "--entry") e->entry = nx(); else if (a == "--mem") e->memLimitMB = std::stoul(nx()); else bc = a;
  }
  e->sh = (Shared*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (e->sh) Shared; e->sh->active = 1; e->sh->stop = 0; e->sh->paths = 0; e->sh->sampled = 0;
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  e->t0 = now(); double tload = 0;
  try {
    State* s = e->init(bc);
    // global constructors
    if (auto* G = e->M->getNamedGlobal("llvm.global_ctors")) if (G->hasInitializer()) if (auto* A = dyn_cast<ConstantArray>(G->getInitializer())) {
      std::vector<std::pair<uint64_t, Function*>> cs; for (auto& o : A->operands()) { auto* S = cast<ConstantStruct>(o); cs.push_back({cast<ConstantInt>(S->getOperand(0))->getZExtValue(), cast<Function>(S->getOperand(1)->stripPointerCasts())}); }
      std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
      for (auto& c : cs) { e->enter(*s, e->fmap[c.second], {}); e->runPath(s); if (s->depth == ~0u) { fprintf(stderr, "hsx: global constructor failed\n"); for (auto& v : e->viols) fprintf(stderr, "%s %s %s\n", v.kind.c_str(), v.label.c_str(), v.where.c_str()); return 2; } }
    }
    s->steps = 0; e->heapBase = s->mem.nextId; tload = now() - e->t0;
    auto it = e->fbyname.find(e->entry); if (it == e->fbyname.end()) { fprintf(stderr, "no entry\n"); return 2; }
    for (auto& f : e->funcs) { f->entered = false; }
    e->enter(*s, it->second, {}); e->nSteps = 0; e->push(s);
  } catch (std::string& m) { fprintf(stderr, "hsx: %s\n", m.c_str()); return 2; }
  e->explore();
  if (!e->root) { _exit(0); }
  int bad = 0, st; for (;;) { pid_t p = wait(&st); if (p < 0) break; if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) ++bad; }
  printf("{\"wall\":%f,\"load\":%f,\"crashed\":%d,\"total_paths\":%d}\n", now() - e->t0, tload, bad, (int)e->sh->paths);
  fflush(stdout); _exit(bad ? 2 : 0);
}
