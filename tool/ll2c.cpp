// ll2c: mechanical LLVM-IR -> C extraction for CBMC.
//
// Input: a linked bitcode module (real /repo translation units compiled by
// clang from the current working tree + a contract/harness file).
// Steps (all on every run):
//   1. contract replacement: calls of a function F listed in a
//      `vf_replace_*` table are redirected to its contract stub (the stub
//      asserts F's precondition, havocs F's frame and assumes F's
//      postcondition); F's body is dropped.
//   2. everything but the root is internalised; the LLVM optimiser is run
//      (semantics-preserving normal form: SSA, inlining, dead code removal).
//   3. the result is printed as C, one basic block per label.
// Dropped by the extraction: exception edges (TUs are compiled
// -fno-exceptions), debug info, lifetime/alias metadata.
// Fail-closed: a reachable call of a function that has neither a body nor a
// model becomes a failing obligation ("missing model"), never a silent no-op.

#include "llvm/ADT/SCCIterator.h"
#include "llvm/Analysis/CFG.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugLoc.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/GlobalAlias.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO/GlobalDCE.h"
#include "llvm/Transforms/IPO/Internalize.h"

#include <unistd.h>

#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace llvm;

static cl::opt<std::string> InFile(cl::Positional, cl::Required);
static cl::opt<std::string> OutFile("o", cl::Required);
static cl::opt<std::string> Root("root", cl::Required);
static cl::opt<std::string> Passes("pipeline", cl::init(""));
static cl::opt<std::string> DumpIR("dump-ir", cl::init(""));
static cl::opt<std::string> Listing("listing", cl::init(""));
static cl::list<std::string> Contracts("contracts", cl::CommaSeparated);
static cl::list<std::string> RepSym("replace", cl::CommaSeparated);

static std::unique_ptr<Module> M;
static std::set<std::string> SrcFns;  // functions whose code is in the extract
static const DataLayout* DL;

static std::string sanitize(StringRef s) {
  std::string r;
  for (char c : s) {
    if (isalnum((unsigned char)c) || c == '_')
      r += c;
    else {
      char b[8];
      snprintf(b, sizeof b, "_x%02x", (unsigned char)c);
      r += b;
    }
  }
  return r;
}

// ---------------------------------------------------------------- types
static std::map<Type*, std::string> TypeNames;
static std::string TypeDefs;
static int TypeCounter = 0;

static std::string ctype(Type* T);

static std::string defineStruct(StructType* ST) {
  std::string name = "struct T" + std::to_string(TypeCounter++);
  TypeNames[ST] = name;
  // Element types first (recursion is impossible by value).
  std::vector<std::string> elts;
  for (Type* E : ST->elements()) elts.push_back(ctype(E));
  std::string d = name + " {";
  const StructLayout* SL = DL->getStructLayout(ST);
  // Explicit padding so that offsets equal LLVM's; struct is packed.
  uint64_t off = 0;
  for (unsigned i = 0; i < ST->getNumElements(); ++i) {
    uint64_t want = SL->getElementOffset(i);
    if (want > off)
      d += " u8 pad" + std::to_string(i) + "[" + std::to_string(want - off) +
           "];";
    d += " " + elts[i] + " f" + std::to_string(i) + ";";
    off = want + DL->getTypeAllocSize(ST->getElementType(i));
  }
  uint64_t sz = SL->getSizeInBytes();
  if (sz > off) d += " u8 padE[" + std::to_string(sz - off) + "];";
  if (ST->getNumElements() == 0 && sz == 0) d += " u8 empty[0];";
  d += " } __attribute__((packed));";
  if (ST->hasName()) d += " // " + ST->getName().str();
  TypeDefs += d + "\n";
  return name;
}

static std::string ctype(Type* T) {
  auto it = TypeNames.find(T);
  if (it != TypeNames.end()) return it->second;
  std::string r;
  if (T->isVoidTy())
    r = "void";
  else if (T->isIntegerTy()) {
    unsigned w = T->getIntegerBitWidth();
    if (w == 1)
      r = "_Bool";
    else if (w == 8 || w == 16 || w == 32 || w == 64)
      r = "u" + std::to_string(w);
    else {
      r = "ub" + std::to_string(w);
      TypeDefs += "typedef unsigned __CPROVER_bitvector[" + std::to_string(w) +
                  "] " + r + ";\ntypedef signed __CPROVER_bitvector[" +
                  std::to_string(w) + "] sb" + std::to_string(w) + ";\n";
    }
  } else if (T->isPointerTy())
    r = "ptr";
  else if (T->isFloatTy())
    r = "float";
  else if (T->isDoubleTy())
    r = "double";
  else if (T->isX86_FP80Ty())
    r = "long double";
  else if (auto* AT = dyn_cast<ArrayType>(T)) {
    std::string e = ctype(AT->getElementType());
    r = "struct A" + std::to_string(TypeCounter++);
    TypeDefs += r + " { " + e + " a[" + std::to_string(AT->getNumElements()) +
                "]; } __attribute__((packed));\n";
  } else if (auto* VT = dyn_cast<FixedVectorType>(T)) {
    std::string e = ctype(VT->getElementType());
    r = "struct V" + std::to_string(TypeCounter++);
    TypeDefs += r + " { " + e + " a[" + std::to_string(VT->getNumElements()) +
                "]; } __attribute__((packed));\n";
  } else if (auto* ST = dyn_cast<StructType>(T)) {
    return defineStruct(ST);
  } else if (T->isFunctionTy()) {
    r = "u8";
  } else {
    errs() << "unsupported type " << *T << "\n";
    exit(3);
  }
  TypeNames[T] = r;
  return r;
}

static std::string stype(Type* T) {  // signed flavour of an integer type
  unsigned w = T->getIntegerBitWidth();
  if (w == 1) return "s8";
  if (w == 8 || w == 16 || w == 32 || w == 64) return "s" + std::to_string(w);
  ctype(T);
  return "sb" + std::to_string(w);
}

// ---------------------------------------------------------------- names
static std::map<const GlobalValue*, std::string> GNames;
static std::string gname(const GlobalValue* G) {
  auto it = GNames.find(G);
  if (it != GNames.end()) return it->second;
  std::string base = G->hasName() ? sanitize(G->getName()) : "anon";
  std::string r = (isa<Function>(G) ? "F_" : "G_") + base;
  static std::set<std::string> used;
  std::string r0 = r;
  int n = 0;
  while (!used.insert(r).second) r = r0 + "_" + std::to_string(++n);
  GNames[G] = r;
  return r;
}

// demangled-ish short text for messages
static std::string cstr(StringRef s) {
  std::string r = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\')
      r += '\\', r += c;
    else if (c == '\n')
      r += "\\n";
    else
      r += c;
  }
  return r + "\"";
}

static std::string apint(const APInt& v, Type* T) {
  unsigned w = T->getIntegerBitWidth();
  if (w == 1) return v.isZero() ? "((_Bool)0)" : "((_Bool)1)";
  if (w <= 64) {
    return "((" + ctype(T) + ")" + std::to_string(v.getZExtValue()) + "ull)";
  }
  // wide: hi/lo composition
  std::string t = ctype(T);
  std::string r = "((" + t + ")0)";
  for (unsigned i = 0; i * 64 < w; ++i) {
    uint64_t word = v.extractBitsAsZExtValue(std::min(64u, w - i * 64), i * 64);
    r = "(" + r + "|(((" + t + ")" + std::to_string(word) + "ull)<<" +
        std::to_string(i * 64) + "))";
  }
  return r;
}

static std::string fpconst(const ConstantFP* C) {
  const APFloat& f = C->getValueAPF();
  if (C->getType()->isFloatTy())
    return "bc_u32_f32(" +
           std::to_string(f.bitcastToAPInt().getZExtValue()) + "u)";
  if (C->getType()->isDoubleTy())
    return "bc_u64_f64(" +
           std::to_string(f.bitcastToAPInt().getZExtValue()) + "ull)";
  bool l;
  APFloat d(f);
  d.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &l);
  return "((long double)bc_u64_f64(" +
         std::to_string(d.bitcastToAPInt().getZExtValue()) + "ull))";
}

static std::string constExpr(const Constant* C);

static std::string zeroOf(Type* T) {
  if (T->isPointerTy()) return "((ptr)0)";
  if (T->isIntegerTy() || T->isFloatingPointTy())
    return "((" + ctype(T) + ")0)";
  return "zero_" + sanitize(ctype(T)) + "()";
}
static std::set<Type*> NeedZero, NeedNondet;
static std::string nondetOf(Type* T) {
  NeedNondet.insert(T);
  ctype(T);
  return "nondet_" + sanitize(ctype(T)) + "()";
}

static std::string constExpr(const Constant* C) {
  Type* T = C->getType();
  if (auto* CI = dyn_cast<ConstantInt>(C)) return apint(CI->getValue(), T);
  if (auto* CF = dyn_cast<ConstantFP>(C)) return fpconst(CF);
  if (isa<ConstantPointerNull>(C)) return "((ptr)0)";
  if (isa<PoisonValue>(C) || isa<UndefValue>(C)) return nondetOf(T);
  if (auto* F = dyn_cast<Function>(C)) return "((ptr)&" + gname(F) + ")";
  if (auto* GA = dyn_cast<GlobalAlias>(C)) return constExpr(GA->getAliasee());
  if (auto* GV = dyn_cast<GlobalVariable>(C)) return "((ptr)&" + gname(GV) + ")";
  if (isa<ConstantAggregateZero>(C)) {
    if (T->isAggregateType() || T->isVectorTy()) NeedZero.insert(T), ctype(T);
    return zeroOf(T);
  }
  if (auto* CE = dyn_cast<ConstantExpr>(C)) {
    switch (CE->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0);
        if (cast<GEPOperator>(CE)->accumulateConstantOffset(*DL, off))
          return "(" + constExpr(cast<Constant>(CE->getOperand(0))) + "+" +
                 std::to_string(off.getSExtValue()) + "ll)";
        break;
      }
      case Instruction::PtrToInt:
        return "((" + ctype(T) + ")" + constExpr(CE->getOperand(0)) + ")";
      case Instruction::IntToPtr:
        return "((ptr)" + constExpr(CE->getOperand(0)) + ")";
      case Instruction::BitCast:
      case Instruction::AddrSpaceCast:
        return constExpr(CE->getOperand(0));
      case Instruction::Trunc:
        return "((" + ctype(T) + ")" + constExpr(CE->getOperand(0)) + ")";
      case Instruction::Add:
      case Instruction::Sub: {
        return "((" + ctype(T) + ")(" + constExpr(CE->getOperand(0)) +
               (CE->getOpcode() == Instruction::Add ? "+" : "-") +
               constExpr(CE->getOperand(1)) + "))";
      }
      case Instruction::ICmp: {
        std::string a = constExpr(CE->getOperand(0)),
                    b = constExpr(CE->getOperand(1));
        if (CE->getPredicate() == CmpInst::ICMP_EQ) return "(" + a + "==" + b + ")";
        if (CE->getPredicate() == CmpInst::ICMP_NE) return "(" + a + "!=" + b + ")";
        break;
      }
      default:
        break;
    }
  }
  if (T->isAggregateType() || T->isVectorTy()) {
    // compound literal
    std::string r = "((" + ctype(T) + "){";
    bool arr = T->isArrayTy() || T->isVectorTy();
    if (arr) r += "{";
    unsigned n = arr ? (T->isArrayTy() ? T->getArrayNumElements()
                                       : cast<FixedVectorType>(T)->getNumElements())
                     : T->getStructNumElements();
    for (unsigned i = 0; i < n; ++i) {
      if (i) r += ",";
      if (!arr) r += ".f" + std::to_string(i) + "=";
      r += constExpr(C->getAggregateElement(i));
    }
    if (arr) r += "}";
    return r + "})";
  }
  errs() << "unsupported constant " << *C << "\n";
  exit(3);
}

// Static initialiser text (no compound literals / function calls).
static std::string initExpr(const Constant* C) {
  Type* T = C->getType();
  if (isa<UndefValue>(C) || C->isNullValue()) {
    if (T->isAggregateType() || T->isVectorTy()) {
      if (T->isArrayTy()) return T->getArrayNumElements() ? "{{0}}" : "{}";
      return "{0}";
    }
    if (T->isPointerTy()) return "0";
    return "0";
  }
  if (auto* CF = dyn_cast<ConstantFP>(C)) {
    SmallString<64> s;
    char b[64];
    if (T->isFloatTy())
      snprintf(b, sizeof b, "%af", (double)CF->getValueAPF().convertToFloat());
    else if (T->isDoubleTy())
      snprintf(b, sizeof b, "%a", CF->getValueAPF().convertToDouble());
    else
      return "0";
    return b;
  }
  if (T->isArrayTy() || T->isVectorTy()) {
    unsigned n = T->isArrayTy() ? T->getArrayNumElements()
                                : cast<FixedVectorType>(T)->getNumElements();
    std::string r = "{{";
    for (unsigned i = 0; i < n; ++i) {
      if (i) r += ",";
      r += initExpr(C->getAggregateElement(i));
    }
    return r + "}}";
  }
  if (T->isStructTy()) {
    std::string r = "{";
    for (unsigned i = 0; i < T->getStructNumElements(); ++i) {
      if (i) r += ",";
      r += ".f" + std::to_string(i) + "=" + initExpr(C->getAggregateElement(i));
    }
    return r + "}";
  }
  return constExpr(C);
}

// ------------------------------------------------------- constant strings
static bool getStr(const Value* V, std::string& out) {
  V = V->stripPointerCasts();
  int64_t off = 0;
  if (auto* G = dyn_cast<GEPOperator>(V)) {
    APInt o(64, 0);
    if (!G->accumulateConstantOffset(*DL, o)) return false;
    off = o.getSExtValue();
    V = G->getPointerOperand()->stripPointerCasts();
  }
  auto* GV = dyn_cast<GlobalVariable>(V);
  if (!GV || !GV->hasInitializer()) return false;
  if (auto* CD = dyn_cast<ConstantDataArray>(GV->getInitializer())) {
    if (!CD->isString()) return false;
    out = CD->getAsString().drop_front(off).str();
    auto z = out.find('\0');
    if (z != std::string::npos) out.resize(z);
    return true;
  }
  if (isa<ConstantAggregateZero>(GV->getInitializer())) {
    out = "";
    return true;
  }
  return false;
}

// ------------------------------------------------------- vtable candidates
// slot byte offset -> functions found there in any vtable.
static std::map<uint64_t, std::vector<Function*>> VtSlots;
static void collectVtables() {
  for (auto& G : M->globals()) {
    if (!G.getName().starts_with("_ZTV") || !G.hasInitializer()) continue;
    auto* CS = dyn_cast<ConstantStruct>(G.getInitializer());
    if (!CS) continue;
    for (unsigned k = 0; k < CS->getNumOperands(); ++k) {
      auto* CA = dyn_cast<ConstantArray>(CS->getOperand(k));
      if (!CA) continue;
      for (unsigned i = 2; i < CA->getNumOperands(); ++i) {
        auto* F = dyn_cast<Function>(CA->getOperand(i)->stripPointerCasts());
        if (!F) continue;
        auto& v = VtSlots[(i - 2) * 8];
        if (std::find(v.begin(), v.end(), F) == v.end()) v.push_back(F);
      }
    }
  }
}

// ------------------------------------------------------- alloc type guess
static Type* guessFromUses(const Value* V, uint64_t size, int depth,
                           std::set<const Value*>& seen) {
  if (depth > 6 || !seen.insert(V).second) return nullptr;
  for (const User* U : V->users()) {
    if (auto* G = dyn_cast<GetElementPtrInst>(U)) {
      if (G->getPointerOperand() != V) continue;
      Type* S = G->getSourceElementType();
      if (S->isSized() && S->isStructTy() && DL->getTypeAllocSize(S) == size)
        return S;
    } else if (auto* CB = dyn_cast<CallBase>(U)) {
      Function* F = CB->getCalledFunction();
      if (!F || F->isDeclaration()) continue;
      for (unsigned i = 0; i < CB->arg_size() && i < F->arg_size(); ++i)
        if (CB->getArgOperand(i) == V)
          if (Type* T = guessFromUses(F->getArg(i), size, depth + 1, seen))
            return T;
    } else if (isa<PHINode>(U) || isa<SelectInst>(U)) {
      if (Type* T = guessFromUses(U, size, depth + 1, seen)) return T;
    } else if (auto* SI = dyn_cast<StoreInst>(U)) {
      if (SI->getValueOperand() == V) {
        // stored to a local slot: look at loads of it
        if (auto* A = dyn_cast<AllocaInst>(SI->getPointerOperand()))
          for (const User* UU : A->users())
            if (auto* L = dyn_cast<LoadInst>(UU))
              if (Type* T = guessFromUses(L, size, depth + 1, seen)) return T;
      }
    }
  }
  return nullptr;
}

// scalar layout of an allocation from the accesses made to it: builds a
// synthetic struct type for constant-size allocations with no struct GEP.
static void collectAccess(const Value* V, int64_t base, uint64_t size, int depth,
                          std::map<uint64_t, Type*>& acc,
                          std::set<std::pair<const Value*, int64_t>>& seen) {
  if (depth > 8 || !seen.insert({V, base}).second) return;
  for (const User* U : V->users()) {
    if (auto* L = dyn_cast<LoadInst>(U)) {
      if (base >= 0 && (uint64_t)base < size && !L->getType()->isAggregateType())
        acc.insert({base, L->getType()});
    } else if (auto* S = dyn_cast<StoreInst>(U)) {
      if (S->getPointerOperand() == V && base >= 0 && (uint64_t)base < size &&
          !S->getValueOperand()->getType()->isAggregateType()) {
        Type* T = S->getValueOperand()->getType();
        auto it = acc.find(base);
        if (it == acc.end() || T->isPointerTy()) acc[base] = T;
      }
    } else if (auto* G = dyn_cast<GetElementPtrInst>(U)) {
      if (G->getPointerOperand() != V) continue;
      APInt o(64, 0);
      if (G->accumulateConstantOffset(*DL, o))
        collectAccess(G, base + o.getSExtValue(), size, depth + 1, acc, seen);
    } else if (auto* CB = dyn_cast<CallBase>(U)) {
      Function* F = CB->getCalledFunction();
      if (!F || F->isDeclaration()) continue;
      for (unsigned i = 0; i < CB->arg_size() && i < F->arg_size(); ++i)
        if (CB->getArgOperand(i) == V)
          collectAccess(F->getArg(i), base, size, depth + 1, acc, seen);
    } else if (isa<PHINode>(U) || isa<SelectInst>(U)) {
      collectAccess(U, base, size, depth + 1, acc, seen);
    }
  }
}
static Type* guessByAccess(const Value* V, uint64_t size) {
  std::map<uint64_t, Type*> acc;
  std::set<std::pair<const Value*, int64_t>> seen;
  collectAccess(V, 0, size, 0, acc, seen);
  bool anyPtr = false;
  for (auto& kv : acc) anyPtr |= kv.second->isPointerTy();
  if (!anyPtr) return nullptr;
  std::vector<Type*> elts;
  uint64_t off = 0;
  for (auto& kv : acc) {
    if (kv.first < off) continue;  // overlap: keep the first
    uint64_t sz = DL->getTypeAllocSize(kv.second);
    if (kv.first + sz > size) continue;
    if (kv.first > off)
      elts.push_back(ArrayType::get(Type::getInt8Ty(M->getContext()),
                                    kv.first - off));
    elts.push_back(kv.second);
    off = kv.first + sz;
  }
  if (off < size)
    elts.push_back(
        ArrayType::get(Type::getInt8Ty(M->getContext()), size - off));
  return StructType::get(M->getContext(), elts, /*packed=*/true);
}

// --------------------------------------------------------------- function
struct FnEmitter {
  Function& F;
  raw_ostream& OS;
  std::map<const Value*, std::string> names;
  std::map<const BasicBlock*, int> bbid;
  int tmp = 0;
  std::string decls;
  std::string body;
  DominatorTree DT;
  LoopInfo LI;

  FnEmitter(Function& F, raw_ostream& OS) : F(F), OS(OS) {
    DT.recalculate(F);
    LI.analyze(DT);
  }

  std::string val(const Value* V) {
    if (auto* C = dyn_cast<Constant>(V)) return constExpr(C);
    auto it = names.find(V);
    if (it != names.end()) return it->second;
    std::string n = "v" + std::to_string(names.size());
    names[V] = n;
    return n;
  }

  // Block order: topological with loop bodies contiguous.
  std::vector<BasicBlock*> order() {
    std::vector<BasicBlock*> out;
    std::set<BasicBlock*> done;
    // DFS post-order with successors that leave the innermost loop visited
    // first (so they come later in the reversed order).
    std::vector<BasicBlock*> post;
    std::set<BasicBlock*> vis;
    std::function<void(BasicBlock*)> dfs = [&](BasicBlock* B) {
      // iterative to avoid deep recursion
      struct Fr {
        BasicBlock* B;
        std::vector<BasicBlock*> s;
        size_t i;
      };
      std::vector<Fr> st;
      auto push = [&](BasicBlock* X) {
        vis.insert(X);
        Fr f{X, {}, 0};
        std::vector<BasicBlock*> succ(succ_begin(X), succ_end(X));
        Loop* L = LI.getLoopFor(X);
        // visit outer-loop successors first
        std::stable_sort(succ.begin(), succ.end(),
                         [&](BasicBlock* a, BasicBlock* b) {
                           auto d = [&](BasicBlock* y) {
                             // number of loops of X that y stays in
                             int n = 0;
                             for (Loop* l = L; l; l = l->getParentLoop())
                               if (l->contains(y)) ++n;
                             return n;
                           };
                           return d(a) < d(b);
                         });
        f.s = succ;
        st.push_back(f);
      };
      push(B);
      while (!st.empty()) {
        Fr& f = st.back();
        if (f.i < f.s.size()) {
          BasicBlock* n = f.s[f.i++];
          if (!vis.count(n)) push(n);
        } else {
          post.push_back(f.B);
          st.pop_back();
        }
      }
    };
    dfs(&F.getEntryBlock());
    std::vector<BasicBlock*> rpo(post.rbegin(), post.rend());
    // Make loops contiguous: stable-emit; when reaching a loop header, emit
    // all blocks of that loop (in rpo order, recursively) first.
    std::function<void(Loop*, const std::vector<BasicBlock*>&)> emit =
        [&](Loop* cur, const std::vector<BasicBlock*>& blocks) {
          for (BasicBlock* B : blocks) {
            if (done.count(B)) continue;
            Loop* L = LI.getLoopFor(B);
            // outermost loop containing B strictly inside cur
            Loop* T = nullptr;
            for (Loop* l = L; l && l != cur; l = l->getParentLoop()) T = l;
            if (!T) {
              done.insert(B);
              out.push_back(B);
            } else {
              std::vector<BasicBlock*> sub;
              for (BasicBlock* X : rpo)
                if (T->contains(X)) sub.push_back(X);
              // header first
              emit(T, sub);
            }
          }
        };
    emit(nullptr, rpo);
    return out;
  }

  // source position of the instruction being emitted (line tables)
  std::string curFile;
  unsigned curLine = 0;
  std::string curFn;
  void setLoc(const Instruction& I) {
    const DebugLoc& D = I.getDebugLoc();
    if (!D || !D.getLine()) return;
    auto* Sc = cast<DIScope>(D.getScope());
    std::string f = Sc->getFilename().str();
    if (!f.empty() && f[0] != '/' && !Sc->getDirectory().empty())
      f = Sc->getDirectory().str() + "/" + f;
    DISubprogram* SP = cast<DILocalScope>(D.getScope())->getSubprogram();
    if (SP) curFn = demangle(SP->getLinkageName().empty() ? SP->getName().str()
                                                        : SP->getLinkageName().str());
    if (SP) SrcFns.insert(f + " " + curFn);
    if (f == curFile && D.getLine() == curLine) return;
    curFile = f;
    curLine = D.getLine();
  }
  std::string where() {
    std::string n = curFn.empty() ? demangle(F.getName().str()) : curFn;
    auto p = n.find('(');
    if (p != std::string::npos) n = n.substr(0, p);
    if (curLine) {
      size_t sl = curFile.rfind('/');
      n += " @" + (sl == std::string::npos ? curFile : curFile.substr(sl + 1)) +
           ":" + std::to_string(curLine);
    }
    return n;
  }
  void line(const std::string& s) {
    if (curLine) body += "#line " + std::to_string(curLine) + " \"" + curFile + "\"\n";
    body += "  " + s + "\n";
  }

  std::string sgn(const Value* V) {
    Type* T = V->getType();
    if (T->getIntegerBitWidth() == 1) return "(-(s8)" + val(V) + ")";
    return "((" + stype(T) + ")" + val(V) + ")";
  }

  void assign(const Instruction* I, const std::string& e) {
    line(val(I) + " = " + e + ";");
  }

  std::string memref(Type* T, const std::string& p) {
    return "(*(" + ctype(T) + "*)" + p + ")";
  }

  // copies phis along the edge B->S
  void edge(const BasicBlock* B, const BasicBlock* S, const std::string& ind) {
    std::vector<std::pair<std::string, std::string>> cp;
    for (const PHINode& P : S->phis()) {
      const Value* v = P.getIncomingValueForBlock(B);
      if (isa<UndefValue>(v)) continue;  // keep old (nondet) value
      cp.push_back({val(&P), val(v)});
    }
    if (cp.size() == 1) {
      body += ind + cp[0].first + " = " + cp[0].second + ";\n";
    } else if (cp.size() > 1) {
      // sequentialise when safe, else go through temps
      bool safe = true;
      for (size_t i = 0; i < cp.size() && safe; ++i)
        for (size_t j = i + 1; j < cp.size(); ++j)
          if (cp[j].second == cp[i].first) safe = false;
      if (safe) {
        for (auto& c : cp) body += ind + c.first + " = " + c.second + ";\n";
      } else {
        for (auto& c : cp) body += ind + c.first + "_t = " + c.second + ";\n";
        for (auto& c : cp)
          body += ind + c.first + " = " + c.first + "_t;\n";
      }
    }
    body += ind + "goto B" + std::to_string(bbid[S]) + ";\n";
  }

  std::string callArgs(const CallBase& CB, FunctionType* FT, std::string& pre) {
    std::string r;
    for (unsigned i = 0; i < CB.arg_size(); ++i) {
      if (i) r += ", ";
      if (CB.isByValArgument(i)) {
        Type* T = CB.getParamByValType(i);
        std::string t = "bv" + std::to_string(tmp++);
        decls += "  " + ctype(T) + " " + t + ";\n";
        pre += t + " = " + memref(T, val(CB.getArgOperand(i))) + "; ";
        r += "((ptr)&" + t + ")";
      } else
        r += val(CB.getArgOperand(i));
    }
    return r;
  }

  static std::string fnPtrType(const CallBase& CB) {
    std::string r = ctype(CB.getType()) + "(*)(";
    FunctionType* FT = CB.getFunctionType();
    for (unsigned i = 0; i < FT->getNumParams(); ++i) {
      if (i) r += ",";
      r += ctype(FT->getParamType(i));
    }
    if (!FT->getNumParams()) r += "void";
    return r + ")";
  }

  void emitAlloc(const CallBase& CB, const Value* sizeV, bool mayFail) {
    std::string r = val(&CB);
    std::string e;
    if (auto* CI = dyn_cast<ConstantInt>(sizeV)) {
      uint64_t n = CI->getZExtValue();
      std::set<const Value*> seen;
      Type* T = guessFromUses(&CB, n, 0, seen);
      if (!T) T = guessByAccess(&CB, n);
      if (T)
        e = "(ptr)malloc(sizeof(" + ctype(T) + "))";
    } else {
      // array of pointers? (size = k*8, elements stored/loaded as ptr)
      bool ptrElems = false;
      std::set<const Value*> work{&CB};
      std::vector<const Value*> q{&CB};
      for (size_t i = 0; i < q.size() && i < 64; ++i)
        for (const User* U : q[i]->users()) {
          if (isa<GetElementPtrInst>(U) || isa<PHINode>(U)) {
            if (work.insert(U).second) q.push_back(U);
          } else if (auto* L = dyn_cast<LoadInst>(U)) {
            ptrElems |= L->getType()->isPointerTy();
          } else if (auto* S = dyn_cast<StoreInst>(U)) {
            if (S->getPointerOperand() == q[i])
              ptrElems |= S->getValueOperand()->getType()->isPointerTy();
          }
        }
      if (ptrElems)
        e = "(ptr)malloc(sizeof(ptr) * ((" + val(sizeV) + ") / 8))";
    }
    if (e.empty()) e = "(ptr)malloc(" + val(sizeV) + ")";
    if (mayFail)
      line("if (VF_OOM()) " + r + " = (ptr)0; else " + r + " = " + e + ";");
    else
      line(r + " = " + e + ";");
  }

  bool emitIntrinsic(const IntrinsicInst& I) {
    auto A = [&](unsigned i) { return val(I.getArgOperand(i)); };
    Type* T = I.getType();
    switch (I.getIntrinsicID()) {
      case Intrinsic::lifetime_start:
      case Intrinsic::lifetime_end:
      case Intrinsic::dbg_declare:
      case Intrinsic::dbg_value:
      case Intrinsic::dbg_label:
      case Intrinsic::assume:
      case Intrinsic::experimental_noalias_scope_decl:
      case Intrinsic::invariant_start:
      case Intrinsic::invariant_end:
      case Intrinsic::prefetch:
      case Intrinsic::donothing:
      case Intrinsic::var_annotation:
      case Intrinsic::vastart:
      case Intrinsic::vaend:
        return true;
      case Intrinsic::stacksave:
        assign(&I, "((ptr)0)");
        return true;
      case Intrinsic::stackrestore:
        return true;
      case Intrinsic::expect:
      case Intrinsic::expect_with_probability:
      case Intrinsic::launder_invariant_group:
      case Intrinsic::strip_invariant_group:
      case Intrinsic::ssa_copy:
      case Intrinsic::annotation:
        assign(&I, A(0));
        return true;
      case Intrinsic::is_constant:
        assign(&I, "0");
        return true;
      case Intrinsic::objectsize:
        assign(&I, "~(" + ctype(T) + ")0");
        return true;
      case Intrinsic::trap:
      case Intrinsic::debugtrap:
        line("__CPROVER_assert(0, \"trap reached in " + where() +
             "\"); __CPROVER_assume(0);");
        return true;
      case Intrinsic::ubsantrap: {
        uint64_t k = cast<ConstantInt>(I.getArgOperand(0))->getZExtValue();
        static const char* kinds[] = {
            "add-overflow", "builtin-unreachable", "cfi", "divrem-overflow",
            "dynamic-type-cache-miss", "float-cast-overflow",
            "function-type-mismatch", "implicit-conversion", "invalid-builtin",
            "invalid-objc-cast", "load-invalid-value", "missing-return",
            "mul-overflow", "negate-overflow", "nullability-arg",
            "nullability-return", "nonnull-arg", "nonnull-return",
            "out-of-bounds", "pointer-overflow", "shift-out-of-bounds",
            "sub-overflow", "type-mismatch", "alignment-assumption",
            "vla-bound-not-positive"};
        std::string kn = k < 25 ? kinds[k] : std::to_string(k);
        line("__CPROVER_assert(0, \"ub:" + kn + " in " + where() +
             "\"); __CPROVER_assume(0);");
        return true;
      }
      case Intrinsic::memcpy:
      case Intrinsic::memcpy_inline:
      case Intrinsic::memmove: {
        bool mv = I.getIntrinsicID() == Intrinsic::memmove;
        if (auto* C = dyn_cast<ConstantInt>(I.getArgOperand(2))) {
          uint64_t n = C->getZExtValue();
          if (n == 0) return true;
          if (n <= 512) {
            emitCopy(I.getArgOperand(0), I.getArgOperand(1), n);
            return true;
          }
        }
        line(std::string(mv ? "vf_memmove(" : "vf_memcpy(") + A(0) + ", " + A(1) +
             ", " + A(2) + ");");
        return true;
      }
      case Intrinsic::memset:
      case Intrinsic::memset_inline: {
        auto* C = dyn_cast<ConstantInt>(I.getArgOperand(2));
        auto* B = dyn_cast<ConstantInt>(I.getArgOperand(1));
        if (C && B && B->isZero() && C->getZExtValue() <= 1024) {
          emitZero(I.getArgOperand(0), C->getZExtValue());
          return true;
        }
        if (C && C->getZExtValue() <= 64) {
          for (uint64_t i = 0; i < C->getZExtValue(); ++i)
            line("*(" + A(0) + "+" + std::to_string(i) + ") = " + A(1) + ";");
          return true;
        }
        line("vf_memset(" + A(0) + ", " + A(1) + ", " + A(2) + ");");
        return true;
      }
      case Intrinsic::sadd_with_overflow:
      case Intrinsic::ssub_with_overflow:
      case Intrinsic::smul_with_overflow:
      case Intrinsic::uadd_with_overflow:
      case Intrinsic::usub_with_overflow:
      case Intrinsic::umul_with_overflow: {
        auto id = I.getIntrinsicID();
        bool s = id == Intrinsic::sadd_with_overflow ||
                 id == Intrinsic::ssub_with_overflow ||
                 id == Intrinsic::smul_with_overflow;
        const char* op =
            (id == Intrinsic::sadd_with_overflow ||
             id == Intrinsic::uadd_with_overflow)
                ? "+"
                : (id == Intrinsic::ssub_with_overflow ||
                   id == Intrinsic::usub_with_overflow)
                      ? "-"
                      : "*";
        const char* nm = *op == '+' ? "plus" : *op == '-' ? "minus" : "mult";
        Type* IT = I.getArgOperand(0)->getType();
        std::string ty = s ? stype(IT) : ctype(IT);
        std::string a = "(" + ty + ")" + A(0), b = "(" + ty + ")" + A(1);
        line(val(&I) + ".f0 = (" + ctype(IT) + ")(" + A(0) + op + A(1) + ");");
        line(val(&I) + ".f1 = __CPROVER_overflow_" + nm + "(" + a + ", " + b +
             ");");
        return true;
      }
      case Intrinsic::abs:
        assign(&I, "(" + sgn(I.getArgOperand(0)) + " < 0 ? (" + ctype(T) +
                       ")(0-" + A(0) + ") : " + A(0) + ")");
        return true;
      case Intrinsic::smax:
      case Intrinsic::smin:
        assign(&I, "(" + sgn(I.getArgOperand(0)) +
                       (I.getIntrinsicID() == Intrinsic::smax ? ">" : "<") +
                       sgn(I.getArgOperand(1)) + " ? " + A(0) + " : " + A(1) +
                       ")");
        return true;
      case Intrinsic::umax:
      case Intrinsic::umin:
        assign(&I, "(" + A(0) +
                       (I.getIntrinsicID() == Intrinsic::umax ? ">" : "<") +
                       A(1) + " ? " + A(0) + " : " + A(1) + ")");
        return true;
      case Intrinsic::usub_sat:
        assign(&I, "(" + A(0) + ">" + A(1) + " ? (" + ctype(T) + ")(" + A(0) +
                       "-" + A(1) + ") : (" + ctype(T) + ")0)");
        return true;
      case Intrinsic::uadd_sat:
        assign(&I, "((" + ctype(T) + ")(" + A(0) + "+" + A(1) + ") < " + A(0) +
                       " ? (" + ctype(T) + ")~(" + ctype(T) + ")0 : (" +
                       ctype(T) + ")(" + A(0) + "+" + A(1) + "))");
        return true;
      case Intrinsic::bswap: {
        unsigned w = T->getIntegerBitWidth();
        assign(&I, "vf_bswap" + std::to_string(w) + "(" + A(0) + ")");
        return true;
      }
      case Intrinsic::bitreverse: {
        unsigned w = T->getIntegerBitWidth();
        std::string e = "((" + ctype(T) + ")0)";
        for (unsigned i = 0; i < w; ++i)
          e = "(" + e + "|((" + ctype(T) + ")((" + A(0) + ">>" +
              std::to_string(i) + ")&1)<<" + std::to_string(w - 1 - i) + "))";
        assign(&I, e);
        return true;
      }
      case Intrinsic::ctlz:
      case Intrinsic::cttz: {
        unsigned w = T->getIntegerBitWidth();
        bool lz = I.getIntrinsicID() == Intrinsic::ctlz;
        std::string e = apint(APInt(w, w), T);
        for (unsigned k = 0; k < w; ++k) {
          // innermost = lowest priority
          unsigned bit = lz ? k : w - 1 - k;
          unsigned res = lz ? w - 1 - bit : bit;
          e = "((" + A(0) + ">>" + std::to_string(bit) + ")&1 ? (" + ctype(T) +
              ")" + std::to_string(res) + " : " + e + ")";
        }
        assign(&I, e);
        return true;
      }
      case Intrinsic::ctpop: {
        unsigned w = T->getIntegerBitWidth();
        std::string e = "0";
        for (unsigned k = 0; k < w; ++k)
          e += "+((" + A(0) + ">>" + std::to_string(k) + ")&1)";
        assign(&I, "(" + ctype(T) + ")(" + e + ")");
        return true;
      }
      case Intrinsic::fshl:
      case Intrinsic::fshr: {
        unsigned w = T->getIntegerBitWidth();
        std::string W = std::to_string(w);
        std::string s = "((" + A(2) + ")%" + W + ")";
        bool l = I.getIntrinsicID() == Intrinsic::fshl;
        std::string t = ctype(T);
        if (l)
          assign(&I, "(" + s + "==0 ? " + A(0) + " : (" + t + ")(((" + t + ")(" +
                         A(0) + "<<" + s + "))|(" + A(1) + ">>(" + W + "-" + s +
                         "))))");
        else
          assign(&I, "(" + s + "==0 ? " + A(1) + " : (" + t + ")(((" + t + ")(" +
                         A(0) + "<<(" + W + "-" + s + ")))|(" + A(1) + ">>" + s +
                         ")))");
        return true;
      }
      case Intrinsic::fabs:
        assign(&I, T->isFloatTy() ? "__CPROVER_fabsf(" + A(0) + ")"
                                  : "__CPROVER_fabs(" + A(0) + ")");
        return true;
      case Intrinsic::is_fpclass: {
        uint64_t m = cast<ConstantInt>(I.getArgOperand(1))->getZExtValue();
        std::string x = A(0), e = "0";
        bool f32 = I.getArgOperand(0)->getType()->isFloatTy();
        auto sb = f32 ? "(bc_f32_u32(" + x + ")>>31)" : "(bc_f64_u64(" + x + ")>>63)";
        if (m & 3) e += "||__CPROVER_isnan" + std::string(f32 ? "f" : "d") + "(" + x + ")";
        auto add = [&](unsigned bit, const std::string& cls, bool neg) {
          if (m & bit) e += "||(" + cls + "&&(" + (neg ? "" : "!") + sb + "))";
        };
        std::string sfx = f32 ? "f" : "d";
        std::string inf = "__CPROVER_isinf" + sfx + "(" + x + ")";
        std::string nrm = "__CPROVER_isnormal" + sfx + "(" + x + ")";
        std::string zer = "(" + x + "==0)";
        std::string sub = "(!" + inf + "&&!" + nrm + "&&!" + zer +
                          "&&!__CPROVER_isnan" + sfx + "(" + x + "))";
        add(4, inf, true), add(8, nrm, true), add(16, sub, true),
            add(32, zer, true), add(64, zer, false), add(128, sub, false),
            add(256, nrm, false), add(512, inf, false);
        assign(&I, "(" + e + ")");
        return true;
      }
      case Intrinsic::maxnum:
      case Intrinsic::minnum:
        assign(&I, "(" + A(0) +
                       (I.getIntrinsicID() == Intrinsic::maxnum ? ">" : "<") +
                       A(1) + " ? " + A(0) + " : " + A(1) + ")");
        return true;
      case Intrinsic::fmuladd:
        assign(&I, "(" + A(0) + "*" + A(1) + "+" + A(2) + ")");
        return true;
      case Intrinsic::threadlocal_address:
        assign(&I, A(0));
        return true;
      default:
        return false;
    }
  }

  // The type of the object a pointer refers to, when evident.
  Type* pointee(const Value* V, uint64_t& off) {
    off = 0;
    for (int k = 0; k < 8; ++k) {
      V = V->stripPointerCasts();
      if (auto* G = dyn_cast<GEPOperator>(V)) {
        APInt o(64, 0);
        Type* S = G->getSourceElementType();
        if (G->accumulateConstantOffset(*DL, o) && o.getSExtValue() >= 0) {
          if (S->isStructTy() && (uint64_t)o.getSExtValue() < DL->getTypeAllocSize(S)) {
            off += o.getZExtValue();
            return S;
          }
          off += o.getZExtValue();
          V = G->getPointerOperand();
          continue;
        }
        return nullptr;
      }
      if (auto* A = dyn_cast<AllocaInst>(V)) return A->getAllocatedType();
      if (auto* GV = dyn_cast<GlobalVariable>(V)) return GV->getValueType();
      // another struct GEP of the same base tells the type
      for (const User* U : V->users())
        if (auto* G2 = dyn_cast<GetElementPtrInst>(U))
          if (G2->getPointerOperand() == V &&
              G2->getSourceElementType()->isStructTy())
            return G2->getSourceElementType();
      return nullptr;
    }
    return nullptr;
  }
  static bool isPtrAt(Type* T, uint64_t off) {
    while (true) {
      if (T->isPointerTy()) return off == 0;
      if (auto* ST = dyn_cast<StructType>(T)) {
        if (off >= DL->getTypeAllocSize(ST) || ST->getNumElements() == 0)
          return false;
        unsigned i = DL->getStructLayout(ST)->getElementContainingOffset(off);
        off -= DL->getStructLayout(ST)->getElementOffset(i);
        T = ST->getElementType(i);
      } else if (auto* AT = dyn_cast<ArrayType>(T)) {
        uint64_t es = DL->getTypeAllocSize(AT->getElementType());
        if (!es || off >= es * AT->getNumElements()) return false;
        off %= es;
        T = AT->getElementType();
      } else
        return false;
    }
  }
  static Type* scalarAt(Type* T, uint64_t off) {
    while (true) {
      if (auto* ST = dyn_cast<StructType>(T)) {
        if (off >= DL->getTypeAllocSize(ST) || ST->getNumElements() == 0)
          return nullptr;
        unsigned i = DL->getStructLayout(ST)->getElementContainingOffset(off);
        off -= DL->getStructLayout(ST)->getElementOffset(i);
        T = ST->getElementType(i);
      } else if (auto* AT = dyn_cast<ArrayType>(T)) {
        uint64_t es = DL->getTypeAllocSize(AT->getElementType());
        if (!es || off >= es * AT->getNumElements()) return nullptr;
        off %= es;
        T = AT->getElementType();
      } else
        return off == 0 ? T : nullptr;
    }
  }
  std::string plus(const std::string& p, uint64_t o) {
    return o ? "(" + p + "+" + std::to_string(o) + ")" : p;
  }
  void emitCopy(const Value* D, const Value* S, uint64_t n) {
    uint64_t od, os;
    Type* TD = pointee(D, od);
    Type* TS = pointee(S, os);
    std::string d = val(D), s = val(S);
    std::vector<std::string> st;
    std::vector<std::string> ld;
    uint64_t i = 0;
    while (i < n) {
      Type* T = nullptr;
      if (TD) T = scalarAt(TD, od + i);
      if (TS) {
        Type* T2 = scalarAt(TS, os + i);
        if (!T || (T2 && T2->isPointerTy())) T = T2;
      }
      std::string ty = "u8";
      uint64_t sz = 1;
      if (T && !T->isIntegerTy(1) && DL->getTypeStoreSize(T) + i <= n) {
        ty = ctype(T);
        sz = DL->getTypeStoreSize(T);
      } else if (!T && n - i >= 8) {
        ty = "u64", sz = 8;
      } else if (!T && n - i >= 4) {
        ty = "u32", sz = 4;
      }
      std::string t = "cp" + std::to_string(tmp++);
      decls += "  " + ty + " " + t + ";\n";
      ld.push_back(t + " = *(" + ty + "*)" + plus(s, i) + ";");
      st.push_back("*(" + ty + "*)" + plus(d, i) + " = " + t + ";");
      i += sz;
    }
    for (auto& x : ld) line(x);
    for (auto& x : st) line(x);
  }
  void emitZero(const Value* D, uint64_t n) {
    uint64_t od;
    Type* TD = pointee(D, od);
    std::string d = val(D);
    if (n > 64 && !TD) {
      line("vf_memset(" + d + ", 0, " + std::to_string(n) + "ull);");
      return;
    }
    uint64_t i = 0;
    while (i < n) {
      Type* T = TD ? scalarAt(TD, od + i) : nullptr;
      std::string ty = "u8";
      uint64_t sz = 1;
      if (T && !T->isIntegerTy(1) && DL->getTypeStoreSize(T) + i <= n) {
        ty = ctype(T);
        sz = DL->getTypeStoreSize(T);
      } else if (!T && n - i >= 8)
        ty = "u64", sz = 8;
      else if (!T && n - i >= 4)
        ty = "u32", sz = 4;
      line("*(" + ty + "*)" + plus(d, i) + " = 0;");
      i += sz;
    }
  }

  void emitCall(const CallBase& CB) {
    const Value* CV = CB.getCalledOperand()->stripPointerCasts();
    if (auto* GA = dyn_cast<GlobalAlias>(CV)) CV = GA->getAliaseeObject();
    if (auto* II = dyn_cast<IntrinsicInst>(&CB)) {
      if (emitIntrinsic(*II)) return;
    }
    std::string res = CB.getType()->isVoidTy() ? "" : val(&CB) + " = ";
    if (auto* Callee = dyn_cast<Function>(CV)) {
      StringRef n = Callee->getName();
      auto A = [&](unsigned i) { return val(CB.getArgOperand(i)); };
      // --- verification primitives
      if (n == "vf_assume") {
        line("__CPROVER_assume(" + A(0) + ");");
        return;
      }
      if (n == "vf_assert") {
        std::string m = "?";
        getStr(CB.getArgOperand(1), m);
        line("__CPROVER_assert(" + A(0) + ", " + cstr(m) + ");");
        return;
      }
      if (n == "vf_cover") {
        std::string m = "?";
        getStr(CB.getArgOperand(1), m);
        // reachability obligation: reported as COVER, must FAIL (be reachable)
        line("__CPROVER_assert(!(" + A(0) + "), " + cstr("COVER " + m) + ");");
        return;
      }
      if (n.starts_with("vf_nondet_")) {
        // vf_nondet_u8/u16/u32/u64/ptr... value goes through a logged global
        Type* T = CB.getType();
        std::string g = "vf_nd_" + ctype(T);
        line(g + " = nondet_" + ctype(T) + "(); " + val(&CB) + " = " + g + ";");
        NeedNondet.insert(T);
        return;
      }
      if (n.starts_with("vf_havoc_") && n != "vf_havoc_object") {
        // unlogged nondeterminism (contract stubs)
        assign(&CB, "nondet_" + ctype(CB.getType()) + "()");
        NeedNondet.insert(CB.getType());
        return;
      }
      if (n.starts_with("vf_uf_")) {
        std::string pre, args = callArgs(CB, CB.getFunctionType(), pre);
        line(res + "__CPROVER_uninterpreted_" + n.str() + "(" + args + ");");
        return;
      }
      if (n == "vf_havoc_object") {
        line("__CPROVER_havoc_object(" + A(0) + ");");
        return;
      }
      if (n == "vf_oom") {  // did a nothrow allocation fail so far?
        assign(&CB, "vf_oom_seen");
        return;
      }
      if (n == "vf_alloc") {  // fresh object of symbolic size, contents nondet
        line(val(&CB) + " = (ptr)malloc(" + A(0) + ");");
        return;
      }
      if (n == "vf_same_object") {
        assign(&CB, "__CPROVER_same_object(" + A(0) + ", " + A(1) + ")");
        return;
      }
      if (n == "vf_r_ok") {
        assign(&CB, "__CPROVER_r_ok(" + A(0) + ", " + A(1) + ")");
        return;
      }
      if (n == "vf_w_ok") {
        assign(&CB, "__CPROVER_w_ok(" + A(0) + ", " + A(1) + ")");
        return;
      }
      if (n == "vf_offset") {
        assign(&CB, "(u64)__CPROVER_POINTER_OFFSET(" + A(0) + ")");
        return;
      }
      if (n == "vf_object_size") {
        assign(&CB, "(u64)__CPROVER_OBJECT_SIZE(" + A(0) + ")");
        return;
      }
      // --- allocation
      if (Callee->isDeclaration()) {
        if (n == "_Znwm" || n == "_Znam") {
          emitAlloc(CB, CB.getArgOperand(0), false);
          return;
        }
        if (n == "_ZnwmRKSt9nothrow_t" || n == "_ZnamRKSt9nothrow_t" ||
            n == "malloc") {
          emitAlloc(CB, CB.getArgOperand(0), true);
          return;
        }
        if (n == "_ZdlPv" || n == "_ZdaPv" || n == "_ZdlPvm" ||
            n == "_ZdaPvm" || n == "free" || n == "_ZdlPvRKSt9nothrow_t" ||
            n == "_ZdaPvRKSt9nothrow_t") {
          line("free(" + A(0) + ");");
          return;
        }
        if (n == "__assert_fail") {
          std::string m = "?";
          getStr(CB.getArgOperand(0), m);
          line("__CPROVER_assert(0, " +
               cstr("source assert: " + m + " in " + where()) +
               "); __CPROVER_assume(0);");
          return;
        }
        if (n == "abort" || n == "_ZSt9terminatev" || n == "exit" ||
            n == "__cxa_pure_virtual") {
          line("__CPROVER_assert(0, \"" + n.str() + " reached in " +
               where() + "\"); __CPROVER_assume(0);");
          return;
        }
        if (n.starts_with("_ZSt20__throw_length_error") ||
            n.starts_with("_ZSt17__throw_bad_alloc") ||
            n.starts_with("_ZSt28__throw_bad_array_new_length")) {
          // allocation failure by exception: path ends (assumption A-ALLOC)
          line("__CPROVER_assume(0);");
          return;
        }
        if (n.starts_with("_ZSt") && n.contains("__throw_")) {
          line("__CPROVER_assert(0, \"" + n.str() + " reached in " +
               where() + "\"); __CPROVER_assume(0);");
          return;
        }
        if (n == "memcpy" || n == "memmove" || n == "memset") {
          line((CB.getType()->isVoidTy() ? "" : val(&CB) + " = ") + "vf_" +
               n.str() + "(" + A(0) + ", " + A(1) + ", " + A(2) + ");");
          return;
        }
        if (n == "memcmp" || n == "bcmp") {
          assign(&CB, "(u32)vf_memcmp(" + A(0) + ", " + A(1) + ", " + A(2) + ")");
          return;
        }
        if (n == "strlen") {
          assign(&CB, "vf_strlen(" + A(0) + ")");
          return;
        }
        if (n == "strcmp") {
          assign(&CB, "(u32)vf_strcmp(" + A(0) + ", " + A(1) + ")");
          return;
        }
        if (n == "strncmp") {
          assign(&CB, "(u32)vf_strncmp(" + A(0) + ", " + A(1) + ", " + A(2) + ")");
          return;
        }
        if (n == "memchr") {
          assign(&CB, "vf_memchr(" + A(0) + ", " + A(1) + ", " + A(2) + ")");
          return;
        }
        if (n == "strchr") {
          assign(&CB, "vf_strchr(" + A(0) + ", " + A(1) + ")");
          return;
        }
        if (n == "__cxa_atexit" || n == "__cxa_guard_release" ||
            n == "__cxa_guard_abort") {
          if (!CB.getType()->isVoidTy()) assign(&CB, "0");
          return;
        }
        if (n == "__cxa_guard_acquire") {
          assign(&CB, "(*(u8*)" + A(0) + " == 0)");
          line("*(u8*)" + A(0) + " = 1;");
          return;
        }
        if (n.starts_with("vfio_") || n == "puts" || n == "putchar" ||
            n == "fputc" || n == "fputs" || n == "fwrite_stderr" ||
            n == "perror") {
          if (!CB.getType()->isVoidTy()) assign(&CB, nondetOf(CB.getType()));
          return;
        }
        if (n == "rand_r" || n == "rand") {
          assign(&CB, nondetOf(CB.getType()) + " & 0x7fffffffu");
          return;
        }
      }
      std::string pre, args = callArgs(CB, CB.getFunctionType(), pre);
      line(pre + res + gname(Callee) + "(" + args + ");");
      if (CB.doesNotReturn()) line("__CPROVER_assume(0);");
      return;
    }
    // indirect call: dispatch over the vtable slot when it is one
    std::string pre, args = callArgs(CB, CB.getFunctionType(), pre);
    std::string fp = val(CB.getCalledOperand());
    std::vector<Function*> cands;
    bool vt = false;
    if (auto* L = dyn_cast<LoadInst>(CV)) {
      const Value* P = L->getPointerOperand();
      APInt off(64, 0);
      const Value* B = P->stripAndAccumulateConstantOffsets(*DL, off, true);
      if (isa<LoadInst>(B) || isa<PHINode>(B) || isa<SelectInst>(B) ||
          isa<Argument>(B)) {
        vt = true;
        for (Function* C : VtSlots[off.getZExtValue()])
          if (C->getFunctionType() == CB.getFunctionType() ||
              (C->getReturnType() == CB.getType() &&
               C->arg_size() == CB.arg_size()))
            cands.push_back(C);
      }
    }
    if (!vt || cands.empty()) {
      for (Function& G : *M)
        if (G.hasAddressTaken() && G.getFunctionType() == CB.getFunctionType())
          cands.push_back(&G);
    }
    line(pre);
    std::string e;
    for (Function* C : cands) {
      bool ok = true;
      for (unsigned i = 0; i < C->arg_size(); ++i)
        if (C->getFunctionType()->getParamType(i) !=
            CB.getFunctionType()->getParamType(i))
          ok = false;
      if (!ok) continue;
      line("if (" + fp + " == (ptr)&" + gname(C) + ") { " + res + gname(C) + "(" +
           args + "); } else");
    }
    line("{ __CPROVER_assert(0, \"indirect call target unknown in " +
         where() + "\"); __CPROVER_assume(0); }");
  }

  void emitInst(const Instruction& I) {
    auto op = [&](unsigned i) { return val(I.getOperand(i)); };
    Type* T = I.getType();
    switch (I.getOpcode()) {
      case Instruction::Alloca: {
        auto& A = cast<AllocaInst>(I);
        std::string n = val(&I);
        if (auto* C = dyn_cast<ConstantInt>(A.getArraySize())) {
          std::string ty = ctype(A.getAllocatedType());
          std::string cnt = C->isOne() ? "" : "[" + std::to_string(C->getZExtValue()) + "]";
          decls += "  " + ty + " " + n + "_o" + cnt + ";\n";
          line(n + " = (ptr)&" + n + "_o;");
        } else {
          line(n + " = (ptr)malloc(" + std::to_string(DL->getTypeAllocSize(A.getAllocatedType())) +
               "ull*" + op(0) + ");");
        }
        break;
      }
      case Instruction::Load:
        if (T->isIntegerTy(1))
          assign(&I, "((*(u8*)" + op(0) + ")&1)");
        else
          assign(&I, memref(T, op(0)));
        break;
      case Instruction::Store: {
        Type* VT = I.getOperand(0)->getType();
        if (VT->isIntegerTy(1))
          line("*(u8*)" + op(1) + " = " + op(0) + ";");
        else
          line(memref(VT, op(1)) + " = " + op(0) + ";");
        break;
      }
      case Instruction::GetElementPtr: {
        auto& G = cast<GetElementPtrInst>(I);
        if (G.getType()->isVectorTy()) {
          errs() << "vector gep\n";
          exit(3);
        }
        std::string e = op(0);
        int64_t c = 0;
        for (auto it = gep_type_begin(G), en = gep_type_end(G); it != en; ++it) {
          const Value* ix = it.getOperand();
          if (StructType* ST = it.getStructTypeOrNull()) {
            c += DL->getStructLayout(ST)->getElementOffset(
                cast<ConstantInt>(ix)->getZExtValue());
          } else {
            uint64_t es = DL->getTypeAllocSize(it.getIndexedType());
            if (auto* CI = dyn_cast<ConstantInt>(ix))
              c += CI->getSExtValue() * (int64_t)es;
            else {
              std::string s = "((s64)" + sgn(ix) + ")";
              if (es != 1) s = "(" + s + "*" + std::to_string(es) + "ll)";
              e += "+" + s;
            }
          }
        }
        if (c > 0) e += "+" + std::to_string(c) + "ll";
        if (c < 0) e += "-" + std::to_string(-c) + "ll";
        assign(&I, e);
        break;
      }
      case Instruction::Add:
      case Instruction::Sub:
      case Instruction::Mul:
      case Instruction::And:
      case Instruction::Or:
      case Instruction::Xor: {
        const char* o = "";
        switch (I.getOpcode()) {
          case Instruction::Add: o = "+"; break;
          case Instruction::Sub: o = "-"; break;
          case Instruction::Mul: o = "*"; break;
          case Instruction::And: o = "&"; break;
          case Instruction::Or: o = "|"; break;
          case Instruction::Xor: o = "^"; break;
        }
        if (T->isIntegerTy(1))
          assign(&I, "(((u8)" + op(0) + o + "(u8)" + op(1) + ")&1)");
        else
          assign(&I, "(" + ctype(T) + ")(" + op(0) + o + op(1) + ")");
        break;
      }
      case Instruction::UDiv:
      case Instruction::URem:
        assign(&I, "(" + ctype(T) + ")(" + op(0) +
                       (I.getOpcode() == Instruction::UDiv ? "/" : "%") +
                       op(1) + ")");
        break;
      case Instruction::SDiv:
      case Instruction::SRem:
        assign(&I, "(" + ctype(T) + ")(" + sgn(I.getOperand(0)) +
                       (I.getOpcode() == Instruction::SDiv ? "/" : "%") +
                       sgn(I.getOperand(1)) + ")");
        break;
      case Instruction::Shl:
        assign(&I, "(" + ctype(T) + ")(" + op(0) + "<<" + op(1) + ")");
        break;
      case Instruction::LShr:
        assign(&I, "(" + ctype(T) + ")(" + op(0) + ">>" + op(1) + ")");
        break;
      case Instruction::AShr:
        assign(&I, "(" + ctype(T) + ")(" + sgn(I.getOperand(0)) + ">>" + op(1) +
                       ")");
        break;
      case Instruction::FAdd:
        assign(&I, op(0) + "+" + op(1));
        break;
      case Instruction::FSub:
        assign(&I, op(0) + "-" + op(1));
        break;
      case Instruction::FMul:
        assign(&I, op(0) + "*" + op(1));
        break;
      case Instruction::FDiv:
        assign(&I, op(0) + "/" + op(1));
        break;
      case Instruction::FNeg:
        assign(&I, "-" + op(0));
        break;
      case Instruction::ICmp: {
        auto& C = cast<ICmpInst>(I);
        Type* OT = I.getOperand(0)->getType();
        const char* o = "";
        bool s = C.isSigned();
        switch (C.getPredicate()) {
          case CmpInst::ICMP_EQ: o = "=="; break;
          case CmpInst::ICMP_NE: o = "!="; break;
          case CmpInst::ICMP_UGT:
          case CmpInst::ICMP_SGT: o = ">"; break;
          case CmpInst::ICMP_UGE:
          case CmpInst::ICMP_SGE: o = ">="; break;
          case CmpInst::ICMP_ULT:
          case CmpInst::ICMP_SLT: o = "<"; break;
          default: o = "<="; break;
        }
        if (OT->isPointerTy())
          assign(&I, "(" + op(0) + o + op(1) + ")");
        else if (s)
          assign(&I, "(" + sgn(I.getOperand(0)) + o + sgn(I.getOperand(1)) + ")");
        else
          assign(&I, "(" + op(0) + o + op(1) + ")");
        break;
      }
      case Instruction::FCmp: {
        auto& C = cast<FCmpInst>(I);
        std::string a = op(0), b = op(1);
        std::string nan = "((" + a + "!=" + a + ")||(" + b + "!=" + b + "))";
        std::string e;
        switch (C.getPredicate()) {
          case CmpInst::FCMP_FALSE: e = "0"; break;
          case CmpInst::FCMP_TRUE: e = "1"; break;
          case CmpInst::FCMP_OEQ: e = a + "==" + b; break;
          case CmpInst::FCMP_OGT: e = a + ">" + b; break;
          case CmpInst::FCMP_OGE: e = a + ">=" + b; break;
          case CmpInst::FCMP_OLT: e = a + "<" + b; break;
          case CmpInst::FCMP_OLE: e = a + "<=" + b; break;
          case CmpInst::FCMP_ONE: e = "(" + a + "!=" + b + ")&&!" + nan; break;
          case CmpInst::FCMP_ORD: e = "!" + nan; break;
          case CmpInst::FCMP_UNO: e = nan; break;
          case CmpInst::FCMP_UEQ: e = "(" + a + "==" + b + ")||" + nan; break;
          case CmpInst::FCMP_UGT: e = "!(" + a + "<=" + b + ")"; break;
          case CmpInst::FCMP_UGE: e = "!(" + a + "<" + b + ")"; break;
          case CmpInst::FCMP_ULT: e = "!(" + a + ">=" + b + ")"; break;
          case CmpInst::FCMP_ULE: e = "!(" + a + ">" + b + ")"; break;
          default: e = a + "!=" + b; break;
        }
        assign(&I, "(" + e + ")");
        break;
      }
      case Instruction::ZExt:
      case Instruction::PtrToInt:
      case Instruction::IntToPtr:
        assign(&I, "(" + ctype(T) + ")" + op(0));
        break;
      case Instruction::SExt:
        assign(&I, "(" + ctype(T) + ")(" + stype(T) + ")" + sgn(I.getOperand(0)));
        break;
      case Instruction::Trunc:
        if (T->isIntegerTy(1))
          assign(&I, "(" + op(0) + "&1)");
        else
          assign(&I, "(" + ctype(T) + ")" + op(0));
        break;
      case Instruction::FPToSI:
        assign(&I, "(" + ctype(T) + ")(" + stype(T) + ")" + op(0));
        break;
      case Instruction::FPToUI:
      case Instruction::UIToFP:
      case Instruction::FPExt:
      case Instruction::FPTrunc:
        assign(&I, "(" + ctype(T) + ")" + op(0));
        break;
      case Instruction::SIToFP:
        assign(&I, "(" + ctype(T) + ")" + sgn(I.getOperand(0)));
        break;
      case Instruction::BitCast: {
        Type* S = I.getOperand(0)->getType();
        if (S == T)
          assign(&I, op(0));
        else if (S->isFloatTy() && T->isIntegerTy(32))
          assign(&I, "bc_f32_u32(" + op(0) + ")");
        else if (S->isDoubleTy() && T->isIntegerTy(64))
          assign(&I, "bc_f64_u64(" + op(0) + ")");
        else if (T->isFloatTy() && S->isIntegerTy(32))
          assign(&I, "bc_u32_f32(" + op(0) + ")");
        else if (T->isDoubleTy() && S->isIntegerTy(64))
          assign(&I, "bc_u64_f64(" + op(0) + ")");
        else {
          // through memory
          std::string t = "bcst" + std::to_string(tmp++);
          decls += "  " + ctype(S) + " " + t + ";\n";
          line(t + " = " + op(0) + ";");
          assign(&I, memref(T, "((ptr)&" + t + ")"));
        }
        break;
      }
      case Instruction::Freeze:
        assign(&I, op(0));
        break;
      case Instruction::Select:
        if (T->isAggregateType()) {
          line("if (" + op(0) + ") " + val(&I) + " = " + op(1) + "; else " +
               val(&I) + " = " + op(2) + ";");
        } else
          assign(&I, "(" + op(0) + " ? " + op(1) + " : " + op(2) + ")");
        break;
      case Instruction::ExtractValue: {
        auto& E = cast<ExtractValueInst>(I);
        std::string e = op(0);
        Type* CT = E.getAggregateOperand()->getType();
        for (unsigned ix : E.indices()) {
          if (CT->isArrayTy()) {
            e += ".a[" + std::to_string(ix) + "]";
            CT = CT->getArrayElementType();
          } else {
            e += ".f" + std::to_string(ix);
            CT = CT->getStructElementType(ix);
          }
        }
        assign(&I, e);
        break;
      }
      case Instruction::InsertValue: {
        auto& E = cast<InsertValueInst>(I);
        if (!isa<UndefValue>(E.getAggregateOperand()))
          assign(&I, op(0));
        std::string e = val(&I);
        Type* CT = T;
        for (unsigned ix : E.indices()) {
          if (CT->isArrayTy()) {
            e += ".a[" + std::to_string(ix) + "]";
            CT = CT->getArrayElementType();
          } else {
            e += ".f" + std::to_string(ix);
            CT = CT->getStructElementType(ix);
          }
        }
        line(e + " = " + op(1) + ";");
        break;
      }
      case Instruction::ExtractElement:
        assign(&I, op(0) + ".a[" + op(1) + "]");
        break;
      case Instruction::InsertElement:
        if (!isa<UndefValue>(I.getOperand(0))) assign(&I, op(0));
        line(val(&I) + ".a[" + op(2) + "] = " + op(1) + ";");
        break;
      case Instruction::Call:
        emitCall(cast<CallBase>(I));
        break;
      case Instruction::Fence:
        break;
      case Instruction::AtomicRMW: {
        auto& R = cast<AtomicRMWInst>(I);
        assign(&I, memref(T, op(0)));
        const char* o = R.getOperation() == AtomicRMWInst::Add   ? "+"
                        : R.getOperation() == AtomicRMWInst::Sub ? "-"
                                                                 : nullptr;
        if (!o) {
          errs() << "unsupported atomicrmw\n";
          exit(3);
        }
        line(memref(T, op(0)) + " = (" + ctype(T) + ")(" + val(&I) + o + op(1) +
             ");");
        break;
      }
      default:
        errs() << "unsupported instruction: " << I << "\n";
        exit(3);
    }
  }

  void emitTerm(const Instruction& I) {
    const BasicBlock* B = I.getParent();
    if (auto* Br = dyn_cast<BranchInst>(&I)) {
      if (Br->isUnconditional()) {
        edge(B, Br->getSuccessor(0), "  ");
      } else {
        body += "  if (" + val(Br->getCondition()) + ") {\n";
        edge(B, Br->getSuccessor(0), "    ");
        body += "  } else {\n";
        edge(B, Br->getSuccessor(1), "    ");
        body += "  }\n";
      }
    } else if (auto* Sw = dyn_cast<SwitchInst>(&I)) {
      std::string c = val(Sw->getCondition());
      for (auto& cs : Sw->cases()) {
        body += "  if (" + c + " == " + val(cs.getCaseValue()) + ") {\n";
        edge(B, cs.getCaseSuccessor(), "    ");
        body += "  }\n";
      }
      edge(B, Sw->getDefaultDest(), "  ");
    } else if (auto* R = dyn_cast<ReturnInst>(&I)) {
      if (R->getReturnValue())
        line("return " + val(R->getReturnValue()) + ";");
      else
        line("return;");
    } else if (isa<UnreachableInst>(&I)) {
      // reached only after a noreturn call (already cut) or source-level UB
      const Instruction* P = I.getPrevNonDebugInstruction();
      bool cut = false;
      if (auto* CB = dyn_cast_or_null<CallBase>(P)) cut = CB->doesNotReturn();
      if (!cut)
        line("__CPROVER_assert(0, \"unreachable reached in " + where() +
             "\");");
      line("__CPROVER_assume(0);");
    } else {
      errs() << "unsupported terminator " << I << "\n";
      exit(3);
    }
  }

  static std::string proto(Function& F, FnEmitter* E) {
    std::string r = ctype(F.getReturnType()) + " " + gname(&F) + "(";
    bool first = true;
    for (Argument& A : F.args()) {
      if (!first) r += ", ";
      first = false;
      r += ctype(A.getType());
      if (E) r += " " + E->val(&A);
    }
    if (first) r += "void";
    return r + ")";
  }

  void run() {
    std::string head = proto(F, this);
    auto ord = order();
    int k = 0;
    for (BasicBlock* B : ord) bbid[B] = k++;
    for (BasicBlock* B : ord) {
      body += " B" + std::to_string(bbid[B]) + ":;\n";
      for (Instruction& I : *B) {
        if (isa<PHINode>(I)) continue;
        setLoc(I);
        if (I.isTerminator())
          emitTerm(I);
        else
          emitInst(I);
      }
    }
    OS << head << " {\n";
    for (auto& kv : names) {
      if (isa<Argument>(kv.first)) continue;
      Type* T = kv.first->getType();
      if (T->isVoidTy()) continue;
      OS << "  " << ctype(T) << " " << kv.second << ";\n";
      if (isa<PHINode>(kv.first))
        OS << "  " << ctype(T) << " " << kv.second << "_t;\n";
    }
    OS << decls << "  goto B0;\n" << body << "}\n\n";
  }
};

static Function* fnOf(Constant* C) {
  if (!C) return nullptr;
  for (int i = 0; i < 8; ++i) {
    C = cast<Constant>(C->stripPointerCasts());
    if (auto* F = dyn_cast<Function>(C)) return F;
    if (auto* GA = dyn_cast<GlobalAlias>(C)) {
      C = GA->getAliasee();
      continue;
    }
    if (auto* CE = dyn_cast<ConstantExpr>(C)) {
      C = CE->getOperand(0);
      continue;
    }
    if (C->getType()->isStructTy() && C->getType()->getStructNumElements()) {
      C = C->getAggregateElement(0u);
      continue;
    }
    return nullptr;
  }
  return nullptr;
}
static std::string ReplacedList;
static void replaceContracts() {
  std::vector<std::pair<Function*, Function*>> pairs;
  std::vector<GlobalVariable*> dead;
  for (auto& G : M->globals()) {
    if (!G.getName().starts_with("vf_replace__") || !G.hasInitializer()) continue;
    dead.push_back(&G);
    StringRef tag = G.getName().drop_front(12).split("__").first;
    bool on = false;
    for (auto& t : Contracts) on |= tag == t;
    if (!on) continue;
    auto* C = G.getInitializer();
    Function* a = fnOf(C->getAggregateElement(0u));
    Function* b = fnOf(C->getAggregateElement(1u));
    if (!a || !b) {
      errs() << "bad replace table " << G.getName() << "\n";
      exit(4);
    }
    pairs.push_back({a, b});
  }
  for (auto& s : RepSym) {
    auto p = StringRef(s).split('=');
    Function* a = M->getFunction(p.first);
    Function* b = M->getFunction(p.second);
    if (!a) continue;  // the code does not use it
    if (!b) {
      errs() << "replace: no stub " << p.second << "\n";
      exit(4);
    }
    pairs.push_back({a, b});
  }
  for (auto* G : dead) {
    // also remove from llvm.used / llvm.compiler.used
    G->setLinkage(GlobalValue::InternalLinkage);
  }
  for (const char* u : {"llvm.used", "llvm.compiler.used"})
    if (auto* U = M->getNamedGlobal(u)) U->eraseFromParent();
  for (auto* G : dead)
    if (G->use_empty()) G->eraseFromParent();
  for (auto& p : pairs) {
    p.first->replaceAllUsesWith(p.second);
    p.first->deleteBody();
    ReplacedList += "REPLACED " + demangle(p.first->getName().str()) + "\n";
  }
}

int main(int argc, char** argv) {
  cl::ParseCommandLineOptions(argc, argv, "ll2c\n");
  LLVMContext Ctx;
  SMDiagnostic Err;
  M = parseIRFile(InFile, Err, Ctx);
  if (!M) {
    Err.print(argv[0], errs());
    return 2;
  }
  DL = &M->getDataLayout();
  replaceContracts();
  // diagnostics: keep the optimiser from turning them into other calls
  for (const char* n : {"fprintf", "printf"})
    if (Function* F = M->getFunction(n))
      if (F->isDeclaration()) F->setName(std::string("vfio_") + n);
  Function* R = M->getFunction(Root);
  if (!R || R->isDeclaration()) {
    errs() << "no root " << Root << "\n";
    return 4;
  }
  // Keep module constructors only when they concern globals that survive: we
  // call them from the entry.
  for (Function& F : *M) {
    F.removeFnAttr(Attribute::OptimizeNone);
    if (F.getName().starts_with("vf_noinline_")) F.addFnAttr(Attribute::NoInline);
    // functions whose code the harness watches must not be merged with libc
    if (F.isDeclaration() && F.getName().starts_with("vf_"))
      F.addFnAttr(Attribute::NoInline);
  }
  // keep obligations apart (no tail merging of asserts/traps)
  for (Function& F : *M)
    for (Instruction& I : instructions(F))
      if (auto* CB = dyn_cast<CallBase>(&I))
        if (Function* C = CB->getCalledFunction()) {
          StringRef n = C->getName();
          if (n == "vf_assert" || n == "vf_assume" || n == "vf_cover" ||
              n.starts_with("llvm.ubsantrap") || n == "__assert_fail")
            CB->addFnAttr(Attribute::NoMerge);
        }
  internalizeModule(*M, [&](const GlobalValue& G) {
    return G.getName() == Root || G.getName() == "llvm.global_ctors";
  });
  {
    LoopAnalysisManager LAM;
    FunctionAnalysisManager FAM;
    CGSCCAnalysisManager CGAM;
    ModuleAnalysisManager MAM;
    PipelineTuningOptions PTO;
    PTO.LoopVectorization = false;
    PTO.SLPVectorization = false;
    PTO.LoopUnrolling = false;
    PTO.LoopInterleaving = false;
    PassBuilder PB(nullptr, PTO);
    PB.registerModuleAnalyses(MAM);
    PB.registerCGSCCAnalyses(CGAM);
    PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    std::string pl = Passes;
    if (pl.empty())
      pl = "globaldce,default<O1>,globaldce,function(lower-switch<>)";
    if (Passes.empty())
      pl = "globaldce,function(sroa,early-cse<>),cgscc(inline),function(sroa,"
           "early-cse<>,simplifycfg<>,instcombine<no-verify-fixpoint>,"
           "jump-threading,simplifycfg<>),"
           "ipsccp,globalopt,function(sroa,early-cse<>,"
           "instcombine<no-verify-fixpoint>,simplifycfg<>,gvn<>,dse,"
           "loop-simplify,simplifycfg<>,adce),globaldce";
    if (auto E = PB.parsePassPipeline(MPM, pl)) {
      errs() << "pipeline: " << toString(std::move(E)) << "\n";
      return 2;
    }
    MPM.run(*M, MAM);
  }
  R = M->getFunction(Root);
  if (!DumpIR.empty()) {
    std::error_code ec;
    raw_fd_ostream f(DumpIR, ec);
    M->print(f, nullptr);
  }
  collectVtables();

  std::string fnText;
  raw_string_ostream FS(fnText);
  std::string protos, missing;
  std::string listing;
  for (Function& F : *M) {
    if (F.isIntrinsic()) continue;
    if (F.isDeclaration()) {
      if (F.use_empty()) continue;
      StringRef n = F.getName();
      if (n.starts_with("vf_") || n.starts_with("vfio_")) continue;
      if (F.isVarArg()) {
        // emitted with no params; body asserts
      }
      std::string p = ctype(F.getReturnType()) + " " + gname(&F) + "(";
      for (unsigned i = 0; i < F.arg_size(); ++i)
        p += (i ? ", " : "") + ctype(F.getArg(i)->getType()) + " a" +
             std::to_string(i);
      if (F.isVarArg()) p += F.arg_size() ? ", ..." : "";
      if (!F.arg_size() && !F.isVarArg()) p += "void";
      p += ")";
      missing += p + " { __CPROVER_assert(0, \"missing model: " + n.str() +
                 "\"); __CPROVER_assume(0); ";
      if (!F.getReturnType()->isVoidTy()) {
        missing += "return " + nondetOf(F.getReturnType()) + "; ";
      }
      missing += "}\n";
      protos += p + ";\n";
      continue;
    }
    FnEmitter E(F, FS);
    E.run();
    protos += FnEmitter::proto(F, nullptr) + ";\n";
    listing += F.getName().str() + " " + std::to_string(F.getInstructionCount()) + "\n";
  }
  FS.flush();

  // globals
  std::string gdecl, gdef;
  for (GlobalVariable& G : M->globals()) {
    if (G.getName().starts_with("llvm.")) continue;
    std::string ty = ctype(G.getValueType());
    gdecl += "extern " + ty + " " + gname(&G) + ";\n";
    if (G.hasInitializer())
      gdef += ty + " " + gname(&G) + " = " + initExpr(G.getInitializer()) + ";\n";
    else
      gdef += ty + " " + gname(&G) + ";\n";
  }
  // ctors
  std::string ctors;
  if (auto* GC = M->getNamedGlobal("llvm.global_ctors"))
    if (auto* CA = dyn_cast<ConstantArray>(GC->getInitializer()))
      for (auto& op : CA->operands())
        if (auto* F = dyn_cast<Function>(
                cast<ConstantStruct>(op)->getOperand(1)->stripPointerCasts()))
          ctors += "  " + gname(F) + "();\n";

  // helper definitions for nondet / zero of every needed type
  std::string helpers;
  for (Type* T : NeedNondet) {
    std::string t = ctype(T);
    if (T->isIntegerTy(1) || T->isVoidTy()) continue;
    if (T->isIntegerTy() &&
        (T->getIntegerBitWidth() == 8 || T->getIntegerBitWidth() == 16 ||
         T->getIntegerBitWidth() == 32 || T->getIntegerBitWidth() == 64))
      continue;
    if (T->isPointerTy() || T->isFloatTy() || T->isDoubleTy()) continue;
    helpers += t + " nondet_" + sanitize(t) + "(void) { " + t + " x; return x; }\n";
  }
  for (Type* T : NeedZero) {
    std::string t = ctype(T);
    helpers += "static const " + t + " zeroc_" + sanitize(t) + "; " + t +
               " zero_" + sanitize(t) + "(void) { return zeroc_" + sanitize(t) +
               "; }\n";
  }
  std::error_code ec;
  raw_fd_ostream O(OutFile, ec);
  O << "#include \"vf_rt.h\"\n" << TypeDefs << protos << gdecl << helpers << gdef
    << missing << fnText;
  O << "void vf_entry(void) {\n" << ctors << "  " << gname(R) << "();\n}\n";
  if (!Listing.empty()) {
    raw_fd_ostream L(Listing, ec);
    L << listing;
    L << ReplacedList;
    for (auto& n : SrcFns) L << "SRC " << n << "\n";
    L.close();
  }
  O.flush();
  outs().flush();
  errs().flush();
  _exit(0);
}
