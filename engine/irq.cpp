// irq: queries over the optimised IR of a translation unit.
//   irq statics IN.bc : every write to a mutable object with static storage duration defined in the unit, outside its initialisation,
//                       and every call from the library's own lines to a C function with hidden shared state
//   irq undef IN.bc   : arithmetic, comparisons and branches of the library on a variable never written before (after promotion to registers, without speculation)
//   irq linkage IN.bc : strong (external, non-comdat) definitions of the unit, referenced but undefined library symbols
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/ADT/SmallPtrSet.h"
#include <string>
#include <set>
#include <vector>
using namespace llvm;
static std::string loc(const Instruction *I) {
  const DebugLoc &d = I->getDebugLoc();
  if (!d) return "?";
  const DILocation *b = d.get();
  for (const DILocation *x = b; x; x = x->getInlinedAt()) if (x->getFilename().contains("/MathUtils/")) { b = x; break; }
  return (b->getFilename() + ":" + Twine(b->getLine())).str();
}
static std::string inner(const Instruction *I) { const DebugLoc &d = I->getDebugLoc(); if (!d) return "?"; return d->getFilename().str() + ":" + std::to_string(d->getLine()); }
static void out(StringRef kind, const std::string &what, const std::string &where, const std::string &fn) {
  outs() << kind << "\t" << what << "\t" << where << "\t" << fn << "\n"; }
static bool foreign(const std::string &d) {
  static const char *p[] = {"std::", "Eigen::", "boost::", "__gnu", "vtable for", "typeinfo", "guard variable", "VTT", "construction vtable", "llvm.", ".str", "__const", "__dso", "__PRETTY", "__func__", "_ZTS", "reference temporary for std::", "init_priority"};
  for (auto *x : p) if (StringRef(d).starts_with(x)) return true;
  return StringRef(d).contains("::__PRETTY_FUNCTION__");
}
// _ZZN5boost..., _ZNSt...: defined in another library
static bool foreignMangled(StringRef n) {
  if (!n.consume_front("_Z")) return false;
  while (n.consume_front("Z") || n.consume_front("L")) {}
  n.consume_front("N"); n.consume_front("K");
  return n.starts_with("St") || n.starts_with("Sa") || n.starts_with("5boost") || n.starts_with("5Eigen") || n.starts_with("9__gnu") || n.starts_with("GV") || n.starts_with("T"); }
int main(int argc, char **argv) {
  LLVMContext C; SMDiagnostic E; std::string mode = argv[1];
  auto M = parseIRFile(argv[2], E, C);
  if (!M) { E.print(argv[0], errs()); return 2; }
  unsigned nf = 0, ng = 0, ns = 0;
  if (mode == "linkage") {
    for (auto &F : *M) {
      std::string d = demangle(F.getName().str());
      if (!F.isDeclaration()) { nf++; if (F.hasExternalLinkage() && !F.hasComdat()) { auto *sp = F.getSubprogram(); out("strong", F.getName().str(), sp ? sp->getFilename().str() + ":" + std::to_string(sp->getLine()) : "", d); } }
      else if (!F.use_empty() && StringRef(d).contains("mathutils::")) out("undef", F.getName().str(), "", d);
    }
    for (auto &G : M->globals()) { ng++; std::string d = demangle(G.getName().str());
      if (!G.isDeclaration() && G.hasExternalLinkage() && !G.hasComdat()) out("strong", G.getName().str(), "", d);
      else if (G.isDeclaration() && !G.use_empty() && StringRef(d).contains("mathutils::")) out("undef", G.getName().str(), "", d); }
    outs() << "count\t" << nf << "\t" << ng << "\t0\n"; return 0;
  }
  if (mode == "undef") {
    for (auto &F : *M) { if (F.isDeclaration()) continue; bool lib = false;
      for (auto &B : F) for (auto &I : B) {
        if (!StringRef(inner(&I)).contains("/MathUtils/")) continue;
        lib = true;
        bool b = isa<BranchInst>(I) && cast<BranchInst>(I).isConditional();
        if (!(isa<BinaryOperator>(I) || isa<UnaryOperator>(I) || isa<CmpInst>(I) || isa<SwitchInst>(I) || b)) continue;
        ns++;
        for (unsigned k = 0; k < (isa<SwitchInst>(I) || b ? 1u : I.getNumOperands()); k++) {
          const Value *v = b ? cast<BranchInst>(I).getCondition() : I.getOperand(k);
          while (auto *c = dyn_cast<CastInst>(v)) v = c->getOperand(0);
          if (isa<UndefValue>(v)) { out("undef", I.getOpcodeName(), loc(&I), demangle(F.getName().str())); break; }
        }
      }
      nf += lib; }
    outs() << "count\t" << nf << "\t0\t" << ns << "\n"; return 0;
  }
  static const std::set<std::string> deny = {"rand", "srand", "random", "srandom", "drand48", "strtok", "gmtime", "localtime", "asctime", "ctime", "setlocale", "setenv", "putenv", "tmpnam", "lgamma", "lgammaf", "gamma", "strerror"};
  for (auto &F : *M) {
    if (F.isDeclaration()) continue; nf++;
    for (auto &B : F) for (auto &I : B) if (auto *c = dyn_cast<CallBase>(&I)) if (auto *g = c->getCalledFunction())
      if (deny.count(g->getName().str()) && StringRef(inner(&I)).contains("/MathUtils/") && !StringRef(demangle(F.getName().str())).contains("andom")) out("call", g->getName().str(), loc(&I), demangle(F.getName().str()));
  }
  for (auto &G : M->globals()) {
    if (G.isDeclaration() || G.isConstant() || G.isThreadLocal()) continue;
    std::string d = demangle(G.getName().str());
    if (foreign(d) || foreignMangled(G.getName())) continue;
    ng++;
    std::string guard = G.getName().starts_with("_Z") ? "_ZGV" + G.getName().substr(2).str() : "";
    // values derived from the object: addresses in it, pointers loaded from it
    std::vector<const Value *> work{&G}; SmallPtrSet<const Value *, 32> seen; seen.insert(&G);
    auto push = [&](const Value *v) { if (seen.insert(v).second) work.push_back(v); };
    while (!work.empty()) {
      const Value *v = work.back(); work.pop_back();
      for (const User *u : v->users()) {
        if (isa<ConstantExpr>(u) || isa<ConstantAggregate>(u)) { push(u); continue; }
        auto *I = dyn_cast<Instruction>(u); if (!I) continue;
        const Function *F = I->getFunction(); StringRef fn = F->getName();
        if (fn.starts_with("__cxx_global_var_init") || fn.starts_with("_GLOBAL__") || fn.starts_with("__cxx_global_array_dtor") || fn.starts_with("__tls")) continue;
        ns++;
        bool write = false; std::string how = "write";
        if (isa<GetElementPtrInst>(I) || isa<PHINode>(I) || isa<SelectInst>(I) || isa<CastInst>(I)) { push(I); continue; }
        if (auto *l = dyn_cast<LoadInst>(I)) { if (l->getType()->isPointerTy()) push(l); continue; }
        if (auto *s = dyn_cast<StoreInst>(I)) { if (s->getPointerOperand() == v && !s->isAtomic()) write = true; else if (s->getValueOperand() == v && isa<AllocaInst>(s->getPointerOperand())) push(s->getPointerOperand()); }
        else if (auto *c = dyn_cast<CallBase>(I)) {
          auto *cf = c->getCalledFunction();
          if (cf && (cf->getName().starts_with("__cxa_guard") || cf->getName() == "__cxa_atexit" || cf->getName() == "_ZdlPv")) continue;
          if (cf && (cf->getName() == "pthread_mutex_lock" || cf->getName() == "pthread_mutex_unlock")) continue;
          if (isa<DbgInfoIntrinsic>(c)) continue;
          for (unsigned i = 0; i < c->arg_size(); i++) if (c->getArgOperand(i) == v) {
            if (c->onlyReadsMemory() || c->onlyReadsMemory(i) || c->doesNotAccessMemory()) { if (c->getType()->isPointerTy()) push(c); continue; }
            std::string cn = cf ? demangle(cf->getName().str()) : "?";
            if (StringRef(cn).ends_with(" const")) { if (c->getType()->isPointerTy()) push(c); continue; }
            if (auto *mi = dyn_cast<MemIntrinsic>(c)) { if (i != 0) continue; }
            if (StringRef(cn).starts_with("operator delete") || cn == "free") { how = "release"; }
            write = true; if (how == "write" && !isa<MemIntrinsic>(c)) how = "call to " + cn + " with"; }
        } else if (isa<CmpInst>(I) || isa<ReturnInst>(I) || isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) {
          if (isa<ReturnInst>(I)) for (const User *cu : F->users()) if (auto *cc = dyn_cast<CallBase>(cu)) if (cc->getCalledFunction() == F) push(cc);
          continue; }
        if (!write) continue;
        // under a lock
        bool locked = false;
        for (auto &B : *F) for (auto &J : B) if (auto *c = dyn_cast<CallBase>(&J)) if (auto *cf = c->getCalledFunction())
          if (cf->getName() == "pthread_mutex_lock" && DominatorTree(*const_cast<Function *>(F)).dominates(&J, I)) locked = true;
        if (locked) continue;
        // inside the one-time initialisation: dominated by the acquisition of the guard, not by its release
        bool init = false;
        DominatorTree DT(*const_cast<Function *>(F));
        for (auto &B : *F) for (auto &J : B) if (auto *c = dyn_cast<CallBase>(&J)) if (auto *cf = c->getCalledFunction())
          if (cf->getName() == "__cxa_guard_acquire" && c->getArgOperand(0)->getName() == guard && DT.dominates(&J, I)) {
            init = true;
            for (auto &B2 : *F) for (auto &K : B2) if (auto *c2 = dyn_cast<CallBase>(&K)) if (auto *f2 = c2->getCalledFunction())
              if (f2->getName() == "__cxa_guard_release" && c2->getArgOperand(0)->getName() == guard && DT.dominates(&K, I)) init = false;
          }
        // the block where "already initialised" and "just initialised" meet is dominated by neither; an acquisition dominates it only without the fast path
        if (init) continue;
        out("write", how + " " + d, loc(I), demangle(fn.str()));
      }
    }
  }
  outs() << "count\t" << nf << "\t" << ng << "\t" << ns << "\n";
  return 0;
}
