// irdump: lowers an LLVM module to a compact JSON program for the abstract interpreter.
// Only functions reachable from the given roots (or all extern "C" functions with prefix "vp_") are emitted.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugLoc.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Analysis/PostDominators.h"
#include "llvm/ADT/APFloat.h"
#include "llvm/ADT/SmallString.h"
#include "llvm/ADT/MapVector.h"
#include <map>
#include <set>
#include <string>
#include <vector>
#include <deque>
using namespace llvm;
static const DataLayout *DL;
static Module *M;
static raw_ostream *O;
static std::deque<const GlobalValue *> work;
static std::set<const GlobalValue *> seen;
static std::map<std::string, int> fileIdx; static std::vector<std::string> files;

static void q(StringRef s) {
  *O << '"';
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') *O << '\\' << c;
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); *O << b; }
    else *O << c;
  }
  *O << '"';
}
static void need(const GlobalValue *g) { if (seen.insert(g).second) work.push_back(g); }
static std::string tyStr(Type *t) {
  if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
  if (t->isDoubleTy()) return "d";
  if (t->isFloatTy()) return "f";
  if (t->isX86_FP80Ty()) return "x";
  if (t->isPointerTy()) return "p";
  if (t->isVoidTy()) return "v";
  if (t->isHalfTy()) return "h";
  if (t->isFP128Ty()) return "q";
  if (auto *s = dyn_cast<StructType>(t)) {
    std::string r = "{";
    auto *L = DL->getStructLayout(s);
    for (unsigned i = 0; i < s->getNumElements(); i++) {
      if (i) r += ",";
      r += std::to_string((uint64_t)L->getElementOffset(i)) + ":" + tyStr(s->getElementType(i));
    }
    return r + "}";
  }
  if (auto *a = dyn_cast<ArrayType>(t)) {
    uint64_t es = DL->getTypeAllocSize(a->getElementType());
    return "[" + std::to_string(a->getNumElements()) + "*" + std::to_string(es) + ":" + tyStr(a->getElementType()) + "]";
  }
  if (auto *a = dyn_cast<FixedVectorType>(t)) {
    uint64_t es = DL->getTypeAllocSize(a->getElementType());
    return "<" + std::to_string(a->getNumElements()) + "*" + std::to_string(es) + ":" + tyStr(a->getElementType()) + ">";
  }
  return "?";
}
static std::map<const Value *, int> vid;
static void constant(const Constant *c);
static void operand(const Value *v) {
  if (auto *c = dyn_cast<Constant>(v)) { constant(c); return; }
  if (isa<MetadataAsValue>(v)) { *O << "[\"md\"]"; return; }
  if (isa<InlineAsm>(v)) { *O << "[\"asm\"]"; return; }
  auto it = vid.find(v);
  if (it == vid.end()) { *O << "[\"??\"]"; return; }
  *O << it->second;
}
static void constant(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    SmallString<40> s; ci->getValue().toString(s, 10, false);
    *O << "[\"i\"," << ci->getBitWidth() << ",\"" << s << "\"]"; return;
  }
  if (auto *cf = dyn_cast<ConstantFP>(c)) {
    APFloat f = cf->getValueAPF();
    if (f.isNaN()) { *O << "[\"f\",\"nan\"]"; return; }
    if (f.isInfinity()) { *O << "[\"f\",\"" << (f.isNegative() ? "-inf" : "inf") << "\"]"; return; }
    if (&f.getSemantics() == &APFloat::IEEEdouble() ) {
      char b[64]; snprintf(b, 64, "%a", f.convertToDouble()); *O << "[\"f\",\"" << b << "\"]"; return; }
    if (&f.getSemantics() == &APFloat::IEEEsingle()) {
      char b[64]; snprintf(b, 64, "%a", (double)f.convertToFloat()); *O << "[\"f\",\"" << b << "\"]"; return; }
    char buf[80]; f.convertToHexString(buf, 0, false, APFloat::rmNearestTiesToEven);
    *O << "[\"f\",\"" << buf << "\"]"; return;
  }
  if (isa<ConstantPointerNull>(c)) { *O << "[\"n\"]"; return; }
  if (isa<UndefValue>(c)) { *O << "[\"u\"]"; return; }
  if (isa<ConstantAggregateZero>(c)) { *O << "[\"z\"]"; return; }
  if (auto *g = dyn_cast<GlobalValue>(c)) { need(g); *O << "[\"g\","; q(g->getName()); *O << ",0]"; return; }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (c->getType()->isPointerTy()) {
      APInt off(64, 0);
      const Value *b = ce->stripAndAccumulateConstantOffsets(*DL, off, true);
      if (auto *g = dyn_cast<GlobalValue>(b)) { need(g); *O << "[\"g\","; q(g->getName()); *O << "," << off.getSExtValue() << "]"; return; }
      if (isa<ConstantPointerNull>(b)) { *O << "[\"n\"]"; return; }
    }
    *O << "[\"ce\",\"" << ce->getOpcodeName() << "\",\"" << tyStr(ce->getType()) << "\",[";
    for (unsigned i = 0; i < ce->getNumOperands(); i++) { if (i) *O << ","; operand(ce->getOperand(i)); }
    *O << "]]"; return;
  }
  if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
    *O << "[\"a\",[";
    for (unsigned i = 0; i < ca->getNumOperands(); i++) { if (i) *O << ","; operand(ca->getOperand(i)); }
    *O << "]]"; return;
  }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    if (cd->getElementType()->isIntegerTy(8)) {
      *O << "[\"b\",\""; for (unsigned char ch : cd->getRawDataValues()) { char b[4]; snprintf(b, 4, "%02x", ch); *O << b; }
      *O << "\"]"; return;
    }
    *O << "[\"a\",[";
    for (unsigned i = 0; i < cd->getNumElements(); i++) { if (i) *O << ","; constant(cd->getElementAsConstant(i)); }
    *O << "]]"; return;
  }
  *O << "[\"?c\"]";
}
static void loc(const Instruction &I) {
  const DebugLoc &d = I.getDebugLoc();
  if (!d) { *O << "0"; return; }
  // innermost location
  auto *di = d.get();
  std::string fn = di->getFilename().str();
  if (!fn.empty() && fn[0] != '/') fn = di->getDirectory().str() + "/" + fn;
  auto it = fileIdx.find(fn);
  if (it == fileIdx.end()) { it = fileIdx.emplace(fn, (int)files.size()).first; files.push_back(fn); }
  *O << (uint64_t)it->second * 1000000 + di->getLine();
}
static void emitFunction(const Function &F) {
  vid.clear(); int n = 0;
  std::map<const BasicBlock *, int> bid;
  for (auto &A : F.args()) vid[&A] = n++;
  int nb = 0;
  for (auto &B : F) { bid[&B] = nb++; for (auto &I : B) if (!I.getType()->isVoidTy()) vid[&I] = n++; }
  *O << "{\"name\":"; q(F.getName()); *O << ",\"dem\":"; q(demangle(F.getName().str()));
  if (auto *sp = F.getSubprogram()) { *O << ",\"file\":"; std::string fn = sp->getFilename().str(); q(fn); *O << ",\"line\":" << sp->getLine(); }
  *O << ",\"ret\":\"" << tyStr(F.getReturnType()) << "\",\"nvals\":" << n << ",\"args\":[";
  bool first = true;
  for (auto &A : F.args()) {
    if (!first) *O << ","; first = false;
    *O << "[\"" << tyStr(A.getType()) << "\"";
    if (A.hasByValAttr()) *O << ",\"byval\"," << (uint64_t)DL->getTypeAllocSize(A.getParamByValType());
    *O << "]";
  }
  *O << "],\"blocks\":[";
  PostDominatorTree PDT(const_cast<Function &>(F));
  bool fb = true;
  for (auto &B : F) {
    if (!fb) *O << ",\n"; fb = false;
    int ip = -1;
    if (auto *node = PDT.getNode(const_cast<BasicBlock *>(&B)))
      if (node->getIDom() && node->getIDom()->getBlock()) ip = bid[node->getIDom()->getBlock()];
    *O << "[" << ip << ",[";
    bool fi = true;
    for (auto &I : B) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      if (auto *ii = dyn_cast<IntrinsicInst>(&I)) {
        auto id = ii->getIntrinsicID();
        if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume ||
            id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::invariant_start || id == Intrinsic::invariant_end || id==Intrinsic::prefetch) continue;
      }
      if (!fi) *O << ",\n "; fi = false;
      int dst = I.getType()->isVoidTy() ? -1 : vid[&I];
      *O << "["; q(I.getOpcodeName()); *O << "," << dst << ",";
      loc(I); *O << ",";
      if (auto *p = dyn_cast<PHINode>(&I)) {
        *O << "\"" << tyStr(p->getType()) << "\",[";
        for (unsigned i = 0; i < p->getNumIncomingValues(); i++) {
          if (i) *O << ","; *O << "[" << bid[p->getIncomingBlock(i)] << ","; operand(p->getIncomingValue(i)); *O << "]"; }
        *O << "]";
      } else if (auto *a = dyn_cast<AllocaInst>(&I)) {
        *O << (uint64_t)DL->getTypeAllocSize(a->getAllocatedType()) << ","; operand(a->getArraySize());
      } else if (auto *l = dyn_cast<LoadInst>(&I)) {
        *O << "\"" << tyStr(l->getType()) << "\"," << (uint64_t)DL->getTypeStoreSize(l->getType()) << ","; operand(l->getPointerOperand());
      } else if (auto *s = dyn_cast<StoreInst>(&I)) {
        *O << "\"" << tyStr(s->getValueOperand()->getType()) << "\"," << (uint64_t)DL->getTypeStoreSize(s->getValueOperand()->getType()) << ",";
        operand(s->getValueOperand()); *O << ","; operand(s->getPointerOperand());
      } else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
        MapVector<Value *, APInt> var; APInt cst(64, 0);
        bool ok = cast<GEPOperator>(g)->collectOffset(*DL, 64, var, cst);
        if (!ok) { *O << "\"bad\""; }
        else {
          operand(g->getPointerOperand()); *O << "," << cst.getSExtValue() << ",[";
          bool fv = true;
          for (auto &kv : var) { if (!fv) *O << ","; fv = false; *O << "["; operand(kv.first); *O << "," << kv.second.getSExtValue() << "," << kv.first->getType()->getIntegerBitWidth() << "]"; }
          *O << "]";
        }
      } else if (auto *c = dyn_cast<CmpInst>(&I)) {
        *O << "\"" << CmpInst::getPredicateName(c->getPredicate()).str() << "\",\"" << tyStr(c->getOperand(0)->getType()) << "\",";
        operand(c->getOperand(0)); *O << ","; operand(c->getOperand(1));
      } else if (auto *br = dyn_cast<BranchInst>(&I)) {
        if (br->isConditional()) { operand(br->getCondition()); *O << "," << bid[br->getSuccessor(0)] << "," << bid[br->getSuccessor(1)]; }
        else *O << "null," << bid[br->getSuccessor(0)];
      } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
        operand(sw->getCondition()); *O << "," << bid[sw->getDefaultDest()] << ",[";
        bool fc = true;
        for (auto &cs : sw->cases()) { if (!fc) *O << ","; fc = false; *O << "["; constant(cs.getCaseValue()); *O << "," << bid[cs.getCaseSuccessor()] << "]"; }
        *O << "]";
      } else if (auto *r = dyn_cast<ReturnInst>(&I)) {
        if (r->getReturnValue()) operand(r->getReturnValue()); else *O << "null";
      } else if (auto *cb = dyn_cast<CallBase>(&I)) {
        *O << "\"" << tyStr(cb->getType()) << "\",";
        operand(cb->getCalledOperand()); *O << ",[";
        for (unsigned i = 0; i < cb->arg_size(); i++) { if (i) *O << ","; operand(cb->getArgOperand(i)); }
        *O << "],[";
        for (unsigned i = 0; i < cb->arg_size(); i++) { if (i) *O << ","; *O << "\"" << tyStr(cb->getArgOperand(i)->getType()) << "\""; }
        *O << "]";
        if (auto *iv = dyn_cast<InvokeInst>(cb)) *O << "," << bid[iv->getNormalDest()] << "," << bid[iv->getUnwindDest()];
      } else if (auto *lp = dyn_cast<LandingPadInst>(&I)) {
        *O << (lp->isCleanup() ? 1 : 0) << ",[";
        for (unsigned i = 0; i < lp->getNumClauses(); i++) { if (i) *O << ","; *O << "[" << (lp->isCatch(i) ? 1 : 0) << ","; operand(lp->getClause(i)); *O << "]"; }
        *O << "]";
      } else if (auto *ev = dyn_cast<ExtractValueInst>(&I)) {
        operand(ev->getAggregateOperand()); *O << ",[";
        bool f2 = true; for (unsigned x : ev->indices()) { if (!f2) *O << ","; f2 = false; *O << x; } *O << "]";
      } else if (auto *iv = dyn_cast<InsertValueInst>(&I)) {
        *O << "\"" << tyStr(iv->getType()) << "\","; operand(iv->getAggregateOperand()); *O << ","; operand(iv->getInsertedValueOperand()); *O << ",[";
        bool f2 = true; for (unsigned x : iv->indices()) { if (!f2) *O << ","; f2 = false; *O << x; } *O << "]";
      } else if (auto *sv = dyn_cast<ShuffleVectorInst>(&I)) {
        *O << "\"" << tyStr(sv->getType()) << "\","; operand(sv->getOperand(0)); *O << ","; operand(sv->getOperand(1)); *O << ",[";
        bool f2 = true; for (int x : sv->getShuffleMask()) { if (!f2) *O << ","; f2 = false; *O << x; } *O << "]";
      } else if (isa<AtomicRMWInst>(I)) {
        auto *rm = cast<AtomicRMWInst>(&I);
        *O << "\"" << tyStr(I.getType()) << "\"," << (uint64_t)DL->getTypeStoreSize(I.getType()) << ",\"" << AtomicRMWInst::getOperationName(rm->getOperation()).str() << "\",";
        operand(rm->getPointerOperand()); *O << ","; operand(rm->getValOperand());
      } else {
        // generic: type, operand types, operands
        *O << "\"" << tyStr(I.getType()) << "\",[";
        for (unsigned i = 0; i < I.getNumOperands(); i++) { if (i) *O << ","; operand(I.getOperand(i)); }
        *O << "],[";
        for (unsigned i = 0; i < I.getNumOperands(); i++) { if (i) *O << ","; *O << "\"" << tyStr(I.getOperand(i)->getType()) << "\""; }
        *O << "]";
      }
      *O << "]";
    }
    *O << "]]";
  }
  *O << "]}";
}
int main(int argc, char **argv) {
  if (argc < 3) { errs() << "usage: irdump in.bc out.json [all]\n"; return 2; }
  LLVMContext C; SMDiagnostic E;
  auto m = parseIRFile(argv[1], E, C);
  if (!m) { E.print(argv[0], errs()); return 2; }
  M = m.get(); DL = &M->getDataLayout();
  std::error_code ec; raw_fd_ostream out(argv[2], ec); O = &out;
  bool all = argc > 3;
  for (auto &F : *M) if (!F.isDeclaration() && (all || F.getName().starts_with("vp_"))) need(&F);
  // static constructors
  *O << "{\"functions\":[\n";
  std::vector<const GlobalVariable *> gvs; std::vector<const Function *> decls; std::vector<const GlobalAlias*> als;
  bool ff = true;
  std::string gbuf; raw_string_ostream gos(gbuf); bool gf = true;
  if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) need(gc);
  while (!work.empty()) {
    auto *g = work.front(); work.pop_front();
    if (auto *F = dyn_cast<Function>(g)) {
      if (F->isDeclaration()) { decls.push_back(F); continue; }
      if (!ff) *O << ",\n"; ff = false;
      emitFunction(*F);
    } else if (auto *V = dyn_cast<GlobalVariable>(g)) {
      O = &gos;
      if (!gf) *O << ",\n"; gf = false;
      *O << "{\"name\":"; q(V->getName()); *O << ",\"dem\":"; q(demangle(V->getName().str()));
      *O << ",\"size\":" << (V->getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(V->getValueType()) : 0)
         << ",\"ty\":\"" << tyStr(V->getValueType()) << "\",\"const\":" << (V->isConstant() ? "true" : "false") << ",\"tls\":" << (V->isThreadLocal()?"true":"false") << ",\"linkage\":" << (int)V->getLinkage();
      SmallVector<DIGlobalVariableExpression*,1> dbg; V->getDebugInfo(dbg);
      if (!dbg.empty()) { auto*dv=dbg[0]->getVariable(); *O << ",\"file\":"; q(dv->getFilename()); *O << ",\"line\":" << dv->getLine(); }
      if (V->hasInitializer()) { *O << ",\"init\":"; constant(V->getInitializer()); }
      *O << "}";
      O = &out;
    } else if (auto *A = dyn_cast<GlobalAlias>(g)) { als.push_back(A); if (auto *t = A->getAliaseeObject()) need(t); }
  }
  *O << "],\n\"globals\":[\n" << gos.str() << "],\n\"decls\":[";
  bool fd = true;
  for (auto *F : decls) { if (!fd) *O << ","; fd = false; *O << "["; q(F->getName()); *O << ","; q(demangle(F->getName().str())); *O << ",\"" << tyStr(F->getReturnType()) << "\"]"; }
  *O << "],\n\"aliases\":{"; fd = true;
  for (auto *A : als) { if (!fd) *O << ","; fd = false; q(A->getName()); *O << ":"; auto *t = A->getAliaseeObject(); q(t ? t->getName() : ""); }
  *O << "},\n\"files\":["; fd = true;
  for (auto &f : files) { if (!fd) *O << ","; fd = false; q(f); }
  *O << "]}\n";
  return 0;
}
