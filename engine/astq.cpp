// astq: queries over the type-checked program of a translation unit (clang AST, template patterns and instantiations).
//   undef  LOC NAME            a function, member or static data member the library declares and nowhere defines (not pure, deleted, defaulted)
//   exit   LOC FN ARG NAME     a call in the library's lines to a function that ends the process; ARG its constant argument or "?"
//   catch  LOC FN KIND         a handler in the library's lines that swallows the exception (no throw, no call that cannot return, no use of the result)
//   delete LOC TYPE            destruction through a pointer to a polymorphic class whose destructor is not virtual
//   base   LOC TYPE            a polymorphic class of the library with a public non-virtual destructor
//   count  declarations definitions instantiations deletes
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include <set>
using namespace clang;
using namespace llvm;
struct V : RecursiveASTVisitor<V> {
  ASTContext &C; SourceManager &SM; std::set<std::string> done; FunctionDecl *cur = nullptr; unsigned nd = 0, nf = 0, ni = 0, ndel = 0;
  V(ASTContext &c) : C(c), SM(c.getSourceManager()) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  std::string at(SourceLocation l) { auto p = SM.getPresumedLoc(SM.getExpansionLoc(l)); return p.isValid() ? std::string(p.getFilename()) + ":" + std::to_string(p.getLine()) : "?"; }
  bool lib(SourceLocation l) { return StringRef(at(l)).contains("/src/MathUtils/"); }
  void emit(const std::string &s) { if (done.insert(s).second) outs() << s << "\n"; }
  bool TraverseDecl(Decl *D) {
    FunctionDecl *old = cur; if (auto *f = dyn_cast_or_null<FunctionDecl>(D)) cur = f;
    bool r = RecursiveASTVisitor<V>::TraverseDecl(D); cur = old; return r; }
  std::string where() { return cur ? cur->getQualifiedNameAsString() : "?"; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!lib(F->getLocation())) return true;
    bool inst = F->isTemplateInstantiation() || F->getTemplateInstantiationPattern();
    if (inst) { ni++; return true; }
    if (auto *m = dyn_cast<CXXMethodDecl>(F)) if (auto *s = dyn_cast<ClassTemplateSpecializationDecl>(m->getParent())) if (!s->isExplicitSpecialization()) return true;
    nd++;
    if (F->isThisDeclarationADefinition()) nf++;
    const FunctionDecl *def = nullptr;
    if (F->isDefined(def) || F->isPureVirtual() || F->isDeleted() || F->isDefaulted() || F->isImplicit() || F->isExternC() || F->getBuiltinID()) return true;
    for (auto *r : F->redecls()) if (r->isDeleted() || r->isDefaulted()) return true;
    if (F->getAccess() == AS_private) return true;   // not part of the interface; if it is used, the linkage query reports it
    std::string q = F->getQualifiedNameAsString();
    if (q.find("detail::") != std::string::npos || q.find("internal::") != std::string::npos || q.find("impl::") != std::string::npos) return true;
    emit("undef\t" + at(F->getLocation()) + "\t" + F->getQualifiedNameAsString() + "\t" + F->getType().getAsString());
    return true; }
  bool VisitVarDecl(VarDecl *D) {
    if (!lib(D->getLocation()) || !D->isStaticDataMember() || D->getTemplateInstantiationPattern()) return true;
    if (auto *s = dyn_cast<ClassTemplateSpecializationDecl>(D->getDeclContext())) if (!s->isExplicitSpecialization()) return true;
    nd++;
    if (D->getDefinition() || D->isConstexpr() || D->isInline() || (D->hasInit() && D->getType().isConstQualified())) return true;
    for (auto *r : D->redecls()) if (r->isThisDeclarationADefinition() != VarDecl::DeclarationOnly) return true;
    emit("undef\t" + at(D->getLocation()) + "\t" + D->getQualifiedNameAsString() + "\t" + D->getType().getAsString());
    return true; }
  bool VisitCallExpr(CallExpr *E) {
    auto *f = E->getDirectCallee(); if (!f || !lib(E->getBeginLoc())) return true;
    std::string n = f->getNameAsString();
    static const std::set<std::string> T = {"exit", "_Exit", "_exit", "quick_exit", "abort", "terminate", "__builtin_trap", "raise", "kill"};
    if (!T.count(n)) return true;
    std::string a = "?";
    if (n == "abort" || n == "terminate" || n == "__builtin_trap") a = "abort";
    else if (E->getNumArgs()) { Expr::EvalResult r; if (!E->getArg(0)->isValueDependent() && E->getArg(0)->EvaluateAsInt(r, C)) { SmallString<16> s; r.Val.getInt().toString(s); a = std::string(s); } }
    emit("exit\t" + at(E->getBeginLoc()) + "\t" + where() + "\t" + a + "\t" + n);
    return true; }
  struct Ends : RecursiveASTVisitor<Ends> { bool r = false;
    bool VisitCXXThrowExpr(CXXThrowExpr *) { r = true; return true; }
    bool VisitCallExpr(CallExpr *E) { if (auto *f = E->getDirectCallee()) if (f->isNoReturn()) r = true; return true; } };
  bool VisitCXXCatchStmt(CXXCatchStmt *S) {
    if (!lib(S->getBeginLoc())) return true;
    Ends e; e.TraverseStmt(S->getHandlerBlock());
    auto *b = dyn_cast<CompoundStmt>(S->getHandlerBlock());
    emit("catch\t" + at(S->getBeginLoc()) + "\t" + where() + "\t" + (e.r ? "rethrows" : b && b->body_empty() ? "empty" : "handles"));
    return true; }
  bool VisitCXXDeleteExpr(CXXDeleteExpr *E) {
    QualType t = E->getDestroyedType(); if (t.isNull()) return true;
    auto *R = t->getAsCXXRecordDecl(); if (!R || !R->hasDefinition() || R->isDependentContext()) return true;
    ndel++;
    if (!lib(R->getLocation()) && !lib(E->getBeginLoc())) return true;
    if (!R->isPolymorphic() || R->isEffectivelyFinal()) return true;
    auto *d = R->getDestructor(); if (d && d->isVirtual()) return true;
    emit("delete\t" + (lib(E->getBeginLoc()) ? at(E->getBeginLoc()) : at(R->getLocation())) + "\t" + t.getAsString());
    return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!lib(R->getLocation()) || !R->isThisDeclarationADefinition() || R->isDependentContext() || !R->isPolymorphic() || R->isEffectivelyFinal()) return true;
    auto *d = R->getDestructor(); if (d && (d->isVirtual() || d->getAccess() != AS_public)) return true;
    emit("base\t" + at(R->getLocation()) + "\t" + R->getQualifiedNameAsString());
    return true; }
};
struct Cons : ASTConsumer { void HandleTranslationUnit(ASTContext &C) override { V v(C); v.TraverseDecl(C.getTranslationUnitDecl());
  outs() << "count\t" << v.nd << "\t" << v.nf << "\t" << v.ni << "\t" << v.ndel << "\n"; } };
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); } };
int main(int argc, char **argv) {   // astq FILE ARGS...
  std::vector<std::string> a(argv + 2, argv + argc);
  tooling::FixedCompilationDatabase db(".", a);
  tooling::ClangTool t(db, {argv[1]});
  t.appendArgumentsAdjuster(tooling::getInsertArgumentAdjuster("-resource-dir=/usr/lib/llvm-18/lib/clang/18", tooling::ArgumentInsertPosition::BEGIN));
  return t.run(tooling::newFrontendActionFactory<Act>().get()) ? 2 : 0; }
