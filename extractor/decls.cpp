// Lists, for one translation unit, every function and namespace-scope variable declared in
// the analysed repository: where it is declared, whether a definition is visible, how it links.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <set>
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;

static std::string Root, OutFile;

namespace {
class V : public RecursiveASTVisitor<V> {
public:
  ASTContext &C;
  SourceManager &SM;
  std::unique_ptr<MangleContext> M;
  Array Out;
  V(ASTContext &C) : C(C), SM(C.getSourceManager()), M(C.createMangleContext()) {}
  bool shouldVisitTemplateInstantiations() const { return false; }
  bool shouldVisitImplicitCode() const { return false; }

  bool ours(SourceLocation L, std::string &F, unsigned &Line) {
    L = SM.getExpansionLoc(L);
    auto E = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!E) return false;
    llvm::SmallString<256> P(E->getName());
    SM.getFileManager().makeAbsolutePath(P);
    llvm::SmallString<256> R;
    F = std::string(P);
    auto T = SM.getFileManager().getFileRef(F);
    if (T) { auto N = T->getFileEntry().tryGetRealPathName(); if (!N.empty()) F = N.str(); }
    Line = SM.getExpansionLineNumber(L);
    return F.compare(0, Root.size(), Root) == 0;
  }
  std::string mangled(const GlobalDecl &G) {
    std::string S;
    llvm::raw_string_ostream O(S);
    M->mangleName(G, O);
    return O.str();
  }
  bool VisitFunctionDecl(FunctionDecl *D) {
    std::string F;
    unsigned L;
    if (!ours(D->getLocation(), F, L)) return true;
    if (D->isImplicit() || isa<CXXDeductionGuideDecl>(D)) return true;
    if (auto *R = dyn_cast<CXXRecordDecl>(D->getDeclContext()))
      if (R->isLambda()) return true;
    if (D->getParentFunctionOrMethod()) return true;
    std::string Q = D->getQualifiedNameAsString(), Sig;
    PrintingPolicy PP(C.getLangOpts());
    PP.SuppressTagKeyword = true;
    Sig = Q + "(";
    for (unsigned i = 0; i < D->getNumParams(); ++i)
      Sig += (i ? ", " : "") + D->getParamDecl(i)->getType().getAsString(PP);
    Sig += ")";
    if (auto *MD = dyn_cast<CXXMethodDecl>(D))
      if (MD->isConst()) Sig += " const";
    const FunctionDecl *Def = nullptr;
    bool HasDef = D->isDefined(Def);
    bool Templ = D->isDependentContext() || D->isTemplated();
    Object O{{"kind", "fn"}, {"q", Q}, {"sig", Sig}, {"file", F}, {"line", L}, {"np", D->getNumParams()},
             {"here", D->isThisDeclarationADefinition()}, {"def", HasDef}, {"templ", Templ},
             {"inl", D->isInlined()}, {"ext", D->isExternallyVisible()},
             {"deleted", D->isDeleted()}, {"defaulted", D->isDefaulted()}, {"pure", D->isPureVirtual()},
             {"friend", D->getFriendObjectKind() != Decl::FOK_None}, {"spec", D->getTemplateSpecializationKind() == TSK_ExplicitSpecialization}};
    if (auto *MD = dyn_cast<CXXMethodDecl>(D)) {
      O["access"] = MD->getAccess() == AS_public ? "public" : MD->getAccess() == AS_protected ? "protected" : "private";
    }
    if (!Templ) {
      if (auto *CD = dyn_cast<CXXConstructorDecl>(D)) O["m"] = mangled(GlobalDecl(CD, Ctor_Complete));
      else if (auto *DD = dyn_cast<CXXDestructorDecl>(D)) O["m"] = mangled(GlobalDecl(DD, Dtor_Complete));
      else if (M->shouldMangleDeclName(D)) O["m"] = mangled(GlobalDecl(D));
      else O["m"] = Q;
    }
    Out.push_back(std::move(O));
    return true;
  }
  bool VisitVarDecl(VarDecl *D) {
    std::string F;
    unsigned L;
    if (!D->isFileVarDecl() || !ours(D->getLocation(), F, L)) return true;
    Out.push_back(Object{{"kind", "var"}, {"q", D->getQualifiedNameAsString()}, {"file", F}, {"line", L},
                         {"here", D->isThisDeclarationADefinition() == VarDecl::Definition},
                         {"def", D->getDefinition() != nullptr}, {"templ", D->isTemplated() || D->getDeclContext()->isDependentContext()},
                         {"inl", D->isInline()}, {"ext", D->isExternallyVisible()}});
    return true;
  }
};
class Cons : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    V v(C);
    v.TraverseDecl(C.getTranslationUnitDecl());
    std::error_code EC;
    llvm::raw_fd_ostream O(OutFile, EC);
    O << llvm::json::Value(std::move(v.Out));
  }
};
class Act : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override { return std::make_unique<Cons>(); }
};
} // namespace

int main(int argc, char **argv) {
  if (argc < 5) { llvm::errs() << "usage: decls OUT ROOT SRC -- ARGS\n"; return 2; }
  OutFile = argv[1];
  Root = argv[2];
  std::vector<std::string> Args;
  for (int i = 5; i < argc; ++i) Args.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", Args);
  tooling::ClangTool Tool(DB, {argv[3]});
  return Tool.run(tooling::newFrontendActionFactory<Act>().get());
}
