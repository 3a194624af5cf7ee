// Dumps the typed, resolved, template-instantiated AST of the functions and
// classes that live in the analysed repository as compact JSON.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <cstdlib>
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> Roots;   // files below these are "ours"
static std::string OutFile;

namespace {

class Dumper {
public:
  Dumper(ASTContext &C) : Ctx(C), SM(C.getSourceManager()), Mangler(C.createMangleContext()) {
    PP = std::make_unique<PrintingPolicy>(C.getLangOpts());
    PP->SuppressTagKeyword = true;
    PP->Bool = true;
    PP->adjustForCPlusPlus();
  }

  ASTContext &Ctx;
  SourceManager &SM;
  std::unique_ptr<MangleContext> Mangler;
  std::unique_ptr<PrintingPolicy> PP;
  Array Types, Files, Functions, Classes, Globals;
  std::map<const void *, int> TypeIds;
  std::map<std::string, int> FileIds;
  std::map<const Decl *, int> LocalIds;
  std::set<std::string> DoneFns;
  std::set<const Decl *> DoneClasses;
  std::vector<const FunctionDecl *> Pending;
  std::map<const FunctionDecl *, std::string> FnIdCache;

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return "";
    auto F = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!F) return "";
    llvm::SmallString<256> P(F->getFileEntry().tryGetRealPathName());
    if (P.empty()) P = F->getName();
    return std::string(P);
  }
  bool ours(SourceLocation L) {
    std::string F = fileOf(L);
    if (F.empty()) return false;
    for (auto &R : Roots)
      if (F.compare(0, R.size(), R) == 0) return true;
    return false;
  }
  int fileId(SourceLocation L) {
    std::string F = fileOf(L);
    auto it = FileIds.find(F);
    if (it != FileIds.end()) return it->second;
    int id = (int)Files.size();
    Files.push_back(F);
    FileIds[F] = id;
    return id;
  }
  int line(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    return L.isValid() ? (int)SM.getExpansionLineNumber(L) : 0;
  }

  std::string qualNoArgs(const NamedDecl *D) {
    std::string S;
    std::vector<std::string> Parts;
    Parts.push_back(D->getDeclName().isIdentifier() || isa<FunctionDecl>(D) ? D->getNameAsString() : D->getNameAsString());
    if (isa<CXXConstructorDecl>(D)) Parts.back() = "{ctor}";
    if (isa<CXXDestructorDecl>(D)) Parts.back() = "{dtor}";
    const DeclContext *DC = D->getDeclContext();
    while (DC && !DC->isTranslationUnit()) {
      if (auto *N = dyn_cast<NamespaceDecl>(DC)) {
        if (!N->isInline()) Parts.push_back(N->isAnonymousNamespace() ? "(anon)" : N->getNameAsString());
      } else if (auto *R = dyn_cast<RecordDecl>(DC)) {
        Parts.push_back(R->getNameAsString());
      } else if (auto *F = dyn_cast<FunctionDecl>(DC)) {
        Parts.push_back(F->getNameAsString() + "()");
      }
      DC = DC->getParent();
    }
    for (auto it = Parts.rbegin(); it != Parts.rend(); ++it) {
      if (!S.empty()) S += "::";
      S += *it;
    }
    return S;
  }

  std::string typeStr(QualType T) { return T.getCanonicalType().getAsString(*PP); }

  int typeId(QualType T) {
    if (T.isNull()) return -1;
    T = T.getCanonicalType();
    const void *Key = T.getAsOpaquePtr();
    auto it = TypeIds.find(Key);
    if (it != TypeIds.end()) return it->second;
    int Id = (int)Types.size();
    TypeIds[Key] = Id;
    Types.push_back(nullptr);
    Object O;
    O["s"] = typeStr(T);
    if (T.isConstQualified()) O["q"] = 1;
    const Type *Ty = T.getTypePtr();
    if (auto *R = dyn_cast<ReferenceType>(Ty)) {
      O["k"] = isa<RValueReferenceType>(Ty) ? "rref" : "ref";
      O["to"] = typeId(R->getPointeeType());
    } else if (auto *P = dyn_cast<PointerType>(Ty)) {
      O["k"] = "ptr";
      O["to"] = typeId(P->getPointeeType());
    } else if (auto *A = dyn_cast<ConstantArrayType>(Ty)) {
      O["k"] = "array";
      O["to"] = typeId(A->getElementType());
      O["n"] = (int64_t)A->getSize().getZExtValue();
    } else if (Ty->isFunctionType()) {
      O["k"] = "func";
    } else if (auto *RT = Ty->getAsCXXRecordDecl()) {
      O["k"] = "record";
      O["rec"] = qualNoArgs(RT);
      if (RT->isLambda()) O["lambda"] = 1;
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(RT)) {
        Array Args;
        for (auto &A : S->getTemplateArgs().asArray()) addArg(Args, A);
        O["args"] = std::move(Args);
      }
      needClass(RT);
    } else if (Ty->isBooleanType()) {
      O["k"] = "bool";
    } else if (Ty->isEnumeralType()) {
      O["k"] = "enum";
    } else if (Ty->isAnyCharacterType()) {
      O["k"] = "char";
      O["w"] = (int64_t)Ctx.getTypeSize(T);
    } else if (Ty->isUnsignedIntegerType()) {
      O["k"] = "uint";
      O["w"] = (int64_t)Ctx.getTypeSize(T);
    } else if (Ty->isIntegerType()) {
      O["k"] = "int";
      O["w"] = (int64_t)Ctx.getTypeSize(T);
    } else if (Ty->isRealFloatingType()) {
      O["k"] = "double";
      O["w"] = (int64_t)Ctx.getTypeSize(T);
    } else if (Ty->isVoidType()) {
      O["k"] = "void";
    } else if (Ty->isNullPtrType()) {
      O["k"] = "null";
    } else if (Ty->isMemberPointerType()) {
      O["k"] = "memptr";
    } else {
      O["k"] = "other";
    }
    Types[Id] = std::move(O);
    return Id;
  }
  void addArg(Array &Args, const TemplateArgument &A) {
    switch (A.getKind()) {
    case TemplateArgument::Type: Args.push_back(typeId(A.getAsType())); break;
    case TemplateArgument::Integral: {
      llvm::SmallString<32> S;
      A.getAsIntegral().toString(S, 10);
      Args.push_back("#" + std::string(S));
      break;
    }
    case TemplateArgument::Pack:
      for (auto &B : A.pack_elements()) addArg(Args, B);
      break;
    default: Args.push_back("?"); break;
    }
  }

  std::string fnId(const FunctionDecl *F) {
    F = F->getCanonicalDecl();
    auto it = FnIdCache.find(F);
    if (it != FnIdCache.end()) return it->second;
    std::string S;
    llvm::raw_string_ostream OS(S);
    if (F->isDependentContext()) {
      OS << "dep:" << qualNoArgs(F);
    } else if (auto *C = dyn_cast<CXXConstructorDecl>(F)) {
      Mangler->mangleName(GlobalDecl(C, Ctor_Complete), OS);
    } else if (auto *D = dyn_cast<CXXDestructorDecl>(F)) {
      Mangler->mangleName(GlobalDecl(D, Dtor_Complete), OS);
    } else if (Mangler->shouldMangleDeclName(F)) {
      Mangler->mangleName(GlobalDecl(F), OS);
    } else {
      OS << F->getNameAsString();
    }
    OS.flush();
    if (F->getFormalLinkage() == Linkage::Internal || isLocalFn(F)) {
      S += "@" + std::to_string(fileId(F->getLocation())) + ":" + std::to_string(line(F->getLocation()));
    }
    FnIdCache[F] = S;
    return S;
  }
  bool isLocalFn(const FunctionDecl *F) {
    const DeclContext *DC = F->getDeclContext();
    while (DC) {
      if (isa<FunctionDecl>(DC)) return true;
      DC = DC->getParent();
    }
    return false;
  }

  void needClass(const CXXRecordDecl *R) {
    R = R->getDefinition();
    if (!R) return;
    if (R->isDependentContext()) return;
    if (!ours(R->getLocation())) return;
    if (R->isLambda()) return;
    if (!DoneClasses.insert(R).second) return;
    PendingClasses.push_back(R);
  }
  std::vector<const CXXRecordDecl *> PendingClasses;

  void dumpClass(const CXXRecordDecl *R) {
    Object O;
    O["name"] = typeStr(Ctx.getRecordType(R));
    O["t"] = typeId(Ctx.getRecordType(R));
    O["q"] = qualNoArgs(R);
    O["file"] = fileId(R->getLocation());
    O["l"] = line(R->getLocation());
    O["abstract"] = R->isAbstract();
    O["poly"] = R->isPolymorphic();
    if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
      Array Args;
      for (auto &A : S->getTemplateArgs().asArray()) addArg(Args, A);
      O["args"] = std::move(Args);
    }
    Array Bases;
    for (auto &B : R->bases()) Bases.push_back(typeId(B.getType()));
    O["bases"] = std::move(Bases);
    Array Fields;
    for (auto *F : R->fields()) {
      Object FO;
      FO["name"] = F->getNameAsString();
      FO["t"] = typeId(F->getType());
      FO["l"] = line(F->getLocation());
      if (F->isMutable()) FO["mutable"] = 1;
      FO["access"] = (int)F->getAccess();
      if (F->hasInClassInitializer()) {
        FO["hasinit"] = 1;
        if (const Expr *I = F->getInClassInitializer()) FO["init"] = stmt(I);
      }
      Fields.push_back(std::move(FO));
    }
    O["fields"] = std::move(Fields);
    Array Methods;
    for (auto *D : R->decls()) {
      const FunctionDecl *F = dyn_cast<FunctionDecl>(D);
      if (!F) continue;
      Methods.push_back(methodSig(F));
    }
    O["methods"] = std::move(Methods);
    O["hasCopyCtor"] = R->hasCopyConstructorWithConstParam();
    O["trivialDtor"] = R->hasTrivialDestructor();
    Classes.push_back(std::move(O));
  }
  Object methodSig(const FunctionDecl *F) {
    Object M;
    M["name"] = isa<CXXConstructorDecl>(F) ? "{ctor}" : isa<CXXDestructorDecl>(F) ? "{dtor}" : F->getNameAsString();
    M["id"] = fnId(F);
    M["access"] = (int)F->getAccess();
    M["l"] = line(F->getLocation());
    if (F->isDeleted()) M["deleted"] = 1;
    if (F->isDefaulted()) M["defaulted"] = 1;
    if (F->isImplicit()) M["implicit"] = 1;
    if (F->isPureVirtual()) M["pure"] = 1;
    M["ret"] = typeId(F->getReturnType());
    Array P;
    for (auto *A : F->parameters()) P.push_back(typeId(A->getType()));
    M["params"] = std::move(P);
    if (auto *X = dyn_cast<CXXMethodDecl>(F)) {
      if (X->isConst()) M["const"] = 1;
      if (X->isStatic()) M["static"] = 1;
      if (X->isVirtual()) M["virtual"] = 1;
    }
    if (auto *C = dyn_cast<CXXConstructorDecl>(F)) {
      if (C->isCopyConstructor()) M["copyctor"] = 1;
      if (C->isMoveConstructor()) M["movector"] = 1;
      if (C->isDefaultConstructor()) M["defctor"] = 1;
      if (C->isExplicit()) M["explicit"] = 1;
    }
    return M;
  }

  int localId(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = LocalIds.find(D);
    if (it != LocalIds.end()) return it->second;
    int id = (int)LocalIds.size() + 1;
    LocalIds[D] = id;
    return id;
  }

  Object node(const char *K, const Stmt *S) {
    Object O;
    O["k"] = K;
    SourceLocation L = S->getBeginLoc();
    if (auto *E = dyn_cast<Expr>(S)) {
      O["t"] = typeId(E->getType());
      if (E->isLValue()) O["lv"] = 1;
      else if (E->isXValue()) O["lv"] = 2;
      L = E->getExprLoc();
    }
    int Ln = line(L);
    if (Ln) O["l"] = Ln;
    return O;
  }
  Object callee(const FunctionDecl *F) {
    Object O;
    O["q"] = qualNoArgs(F);
    O["id"] = fnId(F);
    const FunctionDecl *Def = nullptr;
    bool Ours = ours(F->getLocation());
    if (!Ours && F->isDefined(Def)) Ours = ours(Def->getLocation());
    if (Ours) {
      O["ours"] = 1;
      Pending.push_back(F);
    }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["m"] = 1;
      if (M->isConst()) O["const"] = 1;
      if (M->isVirtual()) O["virt"] = 1;
      if (M->isStatic()) O["static"] = 1;
      O["cls"] = typeId(Ctx.getRecordType(M->getParent()));
    }
    if (auto *C = dyn_cast<CXXConstructorDecl>(F)) {
      if (C->isCopyConstructor()) O["copyctor"] = 1;
      if (C->isMoveConstructor()) O["movector"] = 1;
      if (C->isDefaultConstructor()) O["defctor"] = 1;
      if (C->isImplicit()) O["implicit"] = 1;
      if (C->isDefaulted()) O["defaulted"] = 1;
    } else if (F->isDefaulted()) O["defaulted"] = 1;
    O["ret"] = typeId(F->getReturnType());
    Array P;
    for (auto *A : F->parameters()) P.push_back(typeId(A->getType()));
    O["params"] = std::move(P);
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      Array Args;
      for (auto &A : TA->asArray()) addArg(Args, A);
      O["targs"] = std::move(Args);
    }
    return O;
  }
  Value varDecl(const VarDecl *V) {
    Object O;
    O["id"] = localId(V);
    O["name"] = V->getNameAsString();
    O["t"] = typeId(V->getType());
    O["l"] = line(V->getLocation());
    if (V->isStaticLocal()) O["static"] = 1;
    if (V->isConstexpr()) O["constexpr"] = 1;
    if (V->hasInit()) {
      O["init"] = stmt(V->getInit());
      O["style"] = (int)V->getInitStyle();
    }
    if (auto *B = dyn_cast<DecompositionDecl>(V)) {
      Array A;
      for (auto *X : B->bindings()) {
        Object BO;
        BO["id"] = localId(X);
        BO["name"] = X->getNameAsString();
        BO["t"] = typeId(X->getType());
        if (auto *H = X->getHoldingVar()) BO["hold"] = varDecl(H);
        if (X->getBinding()) BO["e"] = stmt(X->getBinding());
        A.push_back(std::move(BO));
      }
      O["bind"] = std::move(A);
    }
    return O;
  }

  template <typename Range> Array stmts(Range R) {
    Array A;
    for (auto *S : R) A.push_back(stmt(S));
    return A;
  }
  Array args(const Expr *const *B, unsigned N) {
    Array A;
    for (unsigned i = 0; i < N; ++i) A.push_back(stmt(B[i]));
    return A;
  }

  Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) return expr(E);
    Object O = node(S->getStmtClassName(), S);
    switch (S->getStmtClass()) {
    case Stmt::NullStmtClass: break;
    case Stmt::CompoundStmtClass:
      O["c"] = stmts(cast<CompoundStmt>(S)->body());
      O["el"] = line(S->getEndLoc());
      break;
    case Stmt::DeclStmtClass: {
      Array A;
      for (auto *D : cast<DeclStmt>(S)->decls())
        if (auto *V = dyn_cast<VarDecl>(D)) A.push_back(varDecl(V));
      O["vars"] = std::move(A);
      break;
    }
    case Stmt::IfStmtClass: {
      auto *I = cast<IfStmt>(S);
      if (I->getInit()) O["init"] = stmt(I->getInit());
      if (I->getConditionVariable()) O["cvar"] = varDecl(I->getConditionVariable());
      O["cond"] = stmt(I->getCond());
      O["then"] = stmt(I->getThen());
      if (I->getElse()) O["else"] = stmt(I->getElse());
      break;
    }
    case Stmt::ForStmtClass: {
      auto *F = cast<ForStmt>(S);
      if (F->getInit()) O["init"] = stmt(F->getInit());
      if (F->getConditionVariable()) O["cvar"] = varDecl(F->getConditionVariable());
      if (F->getCond()) O["cond"] = stmt(F->getCond());
      if (F->getInc()) O["inc"] = stmt(F->getInc());
      O["body"] = stmt(F->getBody());
      break;
    }
    case Stmt::WhileStmtClass: {
      auto *W = cast<WhileStmt>(S);
      if (W->getConditionVariable()) O["cvar"] = varDecl(W->getConditionVariable());
      O["cond"] = stmt(W->getCond());
      O["body"] = stmt(W->getBody());
      break;
    }
    case Stmt::DoStmtClass: {
      auto *W = cast<DoStmt>(S);
      O["cond"] = stmt(W->getCond());
      O["body"] = stmt(W->getBody());
      break;
    }
    case Stmt::CXXForRangeStmtClass: {
      auto *F = cast<CXXForRangeStmt>(S);
      if (F->getInit()) O["init"] = stmt(F->getInit());
      O["range"] = stmt(F->getRangeStmt());
      O["begin"] = stmt(F->getBeginStmt());
      O["end"] = stmt(F->getEndStmt());
      O["cond"] = stmt(F->getCond());
      O["inc"] = stmt(F->getInc());
      O["var"] = stmt(F->getLoopVarStmt());
      O["body"] = stmt(F->getBody());
      break;
    }
    case Stmt::ReturnStmtClass:
      if (auto *V = cast<ReturnStmt>(S)->getRetValue()) O["e"] = stmt(V);
      break;
    case Stmt::BreakStmtClass:
    case Stmt::ContinueStmtClass: break;
    case Stmt::SwitchStmtClass:
      O["cond"] = stmt(cast<SwitchStmt>(S)->getCond());
      O["body"] = stmt(cast<SwitchStmt>(S)->getBody());
      break;
    case Stmt::CaseStmtClass:
      O["e"] = stmt(cast<CaseStmt>(S)->getLHS());
      O["sub"] = stmt(cast<CaseStmt>(S)->getSubStmt());
      break;
    case Stmt::DefaultStmtClass:
      O["sub"] = stmt(cast<DefaultStmt>(S)->getSubStmt());
      break;
    case Stmt::CXXTryStmtClass: {
      auto *T = cast<CXXTryStmt>(S);
      O["body"] = stmt(T->getTryBlock());
      Array A;
      for (unsigned i = 0; i < T->getNumHandlers(); ++i) A.push_back(stmt(T->getHandler(i)->getHandlerBlock()));
      O["handlers"] = std::move(A);
      break;
    }
    case Stmt::AttributedStmtClass:
      return stmt(cast<AttributedStmt>(S)->getSubStmt());
    default: {
      Array A;
      for (auto *C : S->children()) A.push_back(stmt(C));
      O["c"] = std::move(A);
    }
    }
    return O;
  }

  Value expr(const Expr *E) {
    // transparent wrappers
    for (;;) {
      if (auto *P = dyn_cast<ParenExpr>(E)) E = P->getSubExpr();
      else if (auto *C = dyn_cast<ConstantExpr>(E)) E = C->getSubExpr();
      else if (auto *C = dyn_cast<ExprWithCleanups>(E)) E = C->getSubExpr();
      else if (auto *C = dyn_cast<CXXBindTemporaryExpr>(E)) E = C->getSubExpr();
      else if (auto *C = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = C->getReplacement();
      else if (auto *C = dyn_cast<CXXRewrittenBinaryOperator>(E)) E = C->getSemanticForm();
      else if (auto *C = dyn_cast<ChooseExpr>(E)) E = C->getChosenSubExpr();
      else if (auto *C = dyn_cast<OpaqueValueExpr>(E)) { if (!C->getSourceExpr()) break; E = C->getSourceExpr(); }
      else break;
    }
    Object O = node(E->getStmtClassName(), E);
    switch (E->getStmtClass()) {
    case Stmt::IntegerLiteralClass: {
      llvm::SmallString<32> S;
      cast<IntegerLiteral>(E)->getValue().toString(S, 10, E->getType()->isSignedIntegerType());
      O["k"] = "Int";
      O["v"] = std::string(S);
      break;
    }
    case Stmt::CharacterLiteralClass:
      O["k"] = "Char";
      O["v"] = (int64_t)cast<CharacterLiteral>(E)->getValue();
      break;
    case Stmt::CXXBoolLiteralExprClass:
      O["k"] = "Bool";
      O["v"] = cast<CXXBoolLiteralExpr>(E)->getValue() ? 1 : 0;
      break;
    case Stmt::FloatingLiteralClass: {
      llvm::SmallString<64> S;
      cast<FloatingLiteral>(E)->getValue().toString(S, 0, 0, false);
      O["k"] = "Float";
      O["v"] = std::string(S);
      break;
    }
    case Stmt::StringLiteralClass: {
      O["k"] = "Str";
      auto *L = cast<StringLiteral>(E);
      std::string S;
      if (L->isOrdinary() || L->isUTF8()) S = L->getString().str();
      if (!llvm::json::isUTF8(S)) S = llvm::json::fixUTF8(S);
      O["v"] = S;
      break;
    }
    case Stmt::PredefinedExprClass:
      O["k"] = "Str";
      O["v"] = "__func__";
      break;
    case Stmt::CXXNullPtrLiteralExprClass:
    case Stmt::GNUNullExprClass: O["k"] = "Null"; break;
    case Stmt::CXXThisExprClass: O["k"] = "This"; break;
    case Stmt::DeclRefExprClass: {
      auto *D = cast<DeclRefExpr>(E)->getDecl();
      O["k"] = "Ref";
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        O["fn"] = callee(F);
      } else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        O["k"] = "Int";
        llvm::SmallString<32> S;
        EC->getInitVal().toString(S, 10);
        O["v"] = std::string(S);
        O["enum"] = qualNoArgs(EC);
      } else if (auto *V = dyn_cast<VarDecl>(D)) {
        if (V->hasGlobalStorage() && !V->isStaticLocal()) {
          O["k"] = "Global";
          O["q"] = qualNoArgs(V);
          O["ours"] = ours(V->getLocation()) ? 1 : 0;
          if (ours(V->getLocation()) || V->isConstexpr()) {
            const VarDecl *Def = nullptr;
            if (auto *I = V->getAnyInitializer(Def))
              if (!I->isValueDependent()) {
                Expr::EvalResult R;
                if (I->getType()->isIntegralOrEnumerationType() && I->EvaluateAsInt(R, Ctx)) {
                  llvm::SmallString<32> S;
                  R.Val.getInt().toString(S, 10);
                  O["cv"] = std::string(S);
                }
              }
          }
        } else {
          O["d"] = localId(V);
          O["n"] = V->getNameAsString();
        }
      } else {
        O["d"] = localId(D);
        O["n"] = D->getNameAsString();
      }
      break;
    }
    case Stmt::MemberExprClass: {
      auto *M = cast<MemberExpr>(E);
      O["k"] = "Member";
      O["base"] = stmt(M->getBase());
      if (M->isArrow()) O["arrow"] = 1;
      O["n"] = M->getMemberDecl()->getNameAsString();
      if (auto *F = dyn_cast<FieldDecl>(M->getMemberDecl())) {
        O["fc"] = typeId(Ctx.getRecordType(F->getParent()));
      } else if (auto *F = dyn_cast<FunctionDecl>(M->getMemberDecl())) {
        O["fn"] = callee(F);
      } else if (auto *V = dyn_cast<VarDecl>(M->getMemberDecl())) {
        O["static"] = 1;
        const VarDecl *Def = nullptr;
        if (auto *I = V->getAnyInitializer(Def)) {
          Expr::EvalResult R;
          if (!I->isValueDependent() && I->getType()->isIntegralOrEnumerationType() && I->EvaluateAsInt(R, Ctx)) {
            llvm::SmallString<32> S;
            R.Val.getInt().toString(S, 10);
            O["cv"] = std::string(S);
          }
        }
      }
      break;
    }
    case Stmt::UnaryOperatorClass: {
      auto *U = cast<UnaryOperator>(E);
      O["k"] = "Un";
      O["op"] = (U->isPostfix() ? "post" : "") + UnaryOperator::getOpcodeStr(U->getOpcode()).str();
      O["e"] = stmt(U->getSubExpr());
      break;
    }
    case Stmt::BinaryOperatorClass:
    case Stmt::CompoundAssignOperatorClass: {
      auto *B = cast<BinaryOperator>(E);
      O["k"] = "Bin";
      O["op"] = B->getOpcodeStr().str();
      O["a"] = stmt(B->getLHS());
      O["b"] = stmt(B->getRHS());
      if (auto *CA = dyn_cast<CompoundAssignOperator>(E)) {
        O["k"] = "Asg";
        O["ct"] = typeId(CA->getComputationResultType());
      }
      break;
    }
    case Stmt::ConditionalOperatorClass: {
      auto *C = cast<ConditionalOperator>(E);
      O["k"] = "Cond";
      O["cond"] = stmt(C->getCond());
      O["a"] = stmt(C->getTrueExpr());
      O["b"] = stmt(C->getFalseExpr());
      break;
    }
    case Stmt::ImplicitCastExprClass:
    case Stmt::CStyleCastExprClass:
    case Stmt::CXXStaticCastExprClass:
    case Stmt::CXXReinterpretCastExprClass:
    case Stmt::CXXConstCastExprClass:
    case Stmt::CXXDynamicCastExprClass:
    case Stmt::CXXFunctionalCastExprClass: {
      auto *C = cast<CastExpr>(E);
      O["k"] = "Cast";
      O["ck"] = C->getCastKindName();
      if (isa<CXXConstCastExpr>(E)) O["constcast"] = 1;
      if (isa<CXXReinterpretCastExpr>(E)) O["reinterpret"] = 1;
      if (isa<ExplicitCastExpr>(E)) O["expl"] = 1;
      O["e"] = stmt(C->getSubExpr());
      break;
    }
    case Stmt::MaterializeTemporaryExprClass: {
      O["k"] = "Mat";
      O["e"] = stmt(cast<MaterializeTemporaryExpr>(E)->getSubExpr());
      break;
    }
    case Stmt::CallExprClass:
    case Stmt::CXXMemberCallExprClass:
    case Stmt::CXXOperatorCallExprClass:
    case Stmt::UserDefinedLiteralClass: {
      auto *C = cast<CallExpr>(E);
      O["k"] = "Call";
      unsigned First = 0;
      if (auto *F = C->getDirectCallee()) {
        O["fn"] = callee(F);
        if (isa<CXXOperatorCallExpr>(E)) {
          O["opcall"] = 1;
          if (isa<CXXMethodDecl>(F)) {
            O["obj"] = stmt(C->getArg(0));
            First = 1;
          }
        } else if (auto *MC = dyn_cast<CXXMemberCallExpr>(E)) {
          auto *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParens());
          O["obj"] = stmt(MC->getImplicitObjectArgument());
          if (ME && ME->isArrow()) O["arrow"] = 1;
          if (ME && ME->hasQualifier()) O["qual"] = 1;
        }
      } else {
        O["callee"] = stmt(C->getCallee());
      }
      Array A;
      for (unsigned i = First; i < C->getNumArgs(); ++i) A.push_back(stmt(C->getArg(i)));
      O["args"] = std::move(A);
      break;
    }
    case Stmt::CXXConstructExprClass:
    case Stmt::CXXTemporaryObjectExprClass: {
      auto *C = cast<CXXConstructExpr>(E);
      O["k"] = "New";  // constructs an object value
      O["fn"] = callee(C->getConstructor());
      if (C->isElidable()) O["elide"] = 1;
      if (C->isListInitialization()) O["list"] = 1;
      if (C->requiresZeroInitialization()) O["zero"] = 1;
      O["args"] = args(C->getArgs(), C->getNumArgs());
      break;
    }
    case Stmt::CXXInheritedCtorInitExprClass: O["k"] = "InheritedCtor"; break;
    case Stmt::InitListExprClass: {
      auto *I = cast<InitListExpr>(E);
      if (auto *Sem = I->getSemanticForm()) I = Sem;
      if (I->isTransparent() && I->getNumInits() == 1) return stmt(I->getInit(0));
      O["k"] = "InitList";
      Array A;
      for (unsigned i = 0; i < I->getNumInits(); ++i) A.push_back(stmt(I->getInit(i)));
      O["args"] = std::move(A);
      if (I->getArrayFiller()) O["filler"] = stmt(I->getArrayFiller());
      break;
    }
    case Stmt::CXXStdInitializerListExprClass:
      O["k"] = "StdInitList";
      O["e"] = stmt(cast<CXXStdInitializerListExpr>(E)->getSubExpr());
      break;
    case Stmt::ImplicitValueInitExprClass:
    case Stmt::CXXScalarValueInitExprClass: O["k"] = "ZeroInit"; break;
    case Stmt::CXXDefaultArgExprClass:
      return stmt(cast<CXXDefaultArgExpr>(E)->getExpr());
    case Stmt::CXXDefaultInitExprClass:
      return stmt(cast<CXXDefaultInitExpr>(E)->getExpr());
    case Stmt::ArraySubscriptExprClass: {
      auto *A = cast<ArraySubscriptExpr>(E);
      O["k"] = "Sub";
      O["base"] = stmt(A->getBase());
      O["i"] = stmt(A->getIdx());
      break;
    }
    case Stmt::LambdaExprClass: {
      auto *L = cast<LambdaExpr>(E);
      O["k"] = "Lambda";
      Array Caps;
      auto CI = L->capture_init_begin();
      for (auto &C : L->captures()) {
        Object CO;
        if (C.capturesThis()) {
          CO["this"] = 1;
          if (C.getCaptureKind() == LCK_StarThis) CO["copy"] = 1;
        } else if (C.capturesVariable()) {
          auto *V = C.getCapturedVar();
          CO["d"] = localId(V);
          CO["ref"] = C.getCaptureKind() == LCK_ByRef ? 1 : 0;
          if (auto *VD = dyn_cast<VarDecl>(V))
            if (VD->isInitCapture()) CO["init"] = stmt(VD->getInit());
        }
        Caps.push_back(std::move(CO));
        ++CI;
      }
      O["caps"] = std::move(Caps);
      // emit the call operator; for generic lambdas every instantiation
      Array Ops;
      auto *Op = L->getCallOperator();
      if (auto *FT = L->getLambdaClass()->getDependentLambdaCallOperator()) {
        for (auto *Sp : FT->specializations()) Ops.push_back(lambdaOp(cast<CXXMethodDecl>(Sp)));
      } else {
        Ops.push_back(lambdaOp(Op));
      }
      O["ops"] = std::move(Ops);
      break;
    }
    case Stmt::UnaryExprOrTypeTraitExprClass: {
      auto *U = cast<UnaryExprOrTypeTraitExpr>(E);
      O["k"] = "SizeOf";
      O["of"] = typeId(U->getTypeOfArgument());
      break;
    }
    case Stmt::CXXThrowExprClass:
      O["k"] = "Throw";
      if (auto *T = cast<CXXThrowExpr>(E)->getSubExpr()) O["e"] = stmt(T);
      break;
    case Stmt::CXXNewExprClass: {
      auto *N = cast<CXXNewExpr>(E);
      O["k"] = "HeapNew";
      O["at"] = typeId(N->getAllocatedType());
      if (N->isArray()) { O["arr"] = 1; if (auto S = N->getArraySize()) O["n"] = stmt(*S); }
      if (N->getInitializer()) O["init"] = stmt(N->getInitializer());
      break;
    }
    case Stmt::CXXDeleteExprClass:
      O["k"] = "Delete";
      O["e"] = stmt(cast<CXXDeleteExpr>(E)->getArgument());
      break;
    default: {
      Array A;
      for (auto *C : E->children()) A.push_back(stmt(C));
      O["c"] = std::move(A);
    }
    }
    // integral constants not otherwise visible (traits etc.)
    if (!E->isValueDependent() && !E->isTypeDependent() && E->isPRValue() && E->getType()->isIntegralOrEnumerationType()) {
      auto SC = E->getStmtClass();
      if (SC == Stmt::TypeTraitExprClass || SC == Stmt::UnaryExprOrTypeTraitExprClass || SC == Stmt::CXXNoexceptExprClass ||
          SC == Stmt::SizeOfPackExprClass || SC == Stmt::ImplicitCastExprClass || SC == Stmt::CXXStaticCastExprClass) {
        Expr::EvalResult R;
        if (E->EvaluateAsInt(R, Ctx)) {
          llvm::SmallString<32> S;
          R.Val.getInt().toString(S, 10);
          O["cv"] = std::string(S);
        }
      }
    }
    return O;
  }

  Value lambdaOp(const CXXMethodDecl *M) {
    Object O;
    O["id"] = fnId(M);
    Array P;
    for (auto *A : M->parameters()) P.push_back(varDecl(A));
    O["params"] = std::move(P);
    O["ret"] = typeId(M->getReturnType());
    if (M->getBody()) O["body"] = stmt(M->getBody());
    return O;
  }

  void dumpFunction(const FunctionDecl *F) {
    const FunctionDecl *Def = nullptr;
    if (!F->isDefined(Def)) Def = F;
    if (Def->isDependentContext()) return;
    std::string Id = fnId(F);
    if (!DoneFns.insert(Id).second) return;
    Object O;
    O["id"] = Id;
    O["q"] = qualNoArgs(Def);
    O["file"] = fileId(Def->getLocation());
    O["l"] = line(Def->getLocation());
    O["el"] = line(Def->getEndLoc());
    O["dfile"] = fileId(F->getCanonicalDecl()->getLocation());
    O["dl"] = line(F->getCanonicalDecl()->getLocation());
    O["ret"] = typeId(Def->getReturnType());
    O["name"] = isa<CXXConstructorDecl>(F) ? "{ctor}" : isa<CXXDestructorDecl>(F) ? "{dtor}" : F->getNameAsString();
    if (auto *TA = Def->getTemplateSpecializationArgs()) {
      Array Args;
      for (auto &A : TA->asArray()) addArg(Args, A);
      O["targs"] = std::move(Args);
    }
    if (Def->getTemplateSpecializationKind() == TSK_ExplicitSpecialization) O["explicitspec"] = 1;
    Array P;
    for (unsigned i = 0; i < Def->getNumParams(); ++i) P.push_back(varDecl(Def->getParamDecl(i)));
    O["params"] = std::move(P);
    if (auto *FT = Def->getType()->getAs<FunctionProtoType>())
      if (FT->getExceptionSpecType() != EST_Unevaluated && FT->isNothrow()) O["noexcept"] = 1;
    if (auto *M = dyn_cast<CXXMethodDecl>(Def)) {
      O["cls"] = typeId(Ctx.getRecordType(M->getParent()));
      if (M->isConst()) O["const"] = 1;
      if (M->isStatic()) O["static"] = 1;
      if (M->isVirtual()) O["virtual"] = 1;
      O["access"] = (int)M->getAccess();
      Array Ov;
      for (auto *X : M->overridden_methods()) Ov.push_back(fnId(X));
      O["overrides"] = std::move(Ov);
    }
    if (Def->isDeleted()) O["deleted"] = 1;
    if (Def->isDefaulted()) O["defaulted"] = 1;
    if (Def->isImplicit()) O["implicit"] = 1;
    if (auto *C = dyn_cast<CXXConstructorDecl>(Def)) {
      if (C->isCopyConstructor()) O["copyctor"] = 1;
      if (C->isMoveConstructor()) O["movector"] = 1;
      if (C->isDefaultConstructor()) O["defctor"] = 1;
      Array I;
      for (auto *X : C->inits()) {
        Object XO;
        if (X->isBaseInitializer()) XO["base"] = typeId(QualType(X->getBaseClass(), 0));
        else if (X->isDelegatingInitializer()) XO["deleg"] = 1;
        else if (X->isAnyMemberInitializer()) XO["field"] = X->getAnyMember()->getNameAsString();
        if (X->isWritten()) XO["written"] = 1;
        XO["l"] = line(X->getSourceLocation());
        XO["e"] = stmt(X->getInit());
        I.push_back(std::move(XO));
      }
      O["inits"] = std::move(I);
    }
    if (Def->hasBody() && !Def->isDefaulted()) O["body"] = stmt(Def->getBody());
    else if (Def->hasBody()) O["defbody"] = 1;
    Functions.push_back(std::move(O));
  }

  void drain() {
    while (!Pending.empty() || !PendingClasses.empty()) {
      if (!Pending.empty()) {
        auto *F = Pending.back();
        Pending.pop_back();
        dumpFunction(F);
      } else {
        auto *R = PendingClasses.back();
        PendingClasses.pop_back();
        dumpClass(R);
      }
    }
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
  Dumper &D;
  Visitor(Dumper &D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isDependentContext()) return true;
    if (!D.ours(F->getLocation())) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda()) return true;
    D.Pending.push_back(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (R->isThisDeclarationADefinition()) D.needClass(R);
    return true;
  }
};

class Consumer : public ASTConsumer {
public:
  CompilerInstance &CI;
  Consumer(CompilerInstance &CI) : CI(CI) {}
  void HandleTranslationUnit(ASTContext &Ctx) override {
    Dumper D(Ctx);
    Visitor V(D);
    V.TraverseDecl(Ctx.getTranslationUnitDecl());
    D.drain();
    Object O;
    O["types"] = std::move(D.Types);
    O["files"] = std::move(D.Files);
    O["functions"] = std::move(D.Functions);
    O["classes"] = std::move(D.Classes);
    O["errors"] = (int64_t)CI.getDiagnostics().getClient()->getNumErrors();
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutFile, EC);
    OS << Value(std::move(O)) << "\n";
  }
};

class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
    return std::make_unique<Consumer>(CI);
  }
};

} // namespace

// usage: extract OUT.json ROOT[:ROOT...] SOURCE -- clang-args
int main(int argc, char **argv) {
  if (argc < 5) { llvm::errs() << "usage: extract OUT ROOTS SRC -- ARGS\n"; return 2; }
  OutFile = argv[1];
  std::string R = argv[2];
  size_t p = 0;
  while (p <= R.size()) {
    size_t q = R.find(':', p);
    if (q == std::string::npos) q = R.size();
    if (q > p) Roots.push_back(R.substr(p, q - p));
    p = q + 1;
  }
  std::string Src = argv[3];
  std::vector<std::string> Args;
  for (int i = 5; i < argc; ++i) Args.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", Args);
  tooling::ClangTool Tool(DB, {Src});
  return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
