// kwsx: exports the resolved (type-checked, template-instantiated) program of
// one translation unit as JSON, restricted to entities declared under given
// source roots.  It is purely a front-end: no analysis is made here.
//
//   kwsx OUT.json ROOT[:ROOT...] SOURCE -- clang-flags...
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> Roots;
static std::string OutPath;

namespace {

class Exporter : public RecursiveASTVisitor<Exporter> {
 public:
  explicit Exporter(ASTContext &C) : Ctx(C), SM(C.getSourceManager()),
      PP(C.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.SuppressScope = false;
    PP.Bool = true;
  }

  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return "";
    StringRef F = SM.getFilename(L);
    if (auto FE = SM.getFileEntryRefForID(SM.getFileID(L))) {
      StringRef R = FE->getFileEntry().tryGetRealPathName();
      if (!R.empty()) return R.str();
    }
    return F.str();
  }
  bool inRoots(SourceLocation L) {
    std::string F = fileOf(L);
    if (F.empty()) return false;
    for (auto &R : Roots)
      if (F.compare(0, R.size(), R) == 0) return true;
    return false;
  }
  unsigned lineOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    return L.isValid() ? SM.getSpellingLineNumber(L) : 0;
  }
  unsigned colOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    return L.isValid() ? SM.getSpellingColumnNumber(L) : 0;
  }

  // ---- ids
  std::map<const void *, int> Ids;
  int idOf(const Decl *D) {
    const void *P = D->getCanonicalDecl();
    auto It = Ids.find(P);
    if (It != Ids.end()) return It->second;
    int N = (int)Ids.size() + 1;
    Ids[P] = N;
    return N;
  }

  // ---- types
  Object Types;
  std::set<std::string> TypesDone;
  std::string recQN(const CXXRecordDecl *R) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    R->printQualifiedName(OS);
    OS.flush();
    // drop inline namespaces of libstdc++
    for (const char *N : {"std::__cxx11::", "std::__1::", "std::__debug::"}) {
      size_t P;
      while ((P = S.find(N)) != std::string::npos) S.replace(P, strlen(N), "std::");
    }
    return S;
  }
  std::string ty(QualType Q) {
    if (Q.isNull()) return "?";
    Q = Q.getCanonicalType();
    std::string K = Q.getAsString(PP);
    if (TypesDone.insert(K).second) {
      Object O;
      O["const"] = Q.isConstQualified();
      const Type *T = Q.getTypePtr();
      if (T->isReferenceType()) {
        O["k"] = "ref";
        O["rv"] = T->isRValueReferenceType();
        O["to"] = ty(T->getPointeeType());
      } else if (T->isPointerType()) {
        O["k"] = "ptr";
        O["to"] = ty(T->getPointeeType());
      } else if (T->isBooleanType()) {
        O["k"] = "bool";
      } else if (T->isEnumeralType()) {
        O["k"] = "enum";
      } else if (T->isIntegerType()) {
        O["k"] = "int";
        O["w"] = (int)Ctx.getTypeSize(Q);
        O["s"] = T->isSignedIntegerType();
        O["ch"] = T->isAnyCharacterType();
      } else if (T->isRealFloatingType()) {
        O["k"] = "float";
        O["w"] = (int)Ctx.getTypeSize(Q);
      } else if (T->isVoidType()) {
        O["k"] = "void";
      } else if (T->isNullPtrType()) {
        O["k"] = "nullptr";
      } else if (auto *RD = T->getAsCXXRecordDecl()) {
        O["k"] = "rec";
        O["qn"] = recQN(RD);
        O["id"] = idOf(RD);
        O["lambda"] = RD->isLambda();
        if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
          Array A;
          for (const TemplateArgument &TA : S->getTemplateArgs().asArray())
            addTArg(A, TA);
          O["ta"] = std::move(A);
        }
        O["repo"] = inRoots(RD->getLocation());
      } else if (T->isArrayType()) {
        O["k"] = "array";
        O["to"] = ty(Ctx.getAsArrayType(Q)->getElementType());
      } else if (T->isFunctionType()) {
        O["k"] = "func";
      } else {
        O["k"] = "other";
      }
      Types[K] = std::move(O);
    }
    return K;
  }
  void addTArg(Array &A, const TemplateArgument &TA) {
    switch (TA.getKind()) {
      case TemplateArgument::Type: A.push_back(ty(TA.getAsType())); break;
      case TemplateArgument::Integral:
        A.push_back("#" + llvm::toString(TA.getAsIntegral(), 10));
        break;
      case TemplateArgument::Pack:
        for (const auto &P : TA.pack_elements()) addTArg(A, P);
        break;
      default: A.push_back("?");
    }
  }

  std::string fnQN(const FunctionDecl *F) {
    std::string S;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      S = recQN(M->getParent()) + "::";
      if (isa<CXXConstructorDecl>(M)) S += "<ctor>";
      else if (isa<CXXDestructorDecl>(M)) S += "<dtor>";
      else if (isa<CXXConversionDecl>(M))
        S += "<conv>";
      else S += M->getNameAsString();
    } else {
      llvm::raw_string_ostream OS(S);
      F->printQualifiedName(OS);
      OS.flush();
      for (const char *N : {"std::__cxx11::", "std::__1::"}) {
        size_t P;
        while ((P = S.find(N)) != std::string::npos) S.replace(P, strlen(N), "std::");
      }
    }
    return S;
  }

  // ---- expression export
  Value callee(const FunctionDecl *F) {
    Object O;
    O["qn"] = fnQN(F);
    O["id"] = idOf(F);
    note(F);
    O["ret"] = ty(F->getReturnType());
    Array P;
    for (auto *A : F->parameters()) P.push_back(ty(A->getType()));
    O["pt"] = std::move(P);
    O["repo"] = inRoots(F->getLocation());
    if (F->isNoReturn()) O["noret"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = idOf(M->getParent());
      O["method"] = true;
      O["static"] = M->isStatic();
      O["const"] = M->isConst();
      O["virt"] = M->isVirtual();
      O["implicit"] = !M->isUserProvided();
      if (auto *C = dyn_cast<CXXConstructorDecl>(M)) {
        O["copy"] = C->isCopyConstructor();
        O["move"] = C->isMoveConstructor();
      } else {
        O["copyas"] = M->isCopyAssignmentOperator();
        O["moveas"] = M->isMoveAssignmentOperator();
      }
    }
    if (const auto *TA = F->getTemplateSpecializationArgs()) {
      Array A;
      for (const auto &X : TA->asArray()) addTArg(A, X);
      O["ta"] = std::move(A);
    }
    return O;
  }

  void base(Object &O, const Stmt *S) {
    O["l"] = (int)lineOf(S->getBeginLoc());
    if (auto *E = dyn_cast<Expr>(S)) {
      O["t"] = ty(E->getType());
      if (E->isGLValue()) O["lv"] = 1;
    }
  }

  // constant folding of side-effect-free constant expressions
  bool tryConst(const Expr *E, Object &O) {
    if (E->isValueDependent() || E->isTypeDependent()) return false;
    QualType T = E->getType();
    if (!(T->isIntegralOrEnumerationType() || T->isRealFloatingType())) return false;
    Expr::EvalResult R;
    if (!E->EvaluateAsRValue(R, Ctx) || R.HasSideEffects) return false;
    if (R.Val.isInt()) {
      if (T->isBooleanType()) { O["k"] = "bool"; O["v"] = R.Val.getInt().getBoolValue(); }
      else { O["k"] = "int"; O["v"] = llvm::toString(R.Val.getInt(), 10); }
      return true;
    }
    if (R.Val.isFloat()) {
      llvm::SmallString<32> S;
      if (R.Val.getFloat().isInfinity())
        S = R.Val.getFloat().isNegative() ? "-inf" : "inf";
      else if (R.Val.getFloat().isNaN())
        S = "nan";
      else {
        double D;
        llvm::APFloat F = R.Val.getFloat();
        bool li;
        F.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li);
        D = F.convertToDouble();
        char buf[64];
        snprintf(buf, sizeof buf, "%.17g", D);
        S = buf;
      }
      O["k"] = "flt";
      O["v"] = S.str().str();
      return true;
    }
    return false;
  }

  Array exprs(llvm::iterator_range<CallExpr::const_arg_iterator> R) {
    Array A;
    for (const Expr *E : R) A.push_back(ex(E));
    return A;
  }
  template <typename It>
  Array exprRange(It B, It E) {
    Array A;
    for (; B != E; ++B) A.push_back(ex(*B));
    return A;
  }

  Value ex(const Expr *E) {
    if (!E) return nullptr;
    // transparent wrappers
    for (;;) {
      if (auto *X = dyn_cast<ParenExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<FullExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = X->getReplacement(); continue; }
      if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) { E = X->getExpr(); continue; }
      if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) { E = X->getExpr(); continue; }
      if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<OpaqueValueExpr>(E)) { if (X->getSourceExpr()) { E = X->getSourceExpr(); continue; } }
      break;
    }
    Object O;
    base(O, E);
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      O["k"] = "int";
      O["v"] = llvm::toString(X->getValue(), 10, X->getType()->isSignedIntegerType());
      return O;
    }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      tryConst(X, O);
      return O;
    }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) {
      O["k"] = "bool"; O["v"] = X->getValue(); return O;
    }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) {
      O["k"] = "int"; O["v"] = std::to_string(X->getValue()); O["ch"] = true; return O;
    }
    if (auto *X = dyn_cast<clang::StringLiteral>(E)) {
      O["k"] = "str";
      std::string S = X->isOrdinary() || X->isUTF8() ? X->getString().str() : "?";
      if (!llvm::json::isUTF8(S)) S = llvm::json::fixUTF8(S);
      O["v"] = S;
      return O;
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
      O["k"] = "null"; return O;
    }
    if (isa<CXXThisExpr>(E)) { O["k"] = "this"; return O; }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      O["name"] = D->getNameAsString();
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        O["k"] = "fn"; O["fn"] = callee(F); return O;
      }
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        O["k"] = "int"; O["v"] = llvm::toString(EC->getInitVal(), 10); O["enum"] = true;
        return O;
      }
      if (auto *V = dyn_cast<VarDecl>(D)) {
        Object C;
        if ((V->isConstexpr() || (V->getType().isConstQualified() && V->hasGlobalStorage())) && tryConst(X, C)) {
          O["k"] = C["k"]; O["v"] = C["v"]; O["cname"] = D->getQualifiedNameAsString();
          if (!V->getAnyInitializer() || !isa<IntegerLiteral>(V->getAnyInitializer()->IgnoreParenImpCasts())) O["cx"] = true;
          return O;
        }
        O["k"] = "var";
        O["id"] = idOf(V);
        O["global"] = V->hasGlobalStorage();
        if (V->isStaticLocal()) O["slocal"] = true;
        if (V->hasGlobalStorage()) {
          O["qn"] = V->getQualifiedNameAsString();
          O["repo"] = inRoots(V->getLocation());
        }
        O["vt"] = ty(V->getType());
        return O;
      }
      O["k"] = "opaque"; O["why"] = "declref"; return O;
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *D = X->getMemberDecl();
      O["name"] = D->getNameAsString();
      O["arrow"] = X->isArrow();
      if (auto *V = dyn_cast<VarDecl>(D)) {
        Object C;
        if (tryConst(X, C)) { O["k"] = C["k"]; O["v"] = C["v"]; O["cx"] = true; return O; }
        O["k"] = "var"; O["id"] = idOf(V); O["global"] = true;
        O["qn"] = V->getQualifiedNameAsString(); O["vt"] = ty(V->getType());
        O["repo"] = inRoots(V->getLocation());
        return O;
      }
      if (isa<FieldDecl>(D)) {
        O["k"] = "mem";
        O["b"] = ex(X->getBase());
        O["vt"] = ty(D->getType());
        O["own"] = recQN(cast<CXXRecordDecl>(cast<FieldDecl>(D)->getParent()));
        return O;
      }
      O["k"] = "memfn"; O["b"] = ex(X->getBase());
      if (auto *F = dyn_cast<FunctionDecl>(D)) O["fn"] = callee(F);
      return O;
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      O["k"] = "call";
      O["op"] = getOperatorSpelling(X->getOperator());
      const FunctionDecl *F = X->getDirectCallee();
      if (!F) { O["k"] = "opaque"; O["why"] = "opcall"; return O; }
      O["fn"] = callee(F);
      auto *M = dyn_cast<CXXMethodDecl>(F);
      unsigned I = 0;
      if (M && !M->isStatic()) {
        O["obj"] = ex(X->getArg(0));
        O["vcall"] = M->isVirtual();
        I = 1;
      }
      Array A;
      for (; I < X->getNumArgs(); ++I) A.push_back(ex(X->getArg(I)));
      O["a"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      const CXXMethodDecl *M = X->getMethodDecl();
      if (M) {
        O["k"] = "call";
        O["fn"] = callee(M);
        const auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens());
        O["obj"] = ex(X->getImplicitObjectArgument());
        bool arrow = ME && ME->isArrow();
        O["arrow"] = arrow;
        bool qual = ME && ME->hasQualifier();
        O["vcall"] = M->isVirtual() && !qual;
        O["a"] = exprs(X->arguments());
        return O;
      }
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      if (const FunctionDecl *F = X->getDirectCallee()) {
        Object C;
        if (F->isConstexpr() && !inRoots(F->getLocation()) && tryConst(X, C)) {
          O["k"] = C["k"]; O["v"] = C["v"]; O["cx"] = true; return O;
        }
        O["k"] = "call";
        O["fn"] = callee(F);
        O["a"] = exprs(X->arguments());
        return O;
      }
      O["k"] = "icall";
      O["f"] = ex(X->getCallee());
      O["a"] = exprs(X->arguments());
      return O;
    }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      O["k"] = "lambda";
      const CXXRecordDecl *R = X->getLambdaClass();
      const CXXMethodDecl *M = X->getCallOperator();
      O["fn"] = callee(M);
      note(M);
      Array A;
      auto InitIt = X->capture_init_begin();
      auto FieldIt = R->field_begin();
      for (auto C = X->capture_begin(); C != X->capture_end(); ++C, ++InitIt, ++FieldIt) {
        Object P;
        if (C->capturesThis()) P["this"] = true;
        if (C->capturesVariable()) {
          P["id"] = idOf(C->getCapturedVar());
          P["name"] = C->getCapturedVar()->getNameAsString();
        }
        P["byref"] = C->getCaptureKind() == LCK_ByRef;
        P["init"] = ex(*InitIt);
        A.push_back(std::move(P));
      }
      O["caps"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      O["k"] = "construct";
      O["fn"] = callee(X->getConstructor());
      O["inh"] = true;
      O["a"] = Array{};
      return O;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      O["k"] = "construct";
      O["fn"] = callee(X->getConstructor());
      note(X->getConstructor());
      O["elide"] = X->isElidable();
      O["list"] = X->isListInitialization();
      O["il"] = X->isStdInitListInitialization();
      O["zero"] = X->requiresZeroInitialization();
      O["a"] = exprRange(X->arg_begin(), X->arg_end());
      return O;
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      O["k"] = "new";
      O["at"] = ty(X->getAllocatedType());
      O["array"] = X->isArray();
      O["init"] = X->hasInitializer() || X->getConstructExpr() ? ex(X->getInitializer() ? X->getInitializer() : X->getConstructExpr()) : Value(nullptr);
      return O;
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      O["k"] = "delete";
      O["array"] = X->isArrayForm();
      O["e"] = ex(X->getArgument());
      return O;
    }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      O["k"] = "throw"; O["e"] = ex(X->getSubExpr()); return O;
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      O["k"] = "un";
      std::string Op = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) Op = "post" + Op;
      O["op"] = Op;
      O["e"] = ex(X->getSubExpr());
      return O;
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      O["k"] = X->isCompoundAssignmentOp() ? "cassign" : X->isAssignmentOp() ? "assign" : "bin";
      O["op"] = X->getOpcodeStr().str();
      if (auto *CA = dyn_cast<CompoundAssignOperator>(X))
        O["ct"] = ty(CA->getComputationResultType());
      O["x"] = ex(X->getLHS());
      O["y"] = ex(X->getRHS());
      return O;
    }
    if (auto *X = dyn_cast<ConditionalOperator>(E)) {
      O["k"] = "cond";
      O["c"] = ex(X->getCond());
      O["x"] = ex(X->getTrueExpr());
      O["y"] = ex(X->getFalseExpr());
      return O;
    }
    if (auto *X = dyn_cast<CastExpr>(E)) {
      switch (X->getCastKind()) {
        case CK_NoOp: case CK_LValueToRValue: case CK_ConstructorConversion:
        case CK_UserDefinedConversion: case CK_FunctionToPointerDecay:
        case CK_ArrayToPointerDecay:
        case CK_UncheckedDerivedToBase: case CK_DerivedToBase:
        case CK_BaseToDerived: {
          // Keep the static type of the converted expression, nothing else.
          Value V = ex(X->getSubExpr());
          if (X->getCastKind() == CK_DerivedToBase ||
              X->getCastKind() == CK_UncheckedDerivedToBase) {
            O["k"] = "upcast"; O["e"] = std::move(V); return O;
          }
          if (X->getCastKind() == CK_BaseToDerived) {
            O["k"] = "downcast"; O["e"] = std::move(V); return O;
          }
          if (X->getCastKind() == CK_LValueToRValue) {
            O["k"] = "load"; O["e"] = std::move(V); return O;
          }
          return V;
        }
        case CK_NullToPointer: O["k"] = "null"; return O;
        case CK_ToVoid: O["k"] = "void"; O["e"] = ex(X->getSubExpr()); return O;
        default: break;
      }
      O["k"] = "cast";
      O["ck"] = X->getCastKindName();
      O["e"] = ex(X->getSubExpr());
      return O;
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      O["k"] = "sub"; O["b"] = ex(X->getBase()); O["i"] = ex(X->getIdx()); return O;
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      O["k"] = "initlist";
      Array A;
      const InitListExpr *S = X->isSemanticForm() ? X : X->getSemanticForm();
      if (!S) S = X;
      for (const Expr *I : S->inits()) A.push_back(ex(I));
      O["a"] = std::move(A);
      return O;
    }
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) {
      O["k"] = "zero"; return O;
    }
    if (tryConst(E, O)) { O["cx"] = true; return O; }
    O["k"] = "opaque";
    O["why"] = E->getStmtClassName();
    Array Sub;
    for (const Stmt *C : E->children())
      if (auto *CE = dyn_cast_or_null<Expr>(C)) Sub.push_back(ex(CE));
    O["sub"] = std::move(Sub);
    return O;
  }

  Value var(const VarDecl *V) {
    Object O;
    O["id"] = idOf(V);
    O["name"] = V->getNameAsString();
    O["t"] = ty(V->getType());
    O["l"] = (int)lineOf(V->getLocation());
    if (V->isStaticLocal()) O["slocal"] = true;
    O["init"] = V->getInit() ? ex(V->getInit()) : Value(nullptr);
    return O;
  }

  Value st(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) {
      Object O;
      O["k"] = "expr";
      O["l"] = (int)lineOf(S->getBeginLoc());
      O["e"] = ex(E);
      return O;
    }
    Object O;
    O["l"] = (int)lineOf(S->getBeginLoc());
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      O["k"] = "block";
      Array A;
      for (const Stmt *C : X->body()) A.push_back(st(C));
      O["s"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      O["k"] = "decl";
      Array A;
      for (const Decl *D : X->decls())
        if (auto *V = dyn_cast<VarDecl>(D)) A.push_back(var(V));
      O["v"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      O["k"] = "if";
      if (X->getInit()) O["init"] = st(X->getInit());
      if (X->getConditionVariable()) O["cv"] = var(X->getConditionVariable());
      O["c"] = ex(X->getCond());
      O["then"] = st(X->getThen());
      O["else"] = st(X->getElse());
      return O;
    }
    if (auto *X = dyn_cast<ForStmt>(S)) {
      O["k"] = "for";
      O["init"] = st(X->getInit());
      O["c"] = ex(X->getCond());
      O["inc"] = ex(X->getInc());
      O["body"] = st(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) {
      O["k"] = "while";
      if (X->getConditionVariable()) O["cv"] = var(X->getConditionVariable());
      O["c"] = ex(X->getCond());
      O["body"] = st(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<DoStmt>(S)) {
      O["k"] = "do";
      O["c"] = ex(X->getCond());
      O["body"] = st(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      O["k"] = "rangefor";
      O["range"] = ex(X->getRangeInit());
      Object V;
      V["id"] = idOf(X->getLoopVariable());
      V["name"] = X->getLoopVariable()->getNameAsString();
      V["t"] = ty(X->getLoopVariable()->getType());
      V["l"] = (int)lineOf(X->getLoopVariable()->getLocation());
      O["var"] = std::move(V);
      O["body"] = st(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<ReturnStmt>(S)) {
      O["k"] = "return"; O["e"] = ex(X->getRetValue()); return O;
    }
    if (isa<BreakStmt>(S)) { O["k"] = "break"; return O; }
    if (isa<ContinueStmt>(S)) { O["k"] = "continue"; return O; }
    if (isa<NullStmt>(S)) { O["k"] = "null"; return O; }
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      O["k"] = "try";
      O["body"] = st(X->getTryBlock());
      Array A;
      for (unsigned I = 0; I < X->getNumHandlers(); ++I) {
        Object H;
        const CXXCatchStmt *C = X->getHandler(I);
        H["t"] = C->getExceptionDecl() ? ty(C->getCaughtType()) : "...";
        if (C->getExceptionDecl()) H["v"] = var(C->getExceptionDecl());
        H["body"] = st(C->getHandlerBlock());
        A.push_back(std::move(H));
      }
      O["h"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<SwitchStmt>(S)) {
      O["k"] = "switch";
      O["c"] = ex(X->getCond());
      O["body"] = st(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<CaseStmt>(S)) {
      O["k"] = "case";
      O["e"] = ex(X->getLHS());
      O["s"] = st(X->getSubStmt());
      return O;
    }
    if (auto *X = dyn_cast<DefaultStmt>(S)) {
      O["k"] = "default"; O["s"] = st(X->getSubStmt()); return O;
    }
    if (auto *X = dyn_cast<OMPExecutableDirective>(S)) {
      O["k"] = "omp";
      O["dir"] = X->getStmtClassName();
      const Stmt *B = X->hasAssociatedStmt() ? X->getRawStmt() : nullptr;
      O["body"] = st(B);
      Array C;
      for (const OMPClause *L : X->clauses()) {
        Object Q;
        Q["n"] = llvm::omp::getOpenMPClauseName(L->getClauseKind()).str();
        Array V;
        for (const Stmt *K : const_cast<OMPClause *>(L)->children())
          if (auto *R = dyn_cast_or_null<DeclRefExpr>(K)) {
            Object W;
            W["id"] = idOf(R->getDecl());
            W["t"] = ty(R->getType());
            W["name"] = R->getDecl()->getNameAsString();
            V.push_back(std::move(W));
          }
        Q["v"] = std::move(V);
        C.push_back(std::move(Q));
      }
      O["cl"] = std::move(C);
      return O;
    }
    if (auto *X = dyn_cast<AttributedStmt>(S)) return st(X->getSubStmt());
    if (auto *X = dyn_cast<LabelStmt>(S)) {
      O["k"] = "other"; O["why"] = "label"; return O;
    }
    O["k"] = "other";
    O["why"] = S->getStmtClassName();
    return O;
  }

  // ---- functions
  std::map<int, Value> Funcs;
  std::vector<const FunctionDecl *> Pending;
  std::set<const FunctionDecl *> Noted;
  void note(const FunctionDecl *F) {
    const FunctionDecl *D = nullptr;
    if (F->hasBody(D)) F = D;
    if (!inRoots(F->getLocation())) return;
    if (F->isDependentContext()) return;
    if (Noted.insert(F->getCanonicalDecl()).second) Pending.push_back(F);
  }

  void emit(const FunctionDecl *F) {
    const FunctionDecl *D = nullptr;
    bool hasBody = F->hasBody(D);
    if (hasBody) F = D;
    int Id = idOf(F);
    Object O;
    O["id"] = Id;
    O["qn"] = fnQN(F);
    O["name"] = F->getNameAsString();
    O["file"] = fileOf(F->getLocation());
    O["line"] = (int)lineOf(F->getLocation());
    O["col"] = (int)colOf(F->getLocation());
    O["ret"] = ty(F->getReturnType());
    O["inline"] = F->isInlined();
    O["tmpl"] = F->isTemplateInstantiation();
    Array P;
    for (auto *A : F->parameters()) {
      Object Q;
      Q["id"] = idOf(A);
      Q["name"] = A->getNameAsString();
      Q["t"] = ty(A->getType());
      P.push_back(std::move(Q));
    }
    O["params"] = std::move(P);
    if (const auto *TA = F->getTemplateSpecializationArgs()) {
      Array A;
      for (const auto &X : TA->asArray()) addTArg(A, X);
      O["ta"] = std::move(A);
    }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = idOf(M->getParent());
      O["clsty"] = ty(Ctx.getRecordType(M->getParent()));
      O["method"] = true;
      O["static"] = M->isStatic();
      O["const"] = M->isConst();
      O["virt"] = M->isVirtual();
      O["pure"] = M->isPureVirtual();
      O["implicit"] = M->isImplicit();
      O["defaulted"] = M->isDefaulted();
      O["deleted"] = M->isDeleted();
      O["lambda"] = M->getParent()->isLambda();
      O["acc"] = (int)M->getAccess();
      Array Ov;
      for (auto *B : M->overridden_methods()) Ov.push_back(idOf(B));
      O["over"] = std::move(Ov);
      O["copyas"] = M->isCopyAssignmentOperator();
      O["moveas"] = M->isMoveAssignmentOperator();
      if (auto *C = dyn_cast<CXXConstructorDecl>(M)) {
        O["ctor"] = true;
        O["copy"] = C->isCopyConstructor();
        O["move"] = C->isMoveConstructor();
        O["dflt"] = C->isDefaultConstructor();
        Array I;
        for (auto *In : C->inits()) {
          Object Q;
          if (In->isMemberInitializer()) {
            Q["f"] = In->getMember()->getNameAsString();
            Q["ft"] = ty(In->getMember()->getType());
          } else if (In->isBaseInitializer()) {
            Q["base"] = ty(QualType(In->getBaseClass(), 0));
          } else if (In->isDelegatingInitializer()) {
            Q["deleg"] = true;
          }
          Q["written"] = In->isWritten();
          Q["e"] = ex(In->getInit());
          I.push_back(std::move(Q));
        }
        O["inits"] = std::move(I);
      }
      if (isa<CXXDestructorDecl>(M)) O["dtor"] = true;
    }
    O["hasbody"] = hasBody && F->getBody();
    if (hasBody && F->getBody()) O["body"] = st(F->getBody());
    Funcs.emplace(Id, std::move(O));
  }

  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isDependentContext() || F->getTemplatedKind() == FunctionDecl::TK_FunctionTemplate)
      return true;
    note(F);
    return true;
  }

  // ---- records
  Object Recs;
  std::set<int> RecsDone;
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    R = R->getDefinition();
    if (!R || R->isDependentContext() || !inRoots(R->getLocation())) return true;
    int Id = idOf(R);
    if (!RecsDone.insert(Id).second) return true;
    Object O;
    O["qn"] = recQN(R);
    O["t"] = ty(Ctx.getRecordType(R));
    O["file"] = fileOf(R->getLocation());
    O["line"] = (int)lineOf(R->getLocation());
    O["lambda"] = R->isLambda();
    O["abstract"] = R->isAbstract();
    Array F;
    for (auto *D : R->fields()) {
      Object Q;
      Q["name"] = D->getNameAsString();
      Q["t"] = ty(D->getType());
      Q["l"] = (int)lineOf(D->getLocation());
      Q["acc"] = (int)D->getAccess();
      Q["init"] = D->hasInClassInitializer() && D->getInClassInitializer() ? ex(D->getInClassInitializer()) : Value(nullptr);
      Q["mut"] = D->isMutable();
      F.push_back(std::move(Q));
    }
    O["fields"] = std::move(F);
    Array B;
    for (auto &X : R->bases()) B.push_back(ty(X.getType()));
    O["bases"] = std::move(B);
    Array M;
    for (auto *D : R->methods()) {
      Object Q;
      Q["id"] = idOf(D);
      Q["qn"] = fnQN(D);
      Q["name"] = D->getNameAsString();
      Q["virt"] = D->isVirtual();
      Q["pure"] = D->isPureVirtual();
      Q["deleted"] = D->isDeleted();
      Q["defaulted"] = D->isDefaulted();
      Q["user"] = D->isUserProvided();
      if (auto *C = dyn_cast<CXXConstructorDecl>(D)) {
        Q["ctor"] = true; Q["copy"] = C->isCopyConstructor(); Q["move"] = C->isMoveConstructor();
      }
      Q["copyas"] = D->isCopyAssignmentOperator();
      Q["moveas"] = D->isMoveAssignmentOperator();
      Q["dtor"] = isa<CXXDestructorDecl>(D);
      Array Ov;
      for (auto *X : D->overridden_methods()) Ov.push_back(idOf(X));
      Q["over"] = std::move(Ov);
      M.push_back(std::move(Q));
      note(D);
    }
    O["methods"] = std::move(M);
    O["udcopy"] = R->hasUserDeclaredCopyConstructor();
    O["udcopyas"] = R->hasUserDeclaredCopyAssignment();
    O["udmove"] = R->hasUserDeclaredMoveConstructor();
    O["udmoveas"] = R->hasUserDeclaredMoveAssignment();
    O["uddtor"] = R->hasUserDeclaredDestructor();
    O["nmoveas"] = R->hasMoveAssignment();
    O["ncopy_impl"] = R->hasSimpleCopyConstructor();
    Recs[std::to_string(Id)] = std::move(O);
    return true;
  }

  // ---- globals and static locals
  Array Globals;
  bool VisitVarDecl(VarDecl *V) {
    if (!V->hasGlobalStorage() || !inRoots(V->getLocation())) return true;
    if (V->getDeclContext()->isDependentContext() || V->getType()->isDependentType()) return true;
    Object O;
    O["id"] = idOf(V);
    O["qn"] = V->getQualifiedNameAsString();
    O["t"] = ty(V->getType());
    O["file"] = fileOf(V->getLocation());
    O["line"] = (int)lineOf(V->getLocation());
    O["slocal"] = V->isStaticLocal();
    O["constexpr"] = V->isConstexpr();
    O["const"] = V->getType().isConstQualified();
    Globals.push_back(std::move(O));
    return true;
  }

  void finish() {
    for (size_t I = 0; I < Pending.size(); ++I) emit(Pending[I]);
    Object Out;
    Array F;
    for (auto &KV : Funcs) F.push_back(std::move(KV.second));
    Out["functions"] = std::move(F);
    Out["records"] = std::move(Recs);
    Out["types"] = std::move(Types);
    Out["globals"] = std::move(Globals);
    Array Fl;
    std::set<std::string> Files;
    for (auto It = SM.fileinfo_begin(); It != SM.fileinfo_end(); ++It) {
      std::string P = It->first.getFileEntry().tryGetRealPathName().str();
      for (auto &R : Roots)
        if (P.compare(0, R.size(), R) == 0) Files.insert(P);
    }
    for (auto &S : Files) Fl.push_back(S);
    Out["files"] = std::move(Fl);
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutPath, EC);
    OS << Value(std::move(Out));
  }

 private:
  ASTContext &Ctx;
  SourceManager &SM;
  PrintingPolicy PP;
};

class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Exporter E(C);
    E.TraverseDecl(C.getTranslationUnitDecl());
    E.finish();
  }
};

class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
    return std::make_unique<Consumer>();
  }
};

}  // namespace

int main(int argc, const char **argv) {
  if (argc < 5) {
    llvm::errs() << "usage: kwsx OUT ROOTS SOURCE -- flags\n";
    return 2;
  }
  OutPath = argv[1];
  {
    std::string R = argv[2], Cur;
    for (char C : R + ":") {
      if (C == ':') { if (!Cur.empty()) Roots.push_back(Cur); Cur.clear(); }
      else Cur += C;
    }
  }
  std::string Src = argv[3];
  std::vector<std::string> Flags;
  for (int I = 5; I < argc; ++I) Flags.push_back(argv[I]);
  tooling::FixedCompilationDatabase DB(".", Flags);
  tooling::ClangTool Tool(DB, {Src});
  return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
