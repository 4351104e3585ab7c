// jppfacts: dumps the resolved program (types, callees, fields, CFG) of one
// translation unit as JSON lines.  The rules live in /verif/rules (Python).
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Basic/Diagnostic.h"
#include "clang/Basic/DiagnosticIDs.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Path.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;
static llvm::raw_ostream *Out;

namespace {

struct Dumper : RecursiveASTVisitor<Dumper> {
  ASTContext &Ctx;
  SourceManager &SM;
  PrintingPolicy PP;
  std::set<std::string> seenTypes;
  std::set<const void *> seenFn;

  explicit Dumper(ASTContext &C) : Ctx(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.UseVoidForZeroParams = false;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }

  std::map<FileID, int> inRootCache;
  std::map<FileID, std::string> fileNameCache;

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    FileID F = SM.getFileID(L);
    auto it = fileNameCache.find(F);
    if (it != fileNameCache.end()) return it->second;
    std::string r;
    if (auto FE = SM.getFileEntryRefForID(F)) {
      llvm::SmallString<256> p(FE->getName());
      llvm::sys::fs::make_absolute(p);
      llvm::sys::path::remove_dots(p, true);
      r = std::string(p);
    }
    fileNameCache[F] = r;
    return r;
  }
  bool inRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    L = SM.getExpansionLoc(L);
    FileID F = SM.getFileID(L);
    auto it = inRootCache.find(F);
    if (it != inRootCache.end()) return it->second;
    std::string f = fileOf(L);
    bool ok = false;
    for (auto &r : Roots)
      if (f.compare(0, r.size(), r) == 0) ok = true;
    inRootCache[F] = ok;
    return ok;
  }
  int lineOf(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  int colOf(SourceLocation L) { return SM.getExpansionColumnNumber(L); }

  std::unordered_map<const void *, std::string> tyCache;
  std::string ty(QualType T) {
    if (T.isNull()) return "";
    const void *k = T.getAsOpaquePtr();
    auto it = tyCache.find(k);
    if (it != tyCache.end()) return it->second;
    std::string s = T.getCanonicalType().getAsString(PP);
    if (s.size() > 400) s.resize(400);
    tyCache[k] = s;
    return s;
  }

  std::unordered_map<const Decl *, std::string> keyCache;
  std::string key(const Decl *D) {
    if (!D) return "";
    auto it = keyCache.find(D);
    if (it != keyCache.end()) return it->second;
    llvm::SmallString<256> buf;
    std::string r;
    if (!index::generateUSRForDecl(D, buf)) r = std::string(buf);
    // function-local entities / lambdas: make location based
    bool local = false;
    for (const DeclContext *DC = D->getDeclContext(); DC; DC = DC->getParent())
      if (DC->isFunctionOrMethod()) local = true;
    if (auto *RD = dyn_cast<CXXRecordDecl>(D))
      if (RD->isLambda()) local = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(D))
      if (M->getParent()->isLambda()) local = true;
    if (r.empty() || local)
      r += "@" + std::to_string(SM.getFileOffset(SM.getExpansionLoc(D->getLocation()))) + "/" + fileOf(D->getLocation());
    keyCache[D] = r;
    return r;
  }
  std::string qname(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    D->printQualifiedName(os, PP);
    os.flush();
    if (auto *F = dyn_cast<FunctionDecl>(D)) {
      if (auto *M = dyn_cast<CXXMethodDecl>(F))
        if (M->getParent()->isLambda()) return "lambda::operator()";
      (void)F;
    }
    return s;
  }

  // ---- per function state
  std::unordered_map<const Stmt *, int> ids;
  int nextId = 0;
  std::unordered_map<const VarDecl *, int> varIds;

  int varId(const VarDecl *V) {
    V = V->getCanonicalDecl();
    auto it = varIds.find(V);
    if (it != varIds.end()) return it->second;
    int n = (int)varIds.size();
    varIds[V] = n;
    return n;
  }

  static const Stmt *strip1(const Stmt *S) {
    if (auto *P = dyn_cast<ParenExpr>(S)) return P->getSubExpr();
    if (auto *P = dyn_cast<ExprWithCleanups>(S)) return P->getSubExpr();
    if (auto *P = dyn_cast<MaterializeTemporaryExpr>(S)) return P->getSubExpr();
    if (auto *P = dyn_cast<CXXBindTemporaryExpr>(S)) return P->getSubExpr();
    if (auto *P = dyn_cast<ConstantExpr>(S)) return P->getSubExpr();
    if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) return P->getReplacement();
    if (auto *P = dyn_cast<CXXDefaultArgExpr>(S)) return P->getExpr();
    if (auto *P = dyn_cast<CXXDefaultInitExpr>(S)) return P->getExpr();
    if (auto *P = dyn_cast<ImplicitCastExpr>(S)) {
      switch (P->getCastKind()) {
        case CK_IntegralCast:
        case CK_IntegralToFloating:
        case CK_FloatingToIntegral:
        case CK_DerivedToBase:
        case CK_UncheckedDerivedToBase:
          return nullptr;
        default:
          return P->getSubExpr();
      }
    }
    return nullptr;
  }

  void baseInfo(json::OStream &J, const Stmt *S) {
    J.attribute("k", S->getStmtClassName());
    J.attribute("l", lineOf(S->getBeginLoc()));
    if (S->getBeginLoc().isMacroID()) {
      SourceLocation L = S->getBeginLoc();
      // outermost macro
      StringRef name;
      while (L.isMacroID()) {
        name = Lexer::getImmediateMacroName(L, SM, Ctx.getLangOpts());
        L = SM.getImmediateExpansionRange(L).getBegin();
      }
      if (!name.empty()) J.attribute("mac", name);
    }
    if (auto *E = dyn_cast<Expr>(S)) {
      J.attribute("t", ty(E->getType()));
      if (E->isGLValue()) J.attribute("lv", 1);
      if (!E->isValueDependent() && E->getType()->isIntegralOrEnumerationType() && !isa<IntegerLiteral>(E)) {
        Expr::EvalResult R;
        if (E->EvaluateAsInt(R, Ctx, Expr::SE_NoSideEffects) && R.Val.isInt()) {
          llvm::SmallString<32> s;
          R.Val.getInt().toString(s, 10);
          J.attribute("v", StringRef(s));
        }
      }
    }
  }

  std::string fnName(const FunctionDecl *F) {
    return qname(F);
  }

  void refInfo(json::OStream &J, const ValueDecl *D) {
    if (auto *V = dyn_cast<VarDecl>(D)) {
      J.attribute("n", V->getNameAsString());
      if (V->isLocalVarDeclOrParm() && !V->isStaticLocal()) {
        J.attribute("dk", isa<ParmVarDecl>(V) ? "parm" : "local");
        J.attribute("vid", varId(V));
      } else {
        J.attribute("dk", V->isStaticLocal() ? "static" : "global");
        J.attribute("q", qname(V));
        J.attribute("key", key(V));
      }
    } else if (auto *F = dyn_cast<FunctionDecl>(D)) {
      J.attribute("dk", "fn");
      J.attribute("q", fnName(F));
      J.attribute("key", key(F));
    } else if (auto *E = dyn_cast<EnumConstantDecl>(D)) {
      J.attribute("dk", "enum");
      J.attribute("q", qname(E));
    } else if (auto *B = dyn_cast<BindingDecl>(D)) {
      J.attribute("dk", "binding");
      J.attribute("n", B->getNameAsString());
    } else {
      J.attribute("dk", D->getDeclKindName());
      J.attribute("q", qname(D));
    }
  }

  void dumpVar(json::OStream &J, const VarDecl *V) {
    J.attribute("n", V->getNameAsString());
    J.attribute("t", ty(V->getType()));
    J.attribute("l", lineOf(V->getLocation()));
    if (V->isStaticLocal()) J.attribute("static", 1);
    if (V->getTSCSpec() != TSCS_unspecified) J.attribute("tls", 1);
    J.attribute("vid", varId(V));
    if (V->getType().isConstQualified()) J.attribute("const", 1);
    if (V->isConstexpr()) J.attribute("constexpr", 1);
  }

  void child(json::OStream &J, const Stmt *S, const char *role = nullptr) {
    if (S) node(J, S, role);
  }

  void calleeInfo(json::OStream &J, const FunctionDecl *F) {
    J.attribute("q", fnName(F));
    J.attribute("key", key(F));
    J.attribute("rt", ty(F->getReturnType()));
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isVirtual()) J.attribute("virt", 1);
      if (M->isConst()) J.attribute("mconst", 1);
      if (M->isStatic()) J.attribute("mstatic", 1);
    }
    if (F->isNoReturn()) J.attribute("noret", 1);
    if (F->isVariadic()) J.attribute("variadic", 1);
    J.attributeBegin("pt");
    J.arrayBegin();
    for (auto *P : F->parameters()) J.value(ty(P->getType()));
    J.arrayEnd();
    J.attributeEnd();
  }

  void node(json::OStream &J, const Stmt *S, const char *role) {
    std::vector<const Stmt *> chain;
    bool defArg = false;
    while (S) {
      chain.push_back(S);
      if (isa<CXXDefaultArgExpr>(S)) defArg = true;
      const Stmt *N = strip1(S);
      if (!N) break;
      S = N;
    }
    int id = nextId++;
    for (auto *c : chain) ids[c] = id;
    J.objectBegin();
    J.attribute("i", id);
    if (role) J.attribute("r", role);
    if (defArg) J.attribute("defarg", 1);
    baseInfo(J, S);
    bool generic = true;
    auto kids = [&](auto fn) {
      J.attributeBegin("c");
      J.arrayBegin();
      fn();
      J.arrayEnd();
      J.attributeEnd();
      generic = false;
    };
    if (auto *E = dyn_cast<DeclRefExpr>(S)) {
      refInfo(J, E->getDecl());
    } else if (auto *E = dyn_cast<MemberExpr>(S)) {
      J.attribute("m", E->getMemberDecl()->getNameAsString());
      if (isa<FieldDecl>(E->getMemberDecl()) || isa<VarDecl>(E->getMemberDecl())) {
        J.attribute("fld", 1);
        J.attribute("q", qname(E->getMemberDecl()));
      } else {
        J.attribute("q", qname(E->getMemberDecl()));
      }
      if (E->isArrow()) J.attribute("arrow", 1);
      if (E->isImplicitAccess()) J.attribute("ithis", 1);
    } else if (auto *E = dyn_cast<IntegerLiteral>(S)) {
      llvm::SmallString<32> s;
      E->getValue().toString(s, 10, E->getType()->isSignedIntegerType());
      J.attribute("v", StringRef(s));
    } else if (auto *E = dyn_cast<FloatingLiteral>(S)) {
      llvm::SmallString<32> s;
      E->getValue().toString(s);
      J.attribute("fv", StringRef(s));
    } else if (auto *E = dyn_cast<StringLiteral>(S)) {
      if (E->getCharByteWidth() == 1) {
        std::string b = E->getBytes().str();
        J.attribute("s", llvm::json::fixUTF8(b));
      }
    } else if (auto *E = dyn_cast<BinaryOperator>(S)) {
      J.attribute("op", E->getOpcodeStr());
    } else if (auto *E = dyn_cast<UnaryOperator>(S)) {
      J.attribute("op", UnaryOperator::getOpcodeStr(E->getOpcode()));
      if (E->isPostfix()) J.attribute("post", 1);
    } else if (auto *E = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
      J.attribute("trait", (int)E->getKind());
      J.attribute("at", ty(E->getTypeOfArgument()));
    } else if (auto *E = dyn_cast<CastExpr>(S)) {
      J.attribute("ck", E->getCastKindName());
    } else if (auto *E = dyn_cast<CallExpr>(S)) {
      const FunctionDecl *F = E->getDirectCallee();
      if (F) calleeInfo(J, F);
      if (auto *O = dyn_cast<CXXOperatorCallExpr>(E)) J.attribute("op", getOperatorSpelling(O->getOperator()));
      if (auto *M = dyn_cast<CXXMemberCallExpr>(E)) {
        // obj first
        kids([&] {
          const Expr *obj = nullptr;
          if (auto *ME = dyn_cast<MemberExpr>(M->getCallee()->IgnoreParens())) {
            obj = ME->getBase();
            ids[M->getCallee()] = id;
            ids[ME] = id;
            child(J, obj, "obj");
          } else {
            child(J, M->getCallee(), "callee");
          }
          for (auto *A : E->arguments()) child(J, A, "arg");
        });
      } else {
        kids([&] {
          if (!F) child(J, E->getCallee(), "callee");
          for (auto *A : E->arguments()) child(J, A, "arg");
        });
      }
    } else if (auto *E = dyn_cast<CXXConstructExpr>(S)) {
      calleeInfo(J, E->getConstructor());
      if (E->getConstructor()->isCopyConstructor()) J.attribute("copy", 1);
      if (E->getConstructor()->isMoveConstructor()) J.attribute("move", 1);
      if (E->isElidable()) J.attribute("elid", 1);
    } else if (auto *E = dyn_cast<CXXNewExpr>(S)) {
      J.attribute("nt", ty(E->getAllocatedType()));
      if (E->isArray()) J.attribute("arr", 1);
      if (E->getNumPlacementArgs()) J.attribute("placement", 1);
      if (E->getOperatorNew()) J.attribute("q", fnName(E->getOperatorNew()));
    } else if (auto *E = dyn_cast<CXXDeleteExpr>(S)) {
      if (E->isArrayForm()) J.attribute("arr", 1);
    } else if (auto *E = dyn_cast<LambdaExpr>(S)) {
      J.attribute("fn", key(E->getCallOperator()));
      J.attributeBegin("caps");
      J.arrayBegin();
      for (auto &C : E->captures()) {
        J.objectBegin();
        J.attribute("ref", (int)(C.getCaptureKind() == LCK_ByRef));
        if (C.capturesVariable()) {
          J.attribute("n", C.getCapturedVar()->getNameAsString());
          if (auto *V = dyn_cast<VarDecl>(C.getCapturedVar())) J.attribute("vid", varId(V));
        } else if (C.capturesThis())
          J.attribute("this", 1);
        J.objectEnd();
      }
      J.arrayEnd();
      J.attributeEnd();
      kids([&] {
        for (auto *I : E->capture_inits()) child(J, I, "cap");
      });
    } else if (auto *D = dyn_cast<DeclStmt>(S)) {
      kids([&] {
        for (auto *d : D->decls()) {
          if (auto *V = dyn_cast<VarDecl>(d)) {
            int vid = nextId++;
            J.objectBegin();
            J.attribute("i", vid);
            J.attribute("k", "VarDecl");
            dumpVar(J, V);
            J.attributeBegin("c");
            J.arrayBegin();
            child(J, V->getInit(), "init");
            J.arrayEnd();
            J.attributeEnd();
            J.objectEnd();
          }
        }
      });
    } else if (auto *I = dyn_cast<IfStmt>(S)) {
      kids([&] {
        child(J, I->getInit(), "init");
        if (I->getConditionVariableDeclStmt()) child(J, I->getConditionVariableDeclStmt(), "condvar");
        child(J, I->getCond(), "cond");
        child(J, I->getThen(), "then");
        child(J, I->getElse(), "else");
      });
    } else if (auto *I = dyn_cast<WhileStmt>(S)) {
      kids([&] {
        if (I->getConditionVariableDeclStmt()) child(J, I->getConditionVariableDeclStmt(), "condvar");
        child(J, I->getCond(), "cond");
        child(J, I->getBody(), "body");
      });
    } else if (auto *I = dyn_cast<DoStmt>(S)) {
      kids([&] {
        child(J, I->getBody(), "body");
        child(J, I->getCond(), "cond");
      });
    } else if (auto *I = dyn_cast<ForStmt>(S)) {
      kids([&] {
        child(J, I->getInit(), "init");
        child(J, I->getCond(), "cond");
        child(J, I->getInc(), "inc");
        child(J, I->getBody(), "body");
      });
    } else if (auto *I = dyn_cast<CXXForRangeStmt>(S)) {
      kids([&] {
        child(J, I->getRangeStmt(), "range");
        child(J, I->getBeginStmt(), "begin");
        child(J, I->getEndStmt(), "end");
        child(J, I->getCond(), "cond");
        child(J, I->getInc(), "inc");
        child(J, I->getLoopVarStmt(), "var");
        child(J, I->getBody(), "body");
      });
    } else if (auto *I = dyn_cast<SwitchStmt>(S)) {
      if (I->isAllEnumCasesCovered()) J.attribute("allcov", 1);
      kids([&] {
        child(J, I->getInit(), "init");
        child(J, I->getCond(), "cond");
        child(J, I->getBody(), "body");
      });
    } else if (auto *I = dyn_cast<CaseStmt>(S)) {
      kids([&] {
        child(J, I->getLHS(), "lhs");
        child(J, I->getRHS(), "rhs");
        child(J, I->getSubStmt(), "body");
      });
    } else if (auto *I = dyn_cast<CXXCatchStmt>(S)) {
      J.attribute("ct", I->getCaughtType().isNull() ? std::string("...") : ty(I->getCaughtType()));
      if (I->getExceptionDecl()) {
        J.attribute("vid", varId(I->getExceptionDecl()));
      }
    } else if (auto *I = dyn_cast<InitListExpr>(S)) {
      const InitListExpr *sem = I->isSemanticForm() ? I : I->getSemanticForm();
      if (!sem) sem = I;
      kids([&] {
        for (auto *x : sem->inits()) child(J, x, "init");
      });
    } else if (auto *E = dyn_cast<CXXThisExpr>(S)) {
      if (E->isImplicit()) J.attribute("impl", 1);
    } else if (auto *E = dyn_cast<CXXBoolLiteralExpr>(S)) {
      (void)E;
    }
    if (generic) {
      bool any = false;
      for (auto *c : S->children()) if (c) any = true;
      if (any) {
        J.attributeBegin("c");
        J.arrayBegin();
        for (auto *c : S->children()) child(J, c);
        J.arrayEnd();
        J.attributeEnd();
      }
    }
    J.objectEnd();
  }

  void dumpFn(const FunctionDecl *F) {
    ids.clear();
    varIds.clear();
    nextId = 0;
    std::string line;
    llvm::raw_string_ostream os(line);
    json::OStream J(os);
    std::string k = key(F);
    J.objectBegin();
    J.attribute("kind", "fn");
    J.attribute("key", k);
    J.attribute("q", fnName(F));
    std::string f = fileOf(F->getLocation());
    J.attribute("file", f);
    J.attribute("line", lineOf(F->getBeginLoc()));
    J.attribute("endline", lineOf(F->getEndLoc()));
    J.attribute("ret", ty(F->getReturnType()));
    if (F->isTemplateInstantiation()) J.attribute("inst", 1);
    if (F->isImplicit() || F->isDefaulted()) J.attribute("implicit", 1);
    if (!F->isExternallyVisible()) J.attribute("internal", 1);
    if (F->getTemplateSpecializationArgs()) {
      std::string s;
      llvm::raw_string_ostream so(s);
      for (auto &A : F->getTemplateSpecializationArgs()->asArray()) {
        A.print(PP, so, true);
        so << ",";
      }
      J.attribute("targs", llvm::json::fixUTF8(so.str()));
    }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      J.attribute("cls", qname(M->getParent()));
      J.attribute("clst", ty(Ctx.getRecordType(M->getParent())));
      if (M->isConst()) J.attribute("mconst", 1);
      if (M->isVirtual()) J.attribute("virt", 1);
      if (M->isStatic()) J.attribute("mstatic", 1);
      if (M->getParent()->isLambda()) {
        J.attribute("lambda", 1);
      }
      J.attribute("acc", (int)M->getAccess());
      if (M->size_overridden_methods()) {
        J.attributeBegin("ovr");
        J.arrayBegin();
        for (auto *o : M->overridden_methods()) J.value(key(o));
        J.arrayEnd();
        J.attributeEnd();
      }
      if (isa<CXXConstructorDecl>(F)) {
        J.attribute("ctor", 1);
        auto *C = cast<CXXConstructorDecl>(F);
        if (C->isCopyConstructor()) J.attribute("copyctor", 1);
        if (C->isMoveConstructor()) J.attribute("movector", 1);
      }
      if (isa<CXXDestructorDecl>(F)) J.attribute("dtor", 1);
      if (M->isCopyAssignmentOperator()) J.attribute("copyassign", 1);
      if (M->isMoveAssignmentOperator()) J.attribute("moveassign", 1);
    }
    J.attributeBegin("params");
    J.arrayBegin();
    for (auto *P : F->parameters()) {
      J.objectBegin();
      dumpVar(J, P);
      J.objectEnd();
    }
    J.arrayEnd();
    J.attributeEnd();
    // ctor inits
    if (auto *C = dyn_cast<CXXConstructorDecl>(F)) {
      J.attributeBegin("inits");
      J.arrayBegin();
      for (auto *I : C->inits()) {
        J.objectBegin();
        if (I->isAnyMemberInitializer()) {
          J.attribute("m", I->getAnyMember()->getNameAsString());
          J.attribute("q", qname(I->getAnyMember()));
        } else if (I->isBaseInitializer())
          J.attribute("base", ty(QualType(I->getBaseClass(), 0)));
        else
          J.attribute("deleg", 1);
        if (I->isWritten()) J.attribute("written", 1);
        if (I->isInClassMemberInitializer()) J.attribute("inclass", 1);
        J.attributeBegin("e");
        if (I->getInit())
          node(J, I->getInit(), "init");
        else
          J.value(nullptr);
        J.attributeEnd();
        J.objectEnd();
      }
      J.arrayEnd();
      J.attributeEnd();
    }
    J.attributeBegin("body");
    node(J, F->getBody(), nullptr);
    J.attributeEnd();
    // CFG
    CFG::BuildOptions BO;
    BO.AddImplicitDtors = true;
    BO.AddInitializers = true;
    BO.AddEHEdges = false;
    BO.AddCXXDefaultInitExprInCtors = false;
    BO.PruneTriviallyFalseEdges = true;
    BO.setAllAlwaysAdd();
    std::unique_ptr<CFG> G = CFG::buildCFG(F, const_cast<Stmt *>(F->getBody()), &Ctx, BO);
    if (G) {
      J.attributeBegin("cfg");
      J.objectBegin();
      J.attribute("entry", (int)G->getEntry().getBlockID());
      J.attribute("exit", (int)G->getExit().getBlockID());
      J.attributeBegin("b");
      J.arrayBegin();
      for (auto *B : *G) {
        J.objectBegin();
        J.attribute("id", (int)B->getBlockID());
        if (B->hasNoReturnElement()) J.attribute("noret", 1);
        J.attributeBegin("e");
        J.arrayBegin();
        int last = -1;
        for (auto &El : *B) {
          if (auto SE = El.getAs<CFGStmt>()) {
            auto it = ids.find(SE->getStmt());
            if (it != ids.end()) {
              if (it->second != last) J.value(it->second);
              last = it->second;
            }
          } else if (auto DE = El.getAs<CFGAutomaticObjDtor>()) {
            J.objectBegin();
            J.attribute("dtor", varId(DE->getVarDecl()));
            J.attribute("t", ty(DE->getVarDecl()->getType()));
            J.objectEnd();
            last = -1;
          } else if (auto IE = El.getAs<CFGInitializer>()) {
            J.objectBegin();
            const CXXCtorInitializer *I = IE->getInitializer();
            if (I->isAnyMemberInitializer()) J.attribute("minit", I->getAnyMember()->getNameAsString());
            else J.attribute("binit", 1);
            J.objectEnd();
            last = -1;
          }
        }
        J.arrayEnd();
        J.attributeEnd();
        if (const Stmt *T = B->getTerminatorStmt()) {
          auto it = ids.find(T);
          if (it != ids.end()) J.attribute("term", it->second);
          if (const Stmt *C = B->getTerminatorCondition()) {
            auto i2 = ids.find(C);
            if (i2 != ids.end()) J.attribute("cond", i2->second);
          }
        }
        if (const Stmt *L = B->getLabel()) {
          auto it = ids.find(L);
          if (it != ids.end()) J.attribute("label", it->second);
        }
        J.attributeBegin("s");
        J.arrayBegin();
        for (auto &Su : B->succs()) {
          if (const CFGBlock *R = Su.getReachableBlock())
            J.value((int)R->getBlockID());
          else
            J.value(-1);
        }
        J.arrayEnd();
        J.attributeEnd();
        J.objectEnd();
      }
      J.arrayEnd();
      J.attributeEnd();
      J.objectEnd();
      J.attributeEnd();
    }
    J.objectEnd();
    os.flush();
    *Out << "F\t" << k << "\t" << line << "\n";
  }

  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody()) return true;
    if (F->isDependentContext()) return true;
    if (!F->getBody()) return true;
    if (!inRoot(F->getLocation())) return true;
    if (F->isInvalidDecl()) return true;
    if (!seenFn.insert(F).second) return true;
    dumpFn(F);
    return true;
  }
  bool VisitLambdaExpr(LambdaExpr *L) {
    CXXMethodDecl *M = L->getCallOperator();
    if (M && !M->isDependentContext() && M->getBody() && inRoot(M->getLocation()) && seenFn.insert(M).second) dumpFn(M);
    return true;
  }

  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isInvalidDecl()) return true;
    if (!inRoot(R->getLocation())) return true;
    std::string k = key(R);
    if (!seenTypes.insert(k).second) return true;
    std::string line;
    llvm::raw_string_ostream os(line);
    json::OStream J(os);
    ids.clear(); varIds.clear(); nextId = 0;
    J.objectBegin();
    J.attribute("kind", "class");
    J.attribute("key", k);
    J.attribute("q", qname(R));
    J.attribute("t", ty(Ctx.getRecordType(R)));
    J.attribute("file", fileOf(R->getLocation()));
    J.attribute("line", lineOf(R->getLocation()));
    if (R->isLambda()) J.attribute("lambda", 1);
    if (R->isUnion()) J.attribute("union", 1);
    if (isa<ClassTemplateSpecializationDecl>(R)) J.attribute("inst", 1);
    if (R->isPolymorphic()) J.attribute("poly", 1);
    if (R->isAbstract()) J.attribute("abstract", 1);
    if (R->hasUserDeclaredDestructor()) J.attribute("udtor", 1);
    if (R->hasUserDeclaredCopyConstructor()) J.attribute("ucopyctor", 1);
    if (R->hasUserDeclaredCopyAssignment()) J.attribute("ucopyassign", 1);
    if (R->hasUserDeclaredMoveConstructor()) J.attribute("umovector", 1);
    if (R->hasUserDeclaredMoveAssignment()) J.attribute("umoveassign", 1);
    if (R->hasUserProvidedDefaultConstructor()) J.attribute("udefctor", 1);
    if (R->hasDefaultConstructor()) J.attribute("hasdef", 1);
    if (R->isAggregate()) J.attribute("agg", 1);
    if (auto *D = R->getDestructor()) if (D->isVirtual()) J.attribute("vdtor", 1);
    J.attributeBegin("bases");
    J.arrayBegin();
    for (auto &b : R->bases()) J.value(ty(b.getType()));
    J.arrayEnd();
    J.attributeEnd();
    J.attributeBegin("fields");
    J.arrayBegin();
    for (auto *f : R->fields()) {
      J.objectBegin();
      J.attribute("n", f->getNameAsString());
      J.attribute("t", ty(f->getType()));
      J.attribute("l", lineOf(f->getLocation()));
      J.attribute("acc", (int)f->getAccess());
      if (f->isMutable()) J.attribute("mutable", 1);
      if (f->hasInClassInitializer()) {
        J.attribute("init", 1);
        if (f->getInClassInitializer()) {
          J.attributeBegin("e");
          node(J, f->getInClassInitializer(), "init");
          J.attributeEnd();
        }
      }
      if (f->isBitField()) J.attribute("bits", (int)f->getBitWidthValue(Ctx));
      J.objectEnd();
    }
    J.arrayEnd();
    J.attributeEnd();
    J.attributeBegin("methods");
    J.arrayBegin();
    for (auto *m : R->methods()) {
      J.objectBegin();
      J.attribute("n", m->getNameAsString());
      J.attribute("key", key(m));
      if (m->isVirtual()) J.attribute("virt", 1);
      if (m->isPureVirtual()) J.attribute("pure", 1);
      if (m->isConst()) J.attribute("const", 1);
      if (m->isDeleted()) J.attribute("deleted", 1);
      if (m->isDefaulted()) J.attribute("defaulted", 1);
      if (m->isImplicit()) J.attribute("implicit", 1);
      if (m->isStatic()) J.attribute("static", 1);
      J.attribute("acc", (int)m->getAccess());
      J.attribute("ret", ty(m->getReturnType()));
      if (m->size_overridden_methods()) {
        J.attributeBegin("ovr");
        J.arrayBegin();
        for (auto *o : m->overridden_methods()) J.value(key(o));
        J.arrayEnd();
        J.attributeEnd();
      }
      J.objectEnd();
    }
    J.arrayEnd();
    J.attributeEnd();
    J.objectEnd();
    os.flush();
    *Out << "C\t" << k << "\t" << line << "\n";
    return true;
  }

  bool VisitEnumDecl(EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || E->isDependentContext()) return true;
    if (!inRoot(E->getLocation())) return true;
    std::string k = key(E);
    if (!seenTypes.insert(k).second) return true;
    std::string line;
    llvm::raw_string_ostream os(line);
    json::OStream J(os);
    J.objectBegin();
    J.attribute("kind", "enum");
    J.attribute("key", k);
    J.attribute("q", qname(E));
    J.attribute("file", fileOf(E->getLocation()));
    J.attribute("line", lineOf(E->getLocation()));
    J.attributeBegin("vals");
    J.arrayBegin();
    for (auto *c : E->enumerators()) {
      J.objectBegin();
      J.attribute("n", c->getNameAsString());
      llvm::SmallString<32> s;
      c->getInitVal().toString(s, 10);
      J.attribute("v", StringRef(s));
      J.objectEnd();
    }
    J.arrayEnd();
    J.attributeEnd();
    J.objectEnd();
    os.flush();
    *Out << "E\t" << k << "\t" << line << "\n";
    return true;
  }

  bool VisitVarDecl(VarDecl *V) {
    if (!V->hasGlobalStorage()) return true;
    if (V->getDeclContext()->isDependentContext()) return true;
    if (!V->isThisDeclarationADefinition() && !V->isStaticDataMember()) return true;
    if (!inRoot(V->getLocation())) return true;
    ids.clear(); varIds.clear(); nextId = 0;
    std::string k = key(V);
    if (!seenTypes.insert("V" + k).second) return true;
    std::string line;
    llvm::raw_string_ostream os(line);
    json::OStream J(os);
    J.objectBegin();
    J.attribute("kind", "var");
    J.attribute("key", k);
    J.attribute("q", qname(V));
    J.attribute("t", ty(V->getType()));
    J.attribute("file", fileOf(V->getLocation()));
    J.attribute("line", lineOf(V->getLocation()));
    if (V->getType().isConstQualified()) J.attribute("const", 1);
    if (auto *AT = Ctx.getAsArrayType(V->getType()))
      if (AT->getElementType().isConstQualified()) J.attribute("const", 1);
    if (V->isConstexpr()) J.attribute("constexpr", 1);
    if (V->isStaticLocal()) J.attribute("slocal", 1);
    if (V->getTSCSpec() != TSCS_unspecified) J.attribute("tls", 1);
    if (V->getInit() && !V->getInit()->isValueDependent()) {
      J.attributeBegin("e");
      node(J, V->getInit(), "init");
      J.attributeEnd();
    }
    J.objectEnd();
    os.flush();
    *Out << "V\t" << k << "\t" << line << "\n";
    return true;
  }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    Dumper D(C);
    D.TraverseDecl(C.getTranslationUnitDecl());
    // files this unit was made of (for incremental re-extraction)
    SourceManager &SM = C.getSourceManager();
    for (auto it = SM.fileinfo_begin(); it != SM.fileinfo_end(); ++it) {
      llvm::SmallString<256> p(it->first.getName());
      llvm::sys::fs::make_absolute(p);
      llvm::sys::path::remove_dots(p, true);
      for (auto &r : Roots)
        if (llvm::StringRef(p).starts_with(r)) {
          *Out << "D\t" << p << "\t\n";
          break;
        }
    }
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
    return std::make_unique<Consumer>();
  }
};
// clang's own flow analyses (uninitialised values, dangling references) are part of the facts; errors stop the run
struct Diags : DiagnosticConsumer {
  std::set<std::string> seen;
  void HandleDiagnostic(DiagnosticsEngine::Level L, const Diagnostic &I) override {
    DiagnosticConsumer::HandleDiagnostic(L, I);
    llvm::SmallString<256> msg;
    I.FormatDiagnostic(msg);
    if (L >= DiagnosticsEngine::Error) {
      llvm::errs() << msg << "\n";
      return;
    }
    if (L != DiagnosticsEngine::Warning || !I.hasSourceManager()) return;
    SourceManager &SM = I.getSourceManager();
    PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(I.getLocation()));
    if (P.isInvalid()) return;
    std::string g = DiagnosticIDs::getWarningOptionForDiag(I.getID()).str();
    llvm::SmallString<256> f(P.getFilename());
    llvm::sys::fs::make_absolute(f);
    llvm::sys::path::remove_dots(f, true);
    bool in = false;
    for (auto &r : Roots) in |= llvm::StringRef(f).starts_with(r);
    if (!in) return;
    std::string k = g + "@" + f.str().str() + ":" + std::to_string(P.getLine());
    std::string line;
    llvm::raw_string_ostream os(line);
    json::OStream J(os);
    J.object([&] {
      J.attribute("kind", "warn");
      J.attribute("group", g);
      J.attribute("file", f.str());
      J.attribute("line", (int)P.getLine());
      J.attribute("msg", msg.str());
    });
    os.flush();
    if (seen.insert(k).second) *Out << "W\t" << k << "\t" << line << "\n";
  }
};
}  // namespace

// usage: jppfacts OUT ROOT[:ROOT...] -- compile command...   (first = source)
int main(int argc, const char **argv) {
  if (argc < 5) return 2;
  std::string out = argv[1];
  llvm::SmallVector<StringRef, 4> rs;
  StringRef(argv[2]).split(rs, ':');
  for (auto r : rs) Roots.push_back(r.str());
  std::string dir = argv[3];
  std::string src = argv[4];
  std::vector<std::string> cmd;
  for (int i = 5; i < argc; ++i) cmd.push_back(argv[i]);
  std::error_code EC;
  llvm::raw_fd_ostream os(out, EC);
  if (EC) { llvm::errs() << EC.message() << "\n"; return 2; }
  Out = &os;
  tooling::FixedCompilationDatabase DB(dir, cmd);
  tooling::ClangTool T(DB, {src});
  T.clearArgumentsAdjusters();
  T.appendArgumentsAdjuster(tooling::getClangSyntaxOnlyAdjuster());
  T.appendArgumentsAdjuster(tooling::getClangStripOutputAdjuster());
  Diags diags;
  T.setDiagnosticConsumer(&diags);
  int rc = T.run(tooling::newFrontendActionFactory<Action>().get());
  os.flush();
  return rc;
}
