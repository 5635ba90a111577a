// AST extractor: prints one compact JSON object per declaration of interest that
// lives under a given root directory (functions with bodies, records, enums,
// initialised globals).  Used by /verif/sa/*.py, which do the actual analyses.
//   astdump ROOT FILE -- <clang args>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include <set>
#include <map>
using namespace clang;
using llvm::raw_ostream;

static std::string Root;

namespace {
struct J { // tiny JSON writer
  std::string s;
  void str(llvm::StringRef v) {
    s += '"';
    for (unsigned char c : v) {
      switch (c) {
      case '"': s += "\\\""; break;
      case '\\': s += "\\\\"; break;
      case '\n': s += "\\n"; break;
      case '\t': s += "\\t"; break;
      case '\r': s += "\\r"; break;
      default:
        if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); s += b; }
        else s += c;
      }
    }
    s += '"';
  }
  void key(const char *k) { if (s.back() != '{') s += ','; s += '"'; s += k; s += "\":"; }
  void kv(const char *k, llvm::StringRef v) { key(k); str(v); }
  void kn(const char *k, long long v) { key(k); s += std::to_string(v); }
  void kb(const char *k, bool v) { key(k); s += v ? "true" : "false"; }
};

class Dumper : public RecursiveASTVisitor<Dumper> {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, int> ids;
  std::set<std::string> seen;
  J j;

public:
  Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.Bool = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool shouldVisitLambdaBody() const { return false; }

  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(L);
    return P.isValid() ? P.getFilename() : "";
  }
  int line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  bool mine(SourceLocation L) {
    if (L.isInvalid()) return false;
    auto F = SM.getFileEntryRefForID(SM.getFileID(SM.getExpansionLoc(L)));
    if (!F) return false;
    return llvm::StringRef(real(F->getName().str())).starts_with(Root);
  }
  std::map<std::string, std::string> rp;
  std::string real(const std::string &p) {
    auto it = rp.find(p);
    if (it != rp.end()) return it->second;
    char *r = realpath(p.c_str(), nullptr);
    std::string v = r ? r : p;
    free(r);
    return rp[p] = v;
  }
  std::string usr(const Decl *D) {
    llvm::SmallString<128> B;
    if (index::generateUSRForDecl(D, B)) return "";
    return B.str().str();
  }
  std::string qn(const NamedDecl *D) {
    std::string s; llvm::raw_string_ostream o(s);
    PrintingPolicy P(PP);
    P.SuppressUnwrittenScope = true;
    D->printQualifiedName(o, P);
    o.flush();
    return s;
  }
  std::string ty(QualType T) { return T.getCanonicalType().getAsString(PP); }
  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto r = ids.emplace(D, (int)ids.size());
    return r.first->second;
  }

  // ---------------------------------------------------------------- types
  // ---------------------------------------------------------------- exprs
  const Expr *strip(const Expr *E) {
    while (E) {
      if (auto *P = dyn_cast<ParenExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<ExprWithCleanups>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<ConstantExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = P->getReplacement();
      else if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) E = P->getExpr();
      else if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) E = P->getExpr();
      else if (auto *P = dyn_cast<ImplicitCastExpr>(E)) {
        if (P->getCastKind() == CK_IntegralToFloating || P->getCastKind() == CK_FloatingToIntegral ||
            P->getCastKind() == CK_FloatingToBoolean)
          return E;
        E = P->getSubExpr();
      } else break;
    }
    return E;
  }
  void exprs(const char *k, llvm::ArrayRef<const Expr *> A) {
    j.key(k); j.s += '[';
    bool f = true;
    for (auto *E : A) { if (!f) j.s += ','; f = false; expr(E); }
    j.s += ']';
  }
  void callee(const FunctionDecl *F) {
    j.kv("f", qn(F));
    j.kv("u", usr(F));
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isVirtual()) j.kb("virt", true);
      if (M->isStatic()) j.kb("static", true);
      j.kv("cls", qn(M->getParent()));
      if (M->isConst()) j.kb("const", true);
    }
    if (F->isOverloadedOperator()) j.kv("op", getOperatorSpelling(F->getOverloadedOperator()));
  }
  void begin(const char *k, SourceLocation L) {
    j.s += '{'; j.kv("k", k); j.kn("l", line(L));
  }
  void ref(const ValueDecl *D, SourceLocation L, QualType T) {
    begin("ref", L);
    if (auto *E = dyn_cast<EnumConstantDecl>(D)) {
      j.kv("d", "enum"); j.kv("n", E->getName()); j.kv("q", qn(E));
      j.kn("v", E->getInitVal().getExtValue());
    } else if (auto *F = dyn_cast<FunctionDecl>(D)) {
      j.kv("d", "func"); callee(F);
    } else {
      bool param = isa<ParmVarDecl>(D);
      bool loc = false;
      if (auto *V = dyn_cast<VarDecl>(D)) loc = V->isLocalVarDecl() && !V->isStaticLocal();
      j.kv("d", param ? "param" : loc ? "var" : "global");
      j.kv("n", D->getName());
      if (!param && !loc) j.kv("q", qn(D));
      j.kn("id", id(D));
      j.kv("t", ty(D->getType()));
    }
    j.s += '}';
  }
  void expr(const Expr *E0) {
    const Expr *E = strip(E0);
    if (!E) { j.s += "null"; return; }
    SourceLocation L = E->getExprLoc();
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      begin("int", L); j.key("v"); llvm::SmallString<32> b; X->getValue().toString(b, 10, true); j.s += b.str(); j.s += '}';
    } else if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      begin("float", L); char b[64]; snprintf(b, 64, "%.17g", X->getValueAsApproximateDouble()); j.kv("v", b); j.s += '}';
    } else if (auto *X = dyn_cast<clang::StringLiteral>(E)) {
      begin("str", L); j.kv("v", X->getBytes()); j.s += '}';
    } else if (auto *X = dyn_cast<CharacterLiteral>(E)) {
      begin("char", L); char c = (char)X->getValue(); j.kv("v", llvm::StringRef(&c, 1)); j.s += '}';
    } else if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) {
      begin("bool", L); j.kb("v", X->getValue()); j.s += '}';
    } else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
      begin("nullptr", L); j.s += '}';
    } else if (isa<CXXThisExpr>(E)) {
      begin("this", L); j.kb("impl", cast<CXXThisExpr>(E)->isImplicit()); j.s += '}';
    } else if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      ref(X->getDecl(), L, X->getType());
    } else if (auto *X = dyn_cast<MemberExpr>(E)) {
      begin("mem", L); j.kv("n", X->getMemberDecl()->getName());
      j.kv("q", qn(X->getMemberDecl()));
      if (auto *F = dyn_cast<FunctionDecl>(X->getMemberDecl())) callee(F);
      j.kb("arrow", X->isArrow()); j.kv("t", ty(X->getType()));
      j.key("b"); expr(X->getBase()); j.s += '}';
    } else if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      begin("call", L);
      if (auto *F = X->getDirectCallee()) callee(F);
      j.kv("op", getOperatorSpelling(X->getOperator()));
      j.kv("t", ty(X->getType()));
      std::vector<const Expr *> A(X->arg_begin(), X->arg_end());
      bool mem = X->getDirectCallee() && isa<CXXMethodDecl>(X->getDirectCallee());
      if (mem && !A.empty()) {
        j.key("obj"); expr(A[0]); A.erase(A.begin());
        // postfix ++/-- carries a dummy int
        if ((X->getOperator() == OO_PlusPlus || X->getOperator() == OO_MinusMinus) && A.size() == 1) { j.kb("post", true); A.clear(); }
      }
      exprs("args", A); j.s += '}';
    } else if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      if (auto *M = X->getMethodDecl()) {
        // user-defined conversions: keep as calls, named operator X
        begin("call", L); callee(M); j.kv("t", ty(X->getType()));
        if (isa<CXXConversionDecl>(M)) j.kb("conv", true);
        auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens());
        if (ME && ME->hasQualifier()) j.kb("qual", true);
        j.key("obj"); expr(X->getImplicitObjectArgument());
        exprs("args", std::vector<const Expr *>(X->arg_begin(), X->arg_end()));
        j.s += '}';
      } else {
        begin("icall", L); j.key("callee"); expr(X->getCallee());
        exprs("args", std::vector<const Expr *>(X->arg_begin(), X->arg_end())); j.s += '}';
      }
    } else if (auto *X = dyn_cast<CallExpr>(E)) {
      if (auto *F = X->getDirectCallee()) {
        begin("call", L); callee(F); j.kv("t", ty(X->getType()));
        if (auto *TA = F->getTemplateSpecializationArgs()) {
          j.key("targs"); j.s += '[';
          for (unsigned i = 0; i < TA->size(); ++i) {
            if (i) j.s += ',';
            if (TA->get(i).getKind() == TemplateArgument::Type) j.str(ty(TA->get(i).getAsType()));
            else j.str("?");
          }
          j.s += ']';
        }
        exprs("args", std::vector<const Expr *>(X->arg_begin(), X->arg_end())); j.s += '}';
      } else {
        begin("icall", L); j.kv("t", ty(X->getType())); j.key("callee"); expr(X->getCallee());
        exprs("args", std::vector<const Expr *>(X->arg_begin(), X->arg_end())); j.s += '}';
      }
    } else if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      auto *CD = X->getConstructor();
      // copies/moves are value-transparent: keep, flagged
      begin("ctor", L); j.kv("c", qn(CD->getParent())); j.kv("u", usr(CD)); j.kv("t", ty(X->getType()));
      if (CD->isCopyOrMoveConstructor()) j.kb("copy", true);
      exprs("args", std::vector<const Expr *>(X->arg_begin(), X->arg_end())); j.s += '}';
    } else if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      begin("ctor", L); j.kv("c", qn(X->getConstructor()->getParent())); j.kv("t", ty(X->getType())); exprs("args", {}); j.s += '}';
    } else if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      begin("new", L); j.kv("t", ty(X->getAllocatedType()));
      if (X->isArray()) { j.key("size"); expr(X->getArraySize().value_or(nullptr)); }
      j.key("init"); expr(X->getInitializer()); j.s += '}';
    } else if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      begin("delete", L); j.kb("arr", X->isArrayForm()); j.key("e"); expr(X->getArgument()); j.s += '}';
    } else if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      begin("throw", L); j.key("e"); expr(X->getSubExpr()); j.s += '}';
    } else if (auto *X = dyn_cast<UnaryOperator>(E)) {
      begin("un", L); j.kv("op", UnaryOperator::getOpcodeStr(X->getOpcode()));
      if (X->isPostfix()) j.kb("post", true);
      j.kv("t", ty(X->getType()));
      j.key("e"); expr(X->getSubExpr()); j.s += '}';
    } else if (auto *X = dyn_cast<BinaryOperator>(E)) {
      begin("bin", L); j.kv("op", X->getOpcodeStr()); j.kv("t", ty(X->getType()));
      j.key("a"); expr(X->getLHS()); j.key("b"); expr(X->getRHS()); j.s += '}';
    } else if (auto *X = dyn_cast<ConditionalOperator>(E)) {
      begin("cond", L); j.key("c"); expr(X->getCond()); j.key("a"); expr(X->getTrueExpr());
      j.key("b"); expr(X->getFalseExpr()); j.s += '}';
    } else if (auto *X = dyn_cast<ImplicitCastExpr>(E)) { // only numeric ones reach here
      begin("ncast", L); j.kv("t", ty(X->getType())); j.key("e"); expr(X->getSubExpr()); j.s += '}';
    } else if (auto *X = dyn_cast<ExplicitCastExpr>(E)) {
      const char *ck = isa<CXXStaticCastExpr>(X) ? "static" : isa<CXXDynamicCastExpr>(X) ? "dynamic"
                     : isa<CXXReinterpretCastExpr>(X) ? "reinterpret" : isa<CXXConstCastExpr>(X) ? "const"
                     : isa<CXXFunctionalCastExpr>(X) ? "func" : "c";
      // a functional cast to class type is a constructor call: transparent
      if (X->getCastKind() == CK_ConstructorConversion || (isa<CXXFunctionalCastExpr>(X) && X->getType()->isRecordType())) {
        expr(X->getSubExpr()); return;
      }
      begin("cast", L); j.kv("ck", ck); j.kv("t", ty(X->getType())); j.kv("cast", X->getCastKindName());
      j.key("e"); expr(X->getSubExpr()); j.s += '}';
    } else if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      begin("idx", L); j.key("b"); expr(X->getBase()); j.key("i"); expr(X->getIdx()); j.s += '}';
    } else if (auto *X = dyn_cast<InitListExpr>(E)) {
      begin("init", L); j.kv("t", ty(X->getType()));
      if (auto *RT = X->getType()->getAs<RecordType>()) {
        j.key("fields"); j.s += '[';
        bool f = true;
        for (auto *F : RT->getDecl()->fields()) { if (!f) j.s += ','; f = false; j.str(F->getName()); }
        j.s += ']';
      }
      std::vector<const Expr *> A;
      for (unsigned i = 0; i < X->getNumInits(); ++i) A.push_back(X->getInit(i));
      exprs("e", A); j.s += '}';
    } else if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) {
      begin("zeroinit", L); j.kv("t", ty(E->getType())); j.s += '}';
    } else if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      begin("sizeof", L); j.kv("t", X->isArgumentType() ? ty(X->getArgumentType()) : ty(X->getArgumentExpr()->getType())); j.s += '}';
    } else if (auto *X = dyn_cast<LambdaExpr>(E)) {
      begin("lambda", L);
      params(X->getCallOperator());
      exprs("caps", std::vector<const Expr *>(X->capture_init_begin(), X->capture_init_end()));
      j.key("capv"); j.s += '['; bool f = true;
      for (auto &K : X->captures()) {
        if (!K.capturesVariable()) continue;
        if (!f) j.s += ','; f = false;
        auto *D = K.getCapturedVar();
        j.s += '{'; j.kn("id", id(D)); j.kb("ref", K.getCaptureKind() == LCK_ByRef); j.kb("init", X->isInitCapture(&K)); j.s += '}';
      }
      j.s += ']';
      j.key("body"); stmt(X->getBody()); j.s += '}';
    } else if (auto *X = dyn_cast<CXXTypeidExpr>(E)) {
      begin("typeid", L); if (!X->isTypeOperand()) { j.key("e"); expr(X->getExprOperand()); } else j.kv("t", ty(X->getTypeOperand(C))); j.s += '}';
    } else if (auto *X = dyn_cast<PredefinedExpr>(E)) {
      begin("str", L); j.kv("v", X->getFunctionName() ? X->getFunctionName()->getBytes() : ""); j.s += '}';
    } else if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) {
      expr(X->getSemanticForm());
    } else {
      begin("other", L); j.kv("c", E->getStmtClassName());
      std::vector<const Expr *> A;
      for (auto *S : E->children()) if (auto *X = dyn_cast_or_null<Expr>(S)) A.push_back(X);
      exprs("e", A); j.s += '}';
    }
  }
  void vardecl(const VarDecl *V) {
    j.s += '{'; j.kv("n", V->getName()); j.kn("id", id(V)); j.kv("t", ty(V->getType())); j.kn("l", line(V->getLocation()));
    if (V->isStaticLocal()) j.kb("static", true);
    if (auto *D = dyn_cast<DecompositionDecl>(V)) {
      j.key("bind"); j.s += '['; bool f = true;
      for (auto *B : D->bindings()) { if (!f) j.s += ','; f = false; j.s += '{'; j.kv("n", B->getName()); j.kn("id", id(B)); j.s += '}'; }
      j.s += ']';
    }
    j.key("i"); expr(V->getInit()); j.s += '}';
  }
  void stmt(const Stmt *S) {
    if (!S) { j.s += "null"; return; }
    SourceLocation L = S->getBeginLoc();
    if (auto *E = dyn_cast<Expr>(S)) { begin("expr", L); j.key("e"); expr(E); j.s += '}'; return; }
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      begin("block", L); j.kn("el", line(X->getEndLoc())); j.key("s"); j.s += '[';
      bool f = true;
      for (auto *c : X->body()) { if (!f) j.s += ','; f = false; stmt(c); }
      j.s += "]}";
    } else if (auto *X = dyn_cast<ReturnStmt>(S)) {
      begin("return", L); j.key("e"); expr(X->getRetValue()); j.s += '}';
    } else if (auto *X = dyn_cast<IfStmt>(S)) {
      begin("if", L);
      if (X->getInit()) { j.key("init"); stmt(X->getInit()); }
      if (auto *V = X->getConditionVariable()) { j.key("var"); vardecl(V); }
      j.key("c"); expr(X->getCond()); j.key("a"); stmt(X->getThen()); j.key("b"); stmt(X->getElse()); j.s += '}';
    } else if (auto *X = dyn_cast<ForStmt>(S)) {
      begin("for", L); j.key("init"); stmt(X->getInit()); j.key("c"); expr(X->getCond());
      j.key("inc"); expr(X->getInc()); j.key("body"); stmt(X->getBody()); j.s += '}';
    } else if (auto *X = dyn_cast<WhileStmt>(S)) {
      begin("while", L); j.key("c"); expr(X->getCond()); j.key("body"); stmt(X->getBody()); j.s += '}';
    } else if (auto *X = dyn_cast<DoStmt>(S)) {
      begin("do", L); j.key("c"); expr(X->getCond()); j.key("body"); stmt(X->getBody()); j.s += '}';
    } else if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      begin("rangefor", L); j.key("var"); vardecl(X->getLoopVariable()); j.key("range"); expr(X->getRangeInit());
      j.key("body"); stmt(X->getBody()); j.s += '}';
    } else if (auto *X = dyn_cast<SwitchStmt>(S)) {
      begin("switch", L); j.key("c"); expr(X->getCond()); j.key("body"); stmt(X->getBody()); j.s += '}';
    } else if (auto *X = dyn_cast<CaseStmt>(S)) {
      begin("case", L); j.key("v"); expr(X->getLHS()); j.key("s"); stmt(X->getSubStmt()); j.s += '}';
    } else if (auto *X = dyn_cast<DefaultStmt>(S)) {
      begin("default", L); j.key("s"); stmt(X->getSubStmt()); j.s += '}';
    } else if (isa<BreakStmt>(S)) { begin("break", L); j.s += '}';
    } else if (isa<ContinueStmt>(S)) { begin("continue", L); j.s += '}';
    } else if (isa<NullStmt>(S)) { begin("null", L); j.s += '}';
    } else if (auto *X = dyn_cast<DeclStmt>(S)) {
      begin("decl", L); j.key("v"); j.s += '[';
      bool f = true;
      for (auto *D : X->decls()) if (auto *V = dyn_cast<VarDecl>(D)) { if (!f) j.s += ','; f = false; vardecl(V); }
      j.s += "]}";
    } else if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      begin("try", L); j.key("body"); stmt(X->getTryBlock()); j.key("h"); j.s += '[';
      for (unsigned i = 0; i < X->getNumHandlers(); ++i) {
        if (i) j.s += ',';
        auto *H = X->getHandler(i);
        j.s += '{'; j.kn("l", line(H->getBeginLoc()));
        if (H->getExceptionDecl()) { j.key("var"); vardecl(H->getExceptionDecl()); }
        j.key("body"); stmt(H->getHandlerBlock()); j.s += '}';
      }
      j.s += "]}";
    } else if (auto *X = dyn_cast<LabelStmt>(S)) {
      begin("label", L); j.kv("n", X->getName()); j.key("s"); stmt(X->getSubStmt()); j.s += '}';
    } else if (auto *X = dyn_cast<GotoStmt>(S)) {
      begin("goto", L); j.kv("n", X->getLabel()->getName()); j.s += '}';
    } else if (auto *X = dyn_cast<AttributedStmt>(S)) { stmt(X->getSubStmt());
    } else { begin("otherstmt", L); j.kv("c", S->getStmtClassName()); j.s += '}'; }
  }
  void params(const FunctionDecl *F) {
    j.key("params"); j.s += '[';
    bool f = true;
    for (auto *P : F->parameters()) {
      if (!f) j.s += ','; f = false;
      j.s += '{'; j.kv("n", P->getName()); j.kn("id", id(P)); j.kv("t", ty(P->getType())); j.s += '}';
    }
    j.s += ']';
  }
  void emit() { j.s += '\n'; llvm::outs() << j.s; j.s.clear(); }

  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isDependentContext() || F->isImplicit()) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    if (!F->isThisDeclarationADefinition() || F->isDeleted() || F->isDefaulted()) return true;
    const FunctionDecl *D = F; 
    if (!F->hasBody()) return true;
    if (!mine(F->getLocation())) return true;
    std::string U = usr(F);
    if (!seen.insert(U).second) return true;
    ids.clear();
    j.s += '{'; j.kv("k", "function"); j.kv("f", qn(F)); j.kv("u", U); j.kv("n", F->getNameAsString());
    j.kv("file", real(file(F->getLocation()))); j.kn("l", line(F->getLocation()));
    j.kv("rt", ty(F->getReturnType()));
    if (F->isOverloadedOperator()) j.kv("op", getOperatorSpelling(F->getOverloadedOperator()));
    if (F->getStorageClass() == SC_Static) j.kb("static", true);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      j.kv("cls", qn(M->getParent()));
      if (M->isConst()) j.kb("const", true);
      if (M->isVirtual()) j.kb("virt", true);
      j.kv("acc", M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private");
      j.key("ovr"); j.s += '['; bool f = true;
      for (auto *O : M->overridden_methods()) { if (!f) j.s += ','; f = false; j.str(usr(O)); }
      j.s += ']';
    }
    if (isa<CXXConstructorDecl>(F)) j.kb("isctor", true);
    if (isa<CXXDestructorDecl>(F)) j.kb("isdtor", true);
    params(D);
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      j.key("inits"); j.s += '['; bool f = true;
      for (auto *I : K->inits()) {
        if (!f) j.s += ','; f = false;
        j.s += '{';
        if (I->isAnyMemberInitializer()) j.kv("m", I->getAnyMember()->getName());
        else if (I->isBaseInitializer()) j.kv("base", ty(QualType(I->getBaseClass(), 0)));
        else j.kb("delegating", true);
        j.kb("written", I->isWritten());
        j.key("e"); expr(I->getInit()); j.s += '}';
      }
      j.s += ']';
    }
    j.key("body"); stmt(F->getBody());
    j.s += '}'; emit();
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isImplicit() || R->isLambda() || R->isDependentContext()) return true;
    if (!mine(R->getLocation())) return true;
    std::string U = usr(R);
    if (!seen.insert(U).second) return true;
    j.s += '{'; j.kv("k", "record"); j.kv("f", qn(R)); j.kv("u", U); j.kv("file", real(file(R->getLocation()))); j.kn("l", line(R->getLocation()));
    j.key("bases"); j.s += '['; bool f = true;
    for (auto &B : R->bases()) { if (!f) j.s += ','; f = false; j.str(ty(B.getType())); }
    j.s += "]"; j.key("fields"); j.s += '['; f = true;
    for (auto *D : R->fields()) { if (!f) j.s += ','; f = false; j.s += '{'; j.kv("n", D->getName()); j.kv("t", ty(D->getType())); j.kb("mut", D->isMutable());
      if (D->hasInClassInitializer()) { j.key("i"); expr(D->getInClassInitializer()); }
      j.s += '}'; }
    j.s += "]"; j.key("methods"); j.s += '['; f = true;
    for (auto *M : R->methods()) {
      if (M->isImplicit()) continue;
      if (!f) j.s += ','; f = false;
      j.s += '{'; j.kv("n", M->getNameAsString()); j.kv("u", usr(M)); j.kb("virt", M->isVirtual()); j.kb("pure", M->isPureVirtual()); j.kb("const", M->isConst());
      j.kb("static", M->isStatic()); j.kv("acc", M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private");
      j.kv("rt", ty(M->getReturnType())); j.kb("del", M->isDeleted());
      j.key("pt"); j.s += '['; bool g = true;
      for (auto *P : M->parameters()) { if (!g) j.s += ','; g = false; j.str(ty(P->getType())); }
      j.s += "]}";
    }
    j.s += "]}"; emit();
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || !mine(E->getLocation())) return true;
    std::string U = usr(E);
    if (!seen.insert(U).second) return true;
    j.s += '{'; j.kv("k", "enum"); j.kv("f", qn(E)); j.kv("u", U); j.kv("file", real(file(E->getLocation()))); j.kn("l", line(E->getLocation()));
    j.key("c"); j.s += '['; bool f = true;
    for (auto *K : E->enumerators()) { if (!f) j.s += ','; f = false; j.s += '['; j.str(K->getName()); j.s += ','; j.s += std::to_string(K->getInitVal().getExtValue()); j.s += ']'; }
    j.s += "]}"; emit();
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (isa<ParmVarDecl>(V) || V->isLocalVarDecl() || V->getDeclContext()->isDependentContext()) return true;
    if (!V->hasGlobalStorage() || !V->hasInit() || !mine(V->getLocation())) return true;
    std::string U = usr(V);
    if (!seen.insert("v" + U).second) return true;
    ids.clear();
    j.s += '{'; j.kv("k", "global"); j.kv("f", qn(V)); j.kv("u", U); j.kv("file", real(file(V->getLocation()))); j.kn("l", line(V->getLocation()));
    j.kv("t", ty(V->getType()));
    j.key("i"); expr(V->getInit()); j.s += '}'; emit();
    return true;
  }
};
struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Dumper(C).TraverseDecl(C.getTranslationUnitDecl());
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override { return std::make_unique<Cons>(); }
};
struct Fac : tooling::FrontendActionFactory {
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Act>(); }
};
} // namespace

int main(int argc, char **argv) {
  if (argc < 4) return 2;
  char *r = realpath(argv[1], nullptr);
  Root = r ? r : argv[1];
  std::vector<std::string> args;
  for (int i = 4; i < argc; ++i) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", args);
  tooling::ClangTool T(DB, {std::string(argv[2])});
  Fac F;
  return T.run(&F);
}
