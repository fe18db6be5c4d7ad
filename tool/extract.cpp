// Extractor: parses the driver against /repo/printemps, instantiates every
// member function of every printemps class template specialisation, and dumps
// the resolved syntax trees as JSON lines.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Sema/Sema.h"
#include "clang/Sema/SemaConsumer.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include <map>
#include <cmath>
#include <set>
#include <deque>
using namespace clang;
namespace json = llvm::json;

static std::string ROOT;
static llvm::raw_ostream *OUT;
static bool FAILED = false;

struct Dumper {
  ASTContext &C;
  const SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, int64_t> ids;
  std::deque<const FunctionDecl *> queue;
  std::set<const Decl *> seen;
  int64_t next = 1;
  Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true;
  }
  int64_t id(const Decl *D) {
    if (!D) return 0;
    D = D->getCanonicalDecl();
    auto it = ids.find(D);
    if (it != ids.end()) return it->second;
    return ids[D] = next++;
  }
  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L);
    if (P.isInvalid()) return "";
    std::string f = P.getFilename();
    llvm::SmallString<256> real;
    if (!llvm::sys::fs::real_path(f, real)) f = real.str().str();
    return f;
  }
  std::map<unsigned, std::pair<bool, std::string>> fcache;
  std::string relFile(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    FileID F = SM.getFileID(L);
    auto it = fcache.find(F.getHashValue());
    if (it != fcache.end()) return it->second.second;
    std::string f = fileOf(L);
    std::string r;
    if (f.rfind(ROOT, 0) == 0) r = f.substr(ROOT.size());
    fcache[F.getHashValue()] = {true, r};
    return r;
  }
  int line(SourceLocation L) {
    if (L.isInvalid()) return 0;
    return SM.getExpansionLineNumber(L);
  }
  std::string ctxname(const DeclContext *DC) {
    std::string r;
    std::vector<std::string> parts;
    while (DC && !DC->isTranslationUnit()) {
      if (auto *N = dyn_cast<NamespaceDecl>(DC)) {
        if (!N->isInline() && !N->isAnonymousNamespace()) parts.push_back(N->getNameAsString());
      } else if (auto *R = dyn_cast<RecordDecl>(DC)) {
        std::string n = R->getNameAsString();
        if (auto *CR = dyn_cast<CXXRecordDecl>(R)) if (CR->isLambda()) n = "lambda";
        parts.push_back(n.empty() ? "anon" : n);
      } else if (auto *E = dyn_cast<EnumDecl>(DC)) parts.push_back(E->getNameAsString());
      else if (auto *F = dyn_cast<FunctionDecl>(DC)) parts.push_back(F->getDeclName().getAsString());
      DC = DC->getParent();
    }
    for (auto it = parts.rbegin(); it != parts.rend(); ++it) { if (!r.empty()) r += "::"; r += *it; }
    return r;
  }
  std::string qname(const NamedDecl *D) {
    std::string p = ctxname(D->getDeclContext());
    std::string n = D->getDeclName().getAsString();
    if (auto *CR = dyn_cast<CXXRecordDecl>(D)) if (CR->isLambda()) n = "lambda";
    if (isa<CXXConstructorDecl>(D)) n = "(ctor)";
    if (isa<CXXDestructorDecl>(D)) n = "(dtor)";
    if (isa<CXXConversionDecl>(D)) n = "(conv)";
    return p.empty() ? n : p + "::" + n;
  }
  std::string tname(QualType T) {
    if (T.isNull()) return "";
    T = T.getNonReferenceType();
    std::string q;
    while (T->isPointerType()) { q += "*"; T = T->getPointeeType(); }
    T = T.getUnqualifiedType().getCanonicalType();
    if (auto *R = T->getAsCXXRecordDecl()) return qname(R) + q;
    if (auto *E = T->getAs<EnumType>()) return qname(E->getDecl()) + q;
    return T.getUnqualifiedType().getAsString(PP) + q;
  }
  bool inRepo(const Decl *D) {
    return !relFile(D->getLocation()).empty();
  }
  const FunctionDecl *def(const FunctionDecl *F) {
    const FunctionDecl *D = nullptr;
    if (F->hasBody(D)) return D;
    return F;
  }
  void want(const FunctionDecl *F) {
    const FunctionDecl *D = def(F);
    if (!D->hasBody()) return;
    if (D->isDependentContext()) return;
    if (!inRepo(D)) return;
    if (seen.insert(D->getCanonicalDecl()).second) queue.push_back(D);
  }
  json::Value varDecl(const VarDecl *V) {
    json::Object o;
    o["id"] = id(V); o["n"] = V->getNameAsString();
    o["t"] = tname(V->getType());
    QualType T = V->getType();
    if (T->isReferenceType()) o["ref"] = 1;
    if (T.getNonReferenceType().isConstQualified()) o["const"] = 1;
    if (V->isStaticLocal()) o["static"] = 1;
    if (V->getTSCSpec() != TSCS_unspecified) o["tl"] = 1;
    o["l"] = line(V->getLocation());
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      json::Array b;
      for (auto *B : DD->bindings()) b.push_back(json::Object{{"id", id(B)}, {"n", B->getNameAsString()}});
      o["b"] = std::move(b);
    }
    if (V->hasInit()) o["i"] = expr(V->getInit());
    return o;
  }
  json::Value stmtOrNull(const Stmt *S) { if (!S) return nullptr; return stmt(S); }
  json::Value stmt(const Stmt *S) {
    json::Object o;
    if (!S) return nullptr;
    o["l"] = line(S->getBeginLoc());
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      o["k"] = "blk"; json::Array a;
      for (auto *c : X->body()) a.push_back(stmt(c));
      o["s"] = std::move(a); return o;
    }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      o["k"] = "decl"; json::Array a;
      for (auto *d : X->decls()) if (auto *V = dyn_cast<VarDecl>(d)) a.push_back(varDecl(V));
      o["v"] = std::move(a); return o;
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      if (X->isConstexpr()) {
        if (auto nd = X->getNondiscardedCase(C)) return *nd ? stmt(*nd) : json::Value(json::Object{{"k","blk"},{"s",json::Array()},{"l",line(S->getBeginLoc())}});
      }
      o["k"] = "if";
      if (X->getInit()) o["i"] = stmt(X->getInit());
      if (X->getConditionVariable()) o["cv"] = varDecl(X->getConditionVariable());
      o["c"] = expr(X->getCond());
      o["t"] = stmt(X->getThen());
      if (X->getElse()) o["e"] = stmt(X->getElse());
      return o;
    }
    if (auto *X = dyn_cast<ForStmt>(S)) {
      o["k"] = "for";
      o["i"] = stmtOrNull(X->getInit());
      o["c"] = X->getCond() ? expr(X->getCond()) : json::Value(nullptr);
      o["inc"] = X->getInc() ? expr(X->getInc()) : json::Value(nullptr);
      o["b"] = stmt(X->getBody()); return o;
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) {
      o["k"] = "while"; 
      if (X->getConditionVariable()) o["cv"] = varDecl(X->getConditionVariable());
      o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody()); return o;
    }
    if (auto *X = dyn_cast<DoStmt>(S)) {
      o["k"] = "do"; o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody()); return o;
    }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      o["k"] = "rfor"; o["v"] = varDecl(X->getLoopVariable());
      o["v"].getAsObject()->erase("i");
      o["r"] = expr(X->getRangeInit()); o["b"] = stmt(X->getBody()); return o;
    }
    if (auto *X = dyn_cast<SwitchStmt>(S)) {
      o["k"] = "switch"; o["c"] = expr(X->getCond()); 
      if (X->getInit()) o["i"] = stmt(X->getInit());
      o["b"] = stmt(X->getBody()); return o;
    }
    if (auto *X = dyn_cast<CaseStmt>(S)) {
      o["k"] = "case"; o["c"] = expr(X->getLHS()); o["b"] = stmtOrNull(X->getSubStmt()); return o;
    }
    if (auto *X = dyn_cast<DefaultStmt>(S)) {
      o["k"] = "default"; o["b"] = stmtOrNull(X->getSubStmt()); return o;
    }
    if (isa<BreakStmt>(S)) { o["k"] = "break"; return o; }
    if (isa<ContinueStmt>(S)) { o["k"] = "continue"; return o; }
    if (isa<NullStmt>(S)) { o["k"] = "blk"; o["s"] = json::Array(); return o; }
    if (auto *X = dyn_cast<ReturnStmt>(S)) {
      o["k"] = "ret"; if (X->getRetValue()) o["e"] = expr(X->getRetValue()); return o;
    }
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      o["k"] = "try"; o["b"] = stmt(X->getTryBlock());
      json::Array h;
      for (unsigned i = 0; i < X->getNumHandlers(); i++) {
        json::Object ho;
        auto *H = X->getHandler(i);
        if (H->getExceptionDecl()) ho["v"] = varDecl(H->getExceptionDecl());
        ho["b"] = stmt(H->getHandlerBlock());
        h.push_back(std::move(ho));
      }
      o["h"] = std::move(h); return o;
    }
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<LabelStmt>(S)) return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<OMPExecutableDirective>(S)) {
      o["k"] = "omp"; 
      o["d"] = llvm::omp::getOpenMPDirectiveName(X->getDirectiveKind()).str();
      json::Array cl;
      for (auto *c : X->clauses()) {
        json::Object co; 
        co["n"] = llvm::omp::getOpenMPClauseName(c->getClauseKind()).str();
        if (c->isImplicit()) co["imp"] = 1;
        json::Array vs;
        for (auto *ch : c->children()) if (ch) if (auto *e = dyn_cast<Expr>(ch)) vs.push_back(expr(e));
        co["v"] = std::move(vs);
        cl.push_back(std::move(co));
      }
      o["cl"] = std::move(cl);
      if (X->hasAssociatedStmt()) {
        const Stmt *B = X->getAssociatedStmt();
        while (auto *CS = dyn_cast<CapturedStmt>(B)) B = CS->getCapturedStmt();
        o["b"] = stmt(B);
      }
      return o;
    }
    if (auto *E = dyn_cast<Expr>(S)) {
      o["k"] = "expr"; o["e"] = expr(E); return o;
    }
    o["k"] = "unk"; o["c"] = S->getStmtClassName(); return o;
  }
  json::Value exprs(const Expr *E) { return expr(E); }
  template <class R> json::Array args(const R &r) {
    json::Array a;
    for (const Expr *e : r) a.push_back(expr(e));
    return a;
  }
  static void storage(QualType T, int &in, int &fl, int &ot) {
    T = T.getNonReferenceType().getCanonicalType();
    if (T->isEnumeralType() || T->isPointerType()) return;
    if (T->isRealFloatingType()) { fl++; return; }
    if (T->isIntegerType()) { in++; return; }
    if (auto *S = dyn_cast_or_null<ClassTemplateSpecializationDecl>(T->getAsCXXRecordDecl())) if (S->isInStdNamespace()) {
      std::string n = S->getNameAsString();
      if (n == "allocator" || n == "hash" || n == "less" || n == "equal_to") return;
      for (auto &A : S->getTemplateArgs().asArray()) if (A.getKind() == TemplateArgument::Type) storage(A.getAsType(), in, fl, ot);
      return;
    }
    ot++;
  }
  static bool narrows(const CXXMethodDecl *M, ArrayRef<TemplateArgument> TA) {
    bool real = false;
    for (auto &A : TA) {
      if (A.getKind() == TemplateArgument::Type && A.getAsType().getNonReferenceType()->isRealFloatingType()) real = true;
      if (A.getKind() == TemplateArgument::Pack) for (auto &B : A.pack_elements())
        if (B.getKind() == TemplateArgument::Type && B.getAsType().getNonReferenceType()->isRealFloatingType()) real = true;
    }
    if (!real) return false;
    auto *S = dyn_cast<ClassTemplateSpecializationDecl>(M->getParent());
    if (!S || !S->isInStdNamespace()) return false;
    int in = 0, fl = 0, ot = 0;
    for (auto &A : S->getTemplateArgs().asArray()) if (A.getKind() == TemplateArgument::Type) storage(A.getAsType(), in, fl, ot);
    return in > 0 && fl == 0 && ot == 0;
  }
  void callee(json::Object &o, const FunctionDecl *F) {
    o["n"] = qname(F); 
    want(F);
    if (inRepo(F)) o["f"] = id(def(F));
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      std::string ta;
      for (auto &A : TA->asArray()) {
        if (!ta.empty()) ta += ",";
        if (A.getKind() == TemplateArgument::Type) ta += tname(A.getAsType());
        else if (A.getKind() == TemplateArgument::Integral) ta += std::to_string(A.getAsIntegral().getExtValue());
        else ta += "?";
      }
      if (!ta.empty()) o["ta"] = ta;
      // real arguments handed to a library template that stores integers (emplace_back, std::pair)
      if (!inRepo(F)) if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (narrows(M, TA->asArray())) o["nar"] = 1;
      // library folds whose accumulator is narrower than the elements
      std::string n = F->getNameAsString();
      if (!inRepo(F) && (n == "accumulate" || n == "reduce" || n == "inner_product" || n == "transform_reduce") && F->getNumParams() > 0) {
        QualType it = F->getParamDecl(0)->getType().getNonReferenceType(), el;
        if (it->isPointerType()) el = it->getPointeeType();
        else if (auto *R = it->getAsCXXRecordDecl())
          for (auto *M : R->methods()) if (M->getOverloadedOperator() == OO_Star) el = M->getReturnType().getNonReferenceType();
        QualType rt = F->getReturnType().getNonReferenceType();
        if (!el.isNull()) { o["fel"] = tname(el); o["frt"] = tname(rt); }
      }
    }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { 
      if (M->isVirtual()) o["virt"] = 1;
      if (M->isConst()) o["cm"] = 1;
      if (M->isStatic()) o["st"] = 1;
    }
  }
  const char *castKind(const CastExpr *X) {
    switch (X->getCastKind()) {
      case CK_FloatingToIntegral: return "f2i";
      case CK_IntegralToFloating: return "i2f";
      case CK_IntegralCast: return "i2i";
      case CK_IntegralToBoolean: return "i2b";
      case CK_FloatingToBoolean: return "f2b";
      case CK_PointerToBoolean: return "p2b";
      case CK_FloatingCast: return "f2f";
      default: return nullptr;
    }
  }
  json::Value expr(const Expr *E) {
    if (!E) return nullptr;
    json::Object o;
    // transparent nodes
    if (auto *X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<FullExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<OpaqueValueExpr>(E)) if (X->getSourceExpr()) return expr(X->getSourceExpr());
    if (auto *X = dyn_cast<CastExpr>(E)) {
      const char *ck = castKind(X);
      if (!ck) return expr(X->getSubExpr());
      o["k"] = "cast"; o["c"] = ck; o["t"] = tname(X->getType()); 
      if (isa<ExplicitCastExpr>(X)) o["ex"] = 1;
      if (X->getCastKind() == CK_FloatingToIntegral) o["l"] = line(X->getExprLoc());
      if (auto *I = dyn_cast<ImplicitCastExpr>(X)) if (!I->isPartOfExplicitCast()) { o["imp"] = 1; o["l"] = line(X->getExprLoc()); o["st"] = tname(X->getSubExpr()->getType());
        if (X->getSubExpr()->getType()->isRealFloatingType() && !X->getSubExpr()->isValueDependent()) { llvm::APFloat fv(0.0); if (X->getSubExpr()->EvaluateAsFloat(fv, C)) { bool li; llvm::APFloat g = fv; g.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li); if (g.isFinite()) o["fv"] = g.convertToDouble(); } } }
      o["e"] = expr(X->getSubExpr()); return o;
    }
    o["l"] = line(E->getExprLoc());
    if (auto *X = dyn_cast<IntegerLiteral>(E)) { o["k"] = "int"; o["v"] = (int64_t)X->getValue().getLimitedValue(); return o; }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) { o["k"] = "flt"; o["v"] = X->getValueAsApproximateDouble(); return o; }
    if (auto *X = dyn_cast<StringLiteral>(E)) { o["k"] = "str"; o["v"] = json::fixUTF8(X->isOrdinary() || X->isUTF8() ? X->getString() : llvm::StringRef("?")); return o; }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) { o["k"] = "chr"; o["v"] = (int64_t)X->getValue(); return o; }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { o["k"] = "bool"; o["v"] = X->getValue(); return o; }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { o["k"] = "null"; return o; }
    if (isa<CXXThisExpr>(E)) { o["k"] = "this"; return o; }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { o["k"] = "enum"; o["n"] = qname(EC); return o; }
      if (auto *F = dyn_cast<FunctionDecl>(D)) { o["k"] = "fn"; callee(o, F); return o; }
      if (auto *V = dyn_cast<VarDecl>(D)) {
        if (V->hasGlobalStorage() && !V->isStaticLocal()) {
          o["k"] = "g"; o["n"] = qname(V); 
          const VarDecl *DV = nullptr;
          if (auto *I = V->getAnyInitializer(DV)) if (inRepo(V) && !I->isValueDependent()) {
             Expr::EvalResult R;
             if (V->getType().isConstQualified() && I->EvaluateAsRValue(R, C)) {
               if (R.Val.isInt()) o["v"] = (int64_t)R.Val.getInt().getExtValue();
               if (R.Val.isFloat()) { double d = R.Val.getFloat().convertToDouble(); if (std::isfinite(d)) o["v"] = d; }
             }
          }
          return o;
        }
        o["k"] = "v"; o["id"] = id(V); o["n"] = V->getNameAsString(); return o;
      }
      o["k"] = "v"; o["id"] = id(D); o["n"] = D->getNameAsString(); return o;
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *D = X->getMemberDecl();
      if (auto *V = dyn_cast<VarDecl>(D)) {
        o["k"] = "g"; o["n"] = qname(V);
        const VarDecl *DV = nullptr;
        if (auto *I = V->getAnyInitializer(DV)) if (inRepo(V)) {
           Expr::EvalResult R;
           if (V->getType().isConstQualified() && I->EvaluateAsRValue(R, C)) {
             if (R.Val.isInt()) o["v"] = (int64_t)R.Val.getInt().getExtValue();
             if (R.Val.isFloat()) { double d = R.Val.getFloat().convertToDouble(); if (std::isfinite(d)) o["v"] = d; }
           }
        }
        return o;
      }
      if (auto *F = dyn_cast<FunctionDecl>(D)) { o["k"] = "mfn"; callee(o, F); o["o"] = expr(X->getBase()); return o; }
      o["k"] = "m"; o["b"] = expr(X->getBase()); o["f"] = qname(D); if (X->isArrow()) o["ar"] = 1;
      o["t"] = tname(D->getType());
      return o;
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      o["k"] = "call";
      if (auto *M = X->getMethodDecl()) callee(o, M); else o["n"] = "?";
      if (auto *I = X->getImplicitObjectArgument()) o["o"] = expr(I);
      if (!X->getImplicitObjectArgument()) o["cal"] = expr(X->getCallee());
      if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) if (ME->isArrow()) o["ar"] = 1;
      o["a"] = args(X->arguments()); o["t"] = tname(X->getType()); return o;
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      o["k"] = "call"; o["op"] = getOperatorSpelling(X->getOperator());
      o["t"] = tname(X->getType());
      if (auto *F = X->getDirectCallee()) {
        callee(o, F);
        json::Array a = args(X->arguments());
        if (isa<CXXMethodDecl>(F) && a.size()) {
          o["o"] = std::move(a[0]);
          json::Array b; for (size_t i = 1; i < a.size(); i++) b.push_back(std::move(a[i]));
          o["a"] = std::move(b);
        } else o["a"] = std::move(a);
      } else { o["n"] = "?"; o["a"] = args(X->arguments()); }
      return o;
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      o["k"] = "call"; o["t"] = tname(X->getType());
      if (auto *F = X->getDirectCallee()) callee(o, F);
      else { o["n"] = "?"; o["cal"] = expr(X->getCallee()); }
      o["a"] = args(X->arguments()); return o;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      auto *K = X->getConstructor();
      o["k"] = "ctor"; o["n"] = qname(K->getParent());
      if (!inRepo(K)) if (auto *TA = K->getTemplateSpecializationArgs()) if (narrows(K, TA->asArray())) { o["nar"] = 1; o["l"] = line(X->getExprLoc()); }
      if (K->isCopyOrMoveConstructor()) o["copy"] = 1;
      if (K->isDefaultConstructor()) o["def"] = 1;
      if (X->isListInitialization()) o["list"] = 1;
      want(K);
      if (inRepo(K)) o["f"] = id(def(K));
      o["a"] = args(X->arguments()); return o;
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      o["k"] = "ctor"; o["n"] = qname(X->getConstructor()->getParent()); o["a"] = json::Array(); return o;
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      o["k"] = X->isCompoundAssignmentOp() ? "casg" : (X->isAssignmentOp() ? "asg" : "bin");
      o["op"] = X->getOpcodeStr().str();
      o["t"] = tname(X->getType());
      if (auto *CA = dyn_cast<CompoundAssignOperator>(X)) o["ct"] = tname(CA->getComputationResultType());
      o["a"] = expr(X->getLHS()); o["b"] = expr(X->getRHS()); return o;
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      o["k"] = "un"; o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) o["post"] = 1;
      o["t"] = tname(X->getType());
      o["e"] = expr(X->getSubExpr()); return o;
    }
    if (auto *X = dyn_cast<AbstractConditionalOperator>(E)) {
      o["k"] = "cond"; o["c"] = expr(X->getCond()); o["t"] = expr(X->getTrueExpr()); o["e"] = expr(X->getFalseExpr()); return o;
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      o["k"] = "idx"; o["a"] = expr(X->getBase()); o["i"] = expr(X->getIdx()); return o;
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      o["k"] = "ilist"; o["t"] = tname(X->getType()); o["a"] = args(X->inits()); return o;
    }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      o["k"] = "lam"; 
      auto *M = X->getCallOperator();
      o["f"] = id(M); 
      json::Array caps;
      unsigned i = 0;
      for (auto &c : X->captures()) {
        json::Object co;
        if (c.capturesThis()) co["this"] = 1;
        if (c.capturesVariable()) { co["id"] = id(c.getCapturedVar()); co["n"] = c.getCapturedVar()->getNameAsString();
          if (c.getCaptureKind() == LCK_ByRef) co["ref"] = 1; 
          if (auto *IV = dyn_cast<VarDecl>(c.getCapturedVar())) if (IV->isInitCapture() && IV->hasInit()) co["i"] = expr(IV->getInit());
        }
        caps.push_back(std::move(co)); i++;
      }
      o["cap"] = std::move(caps);
      json::Array ps;
      for (auto *P : M->parameters()) ps.push_back(varDecl(P));
      o["p"] = std::move(ps);
      bool generic = X->isGenericLambda();
      if (generic) {
        o["gen"] = 1;
        // every instantiated specialisation is dumped as a function of its own
        json::Array is;
        if (auto *FT = X->getDependentCallOperator()) for (auto *S : FT->specializations()) { want(S); is.push_back(id(def(S))); }
        o["insts"] = std::move(is);
      } else {
        seen.insert(M->getCanonicalDecl());
        o["b"] = stmt(M->getBody());
      }
      return o;
    }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      o["k"] = "throw"; if (X->getSubExpr()) o["e"] = expr(X->getSubExpr()); return o;
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      o["k"] = "new"; o["t"] = tname(X->getAllocatedType()); if (X->isArray() && X->getArraySize()) o["n"] = expr(*X->getArraySize());
      if (X->getInitializer()) o["i"] = expr(X->getInitializer()); return o;
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      o["k"] = "delete"; o["arr"] = X->isArrayForm(); o["e"] = expr(X->getArgument()); return o;
    }
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) { o["k"] = "zero"; o["t"] = tname(E->getType()); return o; }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      Expr::EvalResult R; 
      o["k"] = "sizeof"; if (X->EvaluateAsInt(R, C)) o["v"] = (int64_t)R.Val.getInt().getLimitedValue(); return o;
    }
    if (auto *X = dyn_cast<CXXTypeidExpr>(E)) {
      o["k"] = "typeid";
      if (X->isTypeOperand()) o["t"] = tname(X->getTypeOperand(C)); else { o["t"] = "?"; o["e"] = expr(X->getExprOperand()); }
      return o;
    }
    if (auto *X = dyn_cast<PredefinedExpr>(E)) { o["k"] = "str"; o["v"] = X->getFunctionName() ? X->getFunctionName()->getString() : ""; return o; }
    if (auto *X = dyn_cast<ArrayInitLoopExpr>(E)) { o["k"] = "ailoop"; o["e"] = expr(X->getCommonExpr()); return o; }
    o["k"] = "unk"; o["c"] = E->getStmtClassName();
    json::Array ch;
    for (auto *c : E->children()) if (c) if (auto *e = dyn_cast<Expr>(c)) ch.push_back(expr(e));
    o["a"] = std::move(ch);
    return o;
  }
  void function(const FunctionDecl *F) {
    json::Object o;
    o["k"] = "function"; o["id"] = id(F); o["n"] = qname(F);
    o["file"] = relFile(F->getLocation()); o["l"] = line(F->getLocation()); o["el"] = line(F->getEndLoc());
    o["rt"] = tname(F->getReturnType());
    if (F->getReturnType()->isReferenceType()) o["rref"] = 1;
    json::Array ps;
    for (auto *P : F->parameters()) { json::Value v = varDecl(P); 
      ps.push_back(std::move(v)); }
    o["p"] = std::move(ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = qname(M->getParent());
      if (M->isConst()) o["const"] = 1;
      if (M->isVirtual()) o["virt"] = 1;
      if (M->isStatic()) o["st"] = 1;
      o["acc"] = (int)M->getAccess();
      json::Array ov;
      for (auto *b : M->overridden_methods()) ov.push_back(id(def(b)));
      if (ov.size()) o["ov"] = std::move(ov);
    }
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      json::Array in;
      for (auto *I : K->inits()) {
        json::Object io;
        if (I->isMemberInitializer()) io["f"] = qname(I->getMember());
        else if (I->isBaseInitializer()) io["base"] = tname(QualType(I->getBaseClass(), 0));
        else io["del"] = 1;
        io["e"] = expr(I->getInit()); io["w"] = I->isWritten();
        in.push_back(std::move(io));
      }
      o["inits"] = std::move(in);
    }
    if (F->getTemplateInstantiationPattern()) o["inst"] = 1;
    if (F->isDefaulted()) o["dflt"] = 1;
    o["b"] = stmt(F->getBody());
    *OUT << json::Value(std::move(o)) << "\n";
  }
  void record(const CXXRecordDecl *R) {
    json::Object o; o["k"] = "record"; o["n"] = qname(R); o["file"] = relFile(R->getLocation()); o["l"] = line(R->getLocation());
    json::Array fs;
    for (auto *f : R->fields()) {
      json::Object fo; fo["n"] = qname(f); fo["t"] = tname(f->getType()); fo["acc"] = (int)f->getAccess(); fo["ft"] = f->getType().getAsString(PP);
      fo["l"] = line(f->getLocation());
      if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["i"] = expr(f->getInClassInitializer());
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    json::Array bs;
    for (auto &b : R->bases()) bs.push_back(tname(b.getType()));
    o["bases"] = std::move(bs);
    *OUT << json::Value(std::move(o)) << "\n";
  }
  void enumeration(const EnumDecl *E) {
    json::Object o; o["k"] = "enum"; o["n"] = qname(E); o["file"] = relFile(E->getLocation()); o["l"] = line(E->getLocation());
    json::Array cs;
    for (auto *c : E->enumerators()) cs.push_back(json::Object{{"n", qname(c)}, {"v", c->getInitVal().getExtValue()}});
    o["c"] = std::move(cs);
    *OUT << json::Value(std::move(o)) << "\n";
  }
  void global(const VarDecl *V) {
    json::Object o; o["k"] = "global"; o["n"] = qname(V); o["file"] = relFile(V->getLocation()); o["l"] = line(V->getLocation());
    o["t"] = tname(V->getType()); o["const"] = V->getType().isConstQualified() ? 1 : 0;
    if (V->hasInit()) o["i"] = expr(V->getInit());
    *OUT << json::Value(std::move(o)) << "\n";
  }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
  Dumper &D; Sema *S; bool instantiate = false; bool changed = false;
  std::set<const Decl *> tried;
  Visitor(Dumper &D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  std::vector<FunctionDecl *> pend;
  std::set<const Decl *> recs;
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (instantiate) return true;
    if (F->isThisDeclarationADefinition() && F->hasBody()) {
      if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
      D.want(F);
    }
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
    if (!D.inRepo(R)) return true;
    if (instantiate) {
      if (isa<ClassTemplateSpecializationDecl>(R) || R->getTemplateInstantiationPattern()) {
        for (auto *d : R->decls()) {
          if (auto *M = dyn_cast<CXXMethodDecl>(d)) {
            if (M->getTemplateInstantiationPattern() && !M->isDefined() && !M->isDeleted() && tried.insert(M).second) pend.push_back(M);
          }
        }
      }
      return true;
    }
    if (recs.insert(R->getCanonicalDecl()).second) D.record(R);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (instantiate) return true;
    if (E->isDependentContext() || !E->isThisDeclarationADefinition()) return true;
    if (D.inRepo(E) && recs.insert(E->getCanonicalDecl()).second) D.enumeration(E);
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (instantiate) return true;
    if (!V->hasGlobalStorage() || V->isStaticLocal()) return true;
    if (V->getDeclContext()->isDependentContext()) return true;
    if (!V->isThisDeclarationADefinition() ) return true;
    if (D.inRepo(V) && recs.insert(V->getCanonicalDecl()).second) D.global(V);
    return true;
  }
};

struct Consumer : SemaConsumer {
  Sema *S = nullptr;
  void InitializeSema(Sema &s) override { S = &s; }
  void ForgetSema() override { S = nullptr; }
  void HandleTranslationUnit(ASTContext &C) override {
    Dumper D(C); Visitor V(D); V.S = S;
    V.instantiate = true;
    if (C.getDiagnostics().hasErrorOccurred()) { FAILED = true; return; }
    C.getDiagnostics().setSuppressAllDiagnostics(true);
    if (S) {
      for (int round = 0; round < 12; round++) {
        V.pend.clear();
        V.TraverseDecl(C.getTranslationUnitDecl());
        if (V.pend.empty()) break;
        for (auto *M : V.pend) {
          Sema::SFINAETrap *trap = nullptr; (void)trap;
          S->InstantiateFunctionDefinition(M->getLocation(), M, true, false, true);
        }
        S->PerformPendingInstantiations();
      }
    }
    V.instantiate = false;
    V.TraverseDecl(C.getTranslationUnitDecl());
    int n = 0;
    while (!D.queue.empty()) { auto *F = D.queue.front(); D.queue.pop_front(); 
      if (F->isInvalidDecl()) continue;
      D.function(F); n++; }
    llvm::errs() << "functions: " << n << "\n";
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
    return std::make_unique<Consumer>();
  }
};

int main(int argc, const char **argv) {
  // usage: extract ROOT OUT driver.cpp -- flags
  if (argc < 5) return 2;
  ROOT = argv[1]; if (ROOT.back() != '/') ROOT += '/';
  std::error_code ec; llvm::raw_fd_ostream os(argv[2], ec); OUT = &os;
  std::vector<std::string> flags;
  for (int i = 5; i < argc; i++) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {std::string(argv[3])});
  int r = tool.run(tooling::newFrontendActionFactory<Action>().get());
  os.flush();
  (void)r;
  return FAILED ? 3 : 0;
}
