// Emits the resolved program (types, callees, casts, default arguments) of one translation unit as JSON.
// Only declarations of the analysed project are emitted with their bodies.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static std::string Root;

namespace {
class Dumper : public RecursiveASTVisitor<Dumper> {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
public:
  json::Object Funcs, Records, Vars;
  std::map<const ValueDecl *, int> Ids;
  explicit Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.Bool = true; PP.TerseOutput = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    return SM.getFilename(L).str();
  }
  static std::string norm(std::string f) {
    // collapse "/x/../"
    std::vector<std::string> parts; std::string cur;
    for (char c : f + "/") { if (c == '/') { if (cur == "..") { if (!parts.empty()) parts.pop_back(); } else if (cur != "." && cur != "") parts.push_back(cur); cur.clear(); } else cur += c; }
    std::string r; for (auto &p : parts) r += "/" + p; return r;
  }
  bool inProject(const Decl *D) {
    std::string f = norm(fileOf(D->getLocation()));
    if (f.compare(0, Root.size(), Root) != 0) return false;
    if (f.find("matplotlibcpp") != std::string::npos) return false;
    return true;
  }
  std::string loc(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    std::string f = norm(SM.getFilename(L).str());
    if (f.compare(0, Root.size(), Root) == 0) f = f.substr(Root.size());
    if (!f.empty() && f[0] == '/') f = f.substr(1);
    return f + ":" + std::to_string(SM.getExpansionLineNumber(L));
  }
  std::string ty(QualType T) { return T.isNull() ? "" : T.getCanonicalType().getAsString(PP); }
  static std::string usr(const Decl *D) {
    llvm::SmallString<256> B;
    if (index::generateUSRForDecl(D, B)) return "";
    return B.str().str();
  }
  int vid(const ValueDecl *D) {
    D = cast<ValueDecl>(D->getCanonicalDecl());
    auto it = Ids.find(D);
    if (it != Ids.end()) return it->second;
    int n = Ids.size() + 1; Ids[D] = n; return n;
  }
  json::Object fref(const FunctionDecl *F) {
    json::Object o;
    o["q"] = F->getQualifiedNameAsString();
    o["n"] = F->getNameAsString();
    if (inProject(F)) { o["usr"] = usr(F->getCanonicalDecl()); o["proj"] = true; }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = M->getParent()->getQualifiedNameAsString();
      if (M->isVirtual()) o["virt"] = true;
      if (M->isConst()) o["const"] = true;
      if (M->isStatic()) o["static"] = true;
    }
    o["rt"] = ty(F->getReturnType());
    json::Array ps; for (auto *P : F->parameters()) ps.push_back(ty(P->getType()));
    o["pt"] = std::move(ps);
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      json::Array ta;
      for (auto &A : TA->asArray()) { std::string s; llvm::raw_string_ostream os(s); A.print(PP, os, true); ta.push_back(os.str()); }
      o["ta"] = std::move(ta);
    }
    return o;
  }
  json::Array exprs(ArrayRef<const Expr *> es) { json::Array a; for (auto *e : es) a.push_back(expr(e)); return a; }
  template <class R> json::Array exprsR(R r) { json::Array a; for (auto *e : r) a.push_back(expr(e)); return a; }

  json::Value expr(const Expr *E) {
    if (!E) return nullptr;
    json::Object o;
    auto base = [&](const char *k) { o["k"] = k; o["t"] = ty(E->getType()); o["l"] = loc(E->getExprLoc()); if (E->isLValue()) o["lv"] = true; };
    if (auto *X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<ExprWithCleanups>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) { base("mat"); o["e"] = expr(X->getSubExpr()); return std::move(o); }
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
    if (auto *X = dyn_cast<ConstantExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) { auto v = expr(X->getExpr()); if (auto *ob = v.getAsObject()) (*ob)["dflt"] = true; return v; }
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) { base("stdinit"); o["e"] = expr(X->getSubExpr()); return std::move(o); }
    if (auto *X = dyn_cast<IntegerLiteral>(E)) { base("int"); llvm::SmallString<32> s; X->getValue().toString(s, 10, X->getType()->isSignedIntegerType()); o["v"] = s.str().str(); return std::move(o); }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) { base("float"); llvm::SmallString<32> s; X->getValue().toString(s, 0, 0); 
      // exact source spelling keeps decimal literals exact
      o["v"] = s.str().str(); o["src"] = Lexer::getSourceText(CharSourceRange::getTokenRange(X->getSourceRange()), SM, C.getLangOpts()).str(); return std::move(o); }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { base("bool"); o["v"] = X->getValue(); return std::move(o); }
    if (auto *X = dyn_cast<StringLiteral>(E)) { base("str"); o["v"] = X->isOrdinary() ? json::fixUTF8(X->getString()) : std::string("?"); return std::move(o); }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) { base("char"); o["v"] = (int64_t)X->getValue(); return std::move(o); }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { base("null"); return std::move(o); }
    if (isa<CXXThisExpr>(E)) { base("this"); return std::move(o); }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) { base("zero"); return std::move(o); }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      base("ref");
      const ValueDecl *D = X->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { o["fn"] = fref(F); }
      else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { o["k"] = "int"; llvm::SmallString<32> s; EC->getInitVal().toString(s, 10); o["v"] = s.str().str(); o["enum"] = EC->getQualifiedNameAsString(); }
      else {
        o["id"] = vid(D); o["n"] = D->getNameAsString();
        if (auto *V = dyn_cast<VarDecl>(D)) {
          if (V->hasGlobalStorage()) { o["global"] = V->getQualifiedNameAsString(); if (V->isStaticLocal()) o["slocal"] = true; if (V->getType().isConstQualified()) o["constq"] = true; if (inProject(V)) o["proj"] = true; }
        }
        if (auto *B = dyn_cast<BindingDecl>(D)) { o["k"] = "binding"; o["b"] = expr(B->getBinding()); }
      }
      return std::move(o);
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      base("member");
      const ValueDecl *D = X->getMemberDecl();
      if (auto *M = dyn_cast<CXXMethodDecl>(D)) { o["fn"] = fref(M); }
      else if (auto *V = dyn_cast<VarDecl>(D)) { o["k"] = "ref"; o["id"] = vid(V); o["n"] = V->getNameAsString(); o["global"] = V->getQualifiedNameAsString(); if (V->getType().isConstQualified()) o["constq"] = true; if (inProject(V)) o["proj"] = true; return std::move(o); }
      else { o["f"] = D->getNameAsString(); o["fc"] = cast<FieldDecl>(D)->getParent()->getQualifiedNameAsString(); if (cast<FieldDecl>(D)->isMutable()) o["mutable"] = true; }
      o["arrow"] = X->isArrow(); o["b"] = expr(X->getBase());
      return std::move(o);
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      base("opcall"); o["op"] = getOperatorSpelling(X->getOperator());
      if (auto *F = X->getDirectCallee()) { o["fn"] = fref(F); if (isa<CXXMethodDecl>(F)) o["mem"] = true; }
      o["a"] = exprsR(X->arguments()); return std::move(o);
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      base("mcall");
      if (auto *M = X->getMethodDecl()) o["fn"] = fref(M);
      if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) { if (ME->hasQualifier()) o["qual"] = true; o["arrow"] = ME->isArrow(); }
      o["o"] = expr(X->getImplicitObjectArgument());
      if (auto *OA = X->getImplicitObjectArgument()) { o["ot"] = ty(OA->getType()); }
      o["a"] = exprsR(X->arguments()); return std::move(o);
    }
    if (auto *X = dyn_cast<UserDefinedLiteral>(E)) { base("unk"); o["c"] = "UserDefinedLiteral"; return std::move(o); }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      base("call");
      if (auto *F = X->getDirectCallee()) o["fn"] = fref(F); else o["callee"] = expr(X->getCallee());
      o["a"] = exprsR(X->arguments()); return std::move(o);
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      base("ctor"); o["fn"] = fref(X->getConstructor());
      auto *CD = X->getConstructor();
      if (CD->isCopyConstructor()) o["copy"] = true;
      if (CD->isMoveConstructor()) o["move"] = true;
      if (CD->isImplicit() || CD->isDefaulted()) o["impl"] = true;
      if (X->isListInitialization()) o["list"] = true;
      if (X->isStdInitListInitialization()) o["stdil"] = true;
      if (X->requiresZeroInitialization()) o["zi"] = true;
      o["a"] = exprsR(X->arguments()); return std::move(o);
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) { base("inhctor"); o["fn"] = fref(X->getConstructor()); return std::move(o); }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      if (X->isSyntacticForm() && X->getSemanticForm()) X = X->getSemanticForm();
      base("init"); o["a"] = exprsR(X->inits());
      if (auto *RD = X->getType()->getAsCXXRecordDecl()) { json::Array fs; for (auto *F : RD->fields()) fs.push_back(F->getNameAsString()); o["fs"] = std::move(fs); }
      return std::move(o);
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) { base("un"); o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str(); if (X->isPostfix()) o["post"] = true; o["e"] = expr(X->getSubExpr()); return std::move(o); }
    if (auto *X = dyn_cast<CompoundAssignOperator>(E)) { base("asg"); o["op"] = BinaryOperator::getOpcodeStr(X->getOpcode()).str(); o["ct"] = ty(X->getComputationResultType()); o["a"] = expr(X->getLHS()); o["b"] = expr(X->getRHS()); return std::move(o); }
    if (auto *X = dyn_cast<BinaryOperator>(E)) { base(X->isAssignmentOp() ? "asg" : "bin"); o["op"] = X->getOpcodeStr().str(); o["a"] = expr(X->getLHS()); o["b"] = expr(X->getRHS()); return std::move(o); }
    if (auto *X = dyn_cast<ConditionalOperator>(E)) { base("cond"); o["c"] = expr(X->getCond()); o["a"] = expr(X->getTrueExpr()); o["b"] = expr(X->getFalseExpr()); return std::move(o); }
    if (auto *X = dyn_cast<CastExpr>(E)) {
      base("cast"); o["ck"] = X->getCastKindName();
      if (isa<ExplicitCastExpr>(X)) {
        o["ex"] = isa<CXXStaticCastExpr>(X) ? "static" : isa<CXXDynamicCastExpr>(X) ? "dynamic" : isa<CXXConstCastExpr>(X) ? "const" : isa<CXXReinterpretCastExpr>(X) ? "reinterpret" : isa<CXXFunctionalCastExpr>(X) ? "functional" : "c";
      }
      o["e"] = expr(X->getSubExpr()); return std::move(o);
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) { base("sub"); o["a"] = expr(X->getBase()); o["i"] = expr(X->getIdx()); return std::move(o); }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      base("lambda");
      json::Array caps;
      auto ci = X->capture_init_begin();
      for (auto &cap : X->captures()) {
        json::Object c;
        if (cap.capturesThis()) { c["this"] = true; if (cap.getCaptureKind() == LCK_StarThis) c["copy"] = true; }
        else if (cap.capturesVariable()) { c["id"] = vid(cap.getCapturedVar()); c["n"] = cap.getCapturedVar()->getNameAsString(); c["byref"] = cap.getCaptureKind() == LCK_ByRef;
          c["init"] = expr(*ci); }
        caps.push_back(std::move(c)); ++ci;
      }
      o["caps"] = std::move(caps);
      const CXXMethodDecl *M = X->getCallOperator();
      if (X->isGenericLambda()) {
        if (auto *FT = X->getLambdaClass()->getDependentLambdaCallOperator())
          for (auto *S : FT->specializations()) { if (S->hasBody()) { M = cast<CXXMethodDecl>(S); break; } }
      }
      json::Array ps; for (auto *P : M->parameters()) ps.push_back(var(P));
      o["ps"] = std::move(ps); o["rt"] = ty(M->getReturnType());
      if (X->isMutable()) o["mut"] = true;
      if (!M->isDependentContext() && M->getBody()) o["body"] = stmt(M->getBody());
      return std::move(o);
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) { base("new"); o["at"] = ty(X->getAllocatedType()); if (X->isArray()) o["arr"] = true; o["e"] = expr(X->getInitializer()); return std::move(o); }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { base("delete"); if (X->isArrayForm()) o["arr"] = true; o["e"] = expr(X->getArgument()); return std::move(o); }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) { base("throw"); o["e"] = expr(X->getSubExpr()); if (X->getSubExpr()) o["tt"] = ty(X->getSubExpr()->getType()); return std::move(o); }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { base("sizeof"); return std::move(o); }
    if (auto *X = dyn_cast<ArrayInitLoopExpr>(E)) { base("arrcopy"); o["e"] = expr(X->getCommonExpr()); return std::move(o); }
    if (auto *X = dyn_cast<OpaqueValueExpr>(E)) return expr(X->getSourceExpr());
    if (auto *X = dyn_cast<CXXTypeidExpr>(E)) { base("typeid"); return std::move(o); }
    base("unk"); o["c"] = E->getStmtClassName(); return std::move(o);
  }

  json::Value var(const VarDecl *V) {
    json::Object o;
    o["id"] = vid(V); o["n"] = V->getNameAsString(); o["t"] = ty(V->getType()); o["l"] = loc(V->getLocation());
    if (V->isStaticLocal()) o["static"] = true;
    if (V->getType()->isReferenceType()) o["ref"] = true;
    if (V->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
    if (auto *PV = dyn_cast<ParmVarDecl>(V)) { if (PV->hasDefaultArg() && !PV->hasUnparsedDefaultArg() && !PV->hasUninstantiatedDefaultArg()) o["def"] = expr(PV->getDefaultArg()); }
    if (V->hasInit() && !isa<ParmVarDecl>(V)) o["init"] = expr(V->getInit());
    return std::move(o);
  }

  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    json::Object o;
    o["l"] = loc(S->getBeginLoc());
    if (auto *X = dyn_cast<CompoundStmt>(S)) { o["k"] = "block"; json::Array a; for (auto *c : X->body()) a.push_back(stmt(c)); o["b"] = std::move(a); return std::move(o); }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      o["k"] = "decl"; json::Array a;
      for (auto *D : X->decls()) {
        if (auto *DD = dyn_cast<DecompositionDecl>(D)) {
          json::Object v = std::move(*var(DD).getAsObject()); v["decomp"] = true;
          json::Array bs; for (auto *B : DD->bindings()) { json::Object b; b["id"] = vid(B); b["n"] = B->getNameAsString(); if (auto *HV = B->getHoldingVar()) { b["hv"] = var(HV); } bs.push_back(std::move(b)); }
          v["bindings"] = std::move(bs); a.push_back(std::move(v));
        } else if (auto *V = dyn_cast<VarDecl>(D)) a.push_back(var(V));
      }
      o["d"] = std::move(a); return std::move(o);
    }
    if (auto *X = dyn_cast<IfStmt>(S)) { o["k"] = "if"; if (X->getInit()) o["init"] = stmt(X->getInit()); if (X->getConditionVariableDeclStmt()) o["cv"] = stmt(X->getConditionVariableDeclStmt()); o["c"] = expr(X->getCond()); o["a"] = stmt(X->getThen()); if (X->getElse()) o["b"] = stmt(X->getElse()); return std::move(o); }
    if (auto *X = dyn_cast<ForStmt>(S)) { o["k"] = "for"; o["init"] = stmt(X->getInit()); o["c"] = expr(X->getCond()); o["inc"] = expr(X->getInc()); o["b"] = stmt(X->getBody()); return std::move(o); }
    if (auto *X = dyn_cast<WhileStmt>(S)) { o["k"] = "while"; o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody()); return std::move(o); }
    if (auto *X = dyn_cast<DoStmt>(S)) { o["k"] = "do"; o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody()); return std::move(o); }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      o["k"] = "forr"; o["r"] = expr(X->getRangeInit()); 
      const VarDecl *LV = X->getLoopVariable();
      if (auto *DD = dyn_cast<DecompositionDecl>(LV)) {
        json::Object v = std::move(*var(DD).getAsObject()); v["decomp"] = true;
        json::Array bs; for (auto *B : DD->bindings()) { json::Object b; b["id"] = vid(B); b["n"] = B->getNameAsString(); bs.push_back(std::move(b)); }
        v["bindings"] = std::move(bs); o["v"] = std::move(v);
      } else o["v"] = var(LV);
      o["b"] = stmt(X->getBody()); return std::move(o);
    }
    if (auto *X = dyn_cast<ReturnStmt>(S)) { o["k"] = "ret"; o["e"] = expr(X->getRetValue()); return std::move(o); }
    if (isa<BreakStmt>(S)) { o["k"] = "break"; return std::move(o); }
    if (isa<ContinueStmt>(S)) { o["k"] = "continue"; return std::move(o); }
    if (isa<NullStmt>(S)) { o["k"] = "null"; return std::move(o); }
    if (auto *X = dyn_cast<SwitchStmt>(S)) { o["k"] = "switch"; o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody()); return std::move(o); }
    if (auto *X = dyn_cast<CaseStmt>(S)) { o["k"] = "case"; o["c"] = expr(X->getLHS()); o["b"] = stmt(X->getSubStmt()); return std::move(o); }
    if (auto *X = dyn_cast<DefaultStmt>(S)) { o["k"] = "default"; o["b"] = stmt(X->getSubStmt()); return std::move(o); }
    if (auto *X = dyn_cast<CXXTryStmt>(S)) { o["k"] = "try"; o["b"] = stmt(X->getTryBlock()); json::Array a; for (unsigned i = 0; i < X->getNumHandlers(); ++i) { json::Object h; if (auto *ED = X->getHandler(i)->getExceptionDecl()) h["v"] = var(ED); h["b"] = stmt(X->getHandler(i)->getHandlerBlock()); a.push_back(std::move(h)); } o["h"] = std::move(a); return std::move(o); }
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<LabelStmt>(S)) return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<Expr>(S)) { o["k"] = "expr"; o["e"] = expr(X); return std::move(o); }
    o["k"] = "unk"; o["c"] = S->getStmtClassName(); return std::move(o);
  }

  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!inProject(F) || F->isDependentContext()) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    if (!F->doesThisDeclarationHaveABody() && !(F->isDefaulted() && isa<CXXConstructorDecl>(F) && F->isThisDeclarationADefinition())) return true;
    std::string u = usr(F->getCanonicalDecl());
    if (u.empty() || Funcs.get(u)) return true;
    json::Object o = fref(F);
    o["l"] = loc(F->getLocation());
    if (F->isImplicit() || F->isDefaulted()) o["impl"] = true;
    json::Array ps; for (auto *P : F->parameters()) ps.push_back(var(P));
    o["ps"] = std::move(ps);
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      o["ctor"] = true;
      if (CD->isCopyConstructor()) o["copyctor"] = true;
      if (CD->isMoveConstructor()) o["movector"] = true;
      json::Array is;
      for (auto *I : CD->inits()) {
        json::Object i;
        if (I->isAnyMemberInitializer()) { i["f"] = I->getAnyMember()->getNameAsString(); i["ft"] = ty(I->getAnyMember()->getType()); }
        else if (I->isBaseInitializer()) i["base"] = I->getBaseClass()->getAsCXXRecordDecl() ? I->getBaseClass()->getAsCXXRecordDecl()->getQualifiedNameAsString() : "?";
        else if (I->isDelegatingInitializer()) i["deleg"] = true;
        if (I->isWritten()) i["w"] = true;
        i["l"] = loc(I->getSourceLocation());
        i["e"] = expr(I->getInit());
        is.push_back(std::move(i));
      }
      o["inits"] = std::move(is);
    }
    if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
    if (F->getBody()) o["body"] = stmt(F->getBody());
    Funcs[u] = std::move(o);
    return true;
  }

  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda() || !inProject(R)) return true;
    json::Object o;
    std::string q = R->getQualifiedNameAsString();
    o["l"] = loc(R->getLocation());
    json::Array bs; for (auto &B : R->bases()) if (auto *BD = B.getType()->getAsCXXRecordDecl()) bs.push_back(BD->getQualifiedNameAsString());
    o["bases"] = std::move(bs);
    json::Array fs;
    for (auto *F : R->fields()) { json::Object f; f["n"] = F->getNameAsString(); f["t"] = ty(F->getType()); f["l"] = loc(F->getLocation()); f["acc"] = getAccessSpelling(F->getAccess()).str(); if (F->isMutable()) f["mutable"] = true; if (F->hasInClassInitializer()) f["init"] = expr(F->getInClassInitializer()); fs.push_back(std::move(f)); }
    o["fields"] = std::move(fs);
    json::Array ms;
    for (auto *D : R->decls()) {
      auto *M = dyn_cast<CXXMethodDecl>(D);
      if (!M) { if (auto *V = dyn_cast<VarDecl>(D)) { json::Object v; v["svar"] = V->getNameAsString(); v["t"] = ty(V->getType()); v["l"] = loc(V->getLocation()); ms.push_back(std::move(v)); } continue; }
      json::Object m = fref(M);
      m["usr"] = usr(M->getCanonicalDecl());
      m["l"] = loc(M->getLocation()); m["acc"] = getAccessSpelling(M->getAccess()).str();
      if (M->isPureVirtual()) m["pure"] = true;
      if (M->isDeleted()) m["del"] = true;
      if (M->isImplicit()) m["impl"] = true;
      if (M->isDefaulted()) m["dflt"] = true;
      if (isa<CXXConstructorDecl>(M)) { m["ctor"] = true; if (cast<CXXConstructorDecl>(M)->isCopyConstructor()) m["copyctor"] = true; if (cast<CXXConstructorDecl>(M)->isMoveConstructor()) m["movector"] = true; if (cast<CXXConstructorDecl>(M)->isDefaultConstructor()) m["defctor"] = true; }
      if (isa<CXXDestructorDecl>(M)) m["dtor"] = true;
      if (M->isCopyAssignmentOperator()) m["copyassign"] = true;
      if (M->isMoveAssignmentOperator()) m["moveassign"] = true;
      json::Array pn; unsigned nd = 0; for (auto *P : M->parameters()) { pn.push_back(P->getNameAsString()); if (P->hasDefaultArg()) ++nd; }
      m["pn"] = std::move(pn); m["ndef"] = nd;
      json::Array ov; for (auto *O : M->overridden_methods()) ov.push_back(usr(O->getCanonicalDecl()));
      m["over"] = std::move(ov);
      ms.push_back(std::move(m));
    }
    o["methods"] = std::move(ms);
    o["poly"] = R->isPolymorphic();
    if (auto *D = R->getDestructor()) o["vdtor"] = D->isVirtual();
    o["implcopyctor"] = R->hasSimpleCopyConstructor() && !R->hasUserDeclaredCopyConstructor();
    o["implcopyassign"] = R->hasSimpleCopyAssignment() && !R->hasUserDeclaredCopyAssignment();
    Records[q] = std::move(o);
    return true;
  }

  bool VisitVarDecl(VarDecl *V) {
    if (!V->hasGlobalStorage() || !inProject(V) || V->getDeclContext()->isDependentContext()) return true;
    json::Object o = std::move(*var(V).getAsObject());
    o["q"] = V->getQualifiedNameAsString();
    o["constq"] = V->getType().isConstQualified() || V->isConstexpr();
    if (auto *F = dyn_cast<FunctionDecl>(V->getDeclContext())) o["infn"] = F->getQualifiedNameAsString();
    Vars[usr(V)] = std::move(o);
    return true;
  }
};

class Consumer : public ASTConsumer {
  std::string Out;
public:
  explicit Consumer(std::string o) : Out(std::move(o)) {}
  void HandleTranslationUnit(ASTContext &C) override {
    Dumper D(C);
    // make sure implicit members exist in the AST of project classes
    D.TraverseDecl(C.getTranslationUnitDecl());
    json::Object o; o["funcs"] = std::move(D.Funcs); o["records"] = std::move(D.Records); o["vars"] = std::move(D.Vars);
    std::error_code ec; llvm::raw_fd_ostream os(Out, ec);
    os << json::Value(std::move(o));
  }
};
class Action : public ASTFrontendAction {
  std::string Out;
public:
  explicit Action(std::string o) : Out(std::move(o)) {}
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
    CI.getDiagnostics().setSuppressAllDiagnostics(false);
    return std::make_unique<Consumer>(Out);
  }
};
class Factory : public tooling::FrontendActionFactory {
  std::string Out;
public:
  explicit Factory(std::string o) : Out(std::move(o)) {}
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(Out); }
};
}

// usage: extract ROOT OUT.json FILE -- flags...
int main(int argc, const char **argv) {
  if (argc < 4) return 2;
  Root = argv[1];
  std::string out = argv[2], file = argv[3];
  std::vector<std::string> flags;
  for (int i = 4; i < argc; ++i) if (std::string(argv[i]) != "--") flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool T(DB, {file});
  Factory F(out);
  return T.run(&F);
}
