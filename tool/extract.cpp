// kfacts: dump, for every function defined under a source root, its type-resolved
// syntax tree and control-flow graph as JSON lines.  libTooling, clang 18.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <set>
#include <map>
#include <string>
using namespace clang;
namespace json = llvm::json;

static std::string Root;              // only code below this directory is dumped
static llvm::raw_fd_ostream *Out;
static std::set<std::string> Done;    // keys already dumped by this process

static std::string usr(const Decl *D) {
  llvm::SmallString<256> Buf;
  // the first declaration: constness of parameters may differ between declaration and definition, and the name with it
  if (auto *F = dyn_cast_or_null<FunctionDecl>(D)) D = F->getCanonicalDecl();
  if (!D || index::generateUSRForDecl(D, Buf)) return "";
  return std::string(Buf);
}
static std::string qname(const NamedDecl *D) { return D ? D->getQualifiedNameAsString() : ""; }

struct Dumper {
  ASTContext &C; SourceManager &SM; PrintingPolicy PP;
  std::map<const Stmt*, int> Ids;
  std::map<const Decl*, int> DeclIds;
  std::vector<json::Value> Nodes;
  std::map<std::string,int> TypeIds; std::vector<std::string> Types;
  Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) { PP.SuppressTagKeyword = true; }

  int type(QualType T) {
    if (T.isNull()) return -1;
    std::string s = T.getAsString(PP) + "\x01" + T.getCanonicalType().getAsString(PP);
    auto it = TypeIds.find(s); if (it != TypeIds.end()) return it->second;
    int id = Types.size(); TypeIds[s] = id; Types.push_back(s); return id;
  }
  int declId(const Decl *D) {
    if (!D) return -1; D = D->getCanonicalDecl();
    auto it = DeclIds.find(D); if (it != DeclIds.end()) return it->second;
    int id = DeclIds.size(); DeclIds[D] = id; return id;
  }
  std::string file(SourceLocation L) {
    auto P = SM.getPresumedLoc(SM.getExpansionLoc(L)); 
    return P.isValid() ? P.getFilename() : "";
  }
  unsigned line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  json::Array macros(SourceLocation L) {
    json::Array A; int n = 0;
    while (L.isMacroID() && n++ < 12) {
      A.push_back(Lexer::getImmediateMacroName(L, SM, C.getLangOpts()).str());
      if (SM.isMacroArgExpansion(L)) A.back() = json::Value("@" + Lexer::getImmediateMacroName(L, SM, C.getLangOpts()).str());
      L = SM.getImmediateMacroCallerLoc(L);
    }
    return A;
  }
  void declInfo(json::Object &O, const ValueDecl *D) {
    O["d"] = declId(D); O["dn"] = D->getNameAsString(); O["dk"] = D->getDeclKindName();
    if (!isa<ParmVarDecl>(D)) {
      auto *V = dyn_cast<VarDecl>(D);
      if (!V || !V->isLocalVarDecl()) O["dq"] = qname(D);
      if (V && (V->hasGlobalStorage())) O["gl"] = 1;
    }
    if (isa<FunctionDecl>(D)) O["du"] = usr(D);
  }
  void calleeInfo(json::Object &O, const FunctionDecl *F) {
    if (!F) return;
    O["cal"] = usr(F); O["caln"] = qname(F);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isVirtual()) O["virt"] = 1;
      if (M->isConst()) O["cconst"] = 1;
      if (M->isStatic()) O["cstatic"] = 1;
    }
    json::Array P; for (auto *p : F->parameters()) P.push_back(type(p->getType())); O["cpt"] = std::move(P);
    O["crt"] = type(F->getReturnType());
    if (F->isNoReturn() || F->hasAttr<NoReturnAttr>() || F->hasAttr<AnalyzerNoReturnAttr>()) O["nr"] = 1;
    if (F->isInStdNamespace()) O["std"] = 1;
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      json::Array A; for (auto &a : TA->asArray()) { std::string s; llvm::raw_string_ostream os(s); a.print(PP, os, true); A.push_back(os.str()); }
      O["cta"] = std::move(A);
    }
  }
  int node(const Stmt *S) {
    if (!S) return -1;
    auto it = Ids.find(S); if (it != Ids.end()) return it->second;
    int id = Nodes.size(); Ids[S] = id; Nodes.push_back(nullptr);
    json::Object O; O["k"] = S->getStmtClassName();
    SourceLocation L = S->getBeginLoc();
    if (auto *CE = dyn_cast<CXXOperatorCallExpr>(S)) L = CE->getOperatorLoc();
    else if (auto *BO = dyn_cast<BinaryOperator>(S)) L = BO->getOperatorLoc();
    else if (auto *ME = dyn_cast<MemberExpr>(S)) L = ME->getMemberLoc();
    O["l"] = line(L);
    { auto P = SM.getPresumedLoc(SM.getExpansionLoc(L)); if (P.isValid()) O["co"] = P.getColumn(); }
    if (L.isMacroID()) O["m"] = macros(L);
    if (auto *E = dyn_cast<Expr>(S)) { O["t"] = type(E->getType()); if (E->isLValue()) O["lv"] = 1; 
      if (!E->isValueDependent() && !E->isTypeDependent() && E->getType()->isIntegralOrEnumerationType() && !isa<InitListExpr>(E)) {
        Expr::EvalResult R; if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) { llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); O["cv"] = std::string(s); } }
    }
    bool customKids = false; json::Array Kids;
    auto kid = [&](const Stmt *K) { Kids.push_back(node(K)); };
    if (auto *DR = dyn_cast<DeclRefExpr>(S)) declInfo(O, DR->getDecl());
    else if (auto *ME = dyn_cast<MemberExpr>(S)) { declInfo(O, ME->getMemberDecl()); if (ME->isArrow()) O["arrow"] = 1; }
    else if (auto *CE = dyn_cast<CallExpr>(S)) {
      calleeInfo(O, CE->getDirectCallee());
      if (auto *OC = dyn_cast<CXXOperatorCallExpr>(S)) O["op"] = getOperatorSpelling(OC->getOperator());
    }
    else if (auto *CC = dyn_cast<CXXConstructExpr>(S)) { calleeInfo(O, CC->getConstructor()); if (CC->isElidable()) O["el"] = 1; 
      if (CC->getConstructor()->isCopyConstructor()) O["copy"] = 1; if (CC->getConstructor()->isMoveConstructor()) O["move"] = 1; 
      if (CC->getConstructor()->isDefaultConstructor()) O["defc"] = 1; }
    else if (auto *IC = dyn_cast<CXXInheritedCtorInitExpr>(S)) { calleeInfo(O, IC->getConstructor()); }
    else if (auto *BO = dyn_cast<BinaryOperator>(S)) { O["op"] = BO->getOpcodeStr().str();
      if (auto *CA = dyn_cast<CompoundAssignOperator>(S)) { O["clt"] = type(CA->getComputationLHSType()); O["crt2"] = type(CA->getComputationResultType()); } }
    else if (auto *UO = dyn_cast<UnaryOperator>(S)) { O["op"] = UnaryOperator::getOpcodeStr(UO->getOpcode()).str(); if (UO->isPostfix()) O["post"] = 1; }
    else if (auto *IL = dyn_cast<IntegerLiteral>(S)) { llvm::SmallString<32> s; IL->getValue().toString(s, 10, IL->getType()->isSignedIntegerType()); O["v"] = std::string(s); }
    else if (auto *FL = dyn_cast<FloatingLiteral>(S)) { O["v"] = FL->getValueAsApproximateDouble(); }
    else if (auto *SL = dyn_cast<StringLiteral>(S)) { if (SL->isOrdinary()||SL->isUTF8()) { std::string s = SL->getString().str(); if (!json::isUTF8(s)) s = json::fixUTF8(s); O["v"] = s; } }
    else if (auto *BL = dyn_cast<CXXBoolLiteralExpr>(S)) O["v"] = BL->getValue();
    else if (auto *CL = dyn_cast<CharacterLiteral>(S)) O["v"] = (int64_t)CL->getValue();
    else if (auto *CE = dyn_cast<CastExpr>(S)) { O["ck"] = CE->getCastKindName(); if (isa<ExplicitCastExpr>(S)) O["ex"] = 1;
       if (auto *I = dyn_cast<ImplicitCastExpr>(S)) if (I->isPartOfExplicitCast()) O["pex"] = 1;
       if (auto *F = dyn_cast_or_null<FunctionDecl>(CE->getConversionFunction())) { O["conv"] = qname(F); } }
    else if (auto *NE = dyn_cast<CXXNewExpr>(S)) { O["nt"] = type(NE->getAllocatedType()); if (NE->isArray()) { O["arr"] = 1; } }
    else if (auto *DE = dyn_cast<CXXDeleteExpr>(S)) { if (DE->isArrayForm()) O["arr"] = 1; O["nt"] = type(DE->getDestroyedType()); }
    else if (auto *DS = dyn_cast<DeclStmt>(S)) {
      customKids = true; json::Array V;
      for (auto *D : DS->decls()) if (auto *VD = dyn_cast<VarDecl>(D)) {
        json::Object o; o["d"] = declId(VD); o["n"] = VD->getNameAsString(); o["t"] = type(VD->getType());
        if (VD->isStaticLocal()) o["static"] = 1;
        if (VD->hasInit()) { int i = node(VD->getInit()); o["i"] = i; Kids.push_back(i); }
        V.push_back(std::move(o)); }
      O["vars"] = std::move(V);
    }
    else if (auto *FR = dyn_cast<CXXForRangeStmt>(S)) {
      O["lv_d"] = declId(FR->getLoopVariable()); O["lv_n"] = FR->getLoopVariable()->getNameAsString(); O["lv_t"] = type(FR->getLoopVariable()->getType());
      O["range"] = node(FR->getRangeInit()); O["body"] = node(FR->getBody());
    }
    else if (auto *F = dyn_cast<ForStmt>(S)) { O["init"] = node(F->getInit()); O["cond"] = node(F->getCond()); O["inc"] = node(F->getInc()); O["body"] = node(F->getBody()); }
    else if (auto *F = dyn_cast<WhileStmt>(S)) { O["cond"] = node(F->getCond()); O["body"] = node(F->getBody()); }
    else if (auto *F = dyn_cast<DoStmt>(S)) { O["cond"] = node(F->getCond()); O["body"] = node(F->getBody()); }
    else if (auto *F = dyn_cast<IfStmt>(S)) { O["cond"] = node(F->getCond()); O["then"] = node(F->getThen()); O["else"] = node(F->getElse()); }
    else if (auto *F = dyn_cast<SwitchStmt>(S)) { O["cond"] = node(F->getCond()); O["body"] = node(F->getBody()); }
    else if (auto *F = dyn_cast<CaseStmt>(S)) { O["cval"] = node(F->getLHS()); O["sub"] = node(F->getSubStmt()); }
    else if (auto *LE = dyn_cast<LambdaExpr>(S)) {
      customKids = true; O["lam"] = usr(LE->getCallOperator());
      json::Array Caps; for (auto &c : LE->captures()) { json::Object o; if (c.capturesVariable()) { o["d"] = declId(c.getCapturedVar()); o["n"] = c.getCapturedVar()->getNameAsString(); o["ref"] = c.getCaptureKind() == LCK_ByRef; } else if (c.capturesThis()) o["this"] = 1; Caps.push_back(std::move(o)); }
      O["caps"] = std::move(Caps);
      O["lbody"] = node(LE->getBody());
      json::Array lp; for (auto *p : LE->getCallOperator()->parameters()) { json::Object o; o["d"]=declId(p); o["n"]=p->getNameAsString(); o["t"]=type(p->getType()); lp.push_back(std::move(o)); }
      O["lparams"] = std::move(lp);
      for (auto *e : LE->capture_inits()) kid(e);
    }
    else if (auto *DA = dyn_cast<CXXDefaultArgExpr>(S)) { customKids = true; kid(DA->getExpr()); }
    else if (auto *DI = dyn_cast<CXXDefaultInitExpr>(S)) { customKids = true; kid(DI->getExpr()); }
    else if (auto *OV = dyn_cast<OpaqueValueExpr>(S)) { customKids = true; kid(OV->getSourceExpr()); }
    else if (auto *CT = dyn_cast<CXXCatchStmt>(S)) { if (CT->getExceptionDecl()) { O["cd"] = declId(CT->getExceptionDecl()); O["ct"] = type(CT->getCaughtType()); } }
    else if (auto *UE = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) { O["op"] = "sizeof/alignof"; customKids = true; (void)UE; }
    else if (auto *GS = dyn_cast<GotoStmt>(S)) O["label"] = GS->getLabel()->getNameAsString();
    else if (auto *LS = dyn_cast<LabelStmt>(S)) O["label"] = LS->getName();
    if (!customKids) for (const Stmt *K : S->children()) Kids.push_back(node(K));
    O["c"] = std::move(Kids);
    Nodes[id] = std::move(O);
    return id;
  }
  json::Value take() { json::Array A; for (auto &n : Nodes) A.push_back(std::move(n)); return json::Value(std::move(A)); }
  json::Value types() { json::Array A; for (auto &s : Types) A.push_back(s); return json::Value(std::move(A)); }
};

static bool inRoot(SourceManager &SM, SourceLocation L) {
  if (L.isInvalid()) return false;
  auto P = SM.getPresumedLoc(SM.getExpansionLoc(L));
  return P.isValid() && llvm::StringRef(P.getFilename()).starts_with(Root);
}

struct V : RecursiveASTVisitor<V> {
  ASTContext &C; V(ASTContext &C) : C(C) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool shouldVisitLambdaBody() const { return true; }
  void emit(json::Object &&O) { *Out << json::Value(std::move(O)) << "\n"; }

  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody() || F->isDependentContext()) return true;
    if (!inRoot(C.getSourceManager(), F->getLocation())) return true;
    if (F->isInvalidDecl()) return true;
    std::string key = usr(F); 
    if (key.empty() || !Done.insert("F" + key).second) return true;
    if (F->isDefaulted() ) return true;
    Dumper D(C);
    json::Object O; O["rec"] = "func"; O["key"] = key; O["name"] = qname(F); O["file"] = D.file(F->getLocation()); O["line"] = D.line(F->getLocation());
    O["endline"] = D.line(F->getEndLoc());
    json::Array Ps; for (auto *p : F->parameters()) { json::Object o; o["d"] = D.declId(p); o["n"] = p->getNameAsString(); o["t"] = D.type(p->getType()); Ps.push_back(std::move(o)); }
    O["params"] = std::move(Ps); O["ret"] = D.type(F->getReturnType());
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { O["cls"] = qname(M->getParent()); if (M->isConst()) O["const"] = 1; if (M->isStatic()) O["static"] = 1; if (M->isVirtual()) O["virt"] = 1;
      if (M->getParent()->isLambda()) O["lambda"] = 1;
      O["access"] = (int)M->getAccess();
      json::Array Ov; for (auto *m : M->overridden_methods()) Ov.push_back(usr(m)); O["over"] = std::move(Ov);
    }
    if (F->isInAnonymousNamespace() || F->getStorageClass() == SC_Static) O["internal"] = 1;
    if (F->isNoReturn()) O["nr"] = 1;
    if (F->isTemplateInstantiation()) O["inst"] = 1;
    if (F->isMain()) O["main"] = 1;
    O["body"] = D.node(F->getBody());
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      O["ctor"] = 1; json::Array I;
      for (auto *i : K->inits()) { json::Object o; if (i->isAnyMemberInitializer()) o["f"] = i->getAnyMember()->getNameAsString(); else if (i->isBaseInitializer()) o["b"] = 1; else o["del"] = 1; o["w"] = i->isWritten(); o["i"] = D.node(i->getInit()); I.push_back(std::move(o)); }
      O["inits"] = std::move(I);
      if (K->isCopyConstructor()) O["copyctor"] = 1;
    }
    if (isa<CXXDestructorDecl>(F)) O["dtor"] = 1;
    CFG::BuildOptions BO; BO.setAllAlwaysAdd(); BO.AddInitializers = true; BO.AddCXXNewAllocator = false; BO.AddEHEdges = true; BO.PruneTriviallyFalseEdges = true;
    auto cfg = CFG::buildCFG(F, F->getBody(), &C, BO);
    if (cfg) {
      json::Array Bs;
      for (auto *B : *cfg) {
        json::Object o; o["id"] = (int)B->getBlockID(); json::Array E, S;
        for (auto &e : *B) {
          if (auto s = e.getAs<CFGStmt>()) E.push_back(D.node(s->getStmt()));
          else if (auto i = e.getAs<CFGInitializer>()) { E.push_back(D.node(i->getInitializer()->getInit())); }
        }
        for (auto s = B->succ_begin(); s != B->succ_end(); ++s) { if (CFGBlock *T = *s) S.push_back((int)T->getBlockID()); else S.push_back(nullptr); }
        o["e"] = std::move(E); o["s"] = std::move(S);
        if (auto *T = B->getTerminatorStmt()) o["t"] = D.node(T);
        if (auto *T = B->getTerminatorCondition()) o["tc"] = D.node(T);
        if (auto *L = B->getLabel()) o["lab"] = D.node(L);
        if (B->hasNoReturnElement()) o["nr"] = 1;
        Bs.push_back(std::move(o));
      }
      O["cfg"] = std::move(Bs); O["entry"] = (int)cfg->getEntry().getBlockID(); O["exit"] = (int)cfg->getExit().getBlockID();
    }
    O["nodes"] = D.take(); O["types"] = D.types();
    emit(std::move(O));
    return true;
  }
  bool VisitVarDecl(VarDecl *VD) {
    if (!VD->isFileVarDecl() || VD->getDeclContext()->isDependentContext()) return true;
    if (!inRoot(C.getSourceManager(), VD->getLocation())) return true;
    if (isa<ParmVarDecl>(VD)) return true;
    std::string key = usr(VD) ; if (VD->getStorageClass()==SC_Static) key += "@" + std::to_string(C.getSourceManager().getExpansionLoc(VD->getLocation()).getRawEncoding());
    if (!Done.insert("V" + key + (VD->hasInit()? "i":"")).second) return true;
    Dumper D(C); json::Object O; O["rec"] = "var"; O["key"] = usr(VD); O["name"] = qname(VD); O["file"] = D.file(VD->getLocation()); O["line"] = D.line(VD->getLocation());
    O["t"] = D.type(VD->getType()); O["def"] = (int)VD->isThisDeclarationADefinition();
    if (VD->hasInit()) O["init"] = D.node(VD->getInit());
    O["nodes"] = D.take(); O["types"] = D.types(); emit(std::move(O)); return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
    if (!inRoot(C.getSourceManager(), R->getLocation())) return true;
    std::string key = usr(R); if (!Done.insert("R" + key).second) return true;
    Dumper D(C); json::Object O; O["rec"] = "record"; O["key"] = key; O["name"] = qname(R); O["file"] = D.file(R->getLocation()); O["line"] = D.line(R->getLocation());
    json::Array Fs; for (auto *f : R->fields()) { json::Object o; o["n"] = f->getNameAsString(); o["t"] = D.type(f->getType()); o["mut"] = f->isMutable(); o["acc"] = (int)f->getAccess(); o["l"] = D.line(f->getLocation()); if (f->hasInClassInitializer() && f->getInClassInitializer()) o["i"] = D.node(f->getInClassInitializer()); 
       QualType T = f->getType(); o["triv"] = (int)(T->isScalarType() || T->isEnumeralType()); Fs.push_back(std::move(o)); }
    O["fields"] = std::move(Fs);
    json::Array Ms; for (auto *m : R->methods()) { json::Object o; o["n"] = m->getNameAsString(); o["u"] = usr(m); o["const"] = (int)m->isConst(); o["static"]=(int)m->isStatic(); o["acc"] = (int)m->getAccess(); o["impl"] = (int)m->isImplicit(); o["pure"]=(int)m->isPureVirtual(); o["def"] = (int)(m->isDefaulted()); o["del"]=(int)m->isDeleted(); o["ctor"] = (int)isa<CXXConstructorDecl>(m); Ms.push_back(std::move(o)); }
    O["methods"] = std::move(Ms);
    json::Array Bs; for (auto &b : R->bases()) Bs.push_back(D.type(b.getType())); O["bases"] = std::move(Bs);
    O["nodes"] = D.take(); O["types"] = D.types(); emit(std::move(O)); return true;
  }
  bool VisitTypedefNameDecl(TypedefNameDecl *T) {
    if (!inRoot(C.getSourceManager(), T->getLocation()) || T->getDeclContext()->isDependentContext() || T->getDeclContext()->isFunctionOrMethod()) return true;
    std::string key = qname(T) + "@" + std::to_string(T->getLocation().getRawEncoding()); if (!Done.insert("T" + key).second) return true;
    Dumper D(C); json::Object O; O["rec"] = "typedef"; O["key"] = qname(T); O["name"] = qname(T); O["file"] = D.file(T->getLocation()); O["line"] = D.line(T->getLocation());
    O["under"] = T->getUnderlyingType().getAsString(C.getPrintingPolicy()); O["canon"] = T->getUnderlyingType().getCanonicalType().getAsString(C.getPrintingPolicy());
    emit(std::move(O)); return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!inRoot(C.getSourceManager(), E->getLocation()) || !E->isThisDeclarationADefinition()) return true;
    std::string key = usr(E); if (!Done.insert("E" + key).second) return true;
    json::Object O; O["rec"] = "enum"; O["key"] = key; O["name"] = qname(E); json::Array A; for (auto *c : E->enumerators()) A.push_back(c->getNameAsString()); O["vals"] = std::move(A); emit(std::move(O)); return true;
  }
};
struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    V v(C);      // system headers hold nothing below the root: do not even walk them
    for (auto *D : C.getTranslationUnitDecl()->decls()) if (inRoot(C.getSourceManager(), D->getLocation())) v.TraverseDecl(D);
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Cons>(); }
};
struct Fac : tooling::FrontendActionFactory { std::unique_ptr<FrontendAction> create() override { return std::make_unique<Act>(); } };

// usage: kfacts ROOT OUT FILE... -- FLAGS...
int main(int argc, const char **argv) {
  std::vector<std::string> files, flags; bool f = false;
  if (argc < 4) return 2;
  Root = argv[1]; std::error_code EC; llvm::raw_fd_ostream os(argv[2], EC); if (EC) { llvm::errs() << EC.message() << "\n"; return 2; } Out = &os;
  for (int i = 3; i < argc; ++i) { std::string a = argv[i]; if (a == "--" && !f) { f = true; continue; } (f ? flags : files).push_back(a); }
  tooling::FixedCompilationDatabase DB(".", flags);
  int rc = 0;
  for (auto &file : files) {
    tooling::ClangTool T(DB, {file});
    Fac fac; int r = T.run(&fac);
    json::Object O; O["rec"] = "tu"; O["file"] = file; O["rc"] = r; *Out << json::Value(std::move(O)) << "\n";
    if (r) rc = 1;
  }
  return rc;
}
