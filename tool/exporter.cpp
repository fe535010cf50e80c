// Fact exporter: lowers every function of the analysed repository (definitions, template
// instantiations, lambdas, used implicit members) to a JSON control-flow graph over the
// type-checked clang AST. It makes no judgement about the code.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Sema/Sema.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
namespace J = llvm::json;

namespace {
std::vector<std::string> Roots; // path prefixes considered "ours"
std::string OutPath;

struct Exporter {
  ASTContext &C; SourceManager &SM; std::unique_ptr<MangleContext> MC; PrintingPolicy PP;
  J::Array Functions, Records, Enums, Vars;
  std::set<const Decl *> SeenFn, SeenRec, SeenVar, SeenEnum;
  Exporter(ASTContext &C) : C(C), SM(C.getSourceManager()), MC(C.createMangleContext()), PP(C.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true; PP.SuppressScope = false;
  }
  std::string fileOf(SourceLocation L) {
    PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L));
    if (P.isInvalid()) return "";
    llvm::SmallString<256> Real;
    std::string f = P.getFilename();
    if (auto FE = SM.getFileEntryForID(SM.getFileID(SM.getExpansionLoc(L)))) { auto R = FE->tryGetRealPathName(); if (!R.empty()) f = R.str(); }
    return f;
  }
  bool ours(SourceLocation L) {
    if (L.isInvalid()) return false;
    std::string f = fileOf(L);
    for (auto &r : Roots) if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  std::string locs(SourceLocation L) {
    PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L));
    if (P.isInvalid()) return "?";
    return std::to_string(P.getLine()) + ":" + std::to_string(P.getColumn());
  }
  std::string ty(QualType T) { return T.isNull() ? "" : T.getCanonicalType().getAsString(PP); }
  std::string qn(const NamedDecl *D) { std::string s; llvm::raw_string_ostream o(s); D->getNameForDiagnostic(o, PP, true); return o.str(); }
  std::string fnId(const FunctionDecl *F) {
    std::string s; llvm::raw_string_ostream o(s);
    GlobalDecl GD;
    if (auto *X = dyn_cast<CXXConstructorDecl>(F)) GD = GlobalDecl(X, Ctor_Complete);
    else if (auto *X = dyn_cast<CXXDestructorDecl>(F)) GD = GlobalDecl(X, Dtor_Complete);
    else GD = GlobalDecl(F);
    if (F->isDependentContext()) { return "dep:" + qn(F); }
    if (MC->shouldMangleDeclName(F)) MC->mangleName(GD, o); else o << F->getNameAsString();
    o.flush();
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) {
      return s + "@" + fileOf(M->getParent()->getLocation()) + ":" + locs(M->getParent()->getLocation());
    }
    if (F->getFormalLinkage() == Linkage::Internal) return s + "@" + fileOf(F->getLocation());
    return s;
  }
  J::Value apv(const APValue &V, QualType T, int depth = 0) {
    switch (V.getKind()) {
    case APValue::Int: { llvm::SmallString<32> s; V.getInt().toString(s, 10); return J::Object{{"i", s.str().str()}}; }
    case APValue::Float: return J::Object{{"f", V.getFloat().convertToDouble()}};
    case APValue::Array: {
      J::Array a; unsigned n = V.getArrayInitializedElts();
      for (unsigned i = 0; i < n; ++i) a.push_back(apv(V.getArrayInitializedElt(i), T, depth + 1));
      J::Object o{{"a", std::move(a)}, {"n", (int64_t)V.getArraySize()}};
      return o; }
    case APValue::Struct: {
      J::Array a; for (unsigned i = 0; i < V.getStructNumFields(); ++i) a.push_back(apv(V.getStructField(i), T, depth + 1));
      return J::Object{{"s", std::move(a)}}; }
    case APValue::LValue: {
      auto B = V.getLValueBase();
      if (auto *E = B.dyn_cast<const Expr *>()) if (auto *SL = dyn_cast<StringLiteral>(E)) if (SL->getCharByteWidth() == 1) return J::Object{{"str", J::fixUTF8(SL->getString())}, {"off", (int64_t)V.getLValueOffset().getQuantity()}};
      if (auto *D = B.dyn_cast<const ValueDecl *>()) { if (auto *F = dyn_cast<FunctionDecl>(D)) return J::Object{{"fn", fnId(F)}}; return J::Object{{"ref", qn(D)}}; }
      if (V.isNullPointer()) return J::Object{{"null", true}};
      return J::Object{{"lv", true}}; }
    default: return J::Object{{"unk", true}};
    }
  }
  J::Object declInfo(const VarDecl *V) {
    J::Object o{{"n", V->getNameAsString()}, {"t", ty(V->getType())}, {"l", locs(V->getLocation())}};
    return o;
  }

  // ---------- per function ----------
  struct Fn {
    Exporter &X; std::map<const Stmt *, int> Ids; J::Array Nodes; std::map<const Decl *, int> DIds; J::Array Decls; std::string baseFile;
    Fn(Exporter &X) : X(X) {}
    int declId(const ValueDecl *D) {
      D = cast<ValueDecl>(D->getCanonicalDecl());
      auto it = DIds.find(D); if (it != DIds.end()) return it->second;
      int id = DIds.size(); DIds[D] = id;
      J::Object o{{"id", id}, {"n", D->getNameAsString()}, {"t", X.ty(D->getType())}, {"q", X.qn(D)}, {"l", X.locs(D->getLocation())}};
      if (auto *V = dyn_cast<VarDecl>(D)) {
        o["k"] = isa<ParmVarDecl>(V) ? "param" : V->hasLocalStorage() ? "local" : V->isStaticLocal() ? "staticlocal" : "global";
        if (V->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
        if (V->isConstexpr()) o["cx"] = true;
        if (V->getType().isConstQualified()) o["const"] = true;
        if (!V->hasLocalStorage()) X.var(V);
      } else if (isa<BindingDecl>(D)) { o["k"] = "binding"; if (auto *B = cast<BindingDecl>(D)->getBinding()) { o["bind"] = node(B);} if (auto*HV=cast<BindingDecl>(D)->getHoldingVar()) o["hold"]=declId(HV); }
      else if (isa<EnumConstantDecl>(D)) o["k"] = "enumconst";
      else o["k"] = "other";
      Decls.push_back(std::move(o));
      return id;
    }
    J::Array kids(const Stmt *S) { J::Array a; for (const Stmt *c : S->children()) a.push_back(c ? J::Value(node(c)) : J::Value(nullptr)); return a; }
    int node(const Stmt *S) {
      if (auto *E = dyn_cast<Expr>(S)) S = E->IgnoreParens();
      if (auto *C = dyn_cast<ConstantExpr>(S)) return node(C->getSubExpr());
      if (auto *C = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) return node(C->getReplacement());
      auto it = Ids.find(S); if (it != Ids.end()) return it->second;
      int id = Ids.size(); Ids[S] = id; Nodes.push_back(nullptr);
      J::Object o{{"id", id}, {"k", S->getStmtClassName()}, {"l", X.locs(S->getBeginLoc())}};
      if (X.fileOf(S->getBeginLoc()) != baseFile) o["f"] = X.fileOf(S->getBeginLoc());
      if (auto *E = dyn_cast<Expr>(S)) {
        o["t"] = X.ty(E->getType()); o["vk"] = E->isLValue() ? "l" : E->isXValue() ? "x" : "r";
        if (!E->isValueDependent() && !E->isInstantiationDependent() && !E->containsErrors() && E->isPRValue() && (E->getType()->isIntegralOrEnumerationType())) {
          Expr::EvalResult R; if (E->EvaluateAsInt(R, X.C, Expr::SE_NoSideEffects)) { llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); o["cv"] = s.str().str(); }
        }
      }
      bool defaultKids = true;
      if (auto *E = dyn_cast<IntegerLiteral>(S)) { llvm::SmallString<32> s; E->getValue().toString(s, 10, false); o["v"] = s.str().str(); }
      else if (auto *E = dyn_cast<CharacterLiteral>(S)) o["v"] = std::to_string((int)E->getValue());
      else if (auto *E = dyn_cast<CXXBoolLiteralExpr>(S)) o["v"] = E->getValue() ? "1" : "0";
      else if (auto *E = dyn_cast<StringLiteral>(S)) { if (E->getCharByteWidth() == 1) o["v"] = J::fixUTF8(E->getString()); o["len"] = (int64_t)E->getByteLength(); }
      else if (auto *E = dyn_cast<DeclRefExpr>(S)) {
        auto *D = E->getDecl();
        if (auto *F = dyn_cast<FunctionDecl>(D)) { o["fn"] = X.fnRef(F); }
        else o["d"] = declId(D);
        if (E->refersToEnclosingVariableOrCapture()) o["cap"] = true;
      } else if (auto *E = dyn_cast<MemberExpr>(S)) {
        if (auto *F = dyn_cast<FunctionDecl>(E->getMemberDecl())) o["fn"] = X.fnRef(F);
        else if (auto *V = dyn_cast<VarDecl>(E->getMemberDecl())) o["d"] = declId(V);
        else o["m"] = X.qn(E->getMemberDecl());
        o["n"] = E->getMemberDecl()->getNameAsString();
        o["arrow"] = E->isArrow();
      } else if (auto *E = dyn_cast<UnaryOperator>(S)) { o["op"] = UnaryOperator::getOpcodeStr(E->getOpcode()).str(); if (E->isPostfix()) o["post"] = true; }
      else if (auto *E = dyn_cast<BinaryOperator>(S)) { o["op"] = E->getOpcodeStr().str(); if (auto *CA = dyn_cast<CompoundAssignOperator>(E)) { o["clt"] = X.ty(CA->getComputationLHSType()); o["crt"] = X.ty(CA->getComputationResultType()); } }
      else if (auto *E = dyn_cast<CastExpr>(S)) { o["ck"] = E->getCastKindName(); if (isa<ExplicitCastExpr>(E)) o["exp"] = true; if (auto*cf=E->getConversionFunction()) if (auto*cfd=dyn_cast<FunctionDecl>(cf)) o["fn"]=X.fnRef(cfd); }
      else if (auto *E = dyn_cast<CallExpr>(S)) {
        if (auto *F = E->getDirectCallee()) { o["fn"] = X.fnRef(F);
          if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->isVirtual()) o["virt"] = true; }
        if (auto *OC = dyn_cast<CXXOperatorCallExpr>(E)) o["oop"] = getOperatorSpelling(OC->getOperator());
      } else if (auto *E = dyn_cast<CXXConstructExpr>(S)) {
        o["fn"] = X.fnRef(E->getConstructor()); if (E->isElidable()) o["elide"] = true; if (E->isListInitialization()) o["list"] = true;
        if (E->requiresZeroInitialization()) o["zi"] = true;
      } else if (auto *E = dyn_cast<LambdaExpr>(S)) {
        o["fn"] = X.fnRef(E->getCallOperator()); J::Array caps;
        auto ci = E->capture_init_begin();
        for (auto &c : E->captures()) {
          J::Object co; co["this"] = c.capturesThis(); co["ref"] = c.getCaptureKind() == LCK_ByRef || c.getCaptureKind() == LCK_This;
          if (c.capturesVariable()) co["d"] = declId(c.getCapturedVar());
          if (ci != E->capture_init_end() && *ci) co["init"] = node(*ci); 
          if (ci != E->capture_init_end()) ++ci;
          caps.push_back(std::move(co));
        }
        o["caps"] = std::move(caps); defaultKids = false;
        X.fn(E->getCallOperator());
      } else if (auto *E = dyn_cast<DeclStmt>(S)) {
        J::Array ds; for (auto *D : E->decls()) if (auto *V = dyn_cast<VarDecl>(D)) {
          J::Object d{{"d", declId(V)}}; if (V->getInit()) d["init"] = node(V->getInit());
          if (auto *DD = dyn_cast<DecompositionDecl>(V)) { J::Array b; for (auto *B : DD->bindings()) b.push_back(declId(B)); d["bind"] = std::move(b); }
          ds.push_back(std::move(d)); }
        o["ds"] = std::move(ds); defaultKids = false;
      } else if (auto *E = dyn_cast<CXXDefaultArgExpr>(S)) { o["c"] = J::Array{node(E->getExpr())}; defaultKids = false; }
      else if (auto *E = dyn_cast<CXXDefaultInitExpr>(S)) { o["c"] = J::Array{node(E->getExpr())}; defaultKids = false; }
      else if (auto *E = dyn_cast<InitListExpr>(S)) { auto *Q = E->isSemanticForm() ? E : (E->getSemanticForm() ? E->getSemanticForm() : E); J::Array a; for (auto *i : Q->inits()) a.push_back(node(i)); o["c"] = std::move(a); defaultKids = false; }
      else if (auto *E = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) { o["tr"] = (int)E->getKind(); }
      else if (auto *E = dyn_cast<CXXNewExpr>(S)) { o["at"] = X.ty(E->getAllocatedType()); if (E->isArray()) o["arr"] = true; if (E->getConstructExpr()) o["ctor"] = node(E->getConstructExpr()); }
      else if (auto *E = dyn_cast<CXXDeleteExpr>(S)) { if (E->isArrayForm()) o["arr"] = true; o["at"] = X.ty(E->getDestroyedType()); if (auto *RD = E->getDestroyedType()->getAsCXXRecordDecl()) if (auto *DD = RD->getDestructor()) o["fn"] = X.fnRef(DD); }
      else if (auto *E = dyn_cast<OpaqueValueExpr>(S)) { if (E->getSourceExpr()) o["c"] = J::Array{node(E->getSourceExpr())}; defaultKids = false; }
      else if (auto *E = dyn_cast<MaterializeTemporaryExpr>(S)) { if (auto *D = E->getExtendingDecl()) o["ext"] = declId(D); }
      else if (auto *E = dyn_cast<CaseStmt>(S)) { (void)E; }
      else if (auto *E = dyn_cast<GotoStmt>(S)) { o["lab"] = E->getLabel()->getNameAsString(); }
      else if (auto *E = dyn_cast<CXXCatchStmt>(S)) { if (E->getExceptionDecl()) o["d"] = declId(E->getExceptionDecl()); else o["all"] = true; }
      if (defaultKids) o["c"] = kids(S);
      Nodes[id] = std::move(o);
      return id;
    }
  };
  J::Object fnRef(const FunctionDecl *F) {
    J::Object o{{"id", fnId(F)}, {"q", qn(F)}, {"n", F->getNameAsString()}};
    J::Array ps; for (auto *p : F->parameters()) ps.push_back(ty(p->getType())); o["p"] = std::move(ps);
    o["r"] = ty(F->getReturnType());
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { o["cls"] = qn(M->getParent()); if (M->isStatic()) o["static"] = true; if (M->isConst()) o["const"] = true; }
    if (isa<CXXConstructorDecl>(F)) { o["ctor"] = true; auto *K = cast<CXXConstructorDecl>(F); if (K->isCopyConstructor()) o["copy"] = true; if (K->isMoveConstructor()) o["move"] = true; if (K->isDefaultConstructor()) o["dflt"] = true; }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { if (M->isCopyAssignmentOperator()) o["cpa"] = true; if (M->isMoveAssignmentOperator()) o["mva"] = true; }
    if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
    if (F->isDefaulted()) o["defaulted"] = true;
    if (F->isNoReturn()) o["noret"] = true;
    if (F->isVariadic()) o["va"] = true;
    if (auto *FPT = F->getType()->getAs<FunctionProtoType>()) if (!isUnresolvedExceptionSpec(FPT->getExceptionSpecType()) && FPT->canThrow() == CT_Cannot) o["noexcept"] = true;
    const FunctionDecl *Def = nullptr;
    const FunctionDecl *Any = F; if (F->isDefined(Def)) Any = Def; else if (auto *P = F->getTemplateInstantiationPattern()) Any = P;
    if (ours(Any->getLocation())) { o["ours"] = true; if (Def) fn(Def); }
    if (unsigned b = F->getBuiltinID()) { (void)b; o["builtin"] = true; }
    return o;
  }
  void var(const VarDecl *V) {
    V = V->getCanonicalDecl(); if (!SeenVar.insert(V).second) return;
    const VarDecl *Def = nullptr; const Expr *I = V->getAnyInitializer(Def);
    if (!Def) Def = V->getDefinition() ? V->getDefinition() : V;
    J::Object o{{"q", qn(V)}, {"n", V->getNameAsString()}, {"t", ty(V->getType())}, {"file", fileOf(Def->getLocation())}, {"l", locs(Def->getLocation())}};
    o["ours"] = ours(Def->getLocation());
    o["static_local"] = V->isStaticLocal(); o["tls"] = V->getTLSKind() != VarDecl::TLS_None; o["constexpr"] = V->isConstexpr(); o["const"] = V->getType().isConstQualified();
    o["inline"] = V->isInline(); o["linkage"] = (int)V->getFormalLinkage(); o["member"] = V->isStaticDataMember(); o["defn"] = (int)(V->getDefinition() != nullptr);
    if (auto *PF = dyn_cast_or_null<FunctionDecl>(V->getParentFunctionOrMethod())) o["infn"] = qn(PF);
    if (I && !I->isValueDependent() && !I->isInstantiationDependent() && ours(Def->getLocation())) {
      if (V->getType()->isReferenceType()) {}
      else if (auto *val = const_cast<VarDecl *>(Def)->evaluateValue()) o["val"] = apv(*val, V->getType());
      // structured initialiser, for tables that are not constant expressions
      Fn f(*this); f.baseFile = fileOf(Def->getLocation()); o["init"] = f.node(I); o["nodes"] = std::move(f.Nodes); o["decls"] = std::move(f.Decls);
    }
    Vars.push_back(std::move(o));
  }
  J::Array Declared; std::set<const Decl *> SeenDecl;
  void fn(const FunctionDecl *F) {
    const FunctionDecl *Def = nullptr;
    if (!F->isDefined(Def)) {
      if (!F->isDependentContext() && ours(F->getLocation()) && !F->isImplicit() && !F->isDeleted() && F->getTemplatedKind() == FunctionDecl::TK_NonTemplate && !F->isPureVirtual() && SeenDecl.insert(F->getCanonicalDecl()).second)
        Declared.push_back(J::Object{{"id", fnId(F)}, {"q", qn(F)}, {"file", fileOf(F->getLocation())}, {"l", locs(F->getLocation())}, {"linkage", (int)F->getFormalLinkage()}, {"access", (int)F->getAccess()}});
      return;
    }
    F = Def;
    if (F->isDependentContext()) return;
    if (!SeenFn.insert(F).second) return;
    if (!ours(F->getLocation())) return;
    J::Object o = fnRef(F);
    o["file"] = fileOf(F->getLocation()); o["l"] = locs(F->getLocation());
    o["endl"] = locs(F->getEndLoc());
    o["inlined"] = F->isInlined(); o["linkage"] = (int)F->getFormalLinkage();
    o["tmplinst"] = F->isTemplateInstantiation();
    o["access"] = (int)F->getAccess(); o["implicit"] = F->isImplicit();
    Fn f(*this); f.baseFile = fileOf(F->getLocation());
    J::Array ps; for (auto *p : F->parameters()) { J::Object po = declInfo(p); po["d"] = f.declId(p); ps.push_back(std::move(po)); } o["params"] = std::move(ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) {
      o["lambda"] = true;
    }
    const Stmt *B = F->getBody();
    if (B) {
      o["body"] = f.node(B);
      CFG::BuildOptions BO; BO.setAllAlwaysAdd(); BO.AddInitializers = true; BO.AddImplicitDtors = true; BO.AddTemporaryDtors = false; BO.AddCXXNewAllocator = false; BO.AddCXXDefaultInitExprInCtors = true; BO.AddCXXDefaultInitExprInAggregates = true; BO.AddRichCXXConstructors = false; BO.PruneTriviallyFalseEdges = true; BO.AddEHEdges = false; BO.AddStaticInitBranches = true; 
      auto G = CFG::buildCFG(F, const_cast<Stmt *>(B), &C, BO);
      if (G) {
        J::Array blocks;
        for (auto *BB : *G) {
          J::Object b{{"id", (int)BB->getBlockID()}};
          J::Array els;
          for (auto &E : *BB) {
            if (auto S = E.getAs<CFGStmt>()) els.push_back(f.node(S->getStmt()));
            else if (auto I = E.getAs<CFGInitializer>()) {
              auto *CI = I->getInitializer(); J::Object io{{"k", "init"}, {"e", f.node(CI->getInit())}, {"written", CI->isWritten()}};
              if (CI->isAnyMemberInitializer()) { io["m"] = qn(CI->getAnyMember()); io["mt"] = ty(CI->getAnyMember()->getType()); } else if (CI->isBaseInitializer()) io["base"] = ty(QualType(CI->getBaseClass(), 0)); else io["deleg"] = true;
              els.push_back(std::move(io));
            } else if (auto D = E.getAs<CFGAutomaticObjDtor>()) {
              J::Object dobj{{"k", "dtor"}, {"d", f.declId(D->getVarDecl())}, {"l", locs(D->getTriggerStmt() ? D->getTriggerStmt()->getEndLoc() : F->getEndLoc())}};
              if (auto *DD = D->getDestructorDecl(C)) dobj["fn"] = fnRef(DD);
              els.push_back(std::move(dobj));
            } else if (auto D = E.getAs<CFGDeleteDtor>()) { els.push_back(J::Object{{"k", "deldtor"}, {"e", f.node(D->getDeleteExpr())}}); }
            else if (auto D = E.getAs<CFGMemberDtor>()) { els.push_back(J::Object{{"k", "memdtor"}, {"m", qn(D->getFieldDecl())}}); }
          }
          b["e"] = std::move(els);
          if (auto *T = BB->getTerminatorStmt()) {
            J::Object t{{"k", T->getStmtClassName()}, {"l", locs(T->getBeginLoc())}};
            if (auto *TC = BB->getTerminatorCondition(true)) t["cond"] = f.node(TC);
            t["s"] = f.node(T);
            if (BB->getTerminator().isTemporaryDtorsBranch()) t["tmpdtor"] = true;
            if (auto *BOp = dyn_cast<BinaryOperator>(T)) t["op"] = BOp->getOpcodeStr().str();
            b["t"] = std::move(t);
          }
          if (auto *L = BB->getLabel()) {
            J::Object lo{{"k", L->getStmtClassName()}};
            if (auto *CS = dyn_cast<CaseStmt>(L)) { lo["lo"] = f.node(CS->getLHS()); if (CS->getRHS()) lo["hi"] = f.node(CS->getRHS()); }
            if (auto *CC = dyn_cast<CXXCatchStmt>(L)) { lo["catch"] = f.node(CC); }
            b["lab"] = std::move(lo);
          }
          if (BB->hasNoReturnElement()) b["noret"] = true;
          if (auto *LT = BB->getLoopTarget()) b["loop"] = f.node(LT);
          J::Array su; for (auto &S : BB->succs()) { if (S.getReachableBlock()) su.push_back((int)S.getReachableBlock()->getBlockID()); else su.push_back(nullptr); }
          b["s"] = std::move(su);
          blocks.push_back(std::move(b));
        }
        o["entry"] = (int)G->getEntry().getBlockID(); o["exit"] = (int)G->getExit().getBlockID();
        o["blocks"] = std::move(blocks);
      }
    } else if (F->isDefaulted()) o["nobody"] = true;
    o["nodes"] = std::move(f.Nodes); o["decls"] = std::move(f.Decls);
    Functions.push_back(std::move(o));
  }
  void record(const CXXRecordDecl *R) {
    if (!R->isCompleteDefinition() || R->isDependentContext()) return;
    if (!SeenRec.insert(R->getCanonicalDecl()).second) return;
    if (!ours(R->getLocation())) return;
    J::Object o{{"q", qn(R)}, {"file", fileOf(R->getLocation())}, {"l", locs(R->getLocation())}};
    J::Array fs; for (auto *f : R->fields()) {
      J::Object fo{{"n", f->getNameAsString()}, {"q", qn(f)}, {"t", ty(f->getType())}, {"mutable", f->isMutable()}};
      if (auto *I = f->getInClassInitializer()) { Fn x(*this); x.baseFile = fileOf(R->getLocation()); fo["init"] = x.node(I); fo["nodes"] = std::move(x.Nodes); Expr::EvalResult ER; if (!I->isValueDependent() && f->getType()->isIntegralOrEnumerationType() && I->EvaluateAsInt(ER, C)) { llvm::SmallString<32> s; ER.Val.getInt().toString(s, 10); fo["iv"] = s.str().str(); } }
      fs.push_back(std::move(fo)); }
    o["fields"] = std::move(fs);
    J::Array bs; for (auto &b : R->bases()) bs.push_back(ty(b.getType())); o["bases"] = std::move(bs);
    J::Array ms; for (auto *m : R->methods()) { J::Object mo{{"id", m->isDependentContext() ? "" : fnId(m)}, {"q", qn(m)}, {"deleted", m->isDeleted()}, {"const", m->isConst()}, {"implicit", m->isImplicit()}, {"access", (int)m->getAccess()}}; ms.push_back(std::move(mo)); }
    o["methods"] = std::move(ms);
    Records.push_back(std::move(o));
  }
  void en(const EnumDecl *E) {
    if (!E->isCompleteDefinition() || !SeenEnum.insert(E->getCanonicalDecl()).second || !ours(E->getLocation())) return;
    J::Array cs; for (auto *c : E->enumerators()) { llvm::SmallString<32> s; c->getInitVal().toString(s, 10); cs.push_back(J::Object{{"n", c->getNameAsString()}, {"v", s.str().str()}}); }
    Enums.push_back(J::Object{{"q", qn(E)}, {"c", std::move(cs)}, {"file", fileOf(E->getLocation())}});
  }
};

class V : public RecursiveASTVisitor<V> {
  Exporter &X;
public:
  V(Exporter &X) : X(X) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) { if (X.ours(F->getLocation()) && F->isThisDeclarationADefinition()) X.fn(F); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { X.record(R); return true; }
  bool VisitEnumDecl(EnumDecl *E) { X.en(E); return true; }
  bool VisitVarDecl(VarDecl *D) { if (!D->hasLocalStorage() && X.ours(D->getLocation()) && !D->getDeclContext()->isDependentContext() && !isa<ParmVarDecl>(D)) X.var(D); return true; }
};
class Cons : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    Exporter X(C);
    // top-level walk, skipping system headers for speed
    V v(X);
    v.TraverseDecl(C.getTranslationUnitDecl());
    std::error_code EC; llvm::raw_fd_ostream os(OutPath, EC);
    J::Object o{{"functions", std::move(X.Functions)}, {"records", std::move(X.Records)}, {"enums", std::move(X.Enums)}, {"vars", std::move(X.Vars)}, {"declared", std::move(X.Declared)}, {"errors", (int64_t)(C.getDiagnostics().hasErrorOccurred() ? 1 : 0)}};
    os << J::Value(std::move(o)); os << "\n";
  }
};
class Act : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); }
};
struct Fac : tooling::FrontendActionFactory { std::unique_ptr<FrontendAction> create() override { return std::make_unique<Act>(); } };

} // namespace

// usage: exporter OUT ROOT[,ROOT...] SRC -- compile args
int main(int argc, char **argv) {
  if (argc < 5) return 2;
  OutPath = argv[1]; std::string r = argv[2]; size_t p = 0;
  while (p <= r.size()) { auto q = r.find(',', p); if (q == std::string::npos) q = r.size(); if (q > p) Roots.push_back(r.substr(p, q - p)); p = q + 1; }
  std::string src = argv[3]; std::vector<std::string> args; for (int i = 5; i < argc; ++i) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", args);
  tooling::ClangTool T(DB, {src});
  Fac F; return T.run(&F);
}
