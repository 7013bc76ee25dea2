// Fact extractor: dumps, for one C translation unit, every function defined in
// the analysed tree as clang's own CFG over a table of resolved expression
// nodes, plus the records, enums and globals.  No code is run.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;
namespace J = llvm::json;

static std::string gRoot, gOut;

struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, int> declIds;
  Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()) {}

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L).str();
    if (F.rfind(gRoot + "/", 0) == 0) F = F.substr(gRoot.size() + 1);
    while (F.rfind("./", 0) == 0) F = F.substr(2);
    return F;
  }
  bool inTree(SourceLocation L) {
    if (L.isInvalid()) return false;
    std::string F = fileOf(L);
    return !F.empty() && F[0] != '/';
  }
  unsigned lineOf(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  std::string ty(QualType T) { return T.getUnqualifiedType().getAsString(PP); }
  std::string cty(QualType T) { return T.getCanonicalType().getUnqualifiedType().getAsString(PP); }
  int did(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = declIds.find(D);
    if (it != declIds.end()) return it->second;
    int n = declIds.size();
    declIds[D] = n;
    return n;
  }
  J::Array macros(SourceLocation L) {
    J::Array A;
    int n = 0;
    while (L.isMacroID() && n++ < 12) {
      if (SM.isMacroArgExpansion(L)) {
        L = SM.getImmediateExpansionRange(L).getBegin();
        // argument text: belongs to the caller side of that macro
        continue;
      }
      A.push_back(Lexer::getImmediateMacroName(L, SM, C.getLangOpts()).str());
      L = SM.getImmediateExpansionRange(L).getBegin();
    }
    return A;
  }

  // ---- per function
  std::map<const Stmt *, int> ids;
  J::Array nodes;

  const Stmt *strip(const Stmt *S) {
    while (S) {
      if (auto P = dyn_cast<ParenExpr>(S)) { S = P->getSubExpr(); continue; }
      if (auto P = dyn_cast<ConstantExpr>(S)) { S = P->getSubExpr(); continue; }
      if (auto P = dyn_cast<GenericSelectionExpr>(S)) { S = P->getResultExpr(); continue; }
      if (auto P = dyn_cast<ImplicitCastExpr>(S)) {
        if (P->getCastKind() == CK_FloatingToIntegral || P->getCastKind() == CK_IntegralToFloating) break;
        S = P->getSubExpr(); continue;
      }
      if (auto P = dyn_cast<OpaqueValueExpr>(S)) { if (P->getSourceExpr()) { S = P->getSourceExpr(); continue; } }
      break;
    }
    return S;
  }

  int node(const Stmt *S0) {
    const Stmt *S = strip(S0);
    if (!S) return -1;
    auto it = ids.find(S);
    if (it != ids.end()) return it->second;
    J::Object O;
    O["line"] = lineOf(S->getBeginLoc());
    O["col"] = SM.getExpansionColumnNumber(S->getBeginLoc());
    J::Array ms = macros(S->getBeginLoc());
    if (!ms.empty()) O["mac"] = std::move(ms);
    std::vector<const Stmt *> kids;
    bool useKids = true;
    if (auto E = dyn_cast<Expr>(S)) {
      O["ty"] = ty(E->getType());
      if (cty(E->getType()) != ty(E->getType())) O["cty"] = cty(E->getType());
      if (!E->isValueDependent() && E->getType()->isIntegralOrEnumerationType() && !E->isLValue()) {
        Expr::EvalResult R;
        if (E->EvaluateAsInt(R, C)) {
          auto V = R.Val.getInt();
          if (V.getBitWidth() <= 64) {
            llvm::SmallString<32> s; V.toString(s, 10);
            O["cv"] = std::string(s.str());
            if (!isa<DeclRefExpr>(E) && !isa<UnaryExprOrTypeTraitExpr>(E) && !R.HasSideEffects) {
              O["k"] = "int"; O["c"] = J::Array();
              int n = nodes.size(); nodes.push_back(std::move(O)); ids[S] = n; return n;
            }
          }
        }
      }
    }
    if (auto E = dyn_cast<DeclRefExpr>(S)) {
      O["k"] = "ref";
      auto D = E->getDecl();
      O["name"] = D->getNameAsString();
      if (auto F = dyn_cast<FunctionDecl>(D)) { O["dk"] = "fn"; if (F->getStorageClass()==SC_Static) O["static"]=true; }
      else if (isa<EnumConstantDecl>(D)) O["dk"] = "enum";
      else if (auto P = dyn_cast<ParmVarDecl>(D)) { O["dk"] = "parm"; O["pi"] = (int)P->getFunctionScopeIndex(); O["d"] = did(D); }
      else if (auto V = dyn_cast<VarDecl>(D)) {
        O["d"] = did(D);
        if (V->isLocalVarDecl()) O["dk"] = V->isStaticLocal() ? "slocal" : "local"; else O["dk"] = "global";
      } else O["dk"] = "other";
    } else if (auto E = dyn_cast<MemberExpr>(S)) {
      O["k"] = "mem"; O["f"] = E->getMemberDecl()->getNameAsString();
      O["arrow"] = E->isArrow();
      if (auto FD = dyn_cast<FieldDecl>(E->getMemberDecl())) O["rec"] = recName(FD->getParent());
      kids.push_back(E->getBase());
    } else if (auto E = dyn_cast<CallExpr>(S)) {
      O["k"] = "call";
      if (auto F = E->getDirectCallee()) {
        O["fn"] = F->getNameAsString();
        if (F->isNoReturn()) O["nr"] = true;
      }
      kids.push_back(E->getCallee());
      for (auto A : E->arguments()) kids.push_back(A);
    } else if (auto E = dyn_cast<BinaryOperator>(S)) {
      O["k"] = E->isAssignmentOp() ? "asg" : "bin"; O["op"] = E->getOpcodeStr().str();
      kids = {E->getLHS(), E->getRHS()};
    } else if (auto E = dyn_cast<UnaryOperator>(S)) {
      O["k"] = "un"; O["op"] = UnaryOperator::getOpcodeStr(E->getOpcode()).str();
      if (E->isIncrementDecrementOp()) { O["incdec"] = true; O["post"] = E->isPostfix(); }
      kids = {E->getSubExpr()};
    } else if (auto E = dyn_cast<ArraySubscriptExpr>(S)) {
      O["k"] = "idx"; kids = {E->getBase(), E->getIdx()};
      auto BT = E->getBase()->IgnoreImpCasts()->getType();
      if (auto CA = C.getAsConstantArrayType(BT)) O["asize"] = (int64_t)CA->getSize().getZExtValue();
    } else if (auto E = dyn_cast<CastExpr>(S)) {
      O["k"] = "cast"; O["ck"] = E->getCastKindName(); O["impl"] = isa<ImplicitCastExpr>(E); kids = {E->getSubExpr()};
    } else if (auto E = dyn_cast<IntegerLiteral>(S)) { O["k"] = "int"; }
    else if (auto E = dyn_cast<CharacterLiteral>(S)) { O["k"] = "int"; }
    else if (auto E = dyn_cast<FloatingLiteral>(S)) { O["k"] = "flt"; O["v"] = E->getValueAsApproximateDouble(); }
    else if (auto E = dyn_cast<StringLiteral>(S)) { O["k"] = "str"; if (E->isOrdinary()) O["v"] = J::isUTF8(E->getString()) ? E->getString().str() : std::string("?"); O["len"] = (int)E->getLength(); }
    else if (auto E = dyn_cast<PredefinedExpr>(S)) { O["k"] = "str"; O["v"] = E->getFunctionName() ? E->getFunctionName()->getString().str() : ""; useKids = false; }
    else if (auto E = dyn_cast<ConditionalOperator>(S)) { O["k"] = "cond"; kids = {E->getCond(), E->getTrueExpr(), E->getFalseExpr()}; }
    else if (auto E = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
      O["k"] = "sizeof"; useKids = false;
      if (E->isArgumentType()) O["of"] = ty(E->getArgumentType()); else { O["of"] = ty(E->getArgumentExpr()->getType()); }
    } else if (auto E = dyn_cast<InitListExpr>(S)) { O["k"] = "init"; for (auto I : E->inits()) kids.push_back(I); }
    else if (auto E = dyn_cast<StmtExpr>(S)) { O["k"] = "stmtexpr"; useKids = false;
      const Stmt *last = nullptr; for (auto X : E->getSubStmt()->body()) last = X;
      if (auto LE = dyn_cast_or_null<Expr>(last)) kids.push_back(LE), useKids = true; }
    else if (auto D = dyn_cast<DeclStmt>(S)) {
      O["k"] = "decl";
      J::Array vs;
      for (auto X : D->decls()) if (auto V = dyn_cast<VarDecl>(X)) {
        J::Object v; v["name"] = V->getNameAsString(); v["d"] = did(V); v["ty"] = ty(V->getType()); v["cty"] = cty(V->getType());
        if (V->isStaticLocal()) v["static"] = true;
        v["init"] = V->getInit() ? node(V->getInit()) : -1;
        if (auto CA = C.getAsConstantArrayType(V->getType())) v["asize"] = (int64_t)CA->getSize().getZExtValue();
        vs.push_back(std::move(v));
      }
      O["vars"] = std::move(vs); useKids = false;
    } else if (auto R = dyn_cast<ReturnStmt>(S)) { O["k"] = "ret"; if (R->getRetValue()) kids.push_back(R->getRetValue()); }
    else if (auto L = dyn_cast<LabelStmt>(S)) { O["k"] = "label"; O["name"] = L->getName(); useKids = false; }
    else if (isa<Expr>(S)) { O["k"] = "expr"; O["cls"] = S->getStmtClassName(); for (auto X : S->children()) kids.push_back(X); }
    else { O["k"] = "stmt"; O["cls"] = S->getStmtClassName(); useKids = false; }
    J::Array ks;
    if (useKids) for (auto X : kids) ks.push_back(node(X));
    O["c"] = std::move(ks);
    int n = nodes.size();
    nodes.push_back(std::move(O));
    ids[S] = n;
    return n;
  }
  std::string recName(const RecordDecl *R) {
    std::string n = R->getNameAsString();
    if (n.empty()) if (auto T = R->getTypedefNameForAnonDecl()) n = T->getNameAsString();
    if (n.empty()) {
      // anonymous: name by location independent parent
      n = "(anon)";
      if (auto P = dyn_cast_or_null<RecordDecl>(R->getParent())) n = recName(P) + "::(anon)";
    }
    return n;
  }

  void markConst(const Stmt *S, bool in, std::set<const Stmt *> &skip) {
    if (!S) return;
    if (in) skip.insert(S);
    bool c = in;
    if (!c) if (auto E = dyn_cast<Expr>(S))
      if (!isa<DeclRefExpr>(E) && !isa<UnaryExprOrTypeTraitExpr>(E) && !E->isValueDependent() && !E->isLValue() && E->getType()->isIntegralOrEnumerationType()) {
        Expr::EvalResult R;
        if (E->EvaluateAsInt(R, C) && !R.HasSideEffects) c = true;
      }
    for (auto X : S->children()) markConst(X, c, skip);
  }
  J::Object function(const FunctionDecl *F) {
    ids.clear(); nodes = J::Array();
    J::Object O;
    O["name"] = F->getNameAsString();
    O["file"] = fileOf(F->getLocation());
    O["line"] = lineOf(F->getLocation());
    O["endline"] = lineOf(F->getBody()->getEndLoc());
    O["static"] = F->getStorageClass() == SC_Static;
    O["noreturn"] = F->isNoReturn();
    O["variadic"] = F->isVariadic();
    O["ret"] = ty(F->getReturnType());
    J::Array ps;
    for (auto P : F->parameters()) {
      J::Object p; p["name"] = P->getNameAsString(); p["d"] = did(P); p["ty"] = ty(P->getType()); p["cty"] = cty(P->getType());
      ps.push_back(std::move(p));
    }
    O["params"] = std::move(ps);
    CFG::BuildOptions BO;
    BO.setAllAlwaysAdd();
    BO.PruneTriviallyFalseEdges = true;
    auto G = CFG::buildCFG(F, F->getBody(), &C, BO);
    if (!G) { O["nocfg"] = true; return O; }
    std::set<const Stmt *> skip;
    markConst(F->getBody(), false, skip);
    J::Array bs;
    O["entry"] = (int)G->getEntry().getBlockID();
    O["exit"] = (int)G->getExit().getBlockID();
    for (CFGBlock *B : *G) {
      J::Object b;
      b["id"] = (int)B->getBlockID();
      J::Array es;
      std::set<int> seen;
      for (auto &El : *B) {
        if (auto CS = El.getAs<CFGStmt>()) {
          const Stmt *S = CS->getStmt();
          if (strip(S) != S || skip.count(S)) continue;
          es.push_back(node(S));
        }
      }
      b["e"] = std::move(es);
      if (B->hasNoReturnElement()) b["nr"] = true;
      if (auto L = B->getLabel()) {
        if (auto LS = dyn_cast<LabelStmt>(L)) b["label"] = LS->getName();
        else if (auto CS = dyn_cast<CaseStmt>(L)) {
          b["case"] = node(CS->getLHS());
          if (CS->getRHS()) b["case2"] = node(CS->getRHS());
        } else if (isa<DefaultStmt>(L)) b["default"] = true;
        b["lline"] = lineOf(L->getBeginLoc());
      }
      if (auto T = B->getTerminatorStmt()) {
        b["t"] = T->getStmtClassName();
        b["tl"] = lineOf(T->getBeginLoc());
        if (isa<Expr>(T)) b["tn"] = node(T);
        if (auto BOp = dyn_cast<BinaryOperator>(T)) b["top"] = BOp->getOpcodeStr().str();
        if (auto TC = B->getTerminatorCondition()) b["cond"] = node(TC);
        if (auto SS = dyn_cast<SwitchStmt>(T)) b["cond"] = node(SS->getCond());
      }
      J::Array ss;
      for (auto &A : B->succs()) {
        if (CFGBlock *R = A.getReachableBlock()) ss.push_back((int)R->getBlockID());
        else ss.push_back(nullptr);
      }
      b["s"] = std::move(ss);
      bs.push_back(std::move(b));
    }
    O["blocks"] = std::move(bs);
    O["nodes"] = std::move(nodes);
    return O;
  }
};

class V : public RecursiveASTVisitor<V> {
public:
  Dumper &D;
  J::Array fns, recs, enums, globals, typedefs, decls;
  V(Dumper &d) : D(d) {}
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->doesThisDeclarationHaveABody()) { if (D.inTree(F->getLocation())) fns.push_back(D.function(F)); }
    else if (D.inTree(F->getLocation())) {
      J::Object o; o["name"] = F->getNameAsString(); o["file"] = D.fileOf(F->getLocation()); o["line"] = D.lineOf(F->getLocation());
      o["noreturn"] = F->isNoReturn(); decls.push_back(std::move(o));
    }
    return true;
  }
  bool VisitRecordDecl(RecordDecl *R) {
    if (!R->isCompleteDefinition() || !D.inTree(R->getLocation())) return true;
    J::Object o; o["name"] = D.recName(R); o["file"] = D.fileOf(R->getLocation()); o["line"] = D.lineOf(R->getLocation());
    if (auto T = R->getTypedefNameForAnonDecl()) o["typedef"] = T->getNameAsString();
    o["union"] = R->isUnion();
    J::Array fs;
    for (auto F : R->fields()) {
      J::Object f; f["name"] = F->getNameAsString(); f["ty"] = D.ty(F->getType()); f["cty"] = D.cty(F->getType()); f["line"] = D.lineOf(F->getLocation());
      if (F->isBitField()) f["bits"] = true;
      if (auto CA = D.C.getAsConstantArrayType(F->getType())) f["asize"] = (int64_t)CA->getSize().getZExtValue();
      QualType T = F->getType();
      if (auto RT = T->getAsRecordDecl()) f["rec"] = D.recName(RT);
      if (T->isPointerType()) if (auto RT = T->getPointeeType()->getAsRecordDecl()) f["prec"] = D.recName(RT);
      fs.push_back(std::move(f));
    }
    o["fields"] = std::move(fs);
    recs.push_back(std::move(o));
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!E->isCompleteDefinition() || !D.inTree(E->getLocation())) return true;
    J::Object o; o["name"] = E->getNameAsString();
    if (auto T = E->getTypedefNameForAnonDecl()) o["typedef"] = T->getNameAsString();
    o["file"] = D.fileOf(E->getLocation()); o["line"] = D.lineOf(E->getLocation());
    J::Array cs;
    for (auto K : E->enumerators()) { J::Object c; c["name"] = K->getNameAsString(); llvm::SmallString<20> s; K->getInitVal().toString(s, 10); c["v"] = std::string(s.str()); cs.push_back(std::move(c)); }
    o["consts"] = std::move(cs);
    enums.push_back(std::move(o));
    return true;
  }
  bool VisitTypedefDecl(TypedefDecl *T) {
    if (!D.inTree(T->getLocation())) return true;
    J::Object o; o["name"] = T->getNameAsString(); o["ty"] = D.ty(T->getUnderlyingType()); o["cty"] = D.cty(T->getUnderlyingType());
    typedefs.push_back(std::move(o));
    return true;
  }
  bool VisitVarDecl(VarDecl *X) {
    if (!X->isFileVarDecl() || !D.inTree(X->getLocation())) return true;
    J::Object o; o["name"] = X->getNameAsString(); o["ty"] = D.ty(X->getType()); o["cty"] = D.cty(X->getType());
    o["file"] = D.fileOf(X->getLocation()); o["line"] = D.lineOf(X->getLocation());
    o["static"] = X->getStorageClass() == SC_Static; o["def"] = X->isThisDeclarationADefinition() != VarDecl::DeclarationOnly;
    if (auto CA = D.C.getAsConstantArrayType(X->getType())) o["asize"] = (int64_t)CA->getSize().getZExtValue();
    if (X->getInit()) {
      D.ids.clear(); D.nodes = J::Array();
      int n = D.node(X->getInit());
      o["init"] = n; o["nodes"] = std::move(D.nodes);
      D.nodes = J::Array(); D.ids.clear();
    }
    globals.push_back(std::move(o));
    return true;
  }
};

class Cons : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Dumper D(C);
    V v(D);
    v.TraverseDecl(C.getTranslationUnitDecl());
    J::Object o;
    o["fns"] = std::move(v.fns); o["recs"] = std::move(v.recs); o["enums"] = std::move(v.enums);
    o["globals"] = std::move(v.globals); o["typedefs"] = std::move(v.typedefs); o["decls"] = std::move(v.decls);
    std::error_code ec;
    llvm::raw_fd_ostream os(gOut, ec);
    os << J::Value(std::move(o));
  }
};
class Act : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
    CI.getDiagnostics().setSuppressAllDiagnostics(false);
    return std::make_unique<Cons>();
  }
};

// usage: extract ROOT SRC OUT -- flags...
int main(int argc, const char **argv) {
  gRoot = argv[1];
  std::string src = argv[2];
  gOut = argv[3];
  std::vector<std::string> flags;
  for (int i = 5; i < argc; i++) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(gRoot, flags);
  tooling::ClangTool T(DB, {src});
  T.clearArgumentsAdjusters();
  T.appendArgumentsAdjuster(tooling::getClangSyntaxOnlyAdjuster());
  return T.run(tooling::newFrontendActionFactory<Act>().get());
}
