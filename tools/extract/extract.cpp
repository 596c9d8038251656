// Mechanical extractor: typed AST of hg:: functions (template instances included) -> JSON.
// Usage: hvx SRC.cpp OUT.json ROOT_REGEX... -- clang args
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Lex/Lexer.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <deque>
#include <regex>
#include <fstream>
using namespace clang;
namespace J = llvm::json;

static std::vector<std::string> gRoots;
static std::string gOut, gRepo = "/repo/";
static int gStatus = 0;

struct X {
  ASTContext &C; SourceManager &SM; PrintingPolicy PP;
  std::map<const Decl*, int> declIds; int nextDecl = 1;
  std::map<std::string,int> typeIds; std::vector<std::string> types;
  std::map<const FunctionDecl*, std::string> fnIds;
  std::set<std::string> queued; std::deque<const FunctionDecl*> work;
  std::set<const CXXRecordDecl*> recSeen; std::deque<const CXXRecordDecl*> recWork;
  J::Array functions, records;
  std::unique_ptr<MangleContext> MC;
  int anonCount = 0;

  X(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true; PP.Bool = true;
    PP.SuppressUnwrittenScope = true; PP.SuppressInlineNamespace = true; PP.SuppressDefaultTemplateArgs = true;
    MC.reset(ItaniumMangleContext::create(c, c.getDiagnostics()));
  }
  int did(const Decl *D) { D = D->getCanonicalDecl(); auto it = declIds.find(D); if (it != declIds.end()) return it->second; return declIds[D] = nextDecl++; }
  int ty(QualType T) {
    if (T.isNull()) return -1;
    noteRec(T);
    std::string s = T.getCanonicalType().getAsString(PP);
    auto it = typeIds.find(s); if (it != typeIds.end()) return it->second;
    types.push_back(s); return typeIds[s] = (int)types.size() - 1;
  }
  void noteRec(QualType T) {
    T = T.getCanonicalType().getNonReferenceType().getUnqualifiedType();
    if (T->isPointerType()) T = T->getPointeeType();
    if (auto *R = T->getAsCXXRecordDecl()) {
      if (auto *Sp = dyn_cast<ClassTemplateSpecializationDecl>(R))
        for (auto &A : Sp->getTemplateArgs().asArray()) if (A.getKind() == TemplateArgument::Type && !recSeen.count(R)) {
          recSeenTmp(A.getAsType()); }
      if (!R->hasDefinition()) return; R = R->getDefinition();
      if (R->isLambda()) return;
      if (!inRepo(R->getLocation())) { recSeen.insert(R); return; }
      if (recSeen.insert(R).second) recWork.push_back(R);
    }
  }
  void recSeenTmp(QualType T) { if (auto *R = T.getCanonicalType().getNonReferenceType()->getAsCXXRecordDecl()) if (!recSeen.count(R)) noteRec(T); }
  bool inRepo(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    StringRef f = SM.getFilename(L);
    return f.contains("include/higra/") || f.contains("units/clients");
  }
  int line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  std::string file(SourceLocation L) { std::string f = SM.getFilename(SM.getExpansionLoc(L)).str(); auto p = f.find("include/higra/"); return p == std::string::npos ? f : f.substr(p); }
  std::string qname(const NamedDecl *D) {
    std::string s; llvm::raw_string_ostream os(s); PrintingPolicy P2(PP); P2.SuppressTemplateArgsInCXXConstructors = true;
    D->printQualifiedName(os, P2); os.flush();
    return s;
  }
  const FunctionDecl* defOf(const FunctionDecl *F) {
    const FunctionDecl *D = nullptr; if (F->hasBody(D)) return D; return nullptr;
  }
  std::string fid(const FunctionDecl *F) {
    F = F->getCanonicalDecl();
    auto it = fnIds.find(F); if (it != fnIds.end()) return it->second;
    std::string s;
    if (auto *M = dyn_cast<CXXMethodDecl>(F); M && M->getParent()->isLambda()) {
      s = "lambda_" + std::to_string(line(F->getLocation())) + "_" + std::to_string(anonCount++);
    } else {
      llvm::raw_string_ostream os(s);
      if (auto *K = dyn_cast<CXXConstructorDecl>(F)) MC->mangleName(GlobalDecl(K, Ctor_Complete), os);
      else if (auto *K = dyn_cast<CXXDestructorDecl>(F)) MC->mangleName(GlobalDecl(K, Dtor_Complete), os);
      else if (MC->shouldMangleDeclName(F)) MC->mangleName(GlobalDecl(F), os); else os << F->getNameAsString();
      os.flush();
    }
    // lambdas/local types may collide: make unique
    std::string b = s; int k = 0; while (true) { bool dup = false; for (auto &p : fnIds) if (p.second == s) { dup = true; break; } if (!dup) break; s = b + "$" + std::to_string(++k); }
    return fnIds[F] = s;
  }
  bool isLambdaOp(const FunctionDecl *F) { auto *M = dyn_cast<CXXMethodDecl>(F); return M && M->getParent()->isLambda(); }
  void enqueue(const FunctionDecl *F) {
    const FunctionDecl *D = defOf(F); if (!D) return;
    if (D->isDependentContext()) return;
    if (!(inRepo(D->getLocation()) || isLambdaOp(D))) return;
    std::string i = fid(F); if (queued.insert(i).second) work.push_back(D);
  }
  J::Object callee(const FunctionDecl *F) {
    J::Object o; o["name"] = qname(F);
    bool hg = false;
    if (const FunctionDecl *D = defOf(F)) hg = (inRepo(D->getLocation()) || isLambdaOp(D)) && !D->isImplicit() && !D->isDefaulted();
    else if (F->isDefaulted()) hg = false;
    if (hg) { enqueue(F); o["id"] = fid(F); }
    if (F->isDefaulted() || F->isImplicit()) o["defaulted"] = true;
    if (auto *T = F->getTemplateSpecializationArgs()) { J::Array a; for (auto &A : T->asArray()) a.push_back(targ(A)); o["targs"] = std::move(a); }
    o["ret"] = ty(F->getReturnType());
    J::Array ps; for (auto *p : F->parameters()) ps.push_back(ty(p->getType())); o["ptypes"] = std::move(ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { o["const"] = M->isConst(); o["static"] = M->isStatic(); o["rec"] = ty(C.getRecordType(M->getParent())); o["lambda"] = M->getParent()->isLambda();
      if (auto *K = dyn_cast<CXXConstructorDecl>(F)) { o["ctor"] = true; if (K->isCopyOrMoveConstructor()) o["copy"] = true; if (K->isDefaultConstructor()) o["default"] = true; } }
    return o;
  }
  J::Value targ(const TemplateArgument &A) {
    switch (A.getKind()) {
      case TemplateArgument::Type: return J::Object{{"ty", ty(A.getAsType())}};
      case TemplateArgument::Integral: { llvm::SmallString<16> s; A.getAsIntegral().toString(s, 10); return J::Object{{"v", s.str().str()}}; }
      case TemplateArgument::Pack: { J::Array a; for (auto &x : A.pack_elements()) a.push_back(targ(x)); return J::Object{{"pack", std::move(a)}}; }
      default: return J::Object{{"o", true}};
    }
  }
  J::Object unk(const Stmt *S) { return J::Object{{"k", "Unknown"}, {"cls", S->getStmtClassName()}, {"l", line(S->getBeginLoc())}}; }

  // ---------- expressions
  J::Value exprs(CallExpr::const_arg_range R) { J::Array a; for (auto *e : R) a.push_back(expr(e)); return a; }
  J::Value expr(const Expr *E) {
    if (!E) return nullptr;
    J::Object o = expr0(E);
    if (!o.getObject("__pass")) {}
    if (!o.get("ty")) o["ty"] = ty(E->getType());
    if (E->isLValue()) o["lv"] = true;
    return o;
  }
  J::Object sub(const Expr *E) { J::Value v = expr(E); return std::move(*v.getAsObject()); }
  J::Object lit(const llvm::APSInt &v) { llvm::SmallString<32> s; v.toString(s, 10); return J::Object{{"k", "Int"}, {"v", s.str().str()}}; }
  J::Object fl(const llvm::APFloat &v) {
    J::Object o{{"k", "Float"}}; llvm::SmallString<32> s; v.toString(s); o["v"] = s.str().str();
    if (v.isInfinity()) o["inf"] = v.isNegative() ? -1 : 1; if (v.isNaN()) o["nan"] = true;
    if (v.isLargest()) o["largest"] = v.isNegative() ? -1 : 1;
    if (v.isSmallestNormalized()) o["smallest_norm"] = true;
    o["d"] = v.convertToDouble(); if (v.isInfinity()||v.isNaN()) o["d"] = 0.0;
    return o; }
  J::Object expr0(const Expr *E) {
    switch (E->getStmtClass()) {
    case Stmt::ParenExprClass: return sub(cast<ParenExpr>(E)->getSubExpr());
    case Stmt::ExprWithCleanupsClass: case Stmt::ConstantExprClass: return sub(cast<FullExpr>(E)->getSubExpr());
    case Stmt::MaterializeTemporaryExprClass: return sub(cast<MaterializeTemporaryExpr>(E)->getSubExpr());
    case Stmt::CXXBindTemporaryExprClass: return sub(cast<CXXBindTemporaryExpr>(E)->getSubExpr());
    case Stmt::SubstNonTypeTemplateParmExprClass: return sub(cast<SubstNonTypeTemplateParmExpr>(E)->getReplacement());
    case Stmt::CXXDefaultArgExprClass: { auto o = sub(cast<CXXDefaultArgExpr>(E)->getExpr()); o["defarg"] = true; return o; }
    case Stmt::CXXDefaultInitExprClass: return sub(cast<CXXDefaultInitExpr>(E)->getExpr());
    case Stmt::CXXStdInitializerListExprClass: return sub(cast<CXXStdInitializerListExpr>(E)->getSubExpr());
    case Stmt::IntegerLiteralClass: return lit(llvm::APSInt(cast<IntegerLiteral>(E)->getValue(), !E->getType()->isSignedIntegerType()));
    case Stmt::CharacterLiteralClass: return J::Object{{"k", "Int"}, {"v", std::to_string(cast<CharacterLiteral>(E)->getValue())}};
    case Stmt::CXXBoolLiteralExprClass: return J::Object{{"k", "Bool"}, {"v", cast<CXXBoolLiteralExpr>(E)->getValue()}};
    case Stmt::FloatingLiteralClass: return fl(cast<FloatingLiteral>(E)->getValue());
    case Stmt::StringLiteralClass: { auto *L = cast<StringLiteral>(E); std::string h; if (L->getCharByteWidth() == 1) for (unsigned char c : L->getBytes()) { char b[3]; snprintf(b, 3, "%02x", c); h += b; } return J::Object{{"k", "Str"}, {"hex", h}}; }
    case Stmt::PredefinedExprClass: return J::Object{{"k", "Str"}};
    case Stmt::CXXNullPtrLiteralExprClass: return J::Object{{"k", "Null"}};
    case Stmt::CXXThisExprClass: return J::Object{{"k", "This"}};
    case Stmt::CXXScalarValueInitExprClass: return J::Object{{"k", "Zero"}};
    case Stmt::ImplicitValueInitExprClass: return J::Object{{"k", "Zero"}};
    case Stmt::CXXThrowExprClass: return J::Object{{"k", "Throw"}};
    case Stmt::DeclRefExprClass: {
      auto *D = cast<DeclRefExpr>(E)->getDecl();
      J::Object o{{"k", "Ref"}, {"id", did(D)}, {"name", D->getNameAsString()}};
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { o["k"] = "Enum"; llvm::SmallString<32> s; EC->getInitVal().toString(s, 10); o["v"] = s.str().str(); o["q"] = qname(EC); return o; }
      if (auto *F = dyn_cast<FunctionDecl>(D)) { o["k"] = "FnRef"; o["fn"] = callee(F); return o; }
      if (auto *V = dyn_cast<VarDecl>(D)) {
        if (isa<ParmVarDecl>(V)) o["dk"] = "parm"; else if (V->isLocalVarDecl() && !V->isStaticLocal()) o["dk"] = "local"; else {
          o["dk"] = "global"; o["q"] = qname(V);
          if (V->getType().isConstQualified() && V->getAnyInitializer() && !V->getType()->isRecordType()) {
            Expr::EvalResult R; if (!E->isValueDependent() && E->EvaluateAsRValue(R, C)) { if (R.Val.isInt()) { auto l = lit(R.Val.getInt()); if (E->getType()->isBooleanType()) return J::Object{{"k","Bool"},{"v", R.Val.getInt() != 0}}; l["q"] = qname(V); return l; } if (R.Val.isFloat()) return fl(R.Val.getFloat()); }
          }
        }
        o["vty"] = ty(V->getType());
      }
      if (auto *B = dyn_cast<BindingDecl>(D)) { o["dk"] = "binding"; (void)B; }
      return o; }
    case Stmt::MemberExprClass: {
      auto *M = cast<MemberExpr>(E);
      if (auto *FD0 = dyn_cast<FieldDecl>(M->getMemberDecl())) if (auto *BM = dyn_cast<MemberExpr>(M->getBase()->IgnoreParenImpCasts())) if (auto *AF = dyn_cast<FieldDecl>(BM->getMemberDecl()); AF && AF->isAnonymousStructOrUnion()) {
        auto *U = FD0->getParent(); std::string nm = FD0->getNameAsString(); if (U->isUnion()) nm = (*U->field_begin())->getNameAsString();
        return J::Object{{"k", "Member"}, {"name", nm}, {"arrow", BM->isArrow()}, {"base", expr(BM->getBase())}, {"fty", ty(FD0->getType())}, {"mut", false}}; }
      J::Object o{{"k", "Member"}, {"name", M->getMemberDecl()->getNameAsString()}, {"arrow", M->isArrow()}, {"base", expr(M->getBase())}};
      if (auto *F = dyn_cast<FunctionDecl>(M->getMemberDecl())) o["fn"] = callee(F);
      else if (auto *FD = dyn_cast<FieldDecl>(M->getMemberDecl())) { o["fty"] = ty(FD->getType()); o["mut"] = FD->isMutable(); }
      else if (auto *VD = dyn_cast<VarDecl>(M->getMemberDecl())) { // static member
        Expr::EvalResult R; if (E->EvaluateAsRValue(R, C) && R.Val.isInt()) { if (E->getType()->isBooleanType()) return J::Object{{"k","Bool"},{"v", R.Val.getInt() != 0}}; return lit(R.Val.getInt()); } (void)VD; }
      return o; }
    case Stmt::ArraySubscriptExprClass: { auto *A = cast<ArraySubscriptExpr>(E); return J::Object{{"k", "Sub"}, {"base", expr(A->getBase())}, {"idx", expr(A->getIdx())}}; }
    case Stmt::UnaryOperatorClass: { auto *U = cast<UnaryOperator>(E); return J::Object{{"k", "Un"}, {"op", UnaryOperator::getOpcodeStr(U->getOpcode()).str() + (U->isPostfix() ? "post" : "")}, {"e", expr(U->getSubExpr())}}; }
    case Stmt::BinaryOperatorClass: { auto *B = cast<BinaryOperator>(E); return J::Object{{"k", "Bin"}, {"op", B->getOpcodeStr().str()}, {"a", expr(B->getLHS())}, {"b", expr(B->getRHS())}}; }
    case Stmt::CompoundAssignOperatorClass: { auto *B = cast<CompoundAssignOperator>(E); return J::Object{{"k", "CAssign"}, {"op", B->getOpcodeStr().str()}, {"a", expr(B->getLHS())}, {"b", expr(B->getRHS())}, {"cty", ty(B->getComputationResultType())}}; }
    case Stmt::ConditionalOperatorClass: { auto *B = cast<ConditionalOperator>(E); return J::Object{{"k", "Cond"}, {"c", expr(B->getCond())}, {"a", expr(B->getTrueExpr())}, {"b", expr(B->getFalseExpr())}}; }
    case Stmt::OffsetOfExprClass: { auto *O = cast<OffsetOfExpr>(E); std::string nm; for (unsigned i = 0; i < O->getNumComponents(); i++) { auto &c = O->getComponent(i); if (c.getKind() == OffsetOfNode::Field) { auto *FD = c.getField(); if (FD->getParent()->isUnion()) FD = *FD->getParent()->field_begin(); if (!FD->getName().empty() && !FD->isAnonymousStructOrUnion()) nm = FD->getNameAsString(); } } return J::Object{{"k", "OffsetOf"}, {"name", nm}}; }
    case Stmt::UnaryExprOrTypeTraitExprClass: { Expr::EvalResult R; if (E->EvaluateAsRValue(R, C) && R.Val.isInt()) return lit(R.Val.getInt()); return unk(E); }
    case Stmt::SizeOfPackExprClass: case Stmt::TypeTraitExprClass: case Stmt::CXXNoexceptExprClass: { Expr::EvalResult R; if (E->EvaluateAsRValue(R, C) && R.Val.isInt()) return lit(R.Val.getInt()); return unk(E); }
    case Stmt::InitListExprClass: { auto *I = cast<InitListExpr>(E); J::Array a; for (auto *e : I->inits()) a.push_back(expr(e)); return J::Object{{"k", "InitList"}, {"a", std::move(a)}}; }
    case Stmt::CXXInheritedCtorInitExprClass: return unk(E);
    case Stmt::CXXTemporaryObjectExprClass:
    case Stmt::CXXConstructExprClass: {
      auto *K = cast<CXXConstructExpr>(E);
      if (K->isElidable() && K->getNumArgs() == 1) { auto o = sub(K->getArg(0)); return o; }
      J::Array a; for (auto *e : K->arguments()) a.push_back(expr(e));
      return J::Object{{"k", "Ctor"}, {"fn", callee(K->getConstructor())}, {"a", std::move(a)}, {"list", K->isListInitialization()}, {"stdlist", K->isStdInitListInitialization()}}; }
    case Stmt::CXXNewExprClass: case Stmt::CXXDeleteExprClass: return unk(E);
    case Stmt::LambdaExprClass: {
      auto *L = cast<LambdaExpr>(E); J::Array caps;
      unsigned ci = 0; std::vector<const Expr*> inits(L->capture_init_begin(), L->capture_init_end());
      for (auto &c : L->captures()) { J::Object k; if (c.capturesThis()) k["this"] = true; else if (c.capturesVariable()) { k["id"] = did(c.getCapturedVar()); k["byref"] = c.getCaptureKind() == LCK_ByRef; if (auto *VD = dyn_cast<VarDecl>(c.getCapturedVar()); VD && VD->isInitCapture()) k["init"] = expr(VD->getInit()); } ci++; caps.push_back(std::move(k)); }
      J::Object o{{"k", "Lambda"}, {"caps", std::move(caps)}, {"generic", L->isGenericLambda()}};
      if (!L->isGenericLambda()) { enqueue(L->getCallOperator()); o["id"] = fid(L->getCallOperator()); }
      return o; }
    case Stmt::ImplicitCastExprClass: case Stmt::CXXStaticCastExprClass: case Stmt::CStyleCastExprClass: case Stmt::CXXFunctionalCastExprClass: case Stmt::CXXConstCastExprClass: case Stmt::CXXReinterpretCastExprClass: case Stmt::CXXDynamicCastExprClass: {
      auto *K = cast<CastExpr>(E);
      switch (K->getCastKind()) {
      case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay: case CK_ArrayToPointerDecay: case CK_UncheckedDerivedToBase: case CK_DerivedToBase: case CK_ConstructorConversion: case CK_BuiltinFnToFnPtr: case CK_BaseToDerived: case CK_UserDefinedConversion: {
        auto o = sub(K->getSubExpr());
        if (K->getCastKind() == CK_LValueToRValue) { J::Value v(true); (void)v; o.erase("lv"); }
        return o; }
      case CK_ToVoid: return J::Object{{"k", "ToVoid"}, {"e", expr(K->getSubExpr())}};
      default: {
        Expr::EvalResult R;
        return J::Object{{"k", "Cast"}, {"ck", K->getCastKindName()}, {"e", expr(K->getSubExpr())}, {"imp", isa<ImplicitCastExpr>(K)}}; }
      } }
    case Stmt::CXXMemberCallExprClass: {
      auto *M = cast<CXXMemberCallExpr>(E); J::Object o{{"k", "MCall"}, {"args", exprs(M->arguments())}};
      if (M->getMethodDecl()) o["fn"] = callee(M->getMethodDecl()); else return unk(E);
      o["obj"] = expr(M->getImplicitObjectArgument());
      if (isa<CXXConversionDecl>(M->getMethodDecl())) o["conv"] = true;
      return o; }
    case Stmt::CXXOperatorCallExprClass: {
      auto *M = cast<CXXOperatorCallExpr>(E); J::Object o{{"k", "OpCall"}, {"op", getOperatorSpelling(M->getOperator())}, {"args", exprs(M->arguments())}};
      if (auto *F = M->getDirectCallee()) { o["fn"] = callee(F); o["member"] = isa<CXXMethodDecl>(F); }
      return o; }
    case Stmt::CallExprClass: {
      auto *M = cast<CallExpr>(E); J::Object o{{"k", "Call"}, {"args", exprs(M->arguments())}};
      if (auto *F = M->getDirectCallee()) {
        o["fn"] = callee(F);
        if (qname(F).find("numeric_limits") != std::string::npos) { Expr::EvalResult R; if (E->EvaluateAsRValue(R, C)) { if (R.Val.isInt()) return lit(R.Val.getInt()); if (R.Val.isFloat()) return fl(R.Val.getFloat()); } }
      } else o["callee"] = expr(M->getCallee());
      return o; }
    case Stmt::CXXFoldExprClass: return unk(E);
    default: return unk(E);
    }
  }
  // ---------- statements
  J::Value var(const VarDecl *V) {
    J::Object o{{"id", did(V)}, {"name", V->getNameAsString()}, {"ty", ty(V->getType())}, {"l", line(V->getLocation())}};
    if (V->isStaticLocal()) o["static"] = true;
    if (V->getType().isConstQualified()) o["cst"] = true;
    if (V->getType()->isReferenceType() && V->getType()->getPointeeType().isConstQualified()) o["cref"] = true;
    if (V->hasInit()) o["init"] = expr(V->getInit());
    if (auto *D = dyn_cast<DecompositionDecl>(V)) { J::Array b; for (auto *B : D->bindings()) { J::Object x{{"id", did(B)}, {"name", B->getNameAsString()}, {"ty", ty(B->getType())}}; if (auto *HV = B->getHoldingVar()) { x["hold"] = did(HV); if (HV->hasInit()) x["init"] = expr(HV->getInit()); } else x["e"] = expr(B->getBinding()); b.push_back(std::move(x)); } o["bindings"] = std::move(b); }
    return o;
  }
  J::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    J::Object o = stmt0(S); o["l"] = line(S->getBeginLoc()); return o;
  }
  J::Object stmt0(const Stmt *S) {
    if (auto *E = dyn_cast<Expr>(S)) return J::Object{{"k", "Expr"}, {"e", expr(E)}};
    switch (S->getStmtClass()) {
    case Stmt::CompoundStmtClass: { J::Array a; for (auto *x : cast<CompoundStmt>(S)->body()) a.push_back(stmt(x)); return J::Object{{"k", "Block"}, {"s", std::move(a)}}; }
    case Stmt::NullStmtClass: return J::Object{{"k", "Nop"}};
    case Stmt::DeclStmtClass: { J::Array a; for (auto *D : cast<DeclStmt>(S)->decls()) { if (auto *V = dyn_cast<VarDecl>(D)) a.push_back(var(V)); } return J::Object{{"k", "Decl"}, {"v", std::move(a)}}; }
    case Stmt::AttributedStmtClass: return stmt0(cast<AttributedStmt>(S)->getSubStmt());
    case Stmt::IfStmtClass: {
      auto *I = cast<IfStmt>(S);
      if (I->isConstexpr()) { Expr::EvalResult R; if (I->getCond()->EvaluateAsRValue(R, C) && R.Val.isInt()) { const Stmt *T = R.Val.getInt() != 0 ? I->getThen() : I->getElse(); if (!T) return J::Object{{"k", "Nop"}}; return stmt0(T); } }
      J::Object o{{"k", "If"}, {"c", expr(I->getCond())}, {"t", stmt(I->getThen())}};
      if (I->getElse()) o["e"] = stmt(I->getElse());
      if (I->getInit()) o["init"] = stmt(I->getInit());
      if (I->getConditionVariable()) o["cvar"] = var(I->getConditionVariable());
      return o; }
    case Stmt::WhileStmtClass: { auto *W = cast<WhileStmt>(S); return J::Object{{"k", "While"}, {"c", expr(W->getCond())}, {"b", stmt(W->getBody())}}; }
    case Stmt::DoStmtClass: { auto *W = cast<DoStmt>(S); return J::Object{{"k", "Do"}, {"c", expr(W->getCond())}, {"b", stmt(W->getBody())}}; }
    case Stmt::ForStmtClass: { auto *W = cast<ForStmt>(S); J::Object o{{"k", "For"}, {"b", stmt(W->getBody())}}; if (W->getInit()) o["init"] = stmt(W->getInit()); if (W->getCond()) o["c"] = expr(W->getCond()); if (W->getInc()) o["inc"] = expr(W->getInc()); return o; }
    case Stmt::CXXForRangeStmtClass: { auto *W = cast<CXXForRangeStmt>(S);
      J::Object o{{"k", "RangeFor"}, {"var", var(W->getLoopVariable())}, {"range", stmt(W->getRangeStmt())}, {"begin", stmt(W->getBeginStmt())}, {"end", stmt(W->getEndStmt())}, {"c", expr(W->getCond())}, {"inc", expr(W->getInc())}, {"b", stmt(W->getBody())}};
      return o; }
    case Stmt::ReturnStmtClass: { auto *R = cast<ReturnStmt>(S); J::Object o{{"k", "Return"}}; if (R->getRetValue()) o["e"] = expr(R->getRetValue()); return o; }
    case Stmt::BreakStmtClass: return J::Object{{"k", "Break"}};
    case Stmt::ContinueStmtClass: return J::Object{{"k", "Continue"}};
    case Stmt::SwitchStmtClass: { auto *W = cast<SwitchStmt>(S); return J::Object{{"k", "Switch"}, {"c", expr(W->getCond())}, {"b", stmt(W->getBody())}}; }
    case Stmt::CaseStmtClass: { auto *W = cast<CaseStmt>(S); return J::Object{{"k", "Case"}, {"c", expr(W->getLHS())}, {"b", stmt(W->getSubStmt())}}; }
    case Stmt::DefaultStmtClass: { auto *W = cast<DefaultStmt>(S); return J::Object{{"k", "Default"}, {"b", stmt(W->getSubStmt())}}; }
    case Stmt::CXXTryStmtClass: return unk(S);
    default: return unk(S);
    }
  }
  void dumpFn(const FunctionDecl *F) {
    J::Object o; o["id"] = fid(F); o["name"] = qname(F); o["file"] = file(F->getLocation()); o["l"] = line(F->getBeginLoc()); o["l2"] = line(F->getEndLoc());
    if (auto *T = F->getTemplateSpecializationArgs()) { J::Array a; for (auto &A : T->asArray()) a.push_back(targ(A)); o["targs"] = std::move(a); }
    J::Array ps; for (auto *p : F->parameters()) { ps.push_back(var(p)); } o["params"] = std::move(ps);
    o["ret"] = ty(F->getReturnType());
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { o["method"] = true; o["const"] = M->isConst(); o["static"] = M->isStatic(); o["rec"] = ty(C.getRecordType(M->getParent())); o["lambda"] = M->getParent()->isLambda(); }
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) { o["ctor"] = true; J::Array in; for (auto *I : K->inits()) { J::Object x; if (I->isMemberInitializer()) x["field"] = I->getMember()->getNameAsString(); else if (I->isIndirectMemberInitializer()) { auto *FD = I->getIndirectMember()->getAnonField(); if (FD->getParent()->isUnion()) FD = *FD->getParent()->field_begin(); x["field"] = FD->getNameAsString(); } else if (I->isBaseInitializer()) x["base"] = ty(QualType(I->getBaseClass(), 0)); else if (I->isDelegatingInitializer()) x["deleg"] = true; x["e"] = expr(I->getInit()); x["written"] = I->isWritten(); in.push_back(std::move(x)); } o["inits"] = std::move(in); }
    o["body"] = stmt(F->getBody());
    functions.push_back(std::move(o));
  }
  void dumpRec(const CXXRecordDecl *R) {
    J::Object o{{"ty", ty(C.getRecordType(R))}, {"name", qname(R)}}; J::Array fs, bs;
    for (auto *F : R->fields()) if (F->isAnonymousStructOrUnion()) { auto *U = F->getType()->getAsCXXRecordDecl(); for (auto *G : U->fields()) { fs.push_back(J::Object{{"name", G->getNameAsString()}, {"ty", ty(G->getType())}, {"mut", false}}); if (U->isUnion()) break; } }
      else fs.push_back(J::Object{{"name", F->getNameAsString()}, {"ty", ty(F->getType())}, {"mut", F->isMutable()}});
    for (auto &B : R->bases()) bs.push_back(ty(B.getType()));
    o["fields"] = std::move(fs); o["bases"] = std::move(bs); o["file"] = file(R->getLocation()); records.push_back(std::move(o));
  }
};

struct V : RecursiveASTVisitor<V> {
  std::vector<const FunctionDecl*> found; X &x; std::vector<std::regex> rs;
  V(X &x) : x(x) { for (auto &s : gRoots) rs.emplace_back(s); }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->isThisDeclarationADefinition() || F->isDependentContext() || !F->hasBody()) return true;
    if (!x.inRepo(F->getLocation())) return true;
    std::string q = x.qname(F);
    for (auto &r : rs) if (std::regex_match(q, r)) { found.push_back(F); break; }
    return true;
  }
};
struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) { gStatus = 3; return; }
    X x(C); V v(x); v.TraverseDecl(C.getTranslationUnitDecl());
    for (auto *F : v.found) x.enqueue(F);
    while (!x.work.empty() || !x.recWork.empty()) {
      if (!x.work.empty()) { auto *F = x.work.front(); x.work.pop_front(); x.dumpFn(F); }
      else { auto *R = x.recWork.front(); x.recWork.pop_front(); x.dumpRec(R); }
    }
    J::Array ts; for (auto &t : x.types) ts.push_back(t);
    J::Object out{{"functions", std::move(x.functions)}, {"records", std::move(x.records)}, {"types", std::move(ts)}};
    std::error_code ec; llvm::raw_fd_ostream os(gOut, ec); os << J::Value(std::move(out)) << "\n";
  }
};
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); } };

int main(int argc, char **argv) {
  std::string src = argv[1]; gOut = argv[2]; int i = 3;
  for (; i < argc && std::string(argv[i]) != "--"; i++) gRoots.push_back(argv[i]);
  std::vector<std::string> args; for (i++; i < argc; i++) args.push_back(argv[i]);
  std::ifstream f(src); std::string code((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
  bool ok = clang::tooling::runToolOnCodeWithArgs(std::make_unique<Act>(), code, args, src, "hvx");
  if (!ok) return 2;
  return gStatus;
}
