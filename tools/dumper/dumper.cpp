// Resolved-AST dumper: parses a translation unit with clang and writes, as JSON,
// every function definition, record, enum and global variable that lies under one
// of the given root directories. Callees, template instantiations, types and
// constants come out resolved; nothing is executed.
//
// usage: dumper -roots=/a:/b -o out.json file.cpp -- <compiler flags>
#include "llvm/Support/ConvertUTF.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Attr.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Lex/Lexer.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <memory>
#include <string>
using namespace clang;
namespace json = llvm::json;
static std::string wide(const clang::StringLiteral *X) {
    std::string out;
    if (X->getCharByteWidth() == 2) {
        std::vector<llvm::UTF16> u;
        for (unsigned i = 0; i < X->getLength(); ++i) u.push_back((llvm::UTF16)X->getCodeUnit(i));
        if (llvm::convertUTF16ToUTF8String(u, out)) return llvm::json::fixUTF8(out);
    }
    return "?";
}

static llvm::cl::OptionCategory Cat("dumper");
static llvm::cl::opt<std::string> Roots("roots", llvm::cl::cat(Cat));
static llvm::cl::opt<std::string> Out("o", llvm::cl::cat(Cat));

static std::vector<std::string> rootList;

class Dumper {
public:
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::unique_ptr<ASTNameGenerator> NG;
  std::map<const ValueDecl *, int> ids;
  json::Object functions, records, enums, globals;
  const FunctionDecl *cur = nullptr;
  std::string curFile;

  Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()), NG(new ASTNameGenerator(C)) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.Bool = true;
    PP.SuppressInlineNamespace = true;
  }
  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L, false);
    if (P.isInvalid()) return "";
    if (auto FE = SM.getFileEntryRefForID(SM.getFileID(L))) {
      auto rp = FE->getFileEntry().tryGetRealPathName();
      if (!rp.empty()) return rp.str();
    }
    return P.getFilename();
  }
  bool inRoots(SourceLocation L) {
    if (L.isInvalid()) return false;
    std::string f = fileOf(L);
    for (auto &r : rootList) if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  int line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  int vid(const ValueDecl *D) {
    D = cast<ValueDecl>(D->getCanonicalDecl());
    auto it = ids.find(D);
    if (it != ids.end()) return it->second;
    int n = ids.size() + 1; ids[D] = n; return n;
  }
  std::string tstr(QualType T) { if (T.isNull()) return ""; return T.getCanonicalType().getAsString(PP); }
  std::string qname(const NamedDecl *D) {
    std::string s; llvm::raw_string_ostream os(s);
    PrintingPolicy P2 = PP; 
    D->printQualifiedName(os, P2);
    return os.str();
  }
  // qualified name with the template arguments of enclosing classes removed
  std::string plainq(const NamedDecl *D) {
    std::string s = qname(D), r; int d = 0;
    // keep operator<, operator<<, operator-> names intact
    size_t op = s.rfind("operator");
    std::string head = op == std::string::npos ? s : s.substr(0, op), tail = op == std::string::npos ? "" : s.substr(op);
    for (char c : head) { if (c == '<') d++; else if (c == '>') { if (d) d--; } else if (!d) r += c; }
    return r + tail;
  }
  std::string fid(const FunctionDecl *F) {
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda()) {
        auto L = SM.getExpansionLoc(M->getParent()->getBeginLoc());
        return "lambda@" + fileOf(L) + ":" + std::to_string(SM.getExpansionLineNumber(L)) + ":" + std::to_string(SM.getExpansionColumnNumber(L)) + ":" + std::to_string(vid(M));
      }
    F = F->getCanonicalDecl();
    if (F->isDependentContext()) return "dep:" + qname(F);
    if (isa<CXXDeductionGuideDecl>(F)) return "dep:guide";
    std::string n = NG->getName(F);
    return n.empty() ? qname(F) : n;
  }
  json::Array targs(const FunctionDecl *F) {
    json::Array a;
    if (auto *TA = F->getTemplateSpecializationArgs())
      for (auto &x : TA->asArray()) arg(a, x);
    return a;
  }
  json::Array ctargs(const CXXRecordDecl *R) {
    json::Array a;
    if (auto *S = dyn_cast_or_null<ClassTemplateSpecializationDecl>(R))
      for (auto &x : S->getTemplateArgs().asArray()) arg(a, x);
    return a;
  }
  void arg(json::Array &a, const TemplateArgument &x) {
    switch (x.getKind()) {
    case TemplateArgument::Type: a.push_back(tstr(x.getAsType())); break;
    case TemplateArgument::Integral: { llvm::SmallString<32> s; x.getAsIntegral().toString(s, 10); 
        json::Object o; o["i"] = s.str().str(); o["t"] = tstr(x.getIntegralType()); a.push_back(std::move(o)); break; }
    case TemplateArgument::Declaration: {
        json::Object o; o["d"] = plainq(x.getAsDecl());
        if (auto *F = dyn_cast<FunctionDecl>(x.getAsDecl())) { o["id"] = fid(F); o["ta"] = targs(F); }
        a.push_back(std::move(o)); break; }
    case TemplateArgument::Pack: for (auto &y : x.pack_elements()) arg(a, y); break;
    default: a.push_back("?");
    }
  }
  void tinfo(json::Object &o, QualType T) {
    o["t"] = tstr(T);
    QualType N = T.getNonReferenceType();
    if (N->isIntegralOrEnumerationType() && !N->isDependentType() && !N->isIncompleteType()) {
      o["b"] = (int64_t)(N->isBooleanType() ? 1 : C.getIntWidth(N));
      o["u"] = N->isUnsignedIntegerOrEnumerationType();
    }
  }
  json::Object node(const char *k, const Stmt *S) {
    json::Object o; o["k"] = k;
    if (S) {
      auto L = SM.getExpansionLoc(S->getBeginLoc());
      o["l"] = line(L);
      std::string f = fileOf(L);
      if (f != curFile) o["f"] = f;
    }
    return o;
  }
  json::Value kids(const Stmt *S) {
    json::Array a;
    for (const Stmt *c : S->children()) if (c) {
      if (auto *E = dyn_cast<Expr>(c)) a.push_back(expr(E)); else a.push_back(stmt(c));
    }
    return a;
  }
  void fnInfo(json::Object &o, const FunctionDecl *F) {
    o["id"] = fid(F);
    o["q"] = plainq(F);
    auto ta = targs(F); if (!ta.empty()) o["ta"] = std::move(ta);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = plainq(M->getParent());
      auto ca = ctargs(M->getParent()); if (!ca.empty()) o["cta"] = std::move(ca);
      if (M->isStatic()) o["static"] = true;
      if (M->isVirtual()) o["virt"] = true;
      if (M->isConst()) o["const"] = true;
      if (isSignal(M)) o["sig"] = true;
    }
    if (F->isNoReturn()) o["noret"] = true;
    json::Array pt; for (auto *p : F->parameters()) pt.push_back(tstr(p->getType()));
    o["pt"] = std::move(pt);
    if (!inRoots(F->getLocation())) o["ext"] = true;
  }
  bool isSignal(const CXXMethodDecl *M) {
    M = M->getCanonicalDecl();
    if (const FunctionDecl *P = M->getTemplateInstantiationPattern()) if (auto *PM = dyn_cast<CXXMethodDecl>(P)) M = PM->getCanonicalDecl();
    for (auto *A : M->specific_attrs<AnnotateAttr>()) if (A->getAnnotation() == "qt_signal") return true;
    return false;
  }
  json::Value expr(const Expr *E) {
    if (!E) return nullptr;
    E = E->IgnoreParens();
    // strip wrappers
    if (auto *X = dyn_cast<ExprWithCleanups>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<OpaqueValueExpr>(E)) { if (X->getSourceExpr()) return expr(X->getSourceExpr()); }
    if (auto *X = dyn_cast<ConstantExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<StringLiteral>(E)) { auto o = node("str", E); o["v"] = X->getCharByteWidth() == 1 ? json::fixUTF8(X->getBytes()) : wide(X); o["n"] = (int64_t)X->getLength(); return o; }
    if (auto *X = dyn_cast<PredefinedExpr>(E)) { auto o = node("str", E); o["v"] = X->getFunctionName() ? X->getFunctionName()->getString().str() : ""; return o; }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return node("null", E);
    // integer constants
    if (!E->isValueDependent() && !E->isTypeDependent() && E->getType()->isIntegralOrEnumerationType() && !isa<CXXThrowExpr>(E)) {
      Expr::EvalResult R;
      bool isCallish = (isa<CallExpr>(E) && !isConstexprCall(cast<CallExpr>(E))) || hasTypeId(E);
      if (!isCallish && E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
        auto o = node("int", E); llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); o["v"] = s.str().str();
        tinfo(o, E->getType());
        if (auto *D = dyn_cast<DeclRefExpr>(E->IgnoreParenImpCasts())) o["n"] = plainq(D->getDecl());
        return o;
      }
    }
    if (auto *X = dyn_cast<CastExpr>(E)) {
      switch (X->getCastKind()) {
      case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay: case CK_ArrayToPointerDecay:
      case CK_UserDefinedConversion: case CK_ConstructorConversion: case CK_DerivedToBase: case CK_UncheckedDerivedToBase:
      case CK_BuiltinFnToFnPtr: case CK_ToVoid: case CK_DerivedToBaseMemberPointer: case CK_Dependent:
        return expr(X->getSubExpr());
      case CK_NullToPointer: case CK_NullToMemberPointer: return node("null", E);
      default: {
        auto o = node("cast", E); o["ck"] = X->getCastKindName(); tinfo(o, E->getType()); o["e"] = expr(X->getSubExpr());
        o["from"] = tstr(X->getSubExpr()->getType());
        return o; }
      }
    }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) { auto o = node("flt", E); llvm::SmallString<32> s; X->getValue().toString(s); o["v"] = s.str().str(); return o; }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) return declref(X->getDecl(), E);
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      if (isa<FieldDecl>(X->getMemberDecl())) {
        auto o = node("mem", E); o["n"] = X->getMemberDecl()->getNameAsString(); o["q"] = plainq(X->getMemberDecl());
        o["o"] = expr(X->getBase()); o["arrow"] = X->isArrow(); tinfo(o, E->getType());
        if (auto *FD = dyn_cast<FieldDecl>(X->getMemberDecl())) if (FD->getType()->isReferenceType()) o["ref"] = true;
        return o;
      }
      return declref(X->getMemberDecl(), E);
    }
    if (isa<CXXThisExpr>(E)) return node("this", E);
    if (auto *X = dyn_cast<CallExpr>(E)) return call(X);
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      auto o = node("ctor", E); fnInfo(o, X->getConstructor());
      tinfo(o, E->getType());
      auto *K = X->getConstructor();
      o["ck"] = K->isDefaultConstructor() ? "default" : K->isCopyConstructor() ? "copy" : K->isMoveConstructor() ? "move" : "other";
      if (X->isElidable()) o["elide"] = true;
      if (X->requiresZeroInitialization()) o["zinit"] = true;
      if (X->isListInitialization()) o["list"] = true;
      json::Array a; for (auto *x : X->arguments()) a.push_back(expr(x)); o["args"] = std::move(a);
      return o;
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      auto o = node("new", E); o["t"] = tstr(X->getAllocatedType());
      if (X->isArray()) { o["array"] = true; if (X->getArraySize()) o["n"] = expr(*X->getArraySize()); }
      if (X->getInitializer()) o["init"] = expr(X->getInitializer());
      json::Array pl; for (unsigned i = 0; i < X->getNumPlacementArgs(); ++i) pl.push_back(expr(X->getPlacementArg(i)));
      if (!pl.empty()) o["pl"] = std::move(pl);
      return o;
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { auto o = node("del", E); o["e"] = expr(X->getArgument()); return o; }
    if (auto *X = dyn_cast<UnaryOperator>(E)) { auto o = node("un", E); o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str(); if (X->isPostfix()) o["post"] = true; o["e"] = expr(X->getSubExpr()); tinfo(o, E->getType()); return o; }
    if (auto *X = dyn_cast<CompoundAssignOperator>(E)) { auto o = node("asg", E); o["op"] = X->getOpcodeStr().str(); o["a"] = expr(X->getLHS()); o["c"] = expr(X->getRHS()); tinfo(o, E->getType()); json::Object ct; tinfo(ct, X->getComputationResultType()); o["ct"] = std::move(ct); return o; }
    if (auto *X = dyn_cast<BinaryOperator>(E)) { auto o = node(X->isAssignmentOp() ? "asg" : "bin", E); o["op"] = X->getOpcodeStr().str(); o["a"] = expr(X->getLHS()); o["c"] = expr(X->getRHS()); tinfo(o, E->getType()); return o; }
    if (auto *X = dyn_cast<ConditionalOperator>(E)) { auto o = node("cond", E); o["c"] = expr(X->getCond()); o["a"] = expr(X->getTrueExpr()); o["e"] = expr(X->getFalseExpr()); tinfo(o, E->getType()); return o; }
    if (auto *X = dyn_cast<BinaryConditionalOperator>(E)) { auto o = node("cond", E); o["c"] = expr(X->getCond()); o["a"] = expr(X->getCommon()); o["e"] = expr(X->getFalseExpr()); tinfo(o, E->getType()); return o; }
    if (auto *X = dyn_cast<LambdaExpr>(E)) return lambda(X);
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      if (X->getSemanticForm()) X = X->getSemanticForm();
      auto o = node("il", E); tinfo(o, E->getType()); json::Array a; for (auto *x : X->inits()) a.push_back(expr(x)); o["es"] = std::move(a);
      if (auto *RD = X->getType()->getAsCXXRecordDecl()) { json::Array f; for (auto *fd : RD->fields()) f.push_back(fd->getNameAsString()); o["fields"] = std::move(f); }
      if (X->getArrayFiller()) o["filler"] = true;
      return o;
    }
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) { auto o = node("zero", E); tinfo(o, E->getType()); return o; }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) { auto o = node("throw", E); if (X->getSubExpr()) { o["e"] = expr(X->getSubExpr()); o["t"] = tstr(X->getSubExpr()->getType()); } return o; }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) { auto o = node("idx", E); o["o"] = expr(X->getBase()); o["i"] = expr(X->getIdx()); tinfo(o, E->getType()); return o; }
    if (auto *X = dyn_cast<CXXPseudoDestructorExpr>(E)) { auto o = node("pdtor", E); o["o"] = expr(X->getBase()); return o; }
    auto o = node("other", E); o["cls"] = E->getStmtClassName(); tinfo(o, E->getType()); o["kids"] = kids(E); return o;
  }
  // calls that name a type must stay visible
  bool hasTypeId(const Stmt *S) {
    if (!S) return false;
    if (auto *X = dyn_cast<CallExpr>(S)) if (auto *F = X->getDirectCallee()) if (F->getNameAsString() == "qMetaTypeId" || F->getNameAsString() == "qRegisterMetaType") return true;
    for (auto *k : S->children()) if (hasTypeId(k)) return true;
    return false;
  }
  bool isConstexprCall(const CallExpr *X) { auto *F = X->getDirectCallee(); return F && F->isConstexpr() && !isa<CXXMemberCallExpr>(X); }
  json::Value declref(const ValueDecl *D, const Expr *E) {
    if (auto *V = dyn_cast<VarDecl>(D)) {
      auto o = node("var", E); o["id"] = vid(V); o["n"] = V->getNameAsString();
      if (V->hasGlobalStorage() ) { o["g"] = plainq(V); if (V->isStaticLocal()) o["sl"] = true; if (auto *RD = dyn_cast<CXXRecordDecl>(V->getDeclContext())) { auto ca = ctargs(RD); if (!ca.empty()) o["cta"] = std::move(ca);} }
      if (V->getType()->isReferenceType()) o["ref"] = true;
      if (isa<VarTemplateSpecializationDecl>(V)) o["vt"] = true;
      tinfo(o, E->getType());
      return o;
    }
    if (auto *F = dyn_cast<FunctionDecl>(D)) { auto o = node("fn", E); fnInfo(o, F); return o; }
    if (auto *B = dyn_cast<BindingDecl>(D)) { auto o = node("bind", E); o["n"] = B->getNameAsString(); if (B->getBinding()) o["e"] = expr(B->getBinding()); return o; }
    if (auto *K = dyn_cast<EnumConstantDecl>(D)) { auto o = node("int", E); llvm::SmallString<32> s; K->getInitVal().toString(s, 10); o["v"] = s.str().str(); o["n"] = plainq(K); tinfo(o, E->getType()); return o; }
    if (auto *FD = dyn_cast<FieldDecl>(D)) { auto o = node("fieldref", E); o["n"] = FD->getNameAsString(); o["q"] = plainq(FD); return o; }
    auto o = node("other", E); o["cls"] = "DeclRef"; o["n"] = D->getNameAsString(); return o;
  }
  json::Value call(const CallExpr *X) {
    const FunctionDecl *F = X->getDirectCallee();
    if (isa<CXXOperatorCallExpr>(X) && F) {
      auto *OC = cast<CXXOperatorCallExpr>(X);
      auto o = node("call", X); fnInfo(o, F); o["op"] = getOperatorSpelling(OC->getOperator()); tinfo(o, X->getType());
      json::Array a; unsigned i = 0;
      if (isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) { o["o"] = expr(X->getArg(0)); i = 1; }
      for (; i < X->getNumArgs(); ++i) a.push_back(expr(X->getArg(i)));
      o["args"] = std::move(a); return o;
    }
    if (auto *MC = dyn_cast<CXXMemberCallExpr>(X)) {
      if (F) {
        auto o = node("call", X); fnInfo(o, F); tinfo(o, X->getType());
        o["o"] = expr(MC->getImplicitObjectArgument());
        if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) { o["arrow"] = ME->isArrow(); if (ME->hasQualifier()) o["qualcall"] = true; }
        json::Array a; for (auto *x : X->arguments()) a.push_back(expr(x)); o["args"] = std::move(a); return o;
      }
      auto o = node("icall", X); o["fn"] = expr(X->getCallee()); json::Array a; for (auto *x : X->arguments()) a.push_back(expr(x)); o["args"] = std::move(a); tinfo(o, X->getType()); return o;
    }
    if (F) {
      auto o = node("call", X); fnInfo(o, F); tinfo(o, X->getType());
      json::Array a; for (auto *x : X->arguments()) a.push_back(expr(x)); o["args"] = std::move(a); return o;
    }
    auto o = node("icall", X); o["fn"] = expr(X->getCallee()); json::Array a; for (auto *x : X->arguments()) a.push_back(expr(x)); o["args"] = std::move(a); tinfo(o, X->getType());
    return o;
  }
  json::Value lambda(const LambdaExpr *X) {
    auto o = node("lambda", X);
    auto *M = X->getCallOperator();
    json::Array caps;
    auto ci = X->capture_init_begin();
    for (auto &c : X->captures()) {
      json::Object co;
      if (c.capturesThis()) { co["this"] = true; if (c.getCaptureKind() == LCK_StarThis) co["copy"] = true; }
      else if (c.capturesVariable()) { auto *V = c.getCapturedVar(); co["id"] = vid(V); co["n"] = V->getNameAsString(); co["byref"] = c.getCaptureKind() == LCK_ByRef; co["t"] = tstr(V->getType());
        if (X->isInitCapture(&c)) co["initcap"] = true;
        co["init"] = expr(*ci);
        if (auto *VD = dyn_cast<VarDecl>(V)) if (X->isInitCapture(&c) && VD->getInit()) co["vinit"] = expr(VD->getInit());
      }
      caps.push_back(std::move(co)); ++ci;
    }
    o["caps"] = std::move(caps);
    o["id"] = fid(M);
    if (!M->isDependentContext() && M->hasBody()) fillFunction(o, M);
    else if (auto *TD = X->getCallOperator()->getDescribedFunctionTemplate()) {
      // generic lambda: keep the instantiations
      json::Array inst;
      for (auto *S : TD->specializations()) if (S->hasBody()) { json::Object io; io["id"] = fid(S); fillFunction(io, S); inst.push_back(std::move(io)); }
      o["inst"] = std::move(inst); o["generic"] = true;
    }
    if (X->isMutable()) o["mutable"] = true;
    return o;
  }
  json::Object varInfo(const VarDecl *V) {
    json::Object o; o["id"] = vid(V); o["n"] = V->getNameAsString(); tinfo(o, V->getType());
    if (V->getType()->isReferenceType()) o["ref"] = true;
    if (V->isStaticLocal()) o["static"] = true;
    if (V->getType().isConstQualified()) o["const"] = true;
    if (V->getInit()) o["init"] = expr(V->getInit());
    if (auto *RD = V->getType()->getAsCXXRecordDecl()) { o["cls"] = plainq(RD); if (RD->hasDefinition() && RD->hasNonTrivialDestructor()) o["dtor"] = true; }
    o["l"] = line(V->getLocation());
    return o;
  }
  bool isLog(const ForStmt *F) {
    if (auto *D = dyn_cast_or_null<DeclStmt>(F->getInit()))
      if (D->isSingleDecl()) if (auto *V = dyn_cast<VarDecl>(D->getSingleDecl())) return V->getName() == "qt_category_enabled";
    return false;
  }
  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) { auto o = node("e", S); o["e"] = expr(E); return o; }
    if (auto *X = dyn_cast<CompoundStmt>(S)) { auto o = node("seq", S); json::Array a; for (auto *c : X->body()) a.push_back(stmt(c)); o["s"] = std::move(a); return o; }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      auto o = node("decl", S); json::Array a;
      for (auto *d : X->decls()) if (auto *V = dyn_cast<VarDecl>(d)) { a.push_back(varInfo(V)); }
      o["vars"] = std::move(a); return o;
    }
    if (auto *X = dyn_cast<IfStmt>(S)) { auto o = node("if", S); if (X->getInit()) o["init"] = stmt(X->getInit());
      if (X->getConditionVariable()) o["cv"] = varInfo(X->getConditionVariable());
      o["c"] = expr(X->getCond()); o["th"] = stmt(X->getThen()); if (X->getElse()) o["el"] = stmt(X->getElse()); return o; }
    if (auto *X = dyn_cast<WhileStmt>(S)) { auto o = node("while", S); if (X->getConditionVariable()) o["cv"] = varInfo(X->getConditionVariable()); o["c"] = expr(X->getCond()); o["body"] = stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<DoStmt>(S)) { auto o = node("do", S); o["c"] = expr(X->getCond()); o["body"] = stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<ForStmt>(S)) {
      if (isLog(X)) { auto o = node("log", S); o["e"] = stmt(X->getBody()); return o; }
      auto o = node("for", S); if (X->getInit()) o["init"] = stmt(X->getInit()); if (X->getConditionVariable()) o["cv"] = varInfo(X->getConditionVariable()); if (X->getCond()) o["c"] = expr(X->getCond()); if (X->getInc()) o["inc"] = expr(X->getInc()); o["body"] = stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) { auto o = node("rfor", S); json::Object v; auto *V = X->getLoopVariable(); v["id"] = vid(V); v["n"] = V->getNameAsString(); tinfo(v, V->getType()); v["ref"] = V->getType()->isReferenceType(); v["const"] = V->getType().getNonReferenceType().isConstQualified();
      if (auto *DD = dyn_cast<DecompositionDecl>(V)) { json::Array bs; for (auto *b : DD->bindings()) bs.push_back(b->getNameAsString()); v["binds"] = std::move(bs); }
      o["var"] = std::move(v); o["range"] = expr(X->getRangeInit()); o["body"] = stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<SwitchStmt>(S)) { auto o = node("switch", S); o["c"] = expr(X->getCond()); o["body"] = stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<CaseStmt>(S)) { auto o = node("case", S); o["v"] = expr(X->getLHS()); if (X->getRHS()) o["v2"] = expr(X->getRHS()); o["s"] = stmt(X->getSubStmt()); return o; }
    if (auto *X = dyn_cast<DefaultStmt>(S)) { auto o = node("default", S); o["s"] = stmt(X->getSubStmt()); return o; }
    if (auto *X = dyn_cast<ReturnStmt>(S)) { auto o = node("ret", S); if (X->getRetValue()) o["e"] = expr(X->getRetValue()); return o; }
    if (isa<BreakStmt>(S)) return node("break", S);
    if (isa<ContinueStmt>(S)) return node("continue", S);
    if (isa<NullStmt>(S)) return node("null_s", S);
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<LabelStmt>(S)) { auto o = node("label", S); o["n"] = X->getName(); o["s"] = stmt(X->getSubStmt()); return o; }
    if (auto *X = dyn_cast<GotoStmt>(S)) { auto o = node("goto", S); o["n"] = X->getLabel()->getNameAsString(); return o; }
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      auto o = node("try", S); o["body"] = stmt(X->getTryBlock()); json::Array a;
      for (unsigned i = 0; i < X->getNumHandlers(); ++i) { auto *H = X->getHandler(i); json::Object h; h["l"] = line(H->getBeginLoc());
        if (H->getExceptionDecl()) { h["var"] = varInfo(H->getExceptionDecl()); h["t"] = tstr(H->getCaughtType()); }
        h["body"] = stmt(H->getHandlerBlock()); a.push_back(std::move(h)); }
      o["catches"] = std::move(a); return o;
    }
    auto o = node("other_s", S); o["cls"] = S->getStmtClassName(); o["kids"] = kids(S); return o;
  }
  void fillFunction(json::Object &o, const FunctionDecl *F) {
    json::Array ps;
    for (auto *p : F->parameters()) {
      json::Object po; po["id"] = vid(p); po["n"] = p->getNameAsString(); tinfo(po, p->getType());
      if (p->getType()->isReferenceType()) { po["ref"] = true; if (p->getType()->isRValueReferenceType()) po["rv"] = true; if (p->getType().getNonReferenceType().isConstQualified()) po["cref"] = true; }
      if (auto *RD = p->getType().getNonReferenceType()->getAsCXXRecordDecl()) po["cls"] = plainq(RD);
      ps.push_back(std::move(po));
    }
    o["params"] = std::move(ps);
    json::Object rt; tinfo(rt, F->getReturnType()); if (F->getReturnType()->isReferenceType()) rt["ref"] = true; o["ret"] = std::move(rt);
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      json::Array a;
      for (auto *I : K->inits()) {
        json::Object io; io["l"] = line(I->getSourceLocation().isValid() ? I->getSourceLocation() : F->getLocation());
        if (I->isAnyMemberInitializer()) io["m"] = I->getAnyMember()->getNameAsString();
        else if (I->isDelegatingInitializer()) io["deleg"] = true;
        else if (I->isBaseInitializer()) io["base"] = tstr(QualType(I->getBaseClass(), 0));
        if (I->isAnyMemberInitializer() && I->getAnyMember()->getType()->isReferenceType()) io["ref"] = true;
        io["w"] = I->isWritten();
        io["e"] = expr(I->getInit());
        a.push_back(std::move(io));
      }
      o["inits"] = std::move(a);
    }
    o["body"] = stmt(F->getBody());
  }
  void function(const FunctionDecl *F) {
    if (F->isDependentContext() || !F->doesThisDeclarationHaveABody() ) return;
    if (F->isDefaulted() && F->isImplicit()) return;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return;
    std::string id = fid(F);
    if (functions.get(id)) return;
    const FunctionDecl *saved = cur; cur = F; std::string sf = curFile; curFile = fileOf(F->getLocation());
    json::Object o; fnInfo(o, F); o["file"] = curFile; o["line"] = line(F->getLocation());
    o["endl"] = line(F->getEndLoc());
    if (isa<CXXConstructorDecl>(F)) { o["isctor"] = true; auto *K = cast<CXXConstructorDecl>(F); o["ck"] = K->isDefaultConstructor() ? "default" : K->isCopyConstructor() ? "copy" : K->isMoveConstructor() ? "move" : "other"; }
    if (isa<CXXDestructorDecl>(F)) o["isdtor"] = true;
    if (F->isDefaulted()) o["defaulted"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isCopyAssignmentOperator()) o["asg"] = "copy"; if (M->isMoveAssignmentOperator()) o["asg"] = "move";
      json::Array ov; for (auto *b : M->overridden_methods()) ov.push_back(fid(b)); if (!ov.empty()) o["overrides"] = std::move(ov);
    }
    if (F->getAccess() != AS_none) o["access"] = F->getAccess() == AS_public ? "public" : F->getAccess() == AS_protected ? "protected" : "private";
    if (!F->isExternallyVisible()) o["internal"] = true;
    fillFunction(o, F);
    functions[id] = std::move(o);
    cur = saved; curFile = sf;
  }
  void record(const CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return;
    std::string q = qname(R);
    if (records.get(q)) return;
    std::string sf = curFile; curFile = fileOf(R->getLocation());
    json::Object o; o["q"] = plainq(R); o["file"] = curFile; o["line"] = line(R->getLocation());
    json::Array bases; for (auto &b : R->bases()) { json::Object bo; bo["t"] = tstr(b.getType()); if (auto *BR = b.getType()->getAsCXXRecordDecl()) bo["q"] = plainq(BR); bases.push_back(std::move(bo)); } o["bases"] = std::move(bases);
    json::Array fs; for (auto *f : R->fields()) { json::Object fo; fo["n"] = f->getNameAsString(); tinfo(fo, f->getType()); if (f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer()); fs.push_back(std::move(fo)); } o["fields"] = std::move(fs);
    json::Array ms; for (auto *m : R->methods()) { json::Object mo; mo["n"] = m->getNameAsString(); mo["id"] = fid(m); if (m->isVirtual()) mo["virt"] = true; if (m->isPureVirtual()) mo["pure"] = true; if (m->isDeleted()) mo["deleted"] = true; if (m->isDefaulted()) mo["defaulted"] = true; if (m->isImplicit()) mo["implicit"] = true; if (m->isStatic()) mo["static"] = true; if (m->isConst()) mo["const"] = true; if (isSignal(m)) mo["sig"] = true;
      mo["access"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private";
      mo["ret"] = tstr(m->getReturnType()); json::Array pt; for (auto *p : m->parameters()) pt.push_back(tstr(p->getType())); mo["pt"] = std::move(pt); mo["body"] = m->hasBody();
      if (isa<CXXConstructorDecl>(m)) mo["isctor"] = true;
      json::Array ov; for (auto *b : m->overridden_methods()) ov.push_back(fid(b)); if (!ov.empty()) mo["overrides"] = std::move(ov);
      mo["l"] = line(m->getLocation());
      ms.push_back(std::move(mo)); } o["methods"] = std::move(ms);
    auto ca = ctargs(R); if (!ca.empty()) o["cta"] = std::move(ca);
    records[q] = std::move(o);
    curFile = sf;
  }
  void enumd(const EnumDecl *D) {
    if (!D->isThisDeclarationADefinition() || D->isDependentContext()) return;
    json::Object o; o["file"] = fileOf(D->getLocation()); o["line"] = line(D->getLocation()); json::Array a;
    for (auto *k : D->enumerators()) { json::Object e; e["n"] = k->getNameAsString(); llvm::SmallString<32> s; k->getInitVal().toString(s, 10); e["v"] = s.str().str(); a.push_back(std::move(e)); }
    o["values"] = std::move(a); enums[plainq(D)] = std::move(o);
  }
  void global(const VarDecl *V) {
    if (!V->hasGlobalStorage() || V->isStaticLocal() || V->getDeclContext()->isDependentContext()) return;
    if (V->isThisDeclarationADefinition() == VarDecl::DeclarationOnly && !V->hasInit()) return;
    std::string sf = curFile; curFile = fileOf(V->getLocation());
    json::Object o; o["file"] = curFile; o["line"] = line(V->getLocation()); tinfo(o, V->getType()); o["id"] = vid(V); o["n"] = V->getNameAsString();
    if (V->getType().isConstQualified() || V->isConstexpr()) o["const"] = true;
    if (V->getInit()) o["init"] = expr(V->getInit());
    std::string key = plainq(V);
    if (!globals.get(key) || V->getInit()) globals[key] = std::move(o);
    curFile = sf;
  }
};

class V : public RecursiveASTVisitor<V> {
public:
  Dumper &D; V(Dumper &D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *F) { if (D.inRoots(F->getLocation())) D.function(F); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { if (D.inRoots(R->getLocation())) D.record(R); return true; }
  bool VisitEnumDecl(EnumDecl *R) { if (D.inRoots(R->getLocation())) D.enumd(R); return true; }
  bool VisitVarDecl(VarDecl *R) { if (D.inRoots(R->getLocation())) D.global(R); return true; }
};

class Cons : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    Dumper D(C); V v(D); v.TraverseDecl(C.getTranslationUnitDecl());
    std::error_code ec; llvm::raw_fd_ostream os(Out, ec);
    json::Object root; root["functions"] = std::move(D.functions); root["records"] = std::move(D.records); root["enums"] = std::move(D.enums); root["globals"] = std::move(D.globals);
    root["errors"] = (int64_t)C.getDiagnostics().getClient()->getNumErrors();
    os << json::Value(std::move(root));
  }
};
class Act : public ASTFrontendAction { public: std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); } };

int main(int argc, const char **argv) {
  auto P = tooling::CommonOptionsParser::create(argc, argv, Cat);
  if (!P) { llvm::errs() << llvm::toString(P.takeError()); return 2; }
  std::string r = Roots; size_t p = 0;
  while (p < r.size()) { size_t q = r.find(':', p); if (q == std::string::npos) q = r.size(); rootList.push_back(r.substr(p, q - p)); p = q + 1; }
  tooling::ClangTool T(P->getCompilations(), P->getSourcePathList());
  return T.run(tooling::newFrontendActionFactory<Act>().get());
}
