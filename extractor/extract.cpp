// pillow-extract: lowers every function of the analysed sources to a small typed
// three-address IR with an explicit control-flow graph (JSON on stdout).
//
//   pillow-extract <root> <source> -- <compiler flags>
//
// Everything is resolved by clang: overloads, implicit conversions, virtual-ness,
// Qt signal/slot sections, template instantiations, constant expressions.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Attr.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;
typedef llvm::json::Object O;

static std::string gRoot;

namespace {

struct Ctx {
  ASTContext *AC;
  std::unique_ptr<MangleContext> MC;
  SourceManager *SM;
  PrintingPolicy PP;
  json::Object callees;
  std::set<std::string> calleeSeen;
  json::Array functions;
  std::set<std::string> fnSeen;
  json::Object records, enums, globals;
  std::vector<const FunctionDecl *> pendingLambdas;
  Ctx(ASTContext &A) : AC(&A), MC(A.createMangleContext()), SM(&A.getSourceManager()), PP(A.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.Bool = true;
  }

  std::string ty(QualType T) { return T.isNull() ? std::string("?") : T.getCanonicalType().getAsString(PP); }

  std::string fileOf(SourceLocation L) {
    L = SM->getExpansionLoc(L);
    PresumedLoc P = SM->getPresumedLoc(L, /*UseLineDirectives=*/false);
    return P.isValid() ? std::string(P.getFilename()) : std::string();
  }
  int lineOf(SourceLocation L) {
    L = SM->getExpansionLoc(L);
    PresumedLoc P = SM->getPresumedLoc(L, false);
    return P.isValid() ? (int)P.getLine() : 0;
  }
  bool inRoot(SourceLocation L) {
    std::string f = fileOf(L);
    return f.compare(0, gRoot.size(), gRoot) == 0;
  }
  std::string rel(const std::string &f) {
    if (f.compare(0, gRoot.size(), gRoot) == 0) { std::string r = f.substr(gRoot.size()); while (!r.empty() && r[0]=='/') r = r.substr(1); return r; }
    return f;
  }

  std::string mangle(const FunctionDecl *FD) {
    FD = FD->getCanonicalDecl();
    std::string s; llvm::raw_string_ostream os(s);
    if (auto *C = dyn_cast<CXXConstructorDecl>(FD)) MC->mangleName(GlobalDecl(C, Ctor_Complete), os);
    else if (auto *D = dyn_cast<CXXDestructorDecl>(FD)) MC->mangleName(GlobalDecl(D, Dtor_Complete), os);
    else if (MC->shouldMangleDeclName(FD)) MC->mangleName(GlobalDecl(FD), os);
    else os << FD->getNameAsString();
    os.flush();
    if (FD->getFormalLinkage() == Linkage::Internal) s += "@" + rel(fileOf(FD->getLocation()));
    return s;
  }

  // qualified name without template arguments
  std::string qual(const NamedDecl *D) {
    std::string out;
    std::vector<std::string> parts;
    std::string nm = D->getNameAsString();
    if (auto *FD = dyn_cast<FunctionDecl>(D)) {
      if (isa<CXXConstructorDecl>(FD)) nm = cast<CXXMethodDecl>(FD)->getParent()->getNameAsString();
      else if (isa<CXXDestructorDecl>(FD)) nm = "~" + cast<CXXMethodDecl>(FD)->getParent()->getNameAsString();
      else if (isa<CXXConversionDecl>(FD)) nm = "operator " + ty(FD->getReturnType());
    }
    parts.push_back(nm);
    const DeclContext *DC = D->getDeclContext();
    while (DC && !DC->isTranslationUnit()) {
      if (auto *ND = dyn_cast<NamedDecl>(DC)) {
        std::string n = ND->getNameAsString();
        if (isa<NamespaceDecl>(ND) && n.empty()) n = "(anon)";
        if (auto *F = dyn_cast<FunctionDecl>(ND)) n = F->getNameAsString();
        if (!n.empty()) parts.push_back(n);
      }
      DC = DC->getParent();
    }
    for (size_t i = parts.size(); i-- > 0;) { out += parts[i]; if (i) out += "::"; }
    return out;
  }

  std::string recName(const RecordDecl *R) {
    std::string q = qual(R);
    if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
      std::string s; llvm::raw_string_ostream os(s); os << "<";
      bool first = true;
      for (auto &A : S->getTemplateArgs().asArray()) { if (!first) os << ","; first = false; if (A.getKind()==TemplateArgument::Type) os << ty(A.getAsType()); else A.print(PP, os, true); }
      os << ">"; os.flush(); q += s;
    }
    return q;
  }

  const char *qtKind(const CXXMethodDecl *M) {
    if (!M) return "";
    for (auto *A : M->specific_attrs<AnnotateAttr>()) {
      if (A->getAnnotation() == "qt_invokable") return "invokable";
      if (A->getAnnotation() == "qt_signal") return "signal";
      if (A->getAnnotation() == "qt_slot") return "slot";
    }
    const CXXMethodDecl *C = M->getCanonicalDecl();
    if (const FunctionDecl *P = C->getInstantiatedFromMemberFunction()) C = cast<CXXMethodDecl>(P);
    const AccessSpecDecl *last = nullptr;
    for (auto *D : C->getParent()->decls()) {
      if (auto *AS = dyn_cast<AccessSpecDecl>(D)) last = AS;
      if (D == C) break;
    }
    if (last)
      for (auto *A : last->specific_attrs<AnnotateAttr>()) {
        if (A->getAnnotation() == "qt_signal") return "signal";
        if (A->getAnnotation() == "qt_slot") return "slot";
      }
    return "";
  }

  json::Object methodInfo(const FunctionDecl *FD) {
    json::Object o;
    o["n"] = qual(FD);
    o["name"] = FD->getDeclName().isIdentifier() ? std::string(FD->getName()) : FD->getNameAsString();
    o["file"] = rel(fileOf(FD->getLocation()));
    o["line"] = lineOf(FD->getLocation());
    o["proj"] = inRoot(FD->getLocation());
    o["ret"] = ty(FD->getReturnType());
    json::Array ps;
    for (auto *P : FD->parameters()) ps.push_back(ty(P->getType()));
    o["params"] = std::move(ps);
    if (FD->isVariadic()) o["variadic"] = true;
    if (FD->isNoReturn()) o["noreturn"] = true;
    if (auto *TA = FD->getTemplateSpecializationArgs()) {
      json::Array ta;
      for (auto &A : TA->asArray()) { std::string s; llvm::raw_string_ostream os(s); if (A.getKind()==TemplateArgument::Type) os << ty(A.getAsType()); else A.print(PP, os, true); os.flush(); ta.push_back(s); }
      o["targs"] = std::move(ta);
    }
    if (FD->isOverloadedOperator()) o["op"] = getOperatorSpelling(FD->getOverloadedOperator());
    if (auto *M = dyn_cast<CXXMethodDecl>(FD)) {
      o["cls"] = recName(M->getParent());
      o["static"] = M->isStatic();
      o["virtual"] = M->isVirtual();
      o["pure"] = M->isPureVirtual();
      o["const"] = M->isConst();
      o["qt"] = qtKind(M);
      switch (M->getAccess()) { case AS_public: o["access"]="public"; break; case AS_protected: o["access"]="protected"; break; default: o["access"]="private"; }
      if (isa<CXXConstructorDecl>(M)) { o["ctor"] = true; auto *C = cast<CXXConstructorDecl>(M); o["copy"] = C->isCopyOrMoveConstructor(); o["default"] = C->isDefaultConstructor(); }
      if (isa<CXXDestructorDecl>(M)) o["dtor"] = true;
      o["implicit"] = M->isImplicit() || M->isDefaulted();
      json::Array ov;
      for (auto *O : M->overridden_methods()) ov.push_back(mangle(O));
      o["overrides"] = std::move(ov);
      int nd = 0; for (auto *P : M->parameters()) if (P->hasDefaultArg()) ++nd;
      o["ndefault"] = nd;
    }
    return o;
  }

  std::string callee(const FunctionDecl *FD) {
    std::string m = mangle(FD);
    if (calleeSeen.insert(m).second) callees[m] = methodInfo(FD);
    return m;
  }

  void record(const CXXRecordDecl *R) {
    if (!R->hasDefinition()) return;
    R = R->getDefinition();
    std::string n = recName(R);
    if (records.find(n) != records.end()) return;
    json::Object o;
    o["file"] = rel(fileOf(R->getLocation())); o["line"] = lineOf(R->getLocation());
    o["proj"] = inRoot(R->getLocation());
    json::Array bases; for (auto &B : R->bases()) if (auto *BR = B.getType()->getAsCXXRecordDecl()) bases.push_back(recName(BR));
    o["bases"] = std::move(bases);
    o["abstract"] = R->isAbstract();
    json::Array fs;
    for (auto *F : R->fields()) {
      json::Object fo; fo["name"] = F->getNameAsString(); fo["type"] = ty(F->getType()); fo["line"] = lineOf(F->getLocation());
      fo["init"] = F->hasInClassInitializer();
      fo["scalar"] = F->getType()->isScalarType();
      if (auto *AT = AC->getAsConstantArrayType(F->getType())) { fo["arr"] = (int64_t)AT->getSize().getZExtValue(); }
      switch (F->getAccess()) { case AS_public: fo["access"]="public"; break; case AS_protected: fo["access"]="protected"; break; default: fo["access"]="private"; }
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    json::Array ms;
    for (auto *M : R->methods()) {
      if (M->isImplicit() && !inRoot(R->getLocation())) continue;
      std::string m = callee(M); ms.push_back(m);
    }
    o["methods"] = std::move(ms);
    // Q_OBJECT?
    bool qobj = false; for (auto *M : R->methods()) if (M->getDeclName().isIdentifier() && M->getName() == "qt_metacall") qobj = true;
    o["qobject"] = qobj;
    records[n] = std::move(o);
    for (auto &B : R->bases()) if (auto *BR = B.getType()->getAsCXXRecordDecl()) record(BR);
  }
  void recordC(const RecordDecl *R) {
    R = R->getDefinition(); if (!R) return;
    std::string n = recName(R); if (n.empty()) n = R->getTypedefNameForAnonDecl() ? R->getTypedefNameForAnonDecl()->getNameAsString() : std::string("(anon)");
    if (records.find(n) != records.end()) return;
    json::Object o; o["file"] = rel(fileOf(R->getLocation())); o["line"] = lineOf(R->getLocation()); o["proj"] = inRoot(R->getLocation());
    json::Array fs;
    for (auto *F : R->fields()) { json::Object fo; fo["name"] = F->getNameAsString(); fo["type"] = ty(F->getType()); if (F->isBitField()) fo["bits"] = (int)F->getBitWidthValue(*AC); fo["scalar"] = F->getType()->isScalarType(); fs.push_back(std::move(fo)); }
    o["fields"] = std::move(fs); o["bases"] = json::Array(); o["methods"] = json::Array();
    records[n] = std::move(o);
  }
};

struct Lower {
  Ctx &C;
  const FunctionDecl *FD;
  struct Block { json::Array ins; bool term = false; };
  std::vector<Block> blocks;
  int cur = 0, ntemp = 0;
  std::map<const VarDecl *, int> vars;
  json::Array varInfo;
  std::vector<int> brk, cont;
  std::map<const LabelDecl *, int> labels;
  std::map<const SwitchCase *, int> caseBlocks;
  int curLine = 0;

  Lower(Ctx &C, const FunctionDecl *FD) : C(C), FD(FD) { newBlock(); }

  int newBlock() { blocks.emplace_back(); return (int)blocks.size() - 1; }
  int T() { return ntemp++; }
  void emit(json::Object o) {
    if (blocks[cur].term) { cur = newBlock(); } // dead code goes to a fresh unreachable block
    o["l"] = curLine;
    blocks[cur].ins.push_back(std::move(o));
  }
  void term(json::Object o) { if (blocks[cur].term) return; o["l"] = curLine; blocks[cur].ins.push_back(std::move(o)); blocks[cur].term = true; }
  void jmp(int b) { term(O{{"o", "jmp"}, {"t", b}}); }
  void setBlock(int b) { cur = b; }
  void loc(const Stmt *S) { if (S) { int l = C.lineOf(S->getBeginLoc()); if (l) curLine = l; } }
  // prefer precise line of token for member calls spanning lines
  int simple(const char *op, json::Object o) { int t = T(); o["o"] = op; o["d"] = t; emit(std::move(o)); return t; }

  int var(const VarDecl *V) {
    auto it = vars.find(V);
    if (it != vars.end()) return it->second;
    int id = (int)varInfo.size();
    vars[V] = id;
    json::Object o; o["name"] = V->getNameAsString(); o["type"] = C.ty(V->getType()); o["ref"] = V->getType()->isReferenceType(); o["param"] = isa<ParmVarDecl>(V);
    if (auto *AT = C.AC->getAsConstantArrayType(V->getType())) o["arr"] = (int64_t)AT->getSize().getZExtValue();
    o["line"] = C.lineOf(V->getLocation());
    varInfo.push_back(std::move(o));
    return id;
  }
  int synth(QualType t, bool ref) {
    int id = (int)varInfo.size();
    varInfo.push_back(json::Object{{"name", "$t" + std::to_string(id)}, {"type", C.ty(t)}, {"ref", ref}, {"synth", true}});
    return id;
  }
  int varaddr(int v) { return simple("var", O{{"v", v}}); }
  int load(int p, QualType t) { return simple("load", O{{"p", p}, {"t", C.ty(t)}}); }
  void store(int p, int v, QualType t) { emit(O{{"o", "store"}, {"p", p}, {"v", v}, {"t", C.ty(t)}}); }
  int cint(const llvm::APSInt &v, QualType t) { return simple("const", O{{"k", "int"}, {"v", v.isRepresentableByInt64() ? json::Value(v.getExtValue()) : json::Value(llvm::toString(v, 10))}, {"t", C.ty(t)}}); }
  int cint(int64_t v, QualType t) { return simple("const", O{{"k", "int"}, {"v", v}, {"t", C.ty(t)}}); }
  int unknown(const Expr *E, const char *why) { return simple("unknown", O{{"w", std::string(why) + ":" + E->getStmtClassName()}, {"t", C.ty(E->getType())}}); }

  static const Expr *peel(const Expr *E) {
    for (;;) {
      if (auto *X = dyn_cast<ParenExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<ExprWithCleanups>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<ConstantExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = X->getReplacement();
      else if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) E = X->getExpr();
      else if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) E = X->getExpr();
      else if (auto *X = dyn_cast<OpaqueValueExpr>(E)) { if (!X->getSourceExpr()) return E; E = X->getSourceExpr(); }
      else if (auto *X = dyn_cast<UnaryOperator>(E)) { if (X->getOpcode() == UO_Extension || X->getOpcode() == UO_Plus) E = X->getSubExpr(); else return E; }
      else if (auto *X = dyn_cast<GenericSelectionExpr>(E)) E = X->getResultExpr();
      else if (auto *X = dyn_cast<ChooseExpr>(E)) E = X->getChosenSubExpr();
      else return E;
    }
  }

  int any(const Expr *E) { E = peel(E); return E->isGLValue() ? lv(E) : rv(E); }

  int arg(const Expr *A, QualType paramT) {
    if (!paramT.isNull() && paramT->isReferenceType()) {
      const Expr *P = peel(A);
      if (P->isGLValue()) return lv(P);
      int v = rv(P);
      return simple("temp", O{{"v", v}, {"t", C.ty(P->getType())}});
    }
    const Expr *P = peel(A);
    if (P->isGLValue() && paramT.isNull()) return lv(P);
    if (P->isGLValue()) { int p = lv(P); return load(p, P->getType()); }
    return rv(P);
  }

  std::string stripTy(const Expr *E) { // static type ignoring implicit casts
    const Expr *P = E;
    for (;;) { P = peel(P); if (auto *I = dyn_cast<ImplicitCastExpr>(P)) { P = I->getSubExpr(); continue; } if (auto *M = dyn_cast<MaterializeTemporaryExpr>(P)) { P = M->getSubExpr(); continue; } break; }
    return C.ty(P->getType());
  }

  int finishCall(const FunctionDecl *Callee, int thisPtr, json::Array args, json::Array at, QualType ret, bool virt, bool noret, int fnptr = -1) {
    json::Object o; o["o"] = "call"; int d = T(); o["d"] = d;
    if (Callee) o["f"] = C.callee(Callee); else o["fp"] = fnptr;
    if (thisPtr >= 0) o["this"] = thisPtr;
    o["a"] = std::move(args); o["at"] = std::move(at); o["t"] = C.ty(ret);
    if (virt) o["virt"] = true;
    emit(std::move(o));
    if (noret) { term(O{{"o", "unreachable"}}); setBlock(newBlock()); }
    return d;
  }

  int call(const CallExpr *E) {
    int line = C.lineOf(E->getExprLoc());
    // evaluate
    if (auto *MC = dyn_cast<CXXMemberCallExpr>(E)) {
      const Expr *CE = peel(MC->getCallee());
      if (auto *ME = dyn_cast<MemberExpr>(CE)) {
        const Expr *B = ME->getBase();
        int th;
        if (ME->isArrow()) th = rv(B);
        else { const Expr *PB = peel(B); if (PB->isGLValue()) th = lv(PB); else { int v = rv(PB); th = simple("temp", O{{"v", v}, {"t", C.ty(PB->getType())}}); } }
        auto *M = dyn_cast<CXXMethodDecl>(ME->getMemberDecl());
        json::Array a, at;
        for (unsigned i = 0; i < E->getNumArgs(); ++i) { QualType pt = i < M->getNumParams() ? M->getParamDecl(i)->getType() : QualType(); a.push_back(arg(E->getArg(i), pt)); at.push_back(stripTy(E->getArg(i))); }
        bool virt = M->isVirtual() && !ME->hasQualifier();
        if (line) curLine = line;
        at.push_back(stripTy(B)); // last: static type of object
        return finishCall(M, th, std::move(a), std::move(at), E->getCallReturnType(*C.AC), virt, M->isNoReturn());
      }
      // pointer-to-member
      json::Array a, at; for (auto *A : E->arguments()) { a.push_back(any(A)); }
      return finishCall(nullptr, -1, std::move(a), std::move(at), E->getType(), false, false, -1);
    }
    const FunctionDecl *F = E->getDirectCallee();
    if (auto *OC = dyn_cast<CXXOperatorCallExpr>(E)) {
      if (auto *M = dyn_cast_or_null<CXXMethodDecl>(F)) {
        if (!M->isStatic()) {
          const Expr *PB = peel(OC->getArg(0)); int th;
          // assignment operators evaluate the right operand first only in C++17; order is irrelevant for this IR
          if (PB->isGLValue()) th = lv(PB); else { int v = rv(PB); th = simple("temp", O{{"v", v}, {"t", C.ty(PB->getType())}}); }
          json::Array a, at;
          for (unsigned i = 1; i < E->getNumArgs(); ++i) { QualType pt = i - 1 < M->getNumParams() ? M->getParamDecl(i - 1)->getType() : QualType(); a.push_back(arg(E->getArg(i), pt)); at.push_back(stripTy(E->getArg(i))); }
          if (line) curLine = line;
          at.push_back(stripTy(PB));
          return finishCall(M, th, std::move(a), std::move(at), E->getCallReturnType(*C.AC), M->isVirtual(), M->isNoReturn());
        }
      }
    }
    json::Array a, at;
    int fp = -1;
    const FunctionProtoType *FPT = nullptr;
    if (!F) { fp = rv(E->getCallee()); QualType ct = E->getCallee()->getType(); if (auto *PT = ct->getAs<PointerType>()) ct = PT->getPointeeType(); FPT = ct->getAs<FunctionProtoType>(); }
    for (unsigned i = 0; i < E->getNumArgs(); ++i) {
      QualType pt; if (F && i < F->getNumParams()) pt = F->getParamDecl(i)->getType(); else if (FPT && i < FPT->getNumParams()) pt = FPT->getParamType(i);
      a.push_back(arg(E->getArg(i), pt)); at.push_back(stripTy(E->getArg(i)));
    }
    if (line) curLine = line;
    return finishCall(F, -1, std::move(a), std::move(at), E->getCallReturnType(*C.AC), false, F && F->isNoReturn(), fp);
  }

  int construct(const CXXConstructExpr *E, int into = -1) {
    auto *K = E->getConstructor();
    json::Array a, at;
    for (unsigned i = 0; i < E->getNumArgs(); ++i) { QualType pt = i < K->getNumParams() ? K->getParamDecl(i)->getType() : QualType(); a.push_back(arg(E->getArg(i), pt)); at.push_back(stripTy(E->getArg(i))); }
    if (auto *R = K->getParent()) if (C.inRoot(R->getLocation())) C.record(R);
    O o{{"f", C.callee(K)}, {"cls", C.recName(K->getParent())}, {"a", std::move(a)}, {"at", std::move(at)}, {"copy", K->isCopyOrMoveConstructor()}, {"zero", E->requiresZeroInitialization()}};
    if (into >= 0) o["into"] = into;
    return simple("construct", std::move(o));
  }

  const char *castKind(CastKind k) {
    switch (k) {
    case CK_IntegralCast: return "int"; case CK_IntegralToBoolean: return "int2bool"; case CK_PointerToBoolean: return "ptr2bool";
    case CK_BitCast: return "bit"; case CK_LValueBitCast: return "bit"; case CK_IntegralToFloating: return "int2float"; case CK_FloatingToIntegral: return "float2int"; case CK_FloatingCast: return "float";
    case CK_DerivedToBase: case CK_UncheckedDerivedToBase: return "d2b"; case CK_BaseToDerived: return "b2d"; case CK_Dynamic: return "dyn";
    case CK_IntegralToPointer: return "int2ptr"; case CK_PointerToIntegral: return "ptr2int"; case CK_BooleanToSignedIntegral: return "int"; case CK_FloatingToBoolean: return "float2bool";
    case CK_MemberPointerToBoolean: return "ptr2bool";
    default: return "other";
    }
  }

  bool constInt(const Expr *E, llvm::APSInt &out) {
    if (!E->getType()->isIntegralOrEnumerationType() || E->isValueDependent()) return false;
    Expr::EvalResult R;
    if (E->HasSideEffects(*C.AC)) return false;
    if (!E->EvaluateAsInt(R, *C.AC, Expr::SE_NoSideEffects)) return false;
    out = R.Val.getInt(); return true;
  }

  int rv(const Expr *E0) {
    const Expr *E = peel(E0);
    if (E->isGLValue()) { // caller wants a value of a glvalue (discarded or C)
      return lv(E);
    }
    // constant folding of pure integer expressions (enumerators, sizeof, arithmetic on literals)
    { llvm::APSInt v; if (!isa<CXXConstructExpr>(E) && constInt(E, v)) return cint(v, E->getType()); }
    if (auto *CE = dyn_cast<CastExpr>(E)) {
      const Expr *S = CE->getSubExpr();
      switch (CE->getCastKind()) {
      case CK_LValueToRValue: { int p = lv(peel(S)); loc(E); return load(p, E->getType()); }
      case CK_NoOp: case CK_ConstructorConversion: case CK_UserDefinedConversion: case CK_AtomicToNonAtomic: case CK_NonAtomicToAtomic: {
        const Expr *P = peel(S); if (P->isGLValue()) return lv(P); return rv(P); }
      case CK_ArrayToPointerDecay: { const Expr *P = peel(S); int p; if (P->isGLValue()) p = lv(P); else { int v = rv(P); p = simple("temp", O{{"v", v}, {"t", C.ty(P->getType())}}); } return simple("decay", O{{"p", p}}); }
      case CK_FunctionToPointerDecay: case CK_BuiltinFnToFnPtr: return lv(peel(S));
      case CK_NullToPointer: return simple("const", O{{"k", "null"}, {"t", C.ty(E->getType())}});
      case CK_ToVoid: return any(S);
      case CK_NullToMemberPointer: return simple("const", O{{"k", "null"}});
      default: {
        const Expr *P = peel(S); int v = P->isGLValue() ? lv(P) : rv(P);
        loc(E);
        return simple("cast", O{{"k", castKind(CE->getCastKind())}, {"a", v}, {"from", C.ty(S->getType())}, {"t", C.ty(E->getType())}, {"explicit", isa<ExplicitCastExpr>(CE)}, {"static", isa<CXXStaticCastExpr>(CE) || isa<CStyleCastExpr>(CE)}, {"reint", isa<CXXReinterpretCastExpr>(CE)}});
      }
      }
    }
    if (auto *M = dyn_cast<MaterializeTemporaryExpr>(E)) return rv(M->getSubExpr());
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) return construct(X);
    if (auto *X = dyn_cast<CallExpr>(E)) return call(X);
    if (auto *X = dyn_cast<BinaryOperator>(E)) return binop(X, false);
    if (auto *X = dyn_cast<UnaryOperator>(E)) return unop(X);
    if (auto *X = dyn_cast<AbstractConditionalOperator>(E)) return cond(X, false);
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      int init = -1; const CXXConstructExpr *KE = X->getConstructExpr();
      if (KE && !X->isArray()) {
        loc(E);
        json::Object o0{{"t", C.ty(X->getAllocatedType())}}; o0["ctor"] = true;
        int p = simple("new", std::move(o0));
        construct(KE, p);
        return p;
      }
      if (auto *I = X->getInitializer()) init = rv(I); else if (KE) init = construct(KE);
      int sz = -1; if (X->isArray() && X->getArraySize()) sz = rv(*X->getArraySize());
      loc(E);
      json::Object o{{"t", C.ty(X->getAllocatedType())}}; if (init >= 0) o["init"] = init; if (sz >= 0) o["n"] = sz;
      return simple("new", std::move(o));
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { int p = rv(X->getArgument()); emit(O{{"o", "delete"}, {"p", p}, {"arr", X->isArrayForm()}, {"t", C.ty(X->getDestroyedType())}}); return simple("const", O{{"k", "void"}}); }
    if (isa<CXXThisExpr>(E)) return simple("this", O{});
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) return cint(X->getValue(), E->getType());
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return simple("const", O{{"k", "null"}});
    if (auto *X = dyn_cast<FloatingLiteral>(E)) return simple("const", O{{"k", "float"}, {"v", X->getValueAsApproximateDouble()}});
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) { if (E->getType()->isPointerType()) return simple("const", O{{"k", "null"}}); if (E->getType()->isIntegralOrEnumerationType()) return cint(0, E->getType()); return simple("zero", O{{"t", C.ty(E->getType())}}); }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      if (X->isSemanticForm() == false && X->getSemanticForm()) X = X->getSemanticForm();
      json::Array vs; for (auto *I : X->inits()) vs.push_back(I->isGLValue() ? lv(peel(I)) : rv(I));
      json::Array names; if (auto *RT = X->getType()->getAs<RecordType>()) for (auto *F : RT->getDecl()->fields()) names.push_back(F->getNameAsString());
      return simple("initlist", O{{"v", std::move(vs)}, {"t", C.ty(X->getType())}, {"names", std::move(names)}});
    }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      json::Array caps; for (auto *I : X->capture_inits()) if (I) caps.push_back(any(I));
      const FunctionDecl *op = X->getCallOperator(); C.pendingLambdas.push_back(op);
      return simple("lambda", O{{"f", C.mangle(op)}, {"caps", std::move(caps)}});
    }
    if (auto *X = dyn_cast<StmtExpr>(E)) { const CompoundStmt *S = X->getSubStmt(); int last = -1; for (auto *c : S->body()) { if (c == S->body_back() && isa<Expr>(c)) last = any(cast<Expr>(c)); else stmt(c); } return last >= 0 ? last : unknown(E, "stmtexpr"); }
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) { const Expr *S = peel(X->getSubExpr()); int v = S->isGLValue() ? lv(S) : rv(S); return simple("stdinit", O{{"a", v}, {"t", C.ty(E->getType())}}); }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) { (void)X; return unknown(E, "inhctor"); }
    if (auto *X = dyn_cast<ArrayInitLoopExpr>(E)) { (void)X; return unknown(E, "arrinit"); }
    if (auto *X = dyn_cast<CompoundLiteralExpr>(E)) return rv(X->getInitializer());
    if (auto *X = dyn_cast<AtomicExpr>(E)) { (void)X; return unknown(E, "atomic"); }
    if (auto *X = dyn_cast<TypeTraitExpr>(E)) return cint(X->getValue(), E->getType());
    if (auto *X = dyn_cast<PredefinedExpr>(E)) { (void)X; return unknown(E, "predef"); }
    return unknown(E, "rv");
  }

  int lv(const Expr *E0) {
    const Expr *E = peel(E0);
    if (!E->isGLValue()) { int v = rv(E); return simple("temp", O{{"v", v}, {"t", C.ty(E->getType())}}); }
    if (auto *D = dyn_cast<DeclRefExpr>(E)) {
      if (auto *V = dyn_cast<VarDecl>(D->getDecl())) {
        if (V->hasGlobalStorage()) { noteGlobal(V); int g = simple("global", O{{"n", C.qual(V)}, {"t", C.ty(V->getType())}}); if (V->getType()->isReferenceType()) return load(g, V->getType()); return g; }
        int p = varaddr(var(V));
        if (V->getType()->isReferenceType()) return load(p, V->getType());
        return p;
      }
      if (auto *F = dyn_cast<FunctionDecl>(D->getDecl())) return simple("func", O{{"f", C.callee(F)}});
      if (auto *B = dyn_cast<BindingDecl>(D->getDecl())) { if (B->getBinding()) return lv(B->getBinding()); }
      return unknown(E, "declref");
    }
    if (auto *M = dyn_cast<MemberExpr>(E)) {
      const Expr *B = M->getBase();
      if (auto *F = dyn_cast<FieldDecl>(M->getMemberDecl())) {
        int b;
        if (M->isArrow()) b = rv(B); else { const Expr *PB = peel(B); if (PB->isGLValue()) b = lv(PB); else { int v = rv(PB); b = simple("temp", O{{"v", v}, {"t", C.ty(PB->getType())}}); } }
        loc(E);
        if (F->getParent()->getIdentifier() && C.inRoot(F->getLocation())) { if (auto *R = dyn_cast<CXXRecordDecl>(F->getParent())) C.record(R); else C.recordC(F->getParent()); }
        int p = simple("field", O{{"b", b}, {"n", F->getNameAsString()}, {"cls", C.recName(F->getParent())}, {"t", C.ty(F->getType())}});
        if (F->getType()->isReferenceType()) return load(p, F->getType());
        return p;
      }
      if (auto *V = dyn_cast<VarDecl>(M->getMemberDecl())) { noteGlobal(V); return simple("global", O{{"n", C.qual(V)}, {"t", C.ty(V->getType())}}); }
      if (auto *MF = dyn_cast<FunctionDecl>(M->getMemberDecl())) return simple("func", O{{"f", C.callee(MF)}});
      return unknown(E, "member");
    }
    if (auto *A = dyn_cast<ArraySubscriptExpr>(E)) { int b = rv(A->getBase()); int i = rv(A->getIdx()); loc(E); return simple("index", O{{"b", b}, {"i", i}, {"t", C.ty(E->getType())}}); }
    if (auto *U = dyn_cast<UnaryOperator>(E)) {
      if (U->getOpcode() == UO_Deref) { int p = rv(U->getSubExpr()); loc(E); return simple("deref", O{{"p", p}, {"t", C.ty(E->getType())}}); }
      if (U->isIncrementDecrementOp()) { incdec(U); return lastIncPtr; }
      if (U->getOpcode() == UO_Real || U->getOpcode() == UO_Imag) return unknown(E, "complex");
    }
    if (auto *B = dyn_cast<BinaryOperator>(E)) return binop(B, true);
    if (auto *X = dyn_cast<CallExpr>(E)) return call(X);
    if (auto *S = dyn_cast<StringLiteral>(E)) {
      std::string s = S->isOrdinary() || S->isUTF8() ? S->getString().str() : std::string("?wide");
      json::Array by; bool ascii = true; for (unsigned char ch : s) if (ch >= 128) ascii = false;
      if (!ascii) { std::string h; for (unsigned char ch : s) { char b[3]; snprintf(b, 3, "%02x", ch); h += b; } return simple("const", O{{"k", "str"}, {"hex", h}}); }
      return simple("const", O{{"k", "str"}, {"v", s}});
    }
    if (isa<PredefinedExpr>(E)) return simple("const", O{{"k", "str"}, {"v", "?predef"}});
    if (auto *CE = dyn_cast<CastExpr>(E)) {
      const Expr *P = peel(CE->getSubExpr());
      int v = P->isGLValue() ? lv(P) : rv(P);
      switch (CE->getCastKind()) { case CK_NoOp: case CK_ConstructorConversion: case CK_UserDefinedConversion: return v; default: break; }
      return simple("cast", O{{"k", castKind(CE->getCastKind())}, {"a", v}, {"from", C.ty(P->getType())}, {"t", C.ty(E->getType())}, {"lv", true}, {"static", isa<CXXStaticCastExpr>(CE)}, {"reint", isa<CXXReinterpretCastExpr>(CE)}});
    }
    if (auto *X = dyn_cast<AbstractConditionalOperator>(E)) return cond(X, true);
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) {
      const Expr *S = peel(X->getSubExpr());
      if (S->isGLValue()) return lv(S);
      int v = rv(S); return simple("temp", O{{"v", v}, {"t", C.ty(S->getType())}, {"ext", X->getStorageDuration() != SD_FullExpression}});
    }
    if (auto *X = dyn_cast<CompoundLiteralExpr>(E)) { int v = rv(X->getInitializer()); return simple("temp", O{{"v", v}, {"t", C.ty(X->getType())}}); }
    if (auto *X = dyn_cast<InitListExpr>(E)) { if (X->getNumInits() == 1) return lv(X->getInit(0)); }
    return unknown(E, "lv");
  }

  void noteGlobal(const VarDecl *V) {
    const VarDecl *Def = V->getDefinition() ? V->getDefinition() : V;
    if (!C.inRoot(Def->getLocation())) return;
    std::string n = C.qual(V);
    if (C.globals.find(n) != C.globals.end()) return;
    C.globals[n] = json::Object{};
    json::Object o; o["type"] = C.ty(V->getType()); o["file"] = C.rel(C.fileOf(V->getLocation())); o["line"] = C.lineOf(V->getLocation());
    o["const"] = V->getType().isConstQualified() || (C.AC->getAsArrayType(V->getType()) && C.AC->getBaseElementType(V->getType()).isConstQualified());
    if (const Expr *I = Def->getAnyInitializer()) {
      json::Value jv = constInit(I); o["init"] = std::move(jv);
    }
    C.globals[n] = std::move(o);
  }
  json::Value constInit(const Expr *I, int depth = 0) {
    I = peel(I);
    if (depth > 12) return json::Object{{"k", "?"}};
    if (auto *S = dyn_cast<StringLiteral>(I)) return json::Object{{"k", "str"}, {"v", llvm::json::isUTF8(S->getBytes()) ? S->getBytes().str() : std::string("?")}};
    if (auto *L = dyn_cast<InitListExpr>(I)) { json::Array a; for (auto *x : L->inits()) a.push_back(constInit(x, depth + 1)); if (L->hasArrayFiller()) if (auto *AT = C.AC->getAsConstantArrayType(L->getType())) { uint64_t n = AT->getSize().getZExtValue(); if (n <= 1024) while (a.size() < n) a.push_back(json::Object{{"k", "int"}, {"v", 0}}); } return json::Object{{"k", "list"}, {"v", std::move(a)}}; }
    llvm::APSInt v; if (I->isPRValue() && constInt(I, v)) return json::Object{{"k", "int"}, {"v", v.getExtValue()}};
    if (auto *CE = dyn_cast<CastExpr>(I)) { if (CE->getCastKind() == CK_NullToPointer) return json::Object{{"k", "null"}}; return constInit(CE->getSubExpr(), depth + 1); }
    if (auto *M = dyn_cast<MaterializeTemporaryExpr>(I)) return constInit(M->getSubExpr(), depth + 1);
    if (auto *K = dyn_cast<CXXConstructExpr>(I)) { json::Array a; for (auto *x : K->arguments()) a.push_back(constInit(x, depth + 1)); return json::Object{{"k", "construct"}, {"cls", C.recName(K->getConstructor()->getParent())}, {"a", std::move(a)}}; }
    if (isa<GNUNullExpr>(I) || isa<CXXNullPtrLiteralExpr>(I)) return json::Object{{"k", "null"}};
    return json::Object{{"k", "?"}};
  }

  int lastIncPtr = -1;
  int incdec(const UnaryOperator *U) {
    int p = lv(U->getSubExpr()); loc(U);
    int v = load(p, U->getType());
    bool ptr = U->getType()->isPointerType();
    int one = cint(1, C.AC->IntTy);
    int r = simple("bin", O{{"op", U->isIncrementOp() ? "+" : "-"}, {"a", v}, {"b", one}, {"t", C.ty(U->getType())}, {"ptr", ptr}});
    store(p, r, U->getType());
    lastIncPtr = p;
    return U->isPrefix() ? r : v;
  }
  int unop(const UnaryOperator *U) {
    switch (U->getOpcode()) {
    case UO_AddrOf: { const Expr *S = peel(U->getSubExpr()); return lv(S); }
    case UO_LNot: { int v = rv(U->getSubExpr()); loc(U); return simple("un", O{{"op", "!"}, {"a", v}, {"t", C.ty(U->getType())}}); }
    case UO_Minus: { int v = rv(U->getSubExpr()); loc(U); return simple("un", O{{"op", "-"}, {"a", v}, {"t", C.ty(U->getType())}}); }
    case UO_Not: { int v = rv(U->getSubExpr()); loc(U); return simple("un", O{{"op", "~"}, {"a", v}, {"t", C.ty(U->getType())}}); }
    case UO_PostInc: case UO_PostDec: case UO_PreInc: case UO_PreDec: return incdec(U);
    default: return unknown(U, "unop");
    }
  }

  int binop(const BinaryOperator *B, bool wantLv) {
    auto op = B->getOpcode();
    if (op == BO_Comma) { any(B->getLHS()); return wantLv ? lv(B->getRHS()) : rv(B->getRHS()); }
    if (op == BO_LAnd || op == BO_LOr) {
      int sv = synth(B->getType(), false);
      int rhs = newBlock(), done = newBlock();
      int a = rv(B->getLHS()); loc(B);
      int pa = varaddr(sv); store(pa, a, B->getType());
      if (op == BO_LAnd) term(O{{"o", "br"}, {"c", a}, {"t", rhs}, {"f", done}}); else term(O{{"o", "br"}, {"c", a}, {"t", done}, {"f", rhs}});
      setBlock(rhs);
      int b = rv(B->getRHS()); int pb = varaddr(sv); store(pb, b, B->getType());
      jmp(done); setBlock(done);
      int pc = varaddr(sv); return load(pc, B->getType());
    }
    if (B->isAssignmentOp()) {
      if (op == BO_Assign) {
        int v; const Expr *R = peel(B->getRHS()); v = R->isGLValue() ? lv(R) : rv(R); if (R->isGLValue()) v = load(v, R->getType());
        int p = lv(B->getLHS()); loc(B);
        store(p, v, B->getLHS()->getType());
        return wantLv ? p : v;
      }
      auto *CA = cast<CompoundAssignOperator>(B);
      int r = rv(B->getRHS());
      int p = lv(B->getLHS()); loc(B);
      int l = load(p, B->getLHS()->getType());
      QualType ct = CA->getComputationLHSType();
      bool ptr = B->getLHS()->getType()->isPointerType();
      if (!ptr && !C.AC->hasSameUnqualifiedType(ct, B->getLHS()->getType())) l = simple("cast", O{{"k", "int"}, {"a", l}, {"from", C.ty(B->getLHS()->getType())}, {"t", C.ty(ct)}});
      std::string os = B->getOpcodeStr().str(); os = os.substr(0, os.size() - 1);
      int x = simple("bin", O{{"op", os}, {"a", l}, {"b", r}, {"t", C.ty(CA->getComputationResultType())}, {"ptr", ptr}});
      if (!ptr && !C.AC->hasSameUnqualifiedType(CA->getComputationResultType(), B->getLHS()->getType())) x = simple("cast", O{{"k", "int"}, {"a", x}, {"from", C.ty(CA->getComputationResultType())}, {"t", C.ty(B->getLHS()->getType())}});
      store(p, x, B->getLHS()->getType());
      return wantLv ? p : x;
    }
    if (op == BO_PtrMemD || op == BO_PtrMemI) return unknown(B, "ptrmem");
    int a = rv(B->getLHS()), b = rv(B->getRHS()); loc(B);
    bool pl = B->getLHS()->getType()->isPointerType(), pr = B->getRHS()->getType()->isPointerType();
    json::Object o{{"op", B->getOpcodeStr().str()}, {"a", a}, {"b", b}, {"t", C.ty(B->getType())}, {"ot", C.ty(B->getLHS()->getType())}};
    if (pl || pr) o["ptr"] = true;
    return simple("bin", std::move(o));
  }

  int cond(const AbstractConditionalOperator *E, bool wantLv) {
    bool isVoid = E->getType()->isVoidType();
    int sv = synth(E->getType(), wantLv);
    int tb = newBlock(), fb = newBlock(), done = newBlock();
    branch(E->getCond(), tb, fb);
    setBlock(tb); { int v = wantLv ? lv(E->getTrueExpr()) : any(E->getTrueExpr()); if (!isVoid) { int p = varaddr(sv); store(p, v, E->getType()); } jmp(done); }
    setBlock(fb); { int v = wantLv ? lv(E->getFalseExpr()) : any(E->getFalseExpr()); if (!isVoid) { int p = varaddr(sv); store(p, v, E->getType()); } jmp(done); }
    setBlock(done);
    if (isVoid) return simple("const", O{{"k", "void"}});
    int p = varaddr(sv); return load(p, E->getType());
  }

  // lowers a condition directly to control flow
  void branch(const Expr *E0, int tb, int fb) {
    const Expr *E = peel(E0);
    if (auto *B = dyn_cast<BinaryOperator>(E)) {
      if (B->getOpcode() == BO_LAnd) { int m = newBlock(); branch(B->getLHS(), m, fb); setBlock(m); branch(B->getRHS(), tb, fb); return; }
      if (B->getOpcode() == BO_LOr) { int m = newBlock(); branch(B->getLHS(), tb, m); setBlock(m); branch(B->getRHS(), tb, fb); return; }
    }
    if (auto *U = dyn_cast<UnaryOperator>(E)) if (U->getOpcode() == UO_LNot) { branch(U->getSubExpr(), fb, tb); return; }
    if (auto *I = dyn_cast<ImplicitCastExpr>(E)) if (I->getCastKind() == CK_IntegralToBoolean || I->getCastKind() == CK_NoOp) { const Expr *S = peel(I->getSubExpr()); if (S->isPRValue() && S->getType()->isBooleanType()) { branch(S, tb, fb); return; } if (auto *B = dyn_cast<BinaryOperator>(S)) if (B->isLogicalOp() || B->isComparisonOp()) { branch(S, tb, fb); return; } if (auto *U = dyn_cast<UnaryOperator>(S)) if (U->getOpcode()==UO_LNot) { branch(S, tb, fb); return; } }
    llvm::APSInt cv;
    if (E->isPRValue() && constInt(E, cv)) { jmp(cv.getBoolValue() ? tb : fb); return; }
    int c = rv(E); loc(E0);
    term(O{{"o", "br"}, {"c", c}, {"t", tb}, {"f", fb}});
  }

  void declVar(const VarDecl *V) {
    if (V->hasGlobalStorage()) { // static local
      noteGlobal(V); return;
    }
    int id = var(V);
    curLine = C.lineOf(V->getLocation());
    emit(O{{"o", "decl"}, {"v", id}});
    if (const Expr *I = V->getInit()) {
      int v;
      if (V->getType()->isReferenceType()) { const Expr *P = peel(I); v = P->isGLValue() ? lv(P) : lv(I); int p = varaddr(id); store(p, v, V->getType()); return; }
      if (C.AC->getAsArrayType(V->getType()) && isa<CXXConstructExpr>(peel(I))) return;
      const Expr *P = peel(I);
      if (auto *K = dyn_cast<CXXConstructExpr>(P)) if (!K->getConstructor()->isCopyOrMoveConstructor() && V->getType()->isRecordType()) { int p0 = varaddr(id); construct(K, p0); return; }
      if (P->isGLValue()) { v = lv(P); v = load(v, P->getType()); } else v = rv(P);
      curLine = C.lineOf(V->getLocation());
      int p = varaddr(id); store(p, v, V->getType());
    }
  }

  void stmt(const Stmt *S) {
    if (!S) return;
    loc(S);
    if (auto *E = dyn_cast<Expr>(S)) { any(E); return; }
    switch (S->getStmtClass()) {
    case Stmt::CompoundStmtClass: for (auto *c : cast<CompoundStmt>(S)->body()) stmt(c); return;
    case Stmt::DeclStmtClass: for (auto *D : cast<DeclStmt>(S)->decls()) if (auto *V = dyn_cast<VarDecl>(D)) declVar(V); return;
    case Stmt::NullStmtClass: return;
    case Stmt::AttributedStmtClass: stmt(cast<AttributedStmt>(S)->getSubStmt()); return;
    case Stmt::IfStmtClass: {
      auto *I = cast<IfStmt>(S);
      if (I->getInit()) stmt(I->getInit());
      if (auto *DS = I->getConditionVariableDeclStmt()) stmt(DS);
      int tb = newBlock(), fb = newBlock(), done = I->getElse() ? newBlock() : fb;
      branch(I->getCond(), tb, fb);
      setBlock(tb); stmt(I->getThen()); jmp(done);
      if (I->getElse()) { setBlock(fb); stmt(I->getElse()); jmp(done); }
      setBlock(done); return; }
    case Stmt::WhileStmtClass: {
      auto *W = cast<WhileStmt>(S);
      int head = newBlock(), body = newBlock(), done = newBlock();
      jmp(head); setBlock(head);
      if (auto *DS = W->getConditionVariableDeclStmt()) stmt(DS);
      branch(W->getCond(), body, done);
      setBlock(body); brk.push_back(done); cont.push_back(head); stmt(W->getBody()); brk.pop_back(); cont.pop_back(); jmp(head);
      setBlock(done); return; }
    case Stmt::DoStmtClass: {
      auto *W = cast<DoStmt>(S);
      int body = newBlock(), cnd = newBlock(), done = newBlock();
      jmp(body); setBlock(body); brk.push_back(done); cont.push_back(cnd); stmt(W->getBody()); brk.pop_back(); cont.pop_back(); jmp(cnd);
      setBlock(cnd); branch(W->getCond(), body, done); setBlock(done); return; }
    case Stmt::ForStmtClass: {
      auto *F = cast<ForStmt>(S);
      if (F->getInit()) stmt(F->getInit());
      int head = newBlock(), body = newBlock(), inc = newBlock(), done = newBlock();
      jmp(head); setBlock(head);
      if (auto *DS = F->getConditionVariableDeclStmt()) stmt(DS);
      if (F->getCond()) branch(F->getCond(), body, done); else jmp(body);
      setBlock(body); brk.push_back(done); cont.push_back(inc); stmt(F->getBody()); brk.pop_back(); cont.pop_back(); jmp(inc);
      setBlock(inc); if (F->getInc()) { loc(F->getInc()); any(F->getInc()); } jmp(head);
      setBlock(done); return; }
    case Stmt::CXXForRangeStmtClass: {
      auto *F = cast<CXXForRangeStmt>(S);
      if (F->getInit()) stmt(F->getInit());
      stmt(F->getRangeStmt()); stmt(F->getBeginStmt()); stmt(F->getEndStmt());
      int head = newBlock(), body = newBlock(), inc = newBlock(), done = newBlock();
      jmp(head); setBlock(head); branch(F->getCond(), body, done);
      setBlock(body); stmt(F->getLoopVarStmt()); brk.push_back(done); cont.push_back(inc); stmt(F->getBody()); brk.pop_back(); cont.pop_back(); jmp(inc);
      setBlock(inc); any(F->getInc()); jmp(head); setBlock(done); return; }
    case Stmt::SwitchStmtClass: {
      auto *W = cast<SwitchStmt>(S);
      if (W->getInit()) stmt(W->getInit());
      if (auto *DS = W->getConditionVariableDeclStmt()) stmt(DS);
      int v = rv(W->getCond());
      loc(S);
      int done = newBlock(); int def = done; json::Array cs;
      for (auto *SC = W->getSwitchCaseList(); SC; SC = SC->getNextSwitchCase()) {
        int b = newBlock(); caseBlocks[SC] = b;
        if (auto *CS = dyn_cast<CaseStmt>(SC)) {
          llvm::APSInt lo; if (constInt(CS->getLHS(), lo)) { llvm::APSInt hi = lo; if (CS->getRHS()) constInt(CS->getRHS(), hi); for (int64_t k = lo.getExtValue(); k <= hi.getExtValue() && k - lo.getExtValue() < 4096; ++k) cs.push_back(json::Array{k, b}); }
        } else def = b;
      }
      bool enumExh = W->isAllEnumCasesCovered();
      json::Object so{{"o", "switch"}, {"c", v}, {"cases", std::move(cs)}, {"def", def}, {"hasdef", def != done}, {"t", C.ty(W->getCond()->IgnoreImpCasts()->getType())}, {"exh", enumExh}};
      term(std::move(so));
      setBlock(newBlock());
      brk.push_back(done); stmt(W->getBody()); brk.pop_back(); jmp(done); setBlock(done); return; }
    case Stmt::CaseStmtClass: case Stmt::DefaultStmtClass: {
      auto *SC = cast<SwitchCase>(S); int b = caseBlocks[SC]; jmp(b); setBlock(b); stmt(SC->getSubStmt()); return; }
    case Stmt::BreakStmtClass: if (!brk.empty()) jmp(brk.back()); setBlock(newBlock()); return;
    case Stmt::ContinueStmtClass: if (!cont.empty()) jmp(cont.back()); setBlock(newBlock()); return;
    case Stmt::ReturnStmtClass: {
      auto *R = cast<ReturnStmt>(S);
      if (const Expr *E = R->getRetValue()) {
        const Expr *P = peel(E); int v;
        if (FD->getReturnType()->isReferenceType()) v = P->isGLValue() ? lv(P) : lv(E);
        else if (P->isGLValue()) { v = lv(P); if (!P->getType()->isVoidType()) v = load(v, P->getType()); }
        else v = rv(P);
        loc(S);
        if (FD->getReturnType()->isVoidType()) term(O{{"o", "ret"}}); else term(O{{"o", "ret"}, {"v", v}});
      } else term(O{{"o", "ret"}});
      setBlock(newBlock()); return; }
    case Stmt::GotoStmtClass: jmp(label(cast<GotoStmt>(S)->getLabel())); setBlock(newBlock()); return;
    case Stmt::LabelStmtClass: { auto *L = cast<LabelStmt>(S); int b = label(L->getDecl()); jmp(b); setBlock(b); stmt(L->getSubStmt()); return; }
    case Stmt::CXXTryStmtClass: stmt(cast<CXXTryStmt>(S)->getTryBlock()); return;
    default: emit(O{{"o", "unknownstmt"}, {"w", S->getStmtClassName()}}); return;
    }
  }
  json::Object labelNames;
  int label(const LabelDecl *L) { auto it = labels.find(L); if (it != labels.end()) return it->second; int b = newBlock(); labels[L] = b; labelNames[L->getName()] = b; return b; }

  json::Object run() {
    json::Object fo = C.methodInfo(FD);
    fo["m"] = C.mangle(FD);
    curLine = C.lineOf(FD->getLocation());
    json::Array ps; for (auto *P : FD->parameters()) ps.push_back(var(P));
    if (auto *K = dyn_cast<CXXConstructorDecl>(FD)) {
      for (auto *I : K->inits()) {
        curLine = C.lineOf(I->getSourceLocation()); if (!curLine) curLine = C.lineOf(FD->getLocation());
        int th = simple("this", O{});
        if (I->isAnyMemberInitializer()) {
          auto *F = I->getAnyMember();
          const Expr *E = I->getInit(); const Expr *P = peel(E);
          if (F->getType()->isReferenceType()) { int v = lv(P); int p = simple("field", O{{"b", th}, {"n", F->getNameAsString()}, {"cls", C.recName(F->getParent())}, {"t", C.ty(F->getType())}}); store(p, v, F->getType()); continue; }
          int v; if (P->isGLValue()) { v = lv(P); v = load(v, P->getType()); } else v = rv(P);
          int p = simple("field", O{{"b", th}, {"n", F->getNameAsString()}, {"cls", C.recName(F->getParent())}, {"t", C.ty(F->getType())}});
          emit(O{{"o", "store"}, {"p", p}, {"v", v}, {"t", C.ty(F->getType())}, {"init", true}, {"written", I->isWritten()}});
        } else if (I->isBaseInitializer() || I->isDelegatingInitializer()) {
          const Expr *P = peel(I->getInit());
          if (auto *X = dyn_cast<CXXConstructExpr>(P)) {
            auto *K2 = X->getConstructor(); json::Array a, at;
            for (unsigned i = 0; i < X->getNumArgs(); ++i) { QualType pt = i < K2->getNumParams() ? K2->getParamDecl(i)->getType() : QualType(); a.push_back(arg(X->getArg(i), pt)); at.push_back(stripTy(X->getArg(i))); }
            emit(O{{"o", "basector"}, {"f", C.callee(K2)}, {"this", th}, {"a", std::move(a)}, {"at", std::move(at)}, {"d", T()}, {"cls", C.recName(K2->getParent())}});
          } else any(P);
        }
      }
    }
    if (const Stmt *B = FD->getBody()) {
      if (isa<CXXTryStmt>(B)) stmt(cast<CXXTryStmt>(B)->getTryBlock()); else stmt(B);
    }
    curLine = C.lineOf(FD->getBodyRBrace()); 
    term(O{{"o", "ret"}, {"end", true}});
    for (auto &b : blocks) if (!b.term) { json::Object u{{"o", "unreachable"}, {"l", 0}}; b.ins.push_back(std::move(u)); }
    json::Array bs; for (auto &b : blocks) bs.push_back(std::move(b.ins));
    fo["blocks"] = std::move(bs); fo["vars"] = std::move(varInfo); fo["ps"] = std::move(ps);
    fo["labels"] = std::move(labelNames);
    fo["endline"] = C.lineOf(FD->getBodyRBrace());
    return fo;
  }
};

struct V : RecursiveASTVisitor<V> {
  Ctx &C; V(Ctx &C) : C(C) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  void doFn(const FunctionDecl *FD) {
    if (!FD->doesThisDeclarationHaveABody() && !FD->isDefaulted()) return;
    if (FD->isDependentContext() || FD->isTemplated()) return;
    if (!C.inRoot(FD->getLocation())) return;
    if (!FD->getBody()) return;
    std::string m = C.mangle(FD);
    if (!C.fnSeen.insert(m).second) return;
    Lower L(C, FD);
    C.functions.push_back(L.run());
  }
  bool VisitFunctionDecl(FunctionDecl *FD) { doFn(FD); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentType()) return true;
    if (R->isLambda()) return true;
    bool want = C.inRoot(R->getLocation());
    if (!want) { // QObject family: needed to resolve signals and slots
      const CXXRecordDecl *X = R; int depth = 0;
      while (X && X->hasDefinition() && depth++ < 8) { if (X->getNameAsString() == "QObject") { want = true; break; } if (X->getNumBases() == 0) break; X = X->bases_begin()->getType()->getAsCXXRecordDecl(); }
    }
    if (want) C.record(R);
    return true;
  }
  bool VisitRecordDecl(RecordDecl *R) { if (!isa<CXXRecordDecl>(R) && R->isThisDeclarationADefinition() && C.inRoot(R->getLocation())) C.recordC(R); return true; }
  bool VisitVarDecl(VarDecl *D) { if (D->hasGlobalStorage() && !D->isTemplated() && C.inRoot(D->getLocation())) { Lower L(C, nullptr); L.noteGlobal(D); } return true; }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || E->isDependentContext()) return true;
    bool proj = C.inRoot(E->getLocation());
    if (!proj) { auto *P = dyn_cast<CXXRecordDecl>(E->getDeclContext()); if (!P) return true; std::string n = P->getNameAsString(); static const std::set<std::string> keep{"QAbstractSocket", "QNetworkReply", "QNetworkAccessManager", "QIODevice", "QNetworkRequest", "QLocalSocket"}; if (!keep.count(n)) return true; }
    std::string q = C.qual(E); if (E->getName().empty()) q += "(anon@" + std::to_string(C.lineOf(E->getLocation())) + ")";
    json::Object o; for (auto *K : E->enumerators()) if (K->getInitVal().isRepresentableByInt64()) o[K->getName()] = K->getInitVal().getExtValue();
    C.enums[q] = json::Object{{"file", C.rel(C.fileOf(E->getLocation()))}, {"vals", std::move(o)}, {"proj", proj}};
    return true;
  }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &A) override {
    if (A.getDiagnostics().hasErrorOccurred()) { llvm::errs() << "extract: errors in translation unit\n"; exit(3); }
    Ctx C(A); V v(C); v.TraverseDecl(A.getTranslationUnitDecl());
    for (size_t i = 0; i < C.pendingLambdas.size(); ++i) v.doFn(C.pendingLambdas[i]);
    json::Object out; out["functions"] = std::move(C.functions); out["callees"] = std::move(C.callees); out["records"] = std::move(C.records); out["enums"] = std::move(C.enums); out["globals"] = std::move(C.globals);
    json::OStream os(llvm::outs()); os.value(std::move(out));
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};
} // namespace

int main(int argc, const char **argv) {
  if (argc < 4) { llvm::errs() << "usage: pillow-extract <root> <source> -- flags\n"; return 2; }
  gRoot = argv[1]; std::string src = argv[2];
  std::vector<std::string> flags; for (int i = 4; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool tool(DB, {src});
  tool.setPrintErrorMessage(true);
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
