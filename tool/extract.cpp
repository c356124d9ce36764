// lpx: dumps the resolved (type-checked) program of the given translation units
// as JSON: one record per function body (template instantiations, lambdas and
// synthesised special members included) and one per class. It takes no decision;
// the rules in /verif/lpa work on what it prints.
//
// usage: lpx ROOT[:ROOT...] EXCLUDE-SUBSTR SOURCE -- clang-args...
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <set>

using namespace clang;
namespace json = llvm::json;
using J = json::Value;
using O = json::Object;
using A = json::Array;

static std::vector<std::string> Roots;
static std::string Exclude;
static std::string TuName;

static std::string clean(std::string s) {
  for (const char *p : {"__cxx11::", "__1::"}) {
    size_t n;
    while ((n = s.find(p)) != std::string::npos) s.erase(n, strlen(p));
  }
  return s;
}

struct Dumper : RecursiveASTVisitor<Dumper> {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  ASTNameGenerator NG;
  A Funcs, Classes, Globals;
  std::set<std::string> Seen;
  std::map<const Decl *, int> Ids;
  const FunctionDecl *CurFn = nullptr;

  Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()), NG(C) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.AnonymousTagLocations = true;
    PP.SuppressUnwrittenScope = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }

  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = Ids.find(D);
    if (it != Ids.end()) return it->second;
    int n = Ids.size() + 1;
    return Ids[D] = n;
  }
  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!F) return "";
    llvm::SmallString<256> P(F->getFileEntry().tryGetRealPathName());
    if (P.empty()) P = F->getName();
    return std::string(P);
  }
  int line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  int col(SourceLocation L) { return SM.getExpansionColumnNumber(L); }
  bool inRoots(SourceLocation L) {
    if (L.isInvalid()) return false;
    std::string f = file(L);
    if (f.empty()) return false;
    if (!Exclude.empty() && f.find(Exclude) != std::string::npos) return false;
    for (auto &r : Roots)
      if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  std::string ty(QualType T) { return T.isNull() ? "" : clean(T.getCanonicalType().getAsString(PP)); }

  std::string qname(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    D->printQualifiedName(os, PP);
    return clean(os.str());
  }
  const FunctionDecl *lambdaCall(const CXXRecordDecl *R) { return R && R->isLambda() ? R->getLambdaCallOperator() : nullptr; }
  std::string fid(const FunctionDecl *F) {
    F = F->getCanonicalDecl();
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda()) {
        std::string enc;
        const DeclContext *DC = M->getParent()->getDeclContext();
        while (DC && !isa<FunctionDecl>(DC)) DC = DC->getParent();
        if (DC) enc = fid(cast<FunctionDecl>(DC));
        SourceLocation L = M->getParent()->getBeginLoc();
        return "lambda@" + file(L) + ":" + std::to_string(line(L)) + ":" + std::to_string(col(L)) +
               (M->getOverloadedOperator() == OO_Call ? "" : ("." + M->getNameAsString())) + "#" + enc;
      }
    std::string n;
    if (isa<CXXConstructorDecl>(F) || isa<CXXDestructorDecl>(F)) {
      auto v = NG.getAllManglings(F);
      n = v.empty() ? qname(F) : v.back();
      if (!v.empty()) n = v[v.size() > 1 ? 1 : 0];
    } else
      n = NG.getName(F);
    if (!F->isExternallyVisible()) n += "@" + TuName;
    return n;
  }

  O fref(const FunctionDecl *F) {
    O o;
    o["id"] = fid(F);
    o["q"] = qname(F);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = qname(M->getParent());
      if (M->isVirtual()) o["virt"] = true;
      if (M->isStatic()) o["static"] = true;
      if (M->isConst()) o["const"] = true;
      if (auto *K = dyn_cast<CXXConstructorDecl>(M)) {
        if (K->isCopyConstructor()) o["copy"] = true;
        if (K->isMoveConstructor()) o["move"] = true;
      }
      if (isa<CXXDestructorDecl>(M)) o["dtor"] = true;
      if (M->isCopyAssignmentOperator()) o["casg"] = true;
      if (M->isMoveAssignmentOperator()) o["masg"] = true;
      if (isa<CXXConversionDecl>(M)) o["conv"] = true;
      if (M->getParent()->isLambda()) o["lam"] = true;
    }
    if (F->isOverloadedOperator()) o["op"] = getOperatorSpelling(F->getOverloadedOperator());
    A pt;
    for (auto *P : F->parameters()) pt.push_back(ty(P->getType()));
    o["pt"] = std::move(pt);
    if (F->isVariadic()) o["variadic"] = true;
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      A ta;
      for (auto &a : TA->asArray()) {
        if (a.getKind() == TemplateArgument::Type) ta.push_back(ty(a.getAsType()));
        else if (a.getKind() == TemplateArgument::Pack) {
          for (auto &b : a.pack_elements())
            if (b.getKind() == TemplateArgument::Type) ta.push_back(ty(b.getAsType()));
        }
      }
      o["ta"] = std::move(ta);
    }
    o["rt"] = ty(F->getReturnType());
    return o;
  }

  // constructor that make_shared<T>/make_unique<T> finally runs: found in the
  // instantiated library bodies, so it is the overload the compiler picked
  const CXXConstructorDecl *ctorIn(const Stmt *S, QualType T, std::set<const FunctionDecl *> &seen, int depth) {
    if (!S) return nullptr;
    if (auto *N = dyn_cast<CXXNewExpr>(S))
      if (N->getNumPlacementArgs() || true)
        if (C.hasSameUnqualifiedType(N->getAllocatedType(), T))
          if (auto *K = N->getConstructExpr()) return K->getConstructor();
    for (auto *c : S->children())
      if (auto *r = ctorIn(c, T, seen, depth)) return r;
    const FunctionDecl *F = nullptr;
    if (auto *X = dyn_cast<CallExpr>(S)) F = X->getDirectCallee();
    else if (auto *X = dyn_cast<CXXConstructExpr>(S)) F = X->getConstructor();
    if (F && depth > 0) return ctorFn(F, T, seen, depth - 1);
    return nullptr;
  }
  const CXXConstructorDecl *ctorFn(const FunctionDecl *F, QualType T, std::set<const FunctionDecl *> &seen, int depth) {
    const FunctionDecl *D = F->getDefinition();
    if (!D || !SM.isInSystemHeader(D->getLocation()) || !seen.insert(D).second) return nullptr;
    if (auto *K = dyn_cast<CXXConstructorDecl>(D))
      for (auto *I : K->inits())
        if (auto *r = ctorIn(I->getInit(), T, seen, depth)) return r;
    return ctorIn(D->getBody(), T, seen, depth);
  }
  void mkctor(O &o, const FunctionDecl *F) {
    std::string n = qname(F);
    if (n != "std::make_shared" && n != "std::make_unique") return;
    auto *TA = F->getTemplateSpecializationArgs();
    if (!TA || TA->size() < 1 || TA->get(0).getKind() != TemplateArgument::Type) return;
    QualType T = TA->get(0).getAsType();
    o["mk"] = ty(T);
    if (auto *R = T->getAsCXXRecordDecl()) o["mkcls"] = qname(R);
    std::set<const FunctionDecl *> seen;
    if (auto *K = ctorFn(F, T, seen, 14)) o["mkctor"] = fref(K);
  }

  J opt(const Expr *E) { return E ? J(expr(E)) : J(nullptr); }

  O node(const char *k, const Expr *E) {
    O o;
    o["k"] = k;
    o["l"] = line(E->getExprLoc());
    o["t"] = ty(E->getType());
    return o;
  }

  // the value of a constant of integral type
  void constant(const VarDecl *V, O &o) {
    if (!V->getType()->isIntegralOrEnumerationType() || !V->mightBeUsableInConstantExpressions(C)) return;
    const VarDecl *D = nullptr;
    if (!V->getAnyInitializer(D) || !D || D->getInit()->isValueDependent()) return;
    if (const APValue *A = D->evaluateValue())
      if (A->isInt()) {
        llvm::SmallString<40> s;
        A->getInt().toString(s, 10);
        o["cv"] = std::string(s);
      }
  }

  O expr(const Expr *E) {
    E = E->IgnoreParens();
    if (auto *X = dyn_cast<FullExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) {
      O o = expr(X->getExpr());
      o["dflt"] = true;
      return o;
    }
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<OpaqueValueExpr>(E))
      if (X->getSourceExpr()) return expr(X->getSourceExpr());
    if (auto *X = dyn_cast<ConstantExpr>(E)) return expr(X->getSubExpr());

    if (auto *X = dyn_cast<CastExpr>(E)) {
      const Expr *S = X->getSubExpr();
      switch (X->getCastKind()) {
      case CK_LValueToRValue:
      case CK_NoOp:
      case CK_UserDefinedConversion:
      case CK_ConstructorConversion:
      case CK_ArrayToPointerDecay:
      case CK_FunctionToPointerDecay:
      case CK_BuiltinFnToFnPtr:
        return expr(S);
      case CK_DerivedToBase:
      case CK_UncheckedDerivedToBase:
        return expr(S);
      case CK_NullToPointer: {
        O o = node("null", E);
        return o;
      }
      case CK_PointerToBoolean: {
        O o = node("tobool", E);
        o["e"] = expr(S);
        o["ptr"] = true;
        if (isa<ImplicitCastExpr>(X)) o["imp"] = true;
        return o;
      }
      case CK_IntegralToBoolean:
      case CK_FloatingToBoolean: {
        O o = node("tobool", E);
        o["e"] = expr(S);
        return o;
      }
      case CK_ToVoid:
        return expr(S);
      default: {
        O o = node("cast", E);
        o["ck"] = X->getCastKindName();
        if (X->getCastKind() == CK_IntegralCast) {
          QualType D = X->getType().getCanonicalType(), F = S->getType().getCanonicalType();
          if (D->isIntegerType() && F->isIntegerType() && !D->isEnumeralType() && !F->isEnumeralType() && !D->isDependentType() && !F->isDependentType() &&
              C.getTypeSize(D) < C.getTypeSize(F) && C.getTypeSize(D) < 32)
            o["narrow"] = true;
        }
        o["e"] = expr(S);
        return o;
      }
      }
    }
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      O o = node("int", E);
      llvm::SmallString<40> s;
      X->getValue().toStringSigned(s);
      o["v"] = std::string(s);
      return o;
    }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) {
      O o = node("int", E);
      o["v"] = std::to_string(X->getValue());
      return o;
    }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      O o = node("float", E);
      o["v"] = std::to_string(X->getValueAsApproximateDouble());
      return o;
    }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) {
      O o = node("bool", E);
      o["v"] = X->getValue();
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return node("null", E);
    if (auto *X = dyn_cast<StringLiteral>(E)) {
      O o = node("str", E);
      o["v"] = X->isOrdinary() || X->isUTF8() ? (llvm::json::isUTF8(X->getString()) ? X->getString().str() : "?") : "?";
      return o;
    }
    if (auto *X = dyn_cast<PredefinedExpr>(E)) { return node("str", E); (void)X; }
    if (isa<CXXThisExpr>(E)) return node("this", E);
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      if (auto *BD = dyn_cast<BindingDecl>(X->getDecl())) {
        auto *DD = dyn_cast_or_null<VarDecl>(BD->getDecomposedDecl());
        if (DD && BD->getHoldingVar()) {
          auto *R = DD->getType().getNonReferenceType()->getAsCXXRecordDecl();
          if (R && qname(R) == "std::pair") {
            O b = node("ref", E);
            b["t"] = ty(DD->getType().getNonReferenceType());
            b["n"] = "";
            b["dk"] = "var";
            b["id"] = id(DD);
            if (DD->getType()->isReferenceType()) b["ref"] = true;
            O o = node("mem", E);
            o["b"] = std::move(b);
            o["cls"] = "std::pair";
            unsigned i = 0;
            for (auto *q : cast<DecompositionDecl>(DD)->bindings()) { if (q == BD) break; ++i; }
            o["n"] = i == 0 ? "first" : "second";
            return o;
          }
        } else if (DD && BD->getBinding())
          return expr(BD->getBinding());
      }
      O o = node("ref", E);
      const ValueDecl *D = X->getDecl();
      o["n"] = D->getNameAsString();
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        o["dk"] = "func";
        o["f"] = fref(F);
      } else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        o["dk"] = "enum";
        o["q"] = qname(EC);
        llvm::SmallString<40> s;
        EC->getInitVal().toString(s, 10);
        o["v"] = std::string(s);
      } else if (auto *V = dyn_cast<VarDecl>(D)) {
        if (V->hasGlobalStorage() ) {
          o["dk"] = "glob";
          o["q"] = qname(V);
          constant(V, o);
          if (V->isStaticLocal()) o["slocal"] = true;
        } else {
          o["dk"] = isa<ParmVarDecl>(V) ? "parm" : "var";
          o["id"] = id(V);
        }
        if (V->getType()->isReferenceType()) o["ref"] = true;
      } else {
        o["dk"] = "other";
        o["q"] = qname(D);
      }
      return o;
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      if (auto *V = dyn_cast<VarDecl>(X->getMemberDecl())) {
        O o = node("ref", E);
        o["dk"] = "glob";
        o["n"] = V->getNameAsString();
        o["q"] = qname(V);
        constant(V, o);
        return o;
      }
      O o = node("mem", E);
      o["b"] = expr(X->getBase());
      o["n"] = X->getMemberDecl()->getNameAsString();
      if (X->isArrow()) o["arrow"] = true;
      if (auto *F = dyn_cast<FieldDecl>(X->getMemberDecl())) {
        o["cls"] = qname(F->getParent());
        if (F->getType()->isReferenceType()) o["ref"] = true;
      } else if (auto *F = dyn_cast<FunctionDecl>(X->getMemberDecl()))
        o["f"] = fref(F);
      return o;
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      O o = node("call", E);
      A args;
      unsigned i = 0;
      if (auto *F = X->getDirectCallee()) {
        o["f"] = fref(F);
        auto *M = dyn_cast<CXXMethodDecl>(F);
        if (M && !M->isStatic()) {
          o["o"] = expr(X->getArg(0));
          i = 1;
        }
      } else
        o["fe"] = expr(X->getCallee());
      for (; i < X->getNumArgs(); ++i) args.push_back(expr(X->getArg(i)));
      o["a"] = std::move(args);
      o["opc"] = true;
      return o;
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      O o = node("call", E);
      A args;
      if (auto *F = X->getMethodDecl()) o["f"] = fref(F);
      else o["fe"] = expr(X->getCallee());
      if (auto *IO = X->getImplicitObjectArgument()) {
        o["o"] = expr(IO);
        if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) {
          if (ME->isArrow()) o["arrow"] = true;
          if (ME->hasQualifier()) o["nonvirt"] = true;
        }
        QualType OT = IO->getType();
        if (OT->isPointerType()) OT = OT->getPointeeType();
        if (auto *R = OT->getAsCXXRecordDecl()) o["ocls"] = qname(R);
      }
      for (auto *a : X->arguments()) args.push_back(expr(a));
      o["a"] = std::move(args);
      return o;
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      O o = node("call", E);
      A args;
      if (auto *F = X->getDirectCallee()) { o["f"] = fref(F); mkctor(o, F); }
      else o["fe"] = expr(X->getCallee());
      for (auto *a : X->arguments()) args.push_back(expr(a));
      o["a"] = std::move(args);
      return o;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      O o = node("ctor", E);
      o["f"] = fref(X->getConstructor());
      if (X->isElidable()) o["elide"] = true;
      if (X->isListInitialization()) o["list"] = true;
      A args;
      for (auto *a : X->arguments()) args.push_back(expr(a));
      o["a"] = std::move(args);
      return o;
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      O o = node("ctor", E);
      o["f"] = fref(X->getConstructor());
      o["a"] = A();
      return o;
    }
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) return node("zero", E);
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      O o = node("new", E);
      o["at"] = ty(X->getAllocatedType());
      if (X->isArray() && X->getArraySize()) o["n"] = expr(*X->getArraySize());
      if (X->getInitializer()) o["i"] = expr(X->getInitializer());
      return o;
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      O o = node("delete", E);
      o["e"] = expr(X->getArgument());
      if (X->isArrayForm()) o["arr"] = true;
      return o;
    }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      O o = node("throw", E);
      if (X->getSubExpr()) {
        o["e"] = expr(X->getSubExpr());
        QualType T = X->getSubExpr()->getType();
        o["tt"] = ty(T);
        if (auto *R = T->getAsCXXRecordDecl()) o["bases"] = bases(R);
      }
      return o;
    }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      O o = node("lambda", E);
      o["fn"] = fid(X->getCallOperator());
      A caps;
      auto init = X->capture_init_begin();
      auto fld = X->getLambdaClass()->field_begin();
      for (auto &c : X->captures()) {
        O k;
        k["byref"] = c.getCaptureKind() == LCK_ByRef;
        if (c.capturesThis()) k["this"] = true;
        else if (c.capturesVariable()) {
          auto *V = c.getCapturedVar();
          k["id"] = id(V);
          k["n"] = V->getNameAsString();
          k["t"] = ty(V->getType());
          if (auto *VD = dyn_cast<VarDecl>(V)) if (VD->isInitCapture()) k["initcap"] = true;
        }
        if (init != X->capture_init_end() && *init) k["init"] = expr(*init);
        ++init;
        ++fld;
        caps.push_back(std::move(k));
      }
      o["caps"] = std::move(caps);
      return o;
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      O o = node(X->isAssignmentOp() ? "asg" : "bin", E);
      o["op"] = X->getOpcodeStr().str();
      o["x"] = expr(X->getLHS());
      o["y"] = expr(X->getRHS());
      return o;
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      O o = node("un", E);
      o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) o["post"] = true;
      o["e"] = expr(X->getSubExpr());
      return o;
    }
    if (auto *X = dyn_cast<AbstractConditionalOperator>(E)) {
      O o = node("cond", E);
      o["c"] = expr(X->getCond());
      o["x"] = expr(X->getTrueExpr());
      o["y"] = expr(X->getFalseExpr());
      return o;
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      O o = node("idx", E);
      o["b"] = expr(X->getBase());
      o["i"] = expr(X->getIdx());
      return o;
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      O o = node("ilist", E);
      A args;
      for (auto *a : X->inits()) args.push_back(expr(a));
      o["a"] = std::move(args);
      return o;
    }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      O o = node("sizeof", E);
      Expr::EvalResult R;
      if (!E->isValueDependent() && E->EvaluateAsInt(R, C)) {
        llvm::SmallString<40> s;
        R.Val.getInt().toString(s, 10);
        o["v"] = std::string(s);
      }
      if (!X->isArgumentType()) o["e"] = expr(X->getArgumentExpr());
      return o;
    }
    if (auto *X = dyn_cast<CXXTypeidExpr>(E)) { return node("typeid", E); (void)X; }
    O o = node("unk", E);
    o["cls"] = E->getStmtClassName();
    A args;
    for (auto *c : E->children())
      if (c)
        if (auto *ce = dyn_cast<Expr>(c)) args.push_back(expr(ce));
    o["a"] = std::move(args);
    return o;
  }

  A bases(const CXXRecordDecl *R) {
    A r;
    std::vector<const CXXRecordDecl *> w{R};
    while (!w.empty()) {
      auto *x = w.back();
      w.pop_back();
      r.push_back(qname(x));
      if (x->hasDefinition())
        for (auto &b : x->getDefinition()->bases())
          if (b.getAccessSpecifier() == AS_public)
            if (auto *br = b.getType()->getAsCXXRecordDecl()) w.push_back(br);
    }
    return r;
  }

  J vardecl(const VarDecl *V) {
    O o;
    o["id"] = id(V);
    o["n"] = V->getNameAsString();
    o["t"] = ty(V->getType());
    o["l"] = line(V->getLocation());
    if (V->isStaticLocal()) { o["static"] = true; o["q"] = qname(V); }
    if (V->getType()->isReferenceType()) o["ref"] = true;
    if (V->getType().isConstQualified()) o["const"] = true;
    if (auto *AT = C.getAsConstantArrayType(V->getType())) {
      o["arr"] = (int64_t)AT->getSize().getZExtValue();
      o["esz"] = (int64_t)C.getTypeSizeInChars(AT->getElementType()).getQuantity();
    }
    if (V->getInit()) o["init"] = expr(V->getInit());
    return o;
  }

  O snode(const char *k, const Stmt *S) {
    O o;
    o["k"] = k;
    o["l"] = line(S->getBeginLoc());
    return o;
  }
  J sopt(const Stmt *S) { return S ? J(stmt(S)) : J(nullptr); }

  O stmt(const Stmt *S) {
    if (auto *E = dyn_cast<Expr>(S)) {
      O o = snode("expr", S);
      o["e"] = expr(E);
      return o;
    }
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      O o = snode("block", S);
      A a;
      for (auto *c : X->body()) a.push_back(stmt(c));
      o["s"] = std::move(a);
      o["el"] = line(S->getEndLoc());
      return o;
    }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      O o = snode("decl", S);
      A a;
      for (auto *d : X->decls())
        if (auto *V = dyn_cast<VarDecl>(d)) a.push_back(vardecl(V));
      o["d"] = std::move(a);
      return o;
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      O o = snode("if", S);
      o["i"] = sopt(X->getInit());
      if (auto *V = X->getConditionVariable()) o["cv"] = vardecl(V);
      o["c"] = expr(X->getCond());
      o["x"] = stmt(X->getThen());
      o["y"] = sopt(X->getElse());
      return o;
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) {
      O o = snode("while", S);
      if (auto *V = X->getConditionVariable()) o["cv"] = vardecl(V);
      o["c"] = expr(X->getCond());
      o["b"] = stmt(X->getBody());
      return o;
    }
    if (auto *X = dyn_cast<DoStmt>(S)) {
      O o = snode("do", S);
      o["c"] = expr(X->getCond());
      o["b"] = stmt(X->getBody());
      return o;
    }
    if (auto *X = dyn_cast<ForStmt>(S)) {
      O o = snode("for", S);
      o["i"] = sopt(X->getInit());
      if (auto *V = X->getConditionVariable()) o["cv"] = vardecl(V);
      o["c"] = opt(X->getCond());
      o["n"] = opt(X->getInc());
      o["b"] = stmt(X->getBody());
      return o;
    }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      O o = snode("rfor", S);
      o["r"] = expr(X->getRangeInit());
      o["v"] = vardecl(X->getLoopVariable());
      o["b"] = stmt(X->getBody());
      return o;
    }
    if (auto *X = dyn_cast<SwitchStmt>(S)) {
      O o = snode("switch", S);
      o["i"] = sopt(X->getInit());
      if (auto *V = X->getConditionVariable()) o["cv"] = vardecl(V);
      o["c"] = expr(X->getCond());
      // flatten: list of {labels, stmts}
      A segs;
      std::vector<J> labels;
      A cur;
      bool open = false;
      auto flush = [&]() {
        if (open || !cur.empty()) {
          O s;
          A ls;
          for (auto &l : labels) ls.push_back(l);
          s["labels"] = std::move(ls);
          s["s"] = std::move(cur);
          segs.push_back(std::move(s));
        }
        labels.clear();
        cur = A();
        open = false;
      };
      std::function<void(const Stmt *)> add = [&](const Stmt *T) {
        if (auto *K = dyn_cast<CaseStmt>(T)) {
          if (!cur.empty()) flush();
          open = true;
          labels.push_back(expr(K->getLHS()));
          if (K->getSubStmt()) add(K->getSubStmt());
          return;
        }
        if (auto *K = dyn_cast<DefaultStmt>(T)) {
          if (!cur.empty()) flush();
          open = true;
          labels.push_back("default");
          if (K->getSubStmt()) add(K->getSubStmt());
          return;
        }
        cur.push_back(stmt(T));
      };
      if (auto *B = dyn_cast<CompoundStmt>(X->getBody()))
        for (auto *c : B->body()) add(c);
      else
        add(X->getBody());
      flush();
      o["segs"] = std::move(segs);
      o["all"] = X->isAllEnumCasesCovered();
      if (auto *ET = X->getCond()->IgnoreParenImpCasts()->getType()->getAs<EnumType>()) {
        A en;
        for (auto *e : ET->getDecl()->enumerators()) {
          O eo;
          eo["q"] = qname(e);
          llvm::SmallString<40> s;
          e->getInitVal().toString(s, 10);
          eo["v"] = std::string(s);
          en.push_back(std::move(eo));
        }
        o["enum"] = std::move(en);
      }
      return o;
    }
    if (auto *X = dyn_cast<ReturnStmt>(S)) {
      O o = snode("ret", S);
      o["e"] = opt(X->getRetValue());
      return o;
    }
    if (isa<BreakStmt>(S)) return snode("break", S);
    if (isa<ContinueStmt>(S)) return snode("cont", S);
    if (isa<NullStmt>(S)) return snode("null", S);
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      O o = snode("try", S);
      o["b"] = stmt(X->getTryBlock());
      A hs;
      for (unsigned i = 0; i < X->getNumHandlers(); ++i) {
        auto *H = X->getHandler(i);
        O h;
        if (H->getExceptionDecl()) {
          h["v"] = vardecl(H->getExceptionDecl());
          QualType T = H->getCaughtType().getNonReferenceType();
          h["t"] = ty(T);
          if (auto *R = T->getAsCXXRecordDecl()) h["q"] = qname(R);
        } else
          h["t"] = "...";
        h["b"] = stmt(H->getHandlerBlock());
        hs.push_back(std::move(h));
      }
      o["h"] = std::move(hs);
      return o;
    }
    if (auto *X = dyn_cast<LabelStmt>(S)) {
      O o = snode("label", S);
      o["s"] = stmt(X->getSubStmt());
      return o;
    }
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    O o = snode("unk", S);
    o["cls"] = S->getStmtClassName();
    return o;
  }

  void dumpFn(const FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody() && !F->isDefaulted()) return;
    if (F->isDependentContext()) return;
    const Stmt *B = F->getBody();
    if (!B) return;
    std::string i = fid(F);
    if (!Seen.insert(i).second) return;
    CurFn = F;
    O o = fref(F);
    o["file"] = file(F->getLocation());
    o["l"] = line(F->getLocation());
    o["el"] = line(B->getEndLoc());
    o["n"] = F->getNameAsString();
    if (F->isImplicit()) o["implicit"] = true;
    if (F->isDefaulted()) o["defaulted"] = true;
    o["acc"] = (int)F->getAccess();
    if (F->getLanguageLinkage() == CLanguageLinkage) o["externc"] = true;
    if (F->isTemplateInstantiation()) o["inst"] = true;
    A ps;
    for (auto *P : F->parameters()) {
      O p;
      p["id"] = id(P);
      p["n"] = P->getNameAsString();
      p["t"] = ty(P->getType());
      if (P->getType()->isReferenceType()) p["ref"] = true;
      if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg()) p["dflt"] = expr(P->getDefaultArg());
      ps.push_back(std::move(p));
    }
    o["params"] = std::move(ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      A ov;
      for (auto *m : M->overridden_methods()) ov.push_back(fid(m));
      o["over"] = std::move(ov);
    }
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      o["isctor"] = true;
      A is;
      for (auto *I : K->inits()) {
        O x;
        if (I->isAnyMemberInitializer()) {
          x["n"] = I->getAnyMember()->getNameAsString();
          x["ft"] = ty(I->getAnyMember()->getType());
        } else if (I->isBaseInitializer()) {
          if (auto *R = I->getBaseClass()->getAsCXXRecordDecl()) x["base"] = qname(R);
        } else if (I->isDelegatingInitializer())
          x["deleg"] = true;
        x["w"] = I->isWritten();
        if (I->getInit()) x["e"] = expr(I->getInit());
        is.push_back(std::move(x));
      }
      o["inits"] = std::move(is);
    }
    o["body"] = stmt(B);
    Funcs.push_back(std::move(o));
  }

  bool VisitFunctionDecl(FunctionDecl *F) {
    if (inRoots(F->getLocation())) dumpFn(F);
    return true;
  }
  bool VisitLambdaExpr(LambdaExpr *L) {
    if (inRoots(L->getBeginLoc())) {
      auto *M = L->getCallOperator();
      if (!M->isDependentContext()) dumpFn(M);
      // generic lambdas: instantiated call operators
      if (auto *T = M->getDescribedFunctionTemplate())
        for (auto *S : T->specializations()) dumpFn(S);
    }
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (V->hasGlobalStorage() && V->isThisDeclarationADefinition() && inRoots(V->getLocation()) && !V->getDeclContext()->isDependentContext()) {
      O o;
      o["q"] = qname(V);
      o["t"] = ty(V->getType());
      o["file"] = file(V->getLocation());
      o["l"] = line(V->getLocation());
      if (V->isStaticLocal()) o["slocal"] = true;
      if (V->getType().isConstQualified() || V->isConstexpr()) o["const"] = true;
      if (V->getInit() && !V->getInit()->isValueDependent()) o["init"] = expr(V->getInit());
      Globals.push_back(std::move(o));
    }
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || !inRoots(R->getLocation()) || R->isDependentContext() || R->isLambda()) return true;
    if (!R->hasDefinition()) return true;
    O o;
    o["q"] = qname(R);
    o["t"] = ty(C.getRecordType(R));
    o["file"] = file(R->getLocation());
    o["l"] = line(R->getLocation());
    A bs;
    for (auto &b : R->bases())
      if (auto *br = b.getType()->getAsCXXRecordDecl()) bs.push_back(qname(br));
    o["bases"] = std::move(bs);
    o["pub"] = bases(R);
    A fs;
    for (auto *F : R->fields()) {
      O f;
      f["n"] = F->getNameAsString();
      f["t"] = ty(F->getType());
      f["l"] = line(F->getLocation());
      f["acc"] = (int)F->getAccess();
      if (F->getType().isConstQualified()) f["const"] = true;
      if (F->hasInClassInitializer() && F->getInClassInitializer() && !F->getInClassInitializer()->isValueDependent())
        f["init"] = expr(F->getInClassInitializer());
      fs.push_back(std::move(f));
    }
    o["fields"] = std::move(fs);
    A ms;
    for (auto *M : R->methods()) {
      O m = fref(M);
      m["acc"] = (int)M->getAccess();
      m["n"] = M->getNameAsString();
      if (M->isDeleted()) m["deleted"] = true;
      if (M->isImplicit()) m["implicit"] = true;
      if (M->isDefaulted()) m["defaulted"] = true;
      if (M->isPureVirtual()) m["pure"] = true;
      m["l"] = line(M->getLocation());
      ms.push_back(std::move(m));
    }
    o["methods"] = std::move(ms);
    o["copyctor_implicit"] = R->needsImplicitCopyConstructor() && !R->defaultedCopyConstructorIsDeleted();
    o["copyctor_implicit_deleted"] = R->needsImplicitCopyConstructor() && R->defaultedCopyConstructorIsDeleted();
    o["copyasg_implicit"] = R->needsImplicitCopyAssignment();
    o["has_user_dtor"] = R->hasUserDeclaredDestructor();
    o["has_user_copyctor"] = R->hasUserDeclaredCopyConstructor();
    o["has_user_copyasg"] = R->hasUserDeclaredCopyAssignment();
    o["has_user_movector"] = R->hasUserDeclaredMoveConstructor();
    Classes.push_back(std::move(o));
    return true;
  }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Dumper D(C);
    D.TraverseDecl(C.getTranslationUnitDecl());
    O out;
    out["tu"] = TuName;
    out["funcs"] = std::move(D.Funcs);
    out["classes"] = std::move(D.Classes);
    out["globals"] = std::move(D.Globals);
    llvm::outs() << J(std::move(out)) << "\n";
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override { return std::make_unique<Consumer>(); }
};

int main(int argc, char **argv) {
  if (argc < 5) return 2;
  std::string roots = argv[1];
  size_t p = 0;
  while (p <= roots.size()) {
    size_t e = roots.find(':', p);
    if (e == std::string::npos) e = roots.size();
    Roots.push_back(roots.substr(p, e - p));
    p = e + 1;
  }
  Exclude = argv[2];
  TuName = argv[3];
  std::vector<std::string> args;
  for (int i = 5; i < argc; ++i) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", args);
  tooling::ClangTool T(DB, {std::string(argv[3])});
  class F : public tooling::FrontendActionFactory {
    std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
  } fac;
  return T.run(&fac);
}
