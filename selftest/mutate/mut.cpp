// Development aid, not a check: prints, for one translation unit, mechanical edits of the
// functions below ROOT as JSON lines. kind "same": behaviour is kept; kind "bug": it is not (most often).
// usage: mut ROOT SOURCE -- clang-args
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <set>
using namespace clang;
namespace json = llvm::json;
static std::string Root;
struct Edit { FileID f; unsigned off, len; std::string text; };

struct V : RecursiveASTVisitor<V> {
  ASTContext &C; SourceManager &SM; LangOptions LO; PrintingPolicy PP;
  FunctionDecl *Cur = nullptr;
  V(ASTContext &c) : C(c), SM(c.getSourceManager()), LO(c.getLangOpts()), PP(c.getLangOpts()) { PP.FullyQualifiedName = true; PP.SuppressScope = false; }
  bool shouldVisitTemplateInstantiations() const { return false; }
  bool shouldVisitImplicitCode() const { return false; }

  bool inRoot(SourceLocation l) {
    if (l.isInvalid() || l.isMacroID()) return false;
    auto f = SM.getFilename(l);
    return f.starts_with(Root) && !f.contains("schemas/");
  }
  bool ok(SourceRange r) { return r.isValid() && !r.getBegin().isMacroID() && !r.getEnd().isMacroID() && inRoot(r.getBegin()); }
  std::string text(SourceRange r) { return Lexer::getSourceText(CharSourceRange::getTokenRange(r), SM, LO).str(); }
  unsigned off(SourceLocation l) { return SM.getFileOffset(l); }
  unsigned endOff(SourceLocation l) { return SM.getFileOffset(Lexer::getLocForEndOfToken(l, 0, SM, LO)); }
  unsigned semiOff(SourceLocation l) { // end after the ';' that follows
    auto t = Lexer::findNextToken(l, SM, LO);
    if (t && t->is(tok::semi)) return SM.getFileOffset(t->getEndLoc());
    return endOff(l);
  }
  Edit rep(SourceRange r, std::string t) { return {SM.getFileID(r.getBegin()), off(r.getBegin()), endOff(r.getEnd()) - off(r.getBegin()), t}; }
  Edit ins(SourceLocation l, std::string t) { return {SM.getFileID(l), off(l), 0, t}; }
  Edit insOff(SourceLocation l, unsigned o, std::string t) { return {SM.getFileID(l), o, 0, t}; }

  void out(const char *kind, std::string op, SourceLocation l, std::vector<Edit> es) {
    json::Array a;
    for (auto &e : es) {
      auto fe = SM.getFileEntryRefForID(e.f);
      if (!fe) return;
      a.push_back(json::Array{fe->getName().str(), (int64_t)e.off, (int64_t)e.len, e.text});
    }
    json::Object o{{"kind", kind}, {"op", op}, {"file", SM.getFilename(l).str()}, {"line", (int64_t)SM.getSpellingLineNumber(l)}, {"fn", Cur ? Cur->getQualifiedNameAsString() : ""}, {"edits", std::move(a)}};
    llvm::outs() << json::Value(std::move(o)) << "\n";
  }

  // ---- helpers
  bool has(Stmt *s, std::function<bool(Stmt *)> p, bool intoLambda = false) {
    if (!s) return false;
    if (p(s)) return true;
    if (isa<LambdaExpr>(s) && !intoLambda) return false;
    for (auto *k : s->children()) if (k && has(k, p, intoLambda)) return true;
    return false;
  }
  bool jumps(Stmt *s, bool top = true) { // return anywhere, break/continue leaving s
    return has(s, [&](Stmt *x) { return isa<ReturnStmt>(x) || isa<BreakStmt>(x) || isa<ContinueStmt>(x) || isa<GotoStmt>(x); });
  }
  const Stmt *parent(const Stmt *s) {
    auto ps = C.getParents(*s);
    return ps.empty() ? nullptr : ps[0].get<Stmt>();
  }
  void locals(Stmt *s, SourceRange within, std::vector<VarDecl *> &r, bool &bad) {
    if (!s) return;
    if (auto *d = dyn_cast<DeclRefExpr>(s))
      if (auto *v = dyn_cast<VarDecl>(d->getDecl()))
        if (v->hasLocalStorage() || isa<ParmVarDecl>(v)) {
          bool inside = off(v->getLocation()) >= off(within.getBegin()) && off(v->getLocation()) <= off(within.getEnd());
          if (!inside && std::find(r.begin(), r.end(), v) == r.end()) r.push_back(v);
        }
    if (isa<LambdaExpr>(s)) bad = true;
    for (auto *k : s->children()) locals(k, within, r, bad);
  }
  bool plainType(QualType t) {
    t = t.getNonReferenceType();
    if (t->isArrayType() || t->isDependentType()) return false;
    auto s = t.getAsString(PP);
    return s.find("lambda") == std::string::npos && s.find("unnamed") == std::string::npos && s.find("(anonymous") == std::string::npos;
  }
  bool terminates(Stmt *s) {
    if (auto *c = dyn_cast_or_null<CompoundStmt>(s)) return !c->body_empty() && terminates(c->body_back());
    if (auto *e = dyn_cast_or_null<ExprWithCleanups>(s)) return isa<CXXThrowExpr>(e->getSubExpr());
    return s && (isa<ReturnStmt>(s) || isa<BreakStmt>(s) || isa<ContinueStmt>(s) || isa<CXXThrowExpr>(s));
  }

  // ---- functions
  bool TraverseFunction(FunctionDecl *f, std::function<bool()> go) {
    auto *old = Cur; Cur = f; bool r = go(); Cur = old; return r;
  }
  bool TraverseCXXMethodDecl(CXXMethodDecl *f) { return TraverseFunction(f, [&] { return RecursiveASTVisitor::TraverseCXXMethodDecl(f); }); }
  bool TraverseCXXConstructorDecl(CXXConstructorDecl *f) { return TraverseFunction(f, [&] { return RecursiveASTVisitor::TraverseCXXConstructorDecl(f); }); }
  bool TraverseCXXDestructorDecl(CXXDestructorDecl *f) { return TraverseFunction(f, [&] { return RecursiveASTVisitor::TraverseCXXDestructorDecl(f); }); }
  bool TraverseFunctionDecl(FunctionDecl *f) { return TraverseFunction(f, [&] { return RecursiveASTVisitor::TraverseFunctionDecl(f); }); }

  bool VisitFunctionDecl(FunctionDecl *f) {
    if (!f->doesThisDeclarationHaveABody() || f->isDefaulted()) return true;
    auto *b = dyn_cast_or_null<CompoundStmt>(f->getBody());
    if (!b || !ok(b->getSourceRange())) return true;
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) return true;
    // member initialisers
    if (auto *k = dyn_cast<CXXConstructorDecl>(f))
      for (auto *i : k->inits()) {
        if (!i->isWritten() || !i->isAnyMemberInitializer() || !ok(i->getSourceRange())) continue;
        if (i->getInit() && ok(i->getInit()->getSourceRange())) {
          auto t = text(i->getSourceRange());
          out("bug", "init-default", i->getSourceLocation(), {rep(i->getSourceRange(), i->getMember()->getNameAsString() + "()")});
        }
      }
    if (b->body_empty()) return true;
    auto open = b->getLBracLoc(), close = b->getRBracLoc();
    out("same", "noop", open, {insOff(open, endOff(open), " const int unused__ = 0; (void)unused__;")});
    if (!isa<CXXConstructorDecl>(f) && !f->isDependentContext()) {
      auto rt = f->getReturnType();
      bool v = rt->isVoidType();
      if (v || plainType(rt))
        out("same", "body-lambda", open, {insOff(open, endOff(open), v ? " auto body__ = [&]() {" : " auto body__ = [&]() -> " + rt.getAsString(PP) + " {"), ins(close, v ? "}; body__(); " : "}; return body__(); ")});
    }
    bool v = isa<CXXConstructorDecl>(f) || f->getReturnType()->isVoidType();
    if (v)
      if (auto *i = dyn_cast<IfStmt>(b->body_back()))
        if (!i->getElse() && ok(i->getCond()->getSourceRange()) && isa<CompoundStmt>(i->getThen()) && !i->getInit() && !i->getConditionVariable())
          out("same", "early-return", i->getIfLoc(), {rep(i->getCond()->getSourceRange(), "!(" + text(i->getCond()->getSourceRange()) + ")"), insOff(i->getIfLoc(), off(i->getThen()->getBeginLoc()), "{ return; }\n")});
    return true;
  }

  std::string clsOf(SourceLocation &at) {
    auto *m = dyn_cast_or_null<CXXMethodDecl>(Cur);
    if (!m || m->getParent()->isLambda() || m->getParent()->isDependentContext() || m->isStatic()) return "";
    auto *p = m->getParent();
    if (!p->getDefinition()) return "";
    at = p->getDefinition()->getBraceRange().getEnd();
    if (!inRoot(at)) return "";
    return p->getQualifiedNameAsString();
  }
  int n = 0;
  // a private method made of a statement or an expression
  void extract(Stmt *s, SourceRange r, std::string ret, std::string body, const char *op, bool expr) {
    SourceLocation at;
    std::string cls = clsOf(at);
    if (cls.empty() || isa<CXXConstructorDecl>(Cur)) return;
    // inside a lambda of the method: leave alone
    for (auto *p = parent(s); p; p = parent(p)) if (isa<LambdaExpr>(p)) return;
    std::vector<VarDecl *> vs; bool bad = false;
    locals(s, r, vs, bad);
    if (bad) return;
    std::string par, arg;
    for (auto *v : vs) {
      if (!plainType(v->getType())) return;
      std::string t = v->getType().getNonReferenceType().getAsString(PP);
      if (v->getType()->isRValueReferenceType()) return;
      par += (par.empty() ? "" : ", ") + t + "& " + v->getNameAsString();
      arg += (arg.empty() ? "" : ", ") + v->getNameAsString();
    }
    bool k = cast<CXXMethodDecl>(Cur)->isConst();
    std::string nm = std::string("Helper") + std::to_string(off(r.getBegin()));
    // definition goes in front of the current function
    auto *def = Cur;
    SourceLocation fs = def->getBeginLoc();
    if (!ok(def->getSourceRange())) return;
    bool inl = def->isThisDeclarationADefinition() && SM.getFileID(fs) == SM.getFileID(at) && off(fs) < off(at) && off(fs) > off(cast<CXXMethodDecl>(Cur)->getParent()->getDefinition()->getBeginLoc());
    std::string sig = "(" + par + ")" + (k ? " const" : "");
    std::vector<Edit> es;
    if (inl)
      es = {ins(at, "private: " + ret + " " + nm + sig + " {" + body + "}\n"), rep(r, nm + "(" + arg + ")" + (expr ? "" : ";"))};
    else
      es = {ins(at, "private: " + ret + " " + nm + sig + ";\n"), ins(fs, ret + " " + cls + "::" + nm + sig + "\n{" + body + "}\n"), rep(r, nm + "(" + arg + ")" + (expr ? "" : ";"))};
    out("same", op, r.getBegin(), es);
  }

  bool VisitCXXForRangeStmt(CXXForRangeStmt *s) {
    auto *d = s->getLoopVariable();
    auto *ri = s->getRangeInit();
    if (!ok(s->getSourceRange()) || !ok(ri->getSourceRange())) return true;
    auto rng = text(ri->getSourceRange()), dt = text(SourceRange(d->getBeginLoc(), d->getLocation()));
    auto body = s->getBody();
    auto nm = d->getNameAsString();
    std::string tl = dt.substr(0, dt.rfind(nm));
    SourceRange head(s->getForLoc(), s->getRParenLoc());
    auto e = Edit{SM.getFileID(s->getForLoc()), off(s->getForLoc()), endOff(s->getRParenLoc()) - off(s->getForLoc()), ""};
    auto bo = endOff(body->getBeginLoc());
    bool lv = ri->isLValue();
    if (isa<CompoundStmt>(body) && lv) {
      e.text = "for(auto it__ = (" + rng + ").begin(); it__ != (" + rng + ").end(); ++it__)";
      out("same", "for-iter", s->getForLoc(), {e, insOff(s->getForLoc(), bo, " " + tl + nm + " = *it__;")});
      auto tn = ri->getType().getCanonicalType().getAsString(PP);
      if (tn.find("vector") != std::string::npos) {
        e.text = "for(std::size_t i__ = 0; i__ < (" + rng + ").size(); ++i__)";
        out("same", "for-index", s->getForLoc(), {e, insOff(s->getForLoc(), bo, " " + tl + nm + " = (" + rng + ")[i__];")});
      }
      if (!jumps(body)) {
        e.text = "std::for_each((" + rng + ").begin(), (" + rng + ").end(), [&](" + tl + nm + ")";
        out("same", "for-each", s->getForLoc(), {e, insOff(s->getForLoc(), endOff(s->getEndLoc()), ");")});
      }
      e.text = "auto it__ = (" + rng + ").begin(); while(it__ != (" + rng + ").end())";
      if (!has(body, [](Stmt *x) { return isa<ContinueStmt>(x); }))
        out("same", "for-while", s->getForLoc(), {Edit{e.f, e.off, e.len, "{ " + e.text}, insOff(s->getForLoc(), bo, " " + tl + nm + " = *it__; ++it__;"), insOff(s->getForLoc(), endOff(s->getEndLoc()), "}")});
    }
    if (!d->getType()->isReferenceType()) {
      out("same", "loop-const-ref", s->getForLoc(), {rep(SourceRange(d->getBeginLoc(), d->getLocation()), "const auto& " + nm)});
    } else
      out("same", "loop-auto-ref", s->getForLoc(), {rep(SourceRange(d->getBeginLoc(), d->getLocation()), "auto& " + nm)});
    if (isa<CompoundStmt>(body)) {
      out("bug", "loop-first-only", s->getForLoc(), {insOff(s->getForLoc(), off(s->getEndLoc()), " break; ")});
      out("bug", "loop-none", s->getForLoc(), {insOff(s->getForLoc(), endOff(body->getBeginLoc()), " break; ")});
    }
    return true;
  }
  bool VisitForStmt(ForStmt *s) {
    if (!ok(s->getSourceRange()) || !isa<CompoundStmt>(s->getBody())) return true;
    if (s->getInit() && s->getCond() && s->getInc() && !has(s->getBody(), [](Stmt *x) { return isa<ContinueStmt>(x); })) {
      std::string in = text(s->getInit()->getSourceRange());
      if (in.empty() || in.back() != ';') in += ";";
      auto e = Edit{SM.getFileID(s->getForLoc()), off(s->getForLoc()), endOff(s->getRParenLoc()) - off(s->getForLoc()), "{ " + in + " while(" + text(s->getCond()->getSourceRange()) + ")"};
      out("same", "for-to-while", s->getForLoc(), {e, insOff(s->getForLoc(), off(s->getEndLoc()), text(s->getInc()->getSourceRange()) + ";"), insOff(s->getForLoc(), endOff(s->getEndLoc()), "}")});
    }
    out("bug", "loop-first-only", s->getForLoc(), {insOff(s->getForLoc(), off(s->getEndLoc()), " break; ")});
    return true;
  }
  bool VisitWhileStmt(WhileStmt *s) {
    if (!ok(s->getSourceRange())) return true;
    auto c = s->getCond();
    if (ok(c->getSourceRange()) && isa<CompoundStmt>(s->getBody())) {
      out("same", "while-true", s->getWhileLoc(), {rep(c->getSourceRange(), "true"), insOff(s->getWhileLoc(), endOff(s->getBody()->getBeginLoc()), " if(!(" + text(c->getSourceRange()) + ")) { break; }")});
      out("bug", "while-to-if", s->getWhileLoc(), {insOff(s->getWhileLoc(), off(s->getEndLoc()), " break; ")});
      out("bug", "while-never", s->getWhileLoc(), {rep(c->getSourceRange(), "false")});
    }
    return true;
  }
  bool VisitIfStmt(IfStmt *s) {
    auto *c = s->getCond();
    if (!c || !ok(c->getSourceRange()) || !ok(s->getSourceRange()) || s->getInit() || s->getConditionVariable()) return true;
    auto t = text(c->getSourceRange());
    bool inC = isa_and_nonnull<CompoundStmt>(parent(s));
    if (inC) out("same", "hoist-cond", s->getIfLoc(), {insOff(s->getIfLoc(), off(s->getIfLoc()), "const bool cond" + std::to_string(off(s->getIfLoc())) + "__ = static_cast<bool>(" + t + ");\n"), rep(c->getSourceRange(), "cond" + std::to_string(off(s->getIfLoc())) + "__")});
    if (s->getElse() && isa<CompoundStmt>(s->getThen()) && isa<CompoundStmt>(s->getElse()))
      out("same", "swap-if", s->getIfLoc(), {rep(c->getSourceRange(), "!(" + t + ")"), rep(s->getThen()->getSourceRange(), text(s->getElse()->getSourceRange())), rep(s->getElse()->getSourceRange(), text(s->getThen()->getSourceRange()))});
    if (s->getElse() && isa<IfStmt>(s->getElse()))
      out("same", "nest-else", s->getIfLoc(), {insOff(s->getIfLoc(), off(s->getElse()->getBeginLoc()), "{ "), insOff(s->getIfLoc(), endOff(s->getElse()->getEndLoc()), " }")});
    if (s->getElse() && terminates(s->getThen()) && inC && isa<CompoundStmt>(s->getElse())) {
      out("same", "drop-else", s->getIfLoc(), {Edit{SM.getFileID(s->getElseLoc()), off(s->getElseLoc()), 4, ""}});
    }
    if (!s->getElse() && isa<CompoundStmt>(s->getThen()))
      if (auto *bo = dyn_cast<BinaryOperator>(c->IgnoreParenImpCasts()))
        if (bo->getOpcode() == BO_LAnd)
          out("same", "nest-and", s->getIfLoc(), {rep(c->getSourceRange(), text(bo->getLHS()->getSourceRange())), insOff(s->getIfLoc(), off(s->getThen()->getBeginLoc()), "{ if(" + text(bo->getRHS()->getSourceRange()) + ") "), insOff(s->getIfLoc(), endOff(s->getThen()->getEndLoc()), "}")});
    if (!s->getElse() && isa<CompoundStmt>(s->getThen()) && inC) {
      out("same", "empty-then", s->getIfLoc(), {insOff(s->getIfLoc(), off(s->getThen()->getBeginLoc()), "{ } else ") , rep(c->getSourceRange(), "!(" + t + ")")});
      // continue / guard in a loop
      auto *p = dyn_cast_or_null<CompoundStmt>(parent(s));
      if (p && p->body_back() == s) {
        auto *q = parent(p);
        if (q && (isa<ForStmt>(q) || isa<CXXForRangeStmt>(q) || isa<WhileStmt>(q)))
          out("same", "continue-guard", s->getIfLoc(), {rep(c->getSourceRange(), "!(" + t + ")"), insOff(s->getIfLoc(), off(s->getThen()->getBeginLoc()), "{ continue; }\n")});
      }
    }
    if (!c->isTypeDependent()) extract(c, c->getSourceRange(), "bool", " return static_cast<bool>(" + t + "); ", "extract-cond", true);
    out("bug", "negate", s->getIfLoc(), {rep(c->getSourceRange(), "!(" + t + ")")});
    if (s->getElse()) { out("bug", "cond-true", s->getIfLoc(), {rep(c->getSourceRange(), "(" + t + ") || true")}); out("bug", "cond-false", s->getIfLoc(), {rep(c->getSourceRange(), "(" + t + ") && false")}); }
    else { out("bug", "cond-true", s->getIfLoc(), {rep(c->getSourceRange(), "(" + t + ") || true")}); out("bug", "cond-false", s->getIfLoc(), {rep(c->getSourceRange(), "(" + t + ") && false")}); }
    return true;
  }
  bool VisitConditionalOperator(ConditionalOperator *c) {
    if (!ok(c->getSourceRange())) return true;
    auto a = text(c->getCond()->getSourceRange()), b = text(c->getTrueExpr()->getSourceRange()), d = text(c->getFalseExpr()->getSourceRange());
    out("same", "swap-ternary", c->getBeginLoc(), {rep(c->getSourceRange(), "(!(" + a + ") ? (" + d + ") : (" + b + "))")});
    out("bug", "swap-ternary", c->getBeginLoc(), {rep(c->getSourceRange(), "((" + a + ") ? (" + d + ") : (" + b + "))")});
    return true;
  }
  bool VisitReturnStmt(ReturnStmt *r) {
    auto *v = r->getRetValue();
    if (!ok(r->getSourceRange())) return true;
    if (!v) return true;
    if (!ok(v->getSourceRange())) return true;
    bool inC = isa_and_nonnull<CompoundStmt>(parent(r));
    auto rt = Cur ? Cur->getReturnType() : QualType();
    for (auto *p = parent(r); p; p = parent(p)) if (auto *l = dyn_cast<LambdaExpr>(p)) { rt = l->getCallOperator()->getReturnType(); break; }
    if (inC && !rt.isNull() && !rt->isReferenceType() && !rt->isDependentType())
      out("same", "return-var", r->getReturnLoc(), {ins(r->getReturnLoc(), rt.getUnqualifiedType().getAsString(PP) + " result__ = "), Edit{SM.getFileID(r->getReturnLoc()), off(r->getReturnLoc()), 6, ""}, insOff(r->getReturnLoc(), semiOff(r->getEndLoc()), " return result__;")});
    if (!rt.isNull() && rt->isBooleanType()) out("bug", "return-not", r->getReturnLoc(), {rep(v->getSourceRange(), "!(" + text(v->getSourceRange()) + ")")});
    else if (!rt.isNull() && !rt->isReferenceType() && !rt->isDependentType()) out("bug", "return-default", r->getReturnLoc(), {rep(v->getSourceRange(), rt->isPointerType() ? std::string("nullptr") : rt.getUnqualifiedType().getAsString(PP) + "()")});
    return true;
  }
  bool VisitCompoundStmt(CompoundStmt *b) {
    if (!ok(b->getSourceRange()) || !Cur) return true;
    Stmt *prev = nullptr;
    for (auto *s : b->body()) {
      bool ex = isa<Expr>(s);
      if (ok(s->getSourceRange())) {
        unsigned a = off(s->getBeginLoc()), z = isa<Expr>(s) || isa<ReturnStmt>(s) ? semiOff(s->getEndLoc()) : endOff(s->getEndLoc());
        auto F = SM.getFileID(s->getBeginLoc());
        if (ex) {
          out("bug", "delete", s->getBeginLoc(), {Edit{F, a, z - a, ";"}});
          out("same", "block", s->getBeginLoc(), {Edit{F, a, 0, "{ "}, Edit{F, z, 0, " }"}});
          out("bug", "twice", s->getBeginLoc(), {Edit{F, z, 0, " " + text(s->getSourceRange()) + ";"}});
        }
        if (auto *d = dyn_cast<DeclStmt>(s)) {
          if (d->isSingleDecl())
            if (auto *v = dyn_cast<VarDecl>(d->getSingleDecl())) {
              auto t = v->getType().getAsString(PP);
              if (t.find("lock") != std::string::npos) out("bug", "delete-lock", s->getBeginLoc(), {Edit{F, a, endOff(s->getEndLoc()) - a, ";"}});
              if (t.find("lock_guard") != std::string::npos) {
                auto x = text(s->getSourceRange());
                auto y = x;
                y.replace(y.find("lock_guard"), 10, "unique_lock");
                out("same", "unique-lock", s->getBeginLoc(), {rep(s->getSourceRange(), y)});
                out("bug", "short-lock", s->getBeginLoc(), {Edit{F, a, endOff(s->getEndLoc()) - a, "{ " + x + " }"}});
              } else if (v->hasInit() && v->getType()->isBooleanType() == false && ok(v->getInit()->getSourceRange())) {
                if (!v->getType()->isReferenceType() && !v->getType().isConstQualified() && !v->getType()->isDependentType()) {
                  auto x = text(s->getSourceRange());
                  out("same", "const-local", s->getBeginLoc(), {ins(s->getBeginLoc(), "const ")});
                }
              }
            }
        }
        if (prev && isa<Expr>(prev) && ex && ok(prev->getSourceRange())) {
          auto p = text(prev->getSourceRange()), q = text(s->getSourceRange());
          out("bug", "swap-stmts", prev->getBeginLoc(), {rep(prev->getSourceRange(), q), rep(s->getSourceRange(), p)});
        }
        // extraction of single compound statements
        if ((isa<IfStmt>(s) || isa<CXXForRangeStmt>(s) || isa<ForStmt>(s) || isa<WhileStmt>(s) || isa<CompoundStmt>(s) || isa<SwitchStmt>(s)) &&
            !has(s, [](Stmt *x) { return isa<ReturnStmt>(x); })) {
          bool esc = isa<IfStmt>(s) || isa<CompoundStmt>(s) ? has(s, [](Stmt *x) { return isa<BreakStmt>(x) || isa<ContinueStmt>(x); }) : false;
          if (!esc) {
            extract(s, s->getSourceRange(), "void", text(s->getSourceRange()), "extract-stmt", false);
            bool lam = false;
            out("same", "step-lambda", s->getBeginLoc(), {Edit{F, a, 0, "{ auto step__ = [&]() { "}, Edit{F, endOff(s->getEndLoc()), 0, " }; step__(); }"}});
            (void)lam;
          }
        }
        if (ex && isa<CXXMemberCallExpr>(cast<Expr>(s)->IgnoreImplicit()))
          extract(s, SourceRange(s->getBeginLoc(), s->getEndLoc()), "void", text(s->getSourceRange()) + ";", "extract-call", true);
      }
      prev = s;
    }
    // a run of statements at the end (two or more) as a helper
    if (b->size() >= 3 && Cur->getBody() == b) {
      auto it = b->body_begin(); std::advance(it, b->size() / 2);
      bool good = true;
      std::vector<Stmt *> run(it, b->body_end());
      for (auto *s : run) if (!ok(s->getSourceRange()) || has(s, [](Stmt *x) { return isa<ReturnStmt>(x) || isa<LambdaExpr>(x); })) good = false;
      if (good) {
        unsigned a = off(run.front()->getBeginLoc()), z = off(b->getRBracLoc());
        auto F = SM.getFileID(b->getBeginLoc());
        std::string src = SM.getBufferData(F).substr(a, z - a).str();
        // wrap as one compound for the locals analysis
        std::vector<VarDecl *> vs; bool bad = false;
        SourceRange R(run.front()->getBeginLoc(), b->getRBracLoc());
        for (auto *s : run) locals(s, R, vs, bad);
        SourceLocation at; std::string cls = clsOf(at);
        if (!bad && !cls.empty() && !isa<CXXConstructorDecl>(Cur)) {
          std::string par, arg; bool g = true;
          for (auto *v : vs) {
            if (!plainType(v->getType()) || v->getType()->isRValueReferenceType()) g = false;
            par += (par.empty() ? "" : ", ") + v->getType().getNonReferenceType().getAsString(PP) + "& " + v->getNameAsString();
            arg += (arg.empty() ? "" : ", ") + v->getNameAsString();
          }
          auto *def = Cur->getBeginLoc().isValid() ? Cur : nullptr;
          if (g && def && SM.getFileID(def->getBeginLoc()) != SM.getFileID(at)) {
            bool k = cast<CXXMethodDecl>(Cur)->isConst();
            std::string sig = "(" + par + ")" + (k ? " const" : ""), nm = "Tail" + std::to_string(a);
            out("same", "extract-tail", run.front()->getBeginLoc(), {ins(at, "private: void " + nm + sig + ";\n"), ins(def->getBeginLoc(), "void " + cls + "::" + nm + sig + "\n{" + src + "}\n"), Edit{F, a, z - a, nm + "(" + arg + ");"}});
          }
        }
      }
    }
    return true;
  }
  bool VisitBinaryOperator(BinaryOperator *b) {
    if (!ok(b->getSourceRange())) return true;
    auto l = text(b->getLHS()->getSourceRange()), r = text(b->getRHS()->getSourceRange());
    auto R = [&](std::string t) { return std::vector<Edit>{rep(b->getSourceRange(), t)}; };
    switch (b->getOpcode()) {
    case BO_LAnd: case BO_LOr:
      out("bug", "only-left", b->getOperatorLoc(), R(l)); out("bug", "only-right", b->getOperatorLoc(), R(r));
      out("bug", "and-or", b->getOperatorLoc(), R("(" + l + (b->getOpcode() == BO_LAnd ? " || " : " && ") + r + ")"));
      out("same", "demorgan", b->getOperatorLoc(), R("!(!(" + l + ")" + (b->getOpcode() == BO_LAnd ? " || " : " && ") + "!(" + r + "))"));
      break;
    case BO_EQ: out("same", "not-ne", b->getOperatorLoc(), R("!(" + l + " != " + r + ")")); out("same", "swap-eq", b->getOperatorLoc(), R("(" + r + ") == (" + l + ")")); out("bug", "eq-ne", b->getOperatorLoc(), R(l + " != " + r)); break;
    case BO_NE: out("same", "not-eq", b->getOperatorLoc(), R("!(" + l + " == " + r + ")")); out("bug", "ne-eq", b->getOperatorLoc(), R(l + " == " + r)); break;
    case BO_LT: out("same", "swap-lt", b->getOperatorLoc(), R("(" + r + ") > (" + l + ")")); out("same", "not-ge", b->getOperatorLoc(), R("!(" + l + " >= " + r + ")")); out("bug", "lt-le", b->getOperatorLoc(), R(l + " <= " + r)); break;
    case BO_GT: out("same", "not-le", b->getOperatorLoc(), R("!(" + l + " <= " + r + ")")); out("bug", "gt-ge", b->getOperatorLoc(), R(l + " >= " + r)); break;
    case BO_LE: out("same", "not-gt", b->getOperatorLoc(), R("!(" + l + " > " + r + ")")); out("bug", "le-lt", b->getOperatorLoc(), R(l + " < " + r)); break;
    case BO_GE: out("same", "not-lt", b->getOperatorLoc(), R("!(" + l + " < " + r + ")")); out("bug", "ge-gt", b->getOperatorLoc(), R(l + " > " + r)); break;
    case BO_Add: out("bug", "add-sub", b->getOperatorLoc(), R(l + " - " + r)); out("bug", "only-left", b->getOperatorLoc(), R(l)); break;
    case BO_Sub: out("bug", "only-left", b->getOperatorLoc(), R(l)); break;
    default: break;
    }
    return true;
  }
  bool VisitUnaryOperator(UnaryOperator *u) {
    if (!ok(u->getSourceRange()) || u->getOpcode() != UO_LNot) return true;
    out("same", "is-false", u->getOperatorLoc(), {rep(u->getSourceRange(), "static_cast<bool>(" + text(u->getSubExpr()->getSourceRange()) + ") == false")});
    return true;
  }
  bool VisitCXXOperatorCallExpr(CXXOperatorCallExpr *o) {
    if (!ok(o->getSourceRange()) || o->getNumArgs() != 2) return true;
    auto l = text(o->getArg(0)->getSourceRange()), r = text(o->getArg(1)->getSourceRange());
    auto R = [&](std::string t) { return std::vector<Edit>{rep(o->getSourceRange(), t)}; };
    if (o->getOperator() == OO_EqualEqual) { out("same", "not-ne", o->getOperatorLoc(), R("!(" + l + " != " + r + ")")); out("same", "swap-eq", o->getOperatorLoc(), R("(" + r + ") == (" + l + ")")); out("bug", "eq-ne", o->getOperatorLoc(), R(l + " != " + r)); }
    if (o->getOperator() == OO_ExclaimEqual) { out("same", "not-eq", o->getOperatorLoc(), R("!(" + l + " == " + r + ")")); out("bug", "ne-eq", o->getOperatorLoc(), R(l + " == " + r)); }
    if (o->getOperator() == OO_Plus) { out("bug", "only-left", o->getOperatorLoc(), R(l)); out("bug", "only-right", o->getOperatorLoc(), R(r)); }
    if (o->getOperator() == OO_PlusEqual) out("same", "append", o->getOperatorLoc(), R(l + ".append(1, ' '), " + l + ".pop_back(), " + l + " = " + l + " + " + r));
    return true;
  }
  bool VisitCallExpr(CallExpr *c) {
    if (!ok(c->getSourceRange())) return true;
    // string arguments into locals when the call is a whole statement
    if (isa<CXXOperatorCallExpr>(c)) return true;
    unsigned na = c->getNumArgs();
    for (unsigned i = 0; i + 1 < na; i++) {
      auto *a = c->getArg(i), *b = c->getArg(i + 1);
      if (isa<CXXDefaultArgExpr>(a) || isa<CXXDefaultArgExpr>(b) || !ok(a->getSourceRange()) || !ok(b->getSourceRange())) continue;
      if (a->getType().getCanonicalType().getUnqualifiedType() == b->getType().getCanonicalType().getUnqualifiedType())
        out("bug", "swap-args", c->getBeginLoc(), {rep(a->getSourceRange(), text(b->getSourceRange())), rep(b->getSourceRange(), text(a->getSourceRange()))});
    }
    if (auto *m = dyn_cast<CXXMemberCallExpr>(c)) {
      auto *me = dyn_cast<MemberExpr>(m->getCallee()->IgnoreParens());
      if (me && ok(me->getSourceRange()) && !me->isImplicitAccess()) {
        auto nm = me->getMemberDecl()->getNameAsString();
        auto sw = [&](const char *a, const char *b) { if (nm == a) out("bug", std::string("callee-") + b, me->getMemberLoc(), {rep(SourceRange(me->getMemberLoc(), me->getMemberLoc()), b)}); };
        sw("push_back", "push_front"); sw("begin", "end"); sw("lock", "unlock"); sw("front", "back"); sw("pop_front", "pop_back"); sw("notify_one", "native_handle"); sw("find", "rfind"); sw("find_last_of", "find_first_of"); sw("rfind", "find"); sw("empty", "size"); sw("find_last_of", "find_last_not_of");
        if (nm == "push_back") out("same", "emplace-back", me->getMemberLoc(), {rep(SourceRange(me->getMemberLoc(), me->getMemberLoc()), "emplace_back")});
        if (nm == "empty" && na == 0) {
          std::string ob = text(me->getBase()->getSourceRange());
          out("same", "size-zero", me->getMemberLoc(), {rep(c->getSourceRange(), "(" + ob + (me->isArrow() ? "->" : ".") + "size() == 0)")});
        }
      }
      if (me && me->isImplicitAccess() && ok(me->getSourceRange()) && !c->getType()->isDependentType())
        out("same", "this-call", me->getMemberLoc(), {ins(me->getMemberLoc(), "this->")});
    }
    return true;
  }
  bool VisitCXXConstructExpr(CXXConstructExpr *c) {
    if (!ok(c->getSourceRange())) return true;
    for (unsigned i = 0; i + 1 < c->getNumArgs(); i++) {
      auto *a = c->getArg(i), *b = c->getArg(i + 1);
      if (isa<CXXDefaultArgExpr>(a) || isa<CXXDefaultArgExpr>(b) || !ok(a->getSourceRange()) || !ok(b->getSourceRange())) continue;
      if (a->getType().getCanonicalType().getUnqualifiedType() == b->getType().getCanonicalType().getUnqualifiedType())
        out("bug", "swap-args", c->getBeginLoc(), {rep(a->getSourceRange(), text(b->getSourceRange())), rep(b->getSourceRange(), text(a->getSourceRange()))});
    }
    return true;
  }
  bool VisitIntegerLiteral(IntegerLiteral *i) {
    if (!ok(i->getSourceRange())) return true;
    auto t = text(i->getSourceRange());
    out("bug", "plus-one", i->getLocation(), {rep(i->getSourceRange(), "(" + t + " + 1)")});
    if (i->getValue() != 0) out("bug", "minus-one", i->getLocation(), {rep(i->getSourceRange(), "(" + t + " - 1)")});
    return true;
  }
  bool VisitCXXBoolLiteralExpr(CXXBoolLiteralExpr *b) {
    if (!ok(b->getSourceRange())) return true;
    out("bug", "flip", b->getLocation(), {rep(b->getSourceRange(), b->getValue() ? "false" : "true")});
    return true;
  }
  bool VisitStringLiteral(StringLiteral *s) {
    if (!ok(s->getSourceRange()) || s->getNumConcatenated() != 1) return true;
    auto t = text(s->getSourceRange());
    if (t.size() < 2 || t[0] != '"') return true;
    out("bug", "text", s->getBeginLoc(), {rep(s->getSourceRange(), t.substr(0, t.size() - 1) + "x\"")});
    return true;
  }
  bool VisitCharacterLiteral(CharacterLiteral *s) {
    if (!ok(s->getSourceRange())) return true;
    out("bug", "char", s->getBeginLoc(), {rep(s->getSourceRange(), "'x'")});
    return true;
  }
  bool VisitMemberExpr(MemberExpr *m) {
    if (!ok(m->getSourceRange()) || !m->isImplicitAccess()) return true;
    if (isa<FieldDecl>(m->getMemberDecl())) out("same", "this-field", m->getMemberLoc(), {ins(m->getMemberLoc(), "this->")});
    return true;
  }
};
struct Cons : ASTConsumer { void HandleTranslationUnit(ASTContext &c) override { V v(c); v.TraverseDecl(c.getTranslationUnitDecl()); } };
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); } };
int main(int argc, char **argv) {
  Root = argv[1]; std::string src = argv[2];
  std::vector<std::string> fl(argv + 4, argv + argc);
  tooling::FixedCompilationDatabase db(".", fl);
  tooling::ClangTool t(db, {src});
  return t.run(tooling::newFrontendActionFactory<Act>().get());
}
