// Clang plugin: dumps the (instantiated) ASTs of every function whose
// definition lies under one of the given path prefixes, as JSON.  The verifier
// works on this dump, regenerated from /repo's current sources on every run.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendPluginRegistry.h"
#include "llvm/ADT/DenseMap.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
using namespace clang;
namespace {
std::string g_out;
std::vector<std::string> g_prefixes;

std::string q(llvm::StringRef s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c == '\t') o += "\\t";
    else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

struct Dumper {
  ASTContext& ctx;
  PrintingPolicy pp;
  std::map<const Type*, int> typeIds;         // by canonical type ptr (unqual)
  std::map<std::string, int> typeKeys;
  std::vector<std::string> types;
  llvm::DenseMap<const Decl*, int> ids;
  int nextId = 1;
  std::vector<std::string> functions, records, enums, globals;
  std::set<const Decl*> seenRec, seenFn, seenGlobal;
  std::vector<const FunctionDecl*> queue;
  explicit Dumper(ASTContext& c) : ctx(c), pp(c.getLangOpts()) {
    pp.SuppressTagKeyword = true;
    pp.Bool = true;
    pp.PrintCanonicalTypes = true;
  }

  int id(const Decl* d) {
    d = d->getCanonicalDecl();
    auto it = ids.find(d);
    if (it != ids.end()) return it->second;
    return ids[d] = nextId++;
  }

  bool inScope(SourceLocation loc) {
    auto& sm = ctx.getSourceManager();
    loc = sm.getExpansionLoc(loc);
    auto f = sm.getFilename(loc);
    for (auto& p : g_prefixes)
      if (f.starts_with(p)) return true;
    return false;
  }

  std::string tname(QualType t) {
    return t.getCanonicalType().getUnqualifiedType().getAsString(pp);
  }

  std::string targ(const TemplateArgument& a) {
    switch (a.getKind()) {
      case TemplateArgument::Type:
        return "{\"t\":" + std::to_string(type(a.getAsType())) + "}";
      case TemplateArgument::Integral: {
        llvm::SmallString<32> s;
        a.getAsIntegral().toString(s, 10);
        return "{\"i\":" + std::string(s.str()) + "}";
      }
      case TemplateArgument::Pack: {
        std::string o = "{\"pack\":[";
        bool first = true;
        for (auto& x : a.pack_elements()) {
          if (!first) o += ",";
          first = false;
          o += targ(x);
        }
        return o + "]}";
      }
      case TemplateArgument::Declaration:
        return "{\"d\":" + q(a.getAsDecl()->getQualifiedNameAsString()) + "}";
      default: {
        std::string s;
        llvm::raw_string_ostream os(s);
        a.print(pp, os, true);
        return "{\"s\":" + q(os.str()) + "}";
      }
    }
  }
  std::string targs(const TemplateArgumentList* l) {
    std::string o = "[";
    if (l) {
      for (unsigned i = 0; i < l->size(); ++i) {
        if (i) o += ",";
        o += targ(l->get(i));
      }
    }
    return o + "]";
  }

  int type(QualType qt) {
    QualType c = qt.getCanonicalType();
    bool isConst = c.isConstQualified();
    QualType u = c.getUnqualifiedType();
    const Type* tp = u.getTypePtr();
    auto key = tp;
    auto it = typeIds.find(key);
    if (it != typeIds.end()) return it->second * 2 + (isConst ? 1 : 0);
    int idx = types.size();
    typeIds[key] = idx;
    types.push_back("");
    std::string o = "{\"s\":" + q(u.getAsString(pp));
    if (tp->isBooleanType()) o += ",\"k\":\"bool\"";
    else if (auto* et = tp->getAs<EnumType>()) {
      o += ",\"k\":\"enum\",\"n\":" + q(et->getDecl()->getQualifiedNameAsString());
      dumpEnum(et->getDecl());
      o += ",\"bits\":" + std::to_string(ctx.getTypeSize(u)) +
           ",\"sg\":" + (et->getDecl()->getIntegerType()->isSignedIntegerType() ? "1" : "0");
    } else if (tp->isIntegerType()) {
      o += ",\"k\":\"int\",\"bits\":" + std::to_string(ctx.getTypeSize(u)) +
           ",\"sg\":" + (tp->isSignedIntegerType() ? "1" : "0");
    } else if (tp->isRealFloatingType()) {
      o += ",\"k\":\"float\",\"bits\":" + std::to_string(ctx.getTypeSize(u));
    } else if (tp->isVoidType()) o += ",\"k\":\"void\"";
    else if (tp->isNullPtrType()) o += ",\"k\":\"nullptr\"";
    else if (tp->isPointerType()) o += ",\"k\":\"ptr\",\"p\":" + std::to_string(type(tp->getPointeeType()));
    else if (tp->isLValueReferenceType()) o += ",\"k\":\"lref\",\"p\":" + std::to_string(type(tp->getPointeeType()));
    else if (tp->isRValueReferenceType()) o += ",\"k\":\"rref\",\"p\":" + std::to_string(type(tp->getPointeeType()));
    else if (auto* at = ctx.getAsConstantArrayType(u)) {
      o += ",\"k\":\"array\",\"p\":" + std::to_string(type(at->getElementType())) +
           ",\"len\":" + std::to_string(at->getSize().getZExtValue());
    } else if (auto* rd = tp->getAsCXXRecordDecl()) {
      o += ",\"k\":\"rec\",\"n\":" + q(rd->getQualifiedNameAsString()) +
           ",\"id\":" + std::to_string(id(rd));
      if (rd->isLambda()) o += ",\"lambda\":1";
      if (auto* s = dyn_cast<ClassTemplateSpecializationDecl>(rd))
        o += ",\"targs\":" + targs(&s->getTemplateArgs());
      if (auto* def = rd->getDefinition())
        if (inScope(def->getLocation())) dumpRecord(def);
    } else if (tp->isFunctionType()) o += ",\"k\":\"fn\"";
    else o += ",\"k\":\"other\"";
    o += "}";
    types[idx] = o;
    return idx * 2 + (isConst ? 1 : 0);
  }

  void dumpEnum(const EnumDecl* d) {
    if (!seenRec.insert(d->getCanonicalDecl()).second) return;
    if (!d->getDefinition()) return;
    d = d->getDefinition();
    std::string o = "{\"n\":" + q(d->getQualifiedNameAsString()) + ",\"vals\":{";
    bool first = true;
    if (d->isDependentType()) return;
    for (auto* e : d->enumerators()) {
      if (!first) o += ",";
      first = false;
      llvm::SmallString<32> s;
      e->getInitVal().toString(s, 10);
      o += q(e->getNameAsString()) + ":" + std::string(s.str());
    }
    enums.push_back(o + "}}");
  }

  void dumpRecord(const CXXRecordDecl* d) {
    if (!seenRec.insert(d->getCanonicalDecl()).second) return;
    if (d->isDependentContext()) return;
    size_t slot = records.size();
    records.push_back("");
    std::string o = "{\"id\":" + std::to_string(id(d)) + ",\"n\":" +
                    q(d->getQualifiedNameAsString()) + ",\"t\":" +
                    std::to_string(type(ctx.getRecordType(d))) + ",\"line\":" + q(loc(d->getLocation())) + ",\"bases\":[";
    bool first = true;
    for (auto& b : d->bases()) {
      if (!first) o += ",";
      first = false;
      o += std::to_string(type(b.getType()));
    }
    o += "],\"fields\":[";
    first = true;
    for (auto* f : d->fields()) {
      if (!first) o += ",";
      first = false;
      o += "{\"id\":" + std::to_string(id(f)) + ",\"n\":" + q(f->getNameAsString()) + ",\"t\":" + std::to_string(type(f->getType()));
      if (f->hasInClassInitializer() && f->getInClassInitializer())
        o += ",\"init\":" + expr(f->getInClassInitializer());
      o += "}";
    }
    o += "],\"methods\":[";
    first = true;
    for (auto* m : d->methods()) {
      if (!first) o += ",";
      first = false;
      o += "{\"id\":" + std::to_string(id(m)) + ",\"n\":" + q(m->getNameAsString()) +
           ",\"virt\":" + (m->isVirtual() ? "1" : "0") + ",\"over\":[";
      bool f2 = true;
      for (auto* ov : m->overridden_methods()) {
        if (!f2) o += ",";
        f2 = false;
        o += std::to_string(id(ov));
      }
      o += "]}";
      if (m->isVirtual()) need(m);
    }
    o += "]}";
    records[slot] = o;
  }

  void need(const FunctionDecl* f) {
    const FunctionDecl* def = nullptr;
    if (f->isDefined(def)) {
      if (inScope(def->getLocation())) queue.push_back(def);
    }
  }

  std::string fnref(const FunctionDecl* f) {
    need(f);
    std::string o = "{\"id\":" + std::to_string(id(f)) + ",\"n\":" + q(f->getNameAsString()) +
                    ",\"qn\":" + q(f->getQualifiedNameAsString());
    if (auto* ta = f->getTemplateSpecializationArgs()) o += ",\"targs\":" + targs(ta);
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      o += ",\"cls\":" + std::to_string(type(ctx.getRecordType(m->getParent())));
      if (m->isVirtual()) o += ",\"virt\":1";
      if (m->isStatic()) o += ",\"static\":1";
      if (m->isConst()) o += ",\"const\":1";
      if (m->isDefaulted() || m->isImplicit()) o += ",\"defaulted\":1";
      if (m->isCopyAssignmentOperator()) o += ",\"copyassign\":1";
      if (m->isMoveAssignmentOperator()) o += ",\"moveassign\":1";
    }
    if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
      if (c->isCopyConstructor()) o += ",\"copy\":1";
      if (c->isMoveConstructor()) o += ",\"move\":1";
      if (c->isDefaultConstructor()) o += ",\"default\":1";
      if (c->isTrivial()) o += ",\"trivial\":1";
    }
    o += ",\"pt\":[";
    bool first = true;
    for (auto* p : f->parameters()) {
      if (!first) o += ",";
      first = false;
      o += std::to_string(type(p->getType()));
    }
    return o + "]}";
  }

  std::string loc(SourceLocation l) {
    auto& sm = ctx.getSourceManager();
    l = sm.getExpansionLoc(l);
    std::string f = sm.getFilename(l).str();
    return f + ":" + std::to_string(sm.getSpellingLineNumber(l));
  }
  std::string line(SourceLocation l) {
    auto& sm = ctx.getSourceManager();
    l = sm.getExpansionLoc(l);
    return std::to_string(sm.getSpellingLineNumber(l));
  }

  std::string var(const VarDecl* v) {
    std::string o = "{\"id\":" + std::to_string(id(v)) + ",\"n\":" + q(v->getNameAsString()) +
                    ",\"t\":" + std::to_string(type(v->getType()));
    if (v->isStaticLocal()) o += ",\"static\":1";
    if (auto* i = v->getInit()) {
      o += ",\"init\":" + expr(i);
      if (v->getInitStyle() == VarDecl::ListInit) o += ",\"list\":1";
    }
    if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
      o += ",\"bindings\":[";
      bool first = true;
      for (auto* b : dd->bindings()) {
        if (!first) o += ",";
        first = false;
        o += "{\"id\":" + std::to_string(id(b)) + ",\"n\":" + q(b->getNameAsString());
        if (auto* hv = b->getHoldingVar()) o += ",\"hold\":" + var(hv);
        else if (b->getBinding()) o += ",\"e\":" + expr(b->getBinding());
        o += "}";
      }
      o += "]";
    }
    return o + "}";
  }

  std::string stmts(const char* k, llvm::ArrayRef<std::string> fs) {
    std::string o = std::string("{\"k\":") + q(k);
    for (auto& f : fs) o += "," + f;
    return o + "}";
  }
  std::string F(const char* n, std::string v) { return q(n) + ":" + v; }

  std::string stmt(const Stmt* s) {
    if (!s) return "null";
    std::string ln = ",\"l\":" + line(s->getBeginLoc());
    if (auto* e = dyn_cast<Expr>(s)) return "{\"k\":\"Expr\",\"e\":" + expr(e) + ln + "}";
    switch (s->getStmtClass()) {
      case Stmt::CompoundStmtClass: {
        std::string o = "{\"k\":\"Compound\",\"b\":[";
        bool first = true;
        for (auto* c : cast<CompoundStmt>(s)->body()) {
          if (!first) o += ",";
          first = false;
          o += stmt(c);
        }
        return o + "]}";
      }
      case Stmt::DeclStmtClass: {
        std::string o = "{\"k\":\"Decl\",\"vars\":[";
        bool first = true;
        for (auto* d : cast<DeclStmt>(s)->decls()) {
          if (auto* v = dyn_cast<VarDecl>(d)) {
            if (!first) o += ",";
            first = false;
            o += var(v);
          }
        }
        return o + "]" + ln + "}";
      }
      case Stmt::IfStmtClass: {
        auto* i = cast<IfStmt>(s);
        if (i->isConstexpr()) {
          // resolved at instantiation: discarded branch is dropped/null
          Expr::EvalResult r;
          bool v = false, ok = i->getCond()->EvaluateAsBooleanCondition(v, ctx);
          (void)r;
          if (ok) {
            const Stmt* b = v ? i->getThen() : i->getElse();
            if (!i->getInit()) return b ? stmt(b) : "{\"k\":\"Null\"}";
          }
        }
        std::string o = "{\"k\":\"If\"" + ln;
        if (i->getInit()) o += ",\"init\":" + stmt(i->getInit());
        if (i->getConditionVariableDeclStmt()) o += ",\"var\":" + stmt(i->getConditionVariableDeclStmt());
        o += ",\"c\":" + expr(i->getCond()) + ",\"t\":" + stmt(i->getThen()) + ",\"e\":" + stmt(i->getElse());
        return o + "}";
      }
      case Stmt::ForStmtClass: {
        auto* f = cast<ForStmt>(s);
        return "{\"k\":\"For\"" + ln + ",\"init\":" + stmt(f->getInit()) + ",\"c\":" +
               (f->getCond() ? expr(f->getCond()) : "null") + ",\"inc\":" +
               (f->getInc() ? expr(f->getInc()) : "null") + ",\"b\":" + stmt(f->getBody()) + "}";
      }
      case Stmt::WhileStmtClass: {
        auto* f = cast<WhileStmt>(s);
        std::string o = "{\"k\":\"While\"" + ln;
        if (f->getConditionVariableDeclStmt()) o += ",\"var\":" + stmt(f->getConditionVariableDeclStmt());
        return o + ",\"c\":" + expr(f->getCond()) + ",\"b\":" + stmt(f->getBody()) + "}";
      }
      case Stmt::DoStmtClass: {
        auto* f = cast<DoStmt>(s);
        return "{\"k\":\"Do\"" + ln + ",\"c\":" + expr(f->getCond()) + ",\"b\":" + stmt(f->getBody()) + "}";
      }
      case Stmt::CXXForRangeStmtClass: {
        auto* f = cast<CXXForRangeStmt>(s);
        return "{\"k\":\"RangeFor\"" + ln + ",\"init\":" + stmt(f->getInit()) + ",\"range\":" + stmt(f->getRangeStmt()) +
               ",\"begin\":" + stmt(f->getBeginStmt()) + ",\"end\":" + stmt(f->getEndStmt()) +
               ",\"c\":" + expr(f->getCond()) + ",\"inc\":" + expr(f->getInc()) +
               ",\"var\":" + stmt(f->getLoopVarStmt()) + ",\"b\":" + stmt(f->getBody()) + "}";
      }
      case Stmt::ReturnStmtClass: {
        auto* r = cast<ReturnStmt>(s);
        return "{\"k\":\"Return\"" + ln + ",\"e\":" + (r->getRetValue() ? expr(r->getRetValue()) : "null") + "}";
      }
      case Stmt::BreakStmtClass: return "{\"k\":\"Break\"}";
      case Stmt::ContinueStmtClass: return "{\"k\":\"Continue\"}";
      case Stmt::NullStmtClass: return "{\"k\":\"Null\"}";
      case Stmt::SwitchStmtClass: {
        auto* w = cast<SwitchStmt>(s);
        return "{\"k\":\"Switch\"" + ln + ",\"c\":" + expr(w->getCond()) + ",\"b\":" + stmt(w->getBody()) + "}";
      }
      case Stmt::CaseStmtClass: {
        auto* c = cast<CaseStmt>(s);
        return "{\"k\":\"Case\",\"v\":" + expr(c->getLHS()) + ",\"b\":" + stmt(c->getSubStmt()) + "}";
      }
      case Stmt::DefaultStmtClass:
        return "{\"k\":\"Default\",\"b\":" + stmt(cast<DefaultStmt>(s)->getSubStmt()) + "}";
      case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(s)->getSubStmt());
      case Stmt::CXXTryStmtClass: {
        auto* t = cast<CXXTryStmt>(s);
        std::string o = "{\"k\":\"Try\"" + ln + ",\"b\":" + stmt(t->getTryBlock()) + ",\"h\":[";
        for (unsigned i = 0; i < t->getNumHandlers(); ++i) {
          if (i) o += ",";
          o += stmt(t->getHandler(i)->getHandlerBlock());
        }
        return o + "]}";
      }
      case Stmt::LabelStmtClass: return stmt(cast<LabelStmt>(s)->getSubStmt());
      default:
        return "{\"k\":\"Unsupported\",\"cls\":" + q(s->getStmtClassName()) + ln + "}";
    }
  }

  std::string exprs(llvm::ArrayRef<const Expr*> es) {
    std::string o = "[";
    bool first = true;
    for (auto* e : es) {
      if (!first) o += ",";
      first = false;
      o += expr(e);
    }
    return o + "]";
  }
  template <typename R> std::string exprRange(R&& r) {
    std::string o = "[";
    bool first = true;
    for (auto* e : r) {
      if (!first) o += ",";
      first = false;
      o += expr(cast<Expr>(e));
    }
    return o + "]";
  }

  std::string constVal(const Expr* e) {
    if (e->isValueDependent() || e->isTypeDependent()) return "";
    QualType t = e->getType();
    if (!(t->isIntegralOrEnumerationType() || t->isRealFloatingType())) return "";
    Expr::EvalResult r;
    if (!e->EvaluateAsRValue(r, ctx) || r.HasSideEffects) return "";
    if (r.Val.isInt()) {
      llvm::SmallString<32> s;
      r.Val.getInt().toString(s, 10);
      return ",\"cv\":\"" + std::string(s.str()) + "\"";
    }
    if (r.Val.isFloat()) {
      auto f = r.Val.getFloat();
      if (f.isInfinity()) return std::string(",\"cf\":\"") + (f.isNegative() ? "-inf" : "inf") + "\"";
      if (f.isNaN()) return ",\"cf\":\"nan\"";
      return ",\"cf\":\"" + fstr(f) + "\"";
    }
    return "";
  }
  std::string fstr(const llvm::APFloat& f) {
    char buf[128];
    llvm::APFloat g = f;
    bool loses;
    g.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &loses);
    snprintf(buf, sizeof buf, "%.17g", g.convertToDouble());
    return buf;
  }

  std::string expr(const Expr* e) {
    if (!e) return "null";
    while (true) {
      if (auto* x = dyn_cast<ParenExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<ExprWithCleanups>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = x->getReplacement();
      else if (auto* x = dyn_cast<ConstantExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e)) e = x->getSemanticForm();
      else break;
    }
    std::string h = ",\"t\":" + std::to_string(type(e->getType())) + ",\"l\":" + line(e->getBeginLoc());
    if (e->isLValue()) h += ",\"lv\":1";
    else if (e->isXValue()) h += ",\"xv\":1";
    switch (e->getStmtClass()) {
      case Stmt::IntegerLiteralClass: {
        llvm::SmallString<32> s;
        cast<IntegerLiteral>(e)->getValue().toString(s, 10, false);
        return "{\"k\":\"Int\",\"v\":\"" + std::string(s.str()) + "\"" + h + "}";
      }
      case Stmt::CharacterLiteralClass:
        return "{\"k\":\"Int\",\"v\":\"" + std::to_string(cast<CharacterLiteral>(e)->getValue()) + "\"" + h + "}";
      case Stmt::FloatingLiteralClass:
        return "{\"k\":\"Float\",\"v\":\"" + fstr(cast<FloatingLiteral>(e)->getValue()) + "\"" + h + "}";
      case Stmt::CXXBoolLiteralExprClass:
        return std::string("{\"k\":\"Bool\",\"v\":") + (cast<CXXBoolLiteralExpr>(e)->getValue() ? "1" : "0") + h + "}";
      case Stmt::StringLiteralClass:
        return "{\"k\":\"Str\",\"v\":" + (cast<StringLiteral>(e)->getCharByteWidth() == 1 ? q(cast<StringLiteral>(e)->getString()) : q("?")) + h + "}";
      case Stmt::CXXNullPtrLiteralExprClass: return "{\"k\":\"Nullptr\"" + h + "}";
      case Stmt::CXXThisExprClass: return "{\"k\":\"This\"" + h + "}";
      case Stmt::DeclRefExprClass: {
        auto* d = cast<DeclRefExpr>(e);
        auto* vd = d->getDecl();
        std::string o = "{\"k\":\"Ref\",\"d\":" + std::to_string(id(vd)) + ",\"n\":" + q(vd->getNameAsString());
        if (auto* fd = dyn_cast<FunctionDecl>(vd)) o += ",\"fn\":" + fnref(fd);
        else if (isa<EnumConstantDecl>(vd)) {
          o += ",\"ec\":1";
          o += constVal(e);
        } else if (auto* v = dyn_cast<VarDecl>(vd)) {
          if (v->hasGlobalStorage() && !v->isStaticLocal()) {
            o += ",\"glob\":" + q(v->getQualifiedNameAsString());
            o += constVal(e);
            if (inScope(v->getLocation()) && seenGlobal.insert(v->getCanonicalDecl()).second) {
              size_t slot = globals.size();
              globals.push_back("");
              const VarDecl* def = v->getDefinition(); if (!def) def = v;
              std::string g = var(def);
              globals[slot] = g;
            }
          }
        }
        if (d->refersToEnclosingVariableOrCapture()) o += ",\"cap\":1";
        return o + h + "}";
      }
      case Stmt::MemberExprClass: {
        auto* m = cast<MemberExpr>(e);
        auto* md = m->getMemberDecl();
        std::string o = "{\"k\":\"Member\",\"b\":" + expr(m->getBase()) + ",\"m\":" + q(md->getNameAsString()) +
                        ",\"d\":" + std::to_string(id(md)) + (m->isArrow() ? ",\"arrow\":1" : "");
        if (auto* fd = dyn_cast<FunctionDecl>(md)) o += ",\"fn\":" + fnref(fd);
        else if (isa<VarDecl>(md)) o += ",\"static\":1" + constVal(e);
        return o + h + "}";
      }
      case Stmt::ArraySubscriptExprClass: {
        auto* a = cast<ArraySubscriptExpr>(e);
        return "{\"k\":\"Sub\",\"b\":" + expr(a->getBase()) + ",\"i\":" + expr(a->getIdx()) + h + "}";
      }
      case Stmt::ImplicitCastExprClass:
      case Stmt::CXXStaticCastExprClass:
      case Stmt::CXXFunctionalCastExprClass:
      case Stmt::CStyleCastExprClass:
      case Stmt::CXXConstCastExprClass:
      case Stmt::CXXReinterpretCastExprClass:
      case Stmt::CXXDynamicCastExprClass: {
        auto* c = cast<CastExpr>(e);
        return std::string("{\"k\":\"Cast\",\"ck\":") + q(c->getCastKindName()) + ",\"e\":" + expr(c->getSubExpr()) +
               (isa<ImplicitCastExpr>(e) ? ",\"imp\":1" : "") + h + "}";
      }
      case Stmt::UnaryOperatorClass: {
        auto* u = cast<UnaryOperator>(e);
        return "{\"k\":\"Un\",\"op\":" + q(UnaryOperator::getOpcodeStr(u->getOpcode())) + (u->isPostfix() ? ",\"post\":1" : "") +
               ",\"e\":" + expr(u->getSubExpr()) + h + "}";
      }
      case Stmt::BinaryOperatorClass: {
        auto* b = cast<BinaryOperator>(e);
        return "{\"k\":\"Bin\",\"op\":" + q(b->getOpcodeStr()) + ",\"a\":" + expr(b->getLHS()) + ",\"b\":" + expr(b->getRHS()) + h + "}";
      }
      case Stmt::CompoundAssignOperatorClass: {
        auto* b = cast<CompoundAssignOperator>(e);
        return "{\"k\":\"CAssign\",\"op\":" + q(b->getOpcodeStr()) + ",\"ct\":" + std::to_string(type(b->getComputationResultType())) +
               ",\"a\":" + expr(b->getLHS()) + ",\"b\":" + expr(b->getRHS()) + h + "}";
      }
      case Stmt::ConditionalOperatorClass: {
        auto* c = cast<ConditionalOperator>(e);
        return "{\"k\":\"Cond\",\"c\":" + expr(c->getCond()) + ",\"a\":" + expr(c->getTrueExpr()) + ",\"b\":" + expr(c->getFalseExpr()) + h + "}";
      }
      case Stmt::CXXMemberCallExprClass: {
        auto* c = cast<CXXMemberCallExpr>(e);
        auto* md = c->getMethodDecl();
        std::string o = "{\"k\":\"MCall\",\"o\":" + (c->getImplicitObjectArgument() ? expr(c->getImplicitObjectArgument()) : std::string("null"));
        if (auto* me = dyn_cast<MemberExpr>(c->getCallee()->IgnoreParens())) { if (me->isArrow()) o += ",\"arrow\":1"; if (me->hasQualifier()) o += ",\"qual\":1"; }
        if (md) o += ",\"fn\":" + fnref(md);
        o += ",\"args\":" + exprRange(c->arguments());
        return o + h + "}";
      }
      case Stmt::CXXOperatorCallExprClass: {
        auto* c = cast<CXXOperatorCallExpr>(e);
        std::string o = "{\"k\":\"OCall\",\"op\":" + q(getOperatorSpelling(c->getOperator()));
        if (auto* fd = c->getDirectCallee()) o += ",\"fn\":" + fnref(fd);
        o += ",\"args\":" + exprRange(c->arguments());
        return o + h + "}";
      }
      case Stmt::UserDefinedLiteralClass:
      case Stmt::CallExprClass: {
        auto* c = cast<CallExpr>(e);
        std::string o = "{\"k\":\"Call\"";
        if (auto* fd = c->getDirectCallee()) o += ",\"fn\":" + fnref(fd);
        else o += ",\"callee\":" + expr(c->getCallee());
        if (c->getNumArgs() == 0 ) o += constVal(e);
        o += ",\"args\":" + exprRange(c->arguments());
        return o + h + "}";
      }
      case Stmt::CXXTemporaryObjectExprClass:
      case Stmt::CXXConstructExprClass: {
        auto* c = cast<CXXConstructExpr>(e);
        std::string o = "{\"k\":\"Ctor\",\"fn\":" + fnref(c->getConstructor()) + ",\"args\":" + exprRange(c->arguments());
        if (c->isListInitialization()) o += ",\"list\":1";
        if (c->isStdInitListInitialization()) o += ",\"il\":1";
        return o + h + "}";
      }
      case Stmt::CXXInheritedCtorInitExprClass: {
        auto* c = cast<CXXInheritedCtorInitExpr>(e);
        return "{\"k\":\"InhCtor\",\"fn\":" + fnref(c->getConstructor()) + h + "}";
      }
      case Stmt::MaterializeTemporaryExprClass:
        return "{\"k\":\"Mat\",\"e\":" + expr(cast<MaterializeTemporaryExpr>(e)->getSubExpr()) + h + "}";
      case Stmt::CXXDefaultArgExprClass:
        return expr(cast<CXXDefaultArgExpr>(e)->getExpr());
      case Stmt::CXXDefaultInitExprClass:
        return "{\"k\":\"DefInit\",\"e\":" + expr(cast<CXXDefaultInitExpr>(e)->getExpr()) + h + "}";
      case Stmt::InitListExprClass: {
        auto* i = cast<InitListExpr>(e);
        if (i->isTransparent() && i->getNumInits() == 1) return expr(i->getInit(0));
        std::string o = "{\"k\":\"InitList\",\"args\":" + exprRange(i->inits());
        if (i->hasArrayFiller() && i->getArrayFiller()) o += ",\"fill\":" + expr(i->getArrayFiller());
        return o + h + "}";
      }
      case Stmt::CXXStdInitializerListExprClass:
        return "{\"k\":\"StdIL\",\"e\":" + expr(cast<CXXStdInitializerListExpr>(e)->getSubExpr()) + h + "}";
      case Stmt::CXXScalarValueInitExprClass:
      case Stmt::ImplicitValueInitExprClass:
        return "{\"k\":\"ValInit\"" + h + "}";
      case Stmt::LambdaExprClass: {
        auto* l = cast<LambdaExpr>(e);
        std::string o = "{\"k\":\"Lambda\",\"caps\":[";
        bool first = true;
        auto ci = l->capture_init_begin();
        auto fi = l->getLambdaClass()->field_begin();
        for (auto& c : l->captures()) {
          if (!first) o += ",";
          first = false;
          o += "{";
          if (c.capturesThis()) o += "\"this\":1";
          else if (c.capturesVariable()) {
            o += "\"d\":" + std::to_string(id(c.getCapturedVar())) + ",\"n\":" + q(c.getCapturedVar()->getNameAsString());
            if (auto* vv = dyn_cast<VarDecl>(c.getCapturedVar()); vv && vv->isInitCapture()) o += ",\"ic\":1";
          }
          o += std::string(",\"ref\":") + (c.getCaptureKind() == LCK_ByRef || c.getCaptureKind() == LCK_This ? "1" : "0");
          if (*ci) o += ",\"init\":" + expr(*ci);
          o += "}";
          ++ci;
          ++fi;
        }
        o += "]";
        auto* op = l->getCallOperator();
        if (l->isGenericLambda()) {
          o += ",\"generic\":1,\"inst\":[";
          bool f2 = true;
          if (auto* ft = l->getDependentCallOperator())
            for (auto* sp : ft->specializations()) {
              if (!f2) o += ",";
              f2 = false;
              o += fnref(sp);
            }
          o += "]";
        } else o += ",\"fn\":" + fnref(op);
        return o + h + "}";
      }
      case Stmt::CXXNewExprClass: {
        auto* n = cast<CXXNewExpr>(e);
        std::string o = "{\"k\":\"New\",\"at\":" + std::to_string(type(n->getAllocatedType()));
        if (n->getInitializer()) o += ",\"init\":" + expr(n->getInitializer());
        if (n->isArray() && n->getArraySize()) o += ",\"size\":" + expr(*n->getArraySize());
        o += ",\"place\":" + exprRange(n->placement_arguments());
        return o + h + "}";
      }
      case Stmt::CXXDeleteExprClass:
        return "{\"k\":\"Delete\",\"e\":" + expr(cast<CXXDeleteExpr>(e)->getArgument()) + h + "}";
      case Stmt::CXXThrowExprClass:
        return "{\"k\":\"Throw\"" + h + "}";
      case Stmt::UnaryExprOrTypeTraitExprClass:
      case Stmt::TypeTraitExprClass:
      case Stmt::CXXNoexceptExprClass:
      case Stmt::RequiresExprClass:
      case Stmt::ConceptSpecializationExprClass:
      case Stmt::SizeOfPackExprClass:
        return "{\"k\":\"Const\"" + constVal(e) + h + "}";
      case Stmt::CXXPseudoDestructorExprClass: return "{\"k\":\"PseudoDtor\"" + h + "}";
      case Stmt::CXXFoldExprClass:
      default: {
        std::string cv = constVal(e);
        if (!cv.empty()) return "{\"k\":\"Const\"" + cv + h + "}";
        std::string o = "{\"k\":\"Unsupported\",\"cls\":" + q(e->getStmtClassName()) + h + ",\"ch\":[";
        return o + "]}";
      }
    }
  }

  void dumpFn(const FunctionDecl* f) {
    const FunctionDecl* def = nullptr;
    if (!f->isDefined(def) || !def) return;
    f = def;
    if (!seenFn.insert(f->getCanonicalDecl()).second) return;
    if (f->isDependentContext() || f->getTemplatedKind() == FunctionDecl::TK_FunctionTemplate) return;
    std::string ref = fnref(f);
    std::string o = "{\"fn\":" + ref;
    std::string kind = "function";
    if (isa<CXXConstructorDecl>(f)) kind = "ctor";
    else if (isa<CXXDestructorDecl>(f)) kind = "dtor";
    else if (isa<CXXConversionDecl>(f)) kind = "conv";
    else if (isa<CXXMethodDecl>(f)) kind = "method";
    o += ",\"kind\":" + q(kind) + ",\"ret\":" + std::to_string(type(f->getReturnType()));
    o += ",\"loc\":" + q(loc(f->getLocation())) + ",\"endl\":" + line(f->getEndLoc());
    o += ",\"params\":[";
    bool first = true;
    for (auto* p : f->parameters()) {
      if (!first) o += ",";
      first = false;
      o += "{\"id\":" + std::to_string(id(p)) + ",\"n\":" + q(p->getNameAsString()) + ",\"t\":" + std::to_string(type(p->getType())) + "}";
    }
    o += "]";
    if (f->isDefaulted() || f->isImplicit()) o += ",\"defaulted\":1";
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      if (m->getParent()->isLambda()) {
        o += ",\"lambda\":1";
      }
      if (m->getParent() && inScope(m->getParent()->getLocation()) && m->getParent()->getDefinition()) dumpRecord(m->getParent()->getDefinition());
    }
    if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
      o += ",\"inits\":[";
      first = true;
      for (auto* i : c->inits()) {
        if (!first) o += ",";
        first = false;
        o += "{";
        if (i->isBaseInitializer()) o += "\"base\":" + std::to_string(type(QualType(i->getBaseClass(), 0)));
        else if (i->isDelegatingInitializer()) o += "\"deleg\":1";
        else if (i->isAnyMemberInitializer()) o += "\"field\":" + q(i->getAnyMember()->getNameAsString()) + ",\"fid\":" + std::to_string(id(i->getAnyMember())) + ",\"ft\":" + std::to_string(type(i->getAnyMember()->getType()));
        o += ",\"e\":" + expr(i->getInit()) + (i->isWritten() ? ",\"w\":1" : "") + "}";
      }
      o += "]";
    }
    if (f->getBody()) o += ",\"body\":" + stmt(f->getBody());
    else o += ",\"body\":null";
    o += "}";
    functions.push_back(o);
  }
};

struct Finder : RecursiveASTVisitor<Finder> {
  Dumper& d;
  explicit Finder(Dumper& d) : d(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }
  bool VisitFunctionDecl(FunctionDecl* f) {
    if (f->isThisDeclarationADefinition() && !f->isDependentContext() && d.inScope(f->getLocation()))
      d.queue.push_back(f);
    return true;
  }
};

struct Consumer : ASTConsumer {
  CompilerInstance& ci;
  explicit Consumer(CompilerInstance& c) : ci(c) {}
  void HandleTranslationUnit(ASTContext& c) override {
    if (ci.getDiagnostics().hasErrorOccurred()) return;
    Dumper d(c);
    Finder f(d);
    f.TraverseDecl(c.getTranslationUnitDecl());
    while (!d.queue.empty()) {
      auto q2 = std::move(d.queue);
      d.queue.clear();
      for (auto* fn : q2) d.dumpFn(fn);
    }
    std::ofstream os(g_out);
    auto list = [&](const char* n, std::vector<std::string>& v) {
      os << "\"" << n << "\":[\n";
      for (size_t i = 0; i < v.size(); ++i) os << (i ? ",\n" : "") << (v[i].empty() ? "null" : v[i]);
      os << "\n]";
    };
    os << "{";
    list("functions", d.functions);
    os << ",";
    list("records", d.records);
    os << ",";
    list("enums", d.enums);
    os << ",";
    list("globals", d.globals);
    os << ",";
    list("types", d.types);
    os << "}\n";
  }
};
struct Action : PluginASTAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, llvm::StringRef) override {
    return std::make_unique<Consumer>(ci);
  }
  bool ParseArgs(const CompilerInstance&, const std::vector<std::string>& a) override {
    for (auto& s : a) {
      if (s.rfind("out=", 0) == 0) g_out = s.substr(4);
      else if (s.rfind("prefix=", 0) == 0) g_prefixes.push_back(s.substr(7));
    }
    return true;
  }
  ActionType getActionType() override { return ReplaceAction; }
};
}  // namespace
static FrontendPluginRegistry::Add<Action> X("slpdump", "dump slp ASTs");
