// sxdump: dumps the resolved program (clang AST after overload resolution and template instantiation) of one
// translation unit of the analysed tree as JSON.  It extracts facts only; it decides nothing.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendActions.h>
#include <clang/Index/USRGeneration.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <set>
#include <unordered_map>

using namespace clang;
namespace json = llvm::json;

static std::string g_out;
static std::vector<std::string> g_roots;
static int g_errors = 0;

namespace {

class Dumper {
public:
  Dumper(ASTContext& ctx, llvm::raw_ostream& os) : C(ctx), SM(ctx.getSourceManager()), J(os), PP(ctx.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressUnwrittenScope = true;
  }

  ASTContext&    C;
  SourceManager& SM;
  json::OStream  J;
  PrintingPolicy PP;
  std::unordered_map<std::string, int> types;
  std::vector<std::string>             type_list;
  std::unordered_map<const Decl*, int> ids;
  int                                  next_id = 1;

  int id(const Decl* d) {
    d = d->getCanonicalDecl();
    auto it = ids.find(d);
    if (it != ids.end()) return it->second;
    return ids[d] = next_id++;
  }

  int type(QualType t) {
    if (t.isNull()) return -1;
    std::string s = t.getCanonicalType().getAsString(PP);
    auto        it = types.find(s);
    if (it != types.end()) return it->second;
    int n    = type_list.size();
    types[s] = n;
    type_list.push_back(s);
    return n;
  }

  std::string file(SourceLocation l) {
    l = SM.getExpansionLoc(l);
    auto p = SM.getPresumedLoc(l, false);
    return p.isValid() ? std::string(p.getFilename()) : std::string();
  }
  int line(SourceLocation l) {
    l = SM.getExpansionLoc(l);
    return SM.getExpansionLineNumber(l);
  }
  static std::string norm(const std::string& f) {
    llvm::SmallString<256> p(f);
    llvm::sys::path::remove_dots(p, true);
    return std::string(p.str());
  }
  bool inRoot(SourceLocation l) {
    std::string f = norm(file(l));
    for (auto& r : g_roots)
      if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }

  std::string usr(const Decl* d) {
    llvm::SmallString<256> b;
    if (index::generateUSRForDecl(d, b)) return "";
    return std::string(b.str());
  }
  std::string qn(const NamedDecl* d) { return d->getQualifiedNameAsString(); }

  std::string targs(const CXXRecordDecl* r) {
    if (auto* s = dyn_cast_or_null<ClassTemplateSpecializationDecl>(r)) {
      std::string              o;
      llvm::raw_string_ostream os(o);
      printTemplateArgumentList(os, s->getTemplateArgs().asArray(), PP);
      return os.str();
    }
    return "";
  }

  void attrType(QualType t) { J.attribute("t", type(t)); }

  void exprAttr(const char* k, const Stmt* s) {
    J.attributeBegin(k);
    stmt(s);
    J.attributeEnd();
  }
  template <typename R> void listAttr(const char* k, R&& range) {
    J.attributeBegin(k);
    J.arrayBegin();
    for (const Stmt* s : range) stmt(s);
    J.arrayEnd();
    J.attributeEnd();
  }

  static const Expr* strip(const Expr* e) {
    for (;;) {
      if (auto* p = dyn_cast<ParenExpr>(e)) { e = p->getSubExpr(); continue; }
      if (auto* p = dyn_cast<ExprWithCleanups>(e)) { e = p->getSubExpr(); continue; }
      if (auto* p = dyn_cast<MaterializeTemporaryExpr>(e)) { e = p->getSubExpr(); continue; }
      if (auto* p = dyn_cast<CXXBindTemporaryExpr>(e)) { e = p->getSubExpr(); continue; }
      if (auto* p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = p->getReplacement(); continue; }
      if (auto* p = dyn_cast<ConstantExpr>(e)) { e = p->getSubExpr(); continue; }
      if (auto* p = dyn_cast<CXXDefaultArgExpr>(e)) { e = p->getExpr(); continue; }
      if (auto* p = dyn_cast<CXXDefaultInitExpr>(e)) { e = p->getExpr(); continue; }
      if (auto* p = dyn_cast<CXXStdInitializerListExpr>(e)) { e = p->getSubExpr(); continue; }
      if (auto* p = dyn_cast<CXXRewrittenBinaryOperator>(e)) { e = p->getSemanticForm(); continue; }
      if (auto* p = dyn_cast<ImplicitCastExpr>(e)) {
        switch (p->getCastKind()) {
          case CK_FloatingToIntegral:
          case CK_IntegralCast:
          case CK_IntegralToFloating:
          case CK_FloatingCast:
          case CK_IntegralToBoolean:
          case CK_FloatingToBoolean:
          case CK_PointerToBoolean:
            return e;
          default:
            e = p->getSubExpr();
            continue;
        }
      }
      if (auto* ctor = dyn_cast<CXXConstructExpr>(e)) {
        // elidable copies/moves of temporaries are not program actions
        if (ctor->isElidable() && ctor->getNumArgs() >= 1 && isa<CXXConstructExpr>(e) && !isa<CXXTemporaryObjectExpr>(e)) {
          e = ctor->getArg(0);
          continue;
        }
      }
      return e;
    }
  }

  void declRef(const ValueDecl* d, SourceLocation l) {
    J.attribute("l", line(l));
    J.attribute("n", d->getNameAsString());
    J.attribute("id", id(d));
    attrType(d->getType());
    if (auto* v = dyn_cast<ParmVarDecl>(d)) { (void)v; J.attribute("dk", "parm"); }
    else if (auto* v = dyn_cast<VarDecl>(d)) {
      if (v->isLocalVarDecl() && !v->isStaticLocal()) J.attribute("dk", "var");
      else { J.attribute("dk", v->isStaticLocal() ? "slocal" : "global"); J.attribute("q", qn(v)); }
      if (v->getType().isConstQualified() && v->hasInit() && v->getType()->isIntegralOrEnumerationType() && !v->getInit()->isValueDependent()) {
        if (auto* val = v->evaluateValue())
          if (val->isInt()) J.attribute("cv", (int64_t)val->getInt().getExtValue());
      }
    } else if (auto* f = dyn_cast<FunctionDecl>(d)) { J.attribute("dk", "func"); J.attribute("q", qn(f)); J.attribute("key", usr(f)); }
    else if (auto* e = dyn_cast<EnumConstantDecl>(d)) { J.attribute("dk", "enumc"); J.attribute("q", qn(e)); J.attribute("v", (int64_t)e->getInitVal().getExtValue()); }
    else if (auto* b = dyn_cast<BindingDecl>(d)) {
      J.attribute("dk", "binding");
      (void)b;
    } else if (isa<FieldDecl>(d)) { J.attribute("dk", "field"); J.attribute("q", qn(d)); }
    else J.attribute("dk", d->getDeclKindName());
  }

  void callee(const FunctionDecl* f) {
    if (!f) return;
    J.attribute("n", f->getNameAsString());
    J.attribute("q", qn(f));
    J.attribute("key", usr(f));
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      if (m->isVirtual()) J.attribute("virt", true);
      if (m->isConst()) J.attribute("cst", true);
      if (m->isStatic()) J.attribute("stat", true);
      std::string ta = targs(m->getParent());
      if (!ta.empty()) J.attribute("cta", ta);
    }
    if (auto* a = f->getTemplateSpecializationArgs()) {
      std::string              o;
      llvm::raw_string_ostream os(o);
      printTemplateArgumentList(os, a->asArray(), PP);
      J.attribute("ta", os.str());
    }
    // which parameters are passed by non-const reference / pointer (effect information)
    std::string r;
    for (auto* p : f->parameters()) {
      QualType t = p->getType();
      if (t->isLValueReferenceType() && !t->getPointeeType().isConstQualified()) r += 'r';
      else if (t->isRValueReferenceType()) r += 'm';
      else if (t->isLValueReferenceType()) r += 'c';
      else if (t->isPointerType() && !t->getPointeeType().isConstQualified()) r += 'p';
      else r += 'v';
    }
    if (!r.empty()) J.attribute("pm", r);
  }

  void varDecl(const VarDecl* v) {
    J.objectBegin();
    J.attribute("n", v->getNameAsString());
    J.attribute("id", id(v));
    J.attribute("l", line(v->getLocation()));
    attrType(v->getType());
    if (v->isStaticLocal()) J.attribute("static", true);
    if (v->getTSCSpec() != TSCS_unspecified) J.attribute("tls", true);
    if (v->hasInit() && v->getInit()) {
      exprAttr("init", v->getInit());
      if (v->getInitStyle() == VarDecl::CallInit) J.attribute("is", "call");
      else if (v->getInitStyle() == VarDecl::ListInit) J.attribute("is", "list");
    }
    if (auto* d = dyn_cast<DecompositionDecl>(v)) {
      J.attributeBegin("binds");
      J.arrayBegin();
      for (auto* b : d->bindings()) {
        J.objectBegin();
        J.attribute("n", b->getNameAsString());
        J.attribute("id", id(b));
        attrType(b->getType());
        J.objectEnd();
      }
      J.arrayEnd();
      J.attributeEnd();
    }
    J.objectEnd();
  }

  void params(const FunctionDecl* f) {
    J.attributeBegin("params");
    J.arrayBegin();
    for (auto* p : f->parameters()) {
      J.objectBegin();
      J.attribute("n", p->getNameAsString());
      J.attribute("id", id(p));
      attrType(p->getType());
      if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) exprAttr("def", p->getDefaultArg());
      J.objectEnd();
    }
    J.arrayEnd();
    J.attributeEnd();
  }

  void stmt(const Stmt* s) {
    if (!s) { J.value(nullptr); return; }
    if (auto* e = dyn_cast<Expr>(s)) s = strip(e);
    J.objectBegin();
    stmtBody(s);
    J.objectEnd();
  }

  void kind(const char* k) { J.attribute("k", k); }

  void stmtBody(const Stmt* s) {
    SourceLocation L = s->getBeginLoc();
    auto ln = [&] { J.attribute("l", line(L)); };
    // ---------- statements
    if (auto* x = dyn_cast<CompoundStmt>(s)) { kind("block"); ln(); J.attribute("e", line(x->getRBracLoc())); listAttr("s", x->body()); return; }
    if (isa<NullStmt>(s)) { kind("nop"); return; }
    if (auto* x = dyn_cast<IfStmt>(s)) {
      kind("if"); ln();
      if (x->isConstexpr()) J.attribute("constexpr", true);
      if (x->getInit()) exprAttr("init", x->getInit());
      if (x->getConditionVariableDeclStmt()) exprAttr("cv", x->getConditionVariableDeclStmt());
      exprAttr("c", x->getCond());
      exprAttr("a", x->getThen());
      exprAttr("b", x->getElse());
      return;
    }
    if (auto* x = dyn_cast<ForStmt>(s)) {
      kind("for"); ln();
      exprAttr("init", x->getInit());
      if (x->getConditionVariableDeclStmt()) exprAttr("cv", x->getConditionVariableDeclStmt());
      exprAttr("c", x->getCond());
      exprAttr("inc", x->getInc());
      exprAttr("b", x->getBody());
      return;
    }
    if (auto* x = dyn_cast<WhileStmt>(s)) {
      kind("while"); ln();
      if (x->getConditionVariableDeclStmt()) exprAttr("cv", x->getConditionVariableDeclStmt());
      exprAttr("c", x->getCond()); exprAttr("b", x->getBody());
      return;
    }
    if (auto* x = dyn_cast<DoStmt>(s)) { kind("do"); ln(); exprAttr("b", x->getBody()); exprAttr("c", x->getCond()); return; }
    if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
      kind("rfor"); ln();
      if (x->getInit()) exprAttr("init", x->getInit());
      J.attributeBegin("var"); varDecl(x->getLoopVariable()); J.attributeEnd();
      exprAttr("range", x->getRangeInit());
      exprAttr("b", x->getBody());
      return;
    }
    if (auto* x = dyn_cast<ReturnStmt>(s)) { kind("ret"); ln(); exprAttr("e", x->getRetValue()); return; }
    if (isa<BreakStmt>(s)) { kind("break"); ln(); return; }
    if (isa<ContinueStmt>(s)) { kind("cont"); ln(); return; }
    if (auto* x = dyn_cast<SwitchStmt>(s)) {
      kind("switch"); ln();
      if (x->getInit()) exprAttr("init", x->getInit());
      if (x->getConditionVariableDeclStmt()) exprAttr("cv", x->getConditionVariableDeclStmt());
      exprAttr("c", x->getCond()); exprAttr("b", x->getBody());
      return;
    }
    if (auto* x = dyn_cast<CaseStmt>(s)) { kind("case"); ln(); exprAttr("v", x->getLHS()); if (x->getRHS()) exprAttr("v2", x->getRHS()); exprAttr("s", x->getSubStmt()); return; }
    if (auto* x = dyn_cast<DefaultStmt>(s)) { kind("default"); ln(); exprAttr("s", x->getSubStmt()); return; }
    if (auto* x = dyn_cast<DeclStmt>(s)) {
      kind("decl"); ln();
      J.attributeBegin("vars"); J.arrayBegin();
      for (auto* d : x->decls()) if (auto* v = dyn_cast<VarDecl>(d)) varDecl(v);
      J.arrayEnd(); J.attributeEnd();
      return;
    }
    if (auto* x = dyn_cast<CXXTryStmt>(s)) {
      kind("try"); ln();
      exprAttr("b", x->getTryBlock());
      J.attributeBegin("catches"); J.arrayBegin();
      for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
        auto* h = x->getHandler(i);
        J.objectBegin();
        J.attribute("l", line(h->getBeginLoc()));
        if (h->getExceptionDecl()) { J.attributeBegin("var"); varDecl(h->getExceptionDecl()); J.attributeEnd(); }
        exprAttr("b", h->getHandlerBlock());
        J.objectEnd();
      }
      J.arrayEnd(); J.attributeEnd();
      return;
    }
    if (auto* x = dyn_cast<LabelStmt>(s)) { kind("label"); ln(); J.attribute("n", x->getName()); exprAttr("s", x->getSubStmt()); return; }
    if (auto* x = dyn_cast<GotoStmt>(s)) { kind("goto"); ln(); J.attribute("n", x->getLabel()->getNameAsString()); return; }
    if (auto* x = dyn_cast<AttributedStmt>(s)) { stmtBody(x->getSubStmt()); return; }
    // ---------- expressions
    if (auto* x = dyn_cast<IntegerLiteral>(s)) { kind("int"); J.attribute("v", x->getValue().getActiveBits() <= 63 ? (int64_t)x->getValue().getZExtValue() : (int64_t)-1); attrType(x->getType()); return; }
    if (auto* x = dyn_cast<FloatingLiteral>(s)) {
      kind("float");
      llvm::SmallString<32> b; x->getValue().toString(b, 17);
      J.attribute("v", std::string(b.str())); attrType(x->getType()); return;
    }
    if (auto* x = dyn_cast<CXXBoolLiteralExpr>(s)) { kind("bool"); J.attribute("v", x->getValue()); return; }
    if (auto* x = dyn_cast<StringLiteral>(s)) { kind("str"); J.attribute("v", x->isOrdinary() || x->isUTF8() ? json::fixUTF8(x->getString()) : std::string("?")); return; }
    if (auto* x = dyn_cast<CharacterLiteral>(s)) { kind("int"); J.attribute("v", (int64_t)x->getValue()); J.attribute("chr", true); attrType(x->getType()); return; }
    if (isa<CXXNullPtrLiteralExpr>(s) || isa<GNUNullExpr>(s)) { kind("null"); return; }
    if (auto* x = dyn_cast<DeclRefExpr>(s)) { kind("ref"); declRef(x->getDecl(), L); return; }
    if (isa<CXXThisExpr>(s)) { kind("this"); attrType(cast<Expr>(s)->getType()); return; }
    if (auto* x = dyn_cast<MemberExpr>(s)) {
      kind("mem"); J.attribute("l", line(x->getMemberLoc()));
      J.attribute("n", x->getMemberDecl()->getNameAsString());
      J.attribute("q", qn(x->getMemberDecl()));
      J.attribute("id", id(x->getMemberDecl()));
      if (isa<FieldDecl>(x->getMemberDecl())) J.attribute("dk", "field");
      else if (isa<CXXMethodDecl>(x->getMemberDecl())) { J.attribute("dk", "method"); J.attribute("key", usr(x->getMemberDecl())); }
      else if (auto* v = dyn_cast<VarDecl>(x->getMemberDecl())) { J.attribute("dk", "global"); (void)v; }
      if (x->isArrow()) J.attribute("arrow", true);
      attrType(x->getType());
      exprAttr("b", x->getBase());
      return;
    }
    if (auto* x = dyn_cast<CXXOperatorCallExpr>(s)) {
      kind("call"); J.attribute("l", line(x->getOperatorLoc()));
      auto* f = x->getDirectCallee();
      callee(f);
      J.attribute("op", getOperatorSpelling(x->getOperator()));
      attrType(x->getType());
      if (f && isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic()) {
        exprAttr("obj", x->getArg(0));
        std::vector<const Stmt*> a(x->arg_begin() + 1, x->arg_end());
        listAttr("args", a);
      } else {
        if (!f) exprAttr("fn", x->getCallee());
        std::vector<const Stmt*> a(x->arg_begin(), x->arg_end());
        listAttr("args", a);
      }
      return;
    }
    if (auto* x = dyn_cast<CXXMemberCallExpr>(s)) {
      kind("call");
      J.attribute("l", line(x->getExprLoc()));
      auto* f = x->getMethodDecl();
      callee(f);
      attrType(x->getType());
      const Expr* ce = x->getCallee()->IgnoreParens();
      if (auto* me = dyn_cast<MemberExpr>(ce)) {
        if (me->hasQualifier()) J.attribute("qual", true);
        if (me->isArrow()) J.attribute("arrow", true);
      }
      if (x->getImplicitObjectArgument()) exprAttr("obj", x->getImplicitObjectArgument());
      if (!f) exprAttr("fn", x->getCallee());
      std::vector<const Stmt*> a(x->arg_begin(), x->arg_end());
      listAttr("args", a);
      return;
    }
    if (auto* x = dyn_cast<CallExpr>(s)) {
      kind("call"); ln();
      auto* f = x->getDirectCallee();
      callee(f);
      attrType(x->getType());
      if (!f) exprAttr("fn", x->getCallee());
      std::vector<const Stmt*> a(x->arg_begin(), x->arg_end());
      listAttr("args", a);
      return;
    }
    if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(s)) {
      kind("ctor"); ln(); J.attribute("q", qn(x->getConstructor()->getParent())); J.attribute("key", usr(x->getConstructor())); attrType(x->getType());
      J.attributeBegin("args"); J.arrayBegin(); J.arrayEnd(); J.attributeEnd(); J.attribute("inherited", true); return;
    }
    if (auto* x = dyn_cast<CXXConstructExpr>(s)) {
      auto* c = x->getConstructor();
      kind("ctor"); ln();
      J.attribute("q", qn(c->getParent()));
      std::string ta = targs(c->getParent());
      if (!ta.empty()) J.attribute("cta", ta);
      J.attribute("key", usr(c));
      attrType(x->getType());
      if (c->isCopyConstructor()) J.attribute("ck", "copy");
      else if (c->isMoveConstructor()) J.attribute("ck", "move");
      else if (c->isDefaultConstructor()) J.attribute("ck", "default");
      if (x->isListInitialization()) J.attribute("list", true);
      std::vector<const Stmt*> a(x->arg_begin(), x->arg_end());
      listAttr("args", a);
      return;
    }
    if (auto* x = dyn_cast<UnaryOperator>(s)) {
      kind("un"); ln();
      J.attribute("op", UnaryOperator::getOpcodeStr(x->getOpcode()));
      if (x->isPostfix()) J.attribute("post", true);
      attrType(x->getType());
      exprAttr("e", x->getSubExpr());
      return;
    }
    if (auto* x = dyn_cast<BinaryOperator>(s)) {
      kind(x->isAssignmentOp() ? "asg" : "bin"); J.attribute("l", line(x->getOperatorLoc()));
      J.attribute("op", BinaryOperator::getOpcodeStr(x->getOpcode()));
      attrType(x->getType());
      if (auto* ca = dyn_cast<CompoundAssignOperator>(x)) J.attribute("ct", type(ca->getComputationResultType()));
      exprAttr("x", x->getLHS());
      exprAttr("y", x->getRHS());
      return;
    }
    if (auto* x = dyn_cast<ConditionalOperator>(s)) { kind("cond"); ln(); attrType(x->getType()); exprAttr("c", x->getCond()); exprAttr("a", x->getTrueExpr()); exprAttr("b", x->getFalseExpr()); return; }
    if (auto* x = dyn_cast<BinaryConditionalOperator>(s)) { kind("cond"); ln(); attrType(x->getType()); exprAttr("c", x->getCommon()); exprAttr("a", x->getCommon()); exprAttr("b", x->getFalseExpr()); return; }
    if (auto* x = dyn_cast<CastExpr>(s)) {
      kind("cast"); ln();
      J.attribute("ck", x->getCastKindName());
      if (isa<ExplicitCastExpr>(x)) {
        J.attribute("expl", true);
        J.attribute("cs", isa<CXXReinterpretCastExpr>(x) ? "reinterpret" : isa<CXXDynamicCastExpr>(x) ? "dynamic" : isa<CXXConstCastExpr>(x) ? "const" : isa<CXXStaticCastExpr>(x) ? "static" : isa<CXXFunctionalCastExpr>(x) ? "func" : "c");
      }
      attrType(x->getType());
      exprAttr("e", x->getSubExpr());
      return;
    }
    if (auto* x = dyn_cast<ArraySubscriptExpr>(s)) { kind("sub"); ln(); attrType(x->getType()); exprAttr("b", x->getBase()); exprAttr("i", x->getIdx()); return; }
    if (auto* x = dyn_cast<CXXNewExpr>(s)) {
      kind("new"); ln(); attrType(x->getAllocatedType());
      if (x->isArray()) { J.attribute("arr", true); if (auto sz = x->getArraySize()) exprAttr("n", *sz); }
      if (x->getInitializer()) exprAttr("init", x->getInitializer());
      if (x->getNumPlacementArgs()) J.attribute("placement", true);
      return;
    }
    if (auto* x = dyn_cast<CXXDeleteExpr>(s)) { kind("del"); ln(); if (x->isArrayForm()) J.attribute("arr", true); exprAttr("e", x->getArgument()); return; }
    if (auto* x = dyn_cast<LambdaExpr>(s)) {
      kind("lambda"); ln();
      auto* m = x->getCallOperator();
      J.attribute("key", usr(m));
      attrType(x->getType());
      if (x->isMutable()) J.attribute("mut", true);
      J.attributeBegin("caps"); J.arrayBegin();
      auto ie = x->capture_init_begin();
      for (auto& c : x->captures()) {
        J.objectBegin();
        if (c.capturesThis()) J.attribute("this", true);
        if (c.capturesVariable()) { J.attribute("n", c.getCapturedVar()->getNameAsString()); J.attribute("id", id(c.getCapturedVar())); attrType(c.getCapturedVar()->getType()); }
        J.attribute("ref", c.getCaptureKind() == LCK_ByRef || c.getCaptureKind() == LCK_This);
        if (x->isInitCapture(&c) && ie != x->capture_init_end() && *ie) exprAttr("init", *ie);
        J.objectEnd();
        ++ie;
      }
      J.arrayEnd(); J.attributeEnd();
      const FunctionDecl* f = m;
      bool gen = x->isGenericLambda();
      if (gen) {
        J.attribute("generic", true);
        if (auto* ft = m->getDescribedFunctionTemplate()) {
          // a single instantiation is representative
          for (auto* sp : ft->specializations()) if (sp->getBody()) { f = sp; break; }
        }
      }
      params(f);
      exprAttr("body", f->getBody());
      return;
    }
    if (auto* x = dyn_cast<InitListExpr>(s)) {
      if (x->isSemanticForm() == false && x->getSemanticForm()) x = x->getSemanticForm();
      kind("init"); ln(); attrType(x->getType());
      std::vector<const Stmt*> a(x->inits().begin(), x->inits().end());
      listAttr("e", a);
      if (x->hasArrayFiller()) exprAttr("fill", x->getArrayFiller());
      return;
    }
    if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) {
      kind("sizeof"); ln();
      J.attribute("of", type(x->getTypeOfArgument()));
      J.attribute("isexpr", !x->isArgumentType());
      Expr::EvalResult r;
      if (!x->isValueDependent() && x->EvaluateAsInt(r, C)) J.attribute("v", (int64_t)r.Val.getInt().getExtValue());
      return;
    }
    if (auto* x = dyn_cast<SizeOfPackExpr>(s)) {
      if (!x->isValueDependent()) { kind("int"); attrType(x->getType()); J.attribute("v", (int64_t)x->getPackLength()); return; }
      kind("unk"); ln(); J.attribute("c", "SizeOfPackExpr"); return;
    }
    if (auto* x = dyn_cast<CXXThrowExpr>(s)) { kind("throw"); ln(); if (x->getSubExpr()) exprAttr("e", x->getSubExpr()); return; }
    if (isa<ImplicitValueInitExpr>(s) || isa<CXXScalarValueInitExpr>(s)) { kind("zero"); attrType(cast<Expr>(s)->getType()); return; }
    if (auto* x = dyn_cast<CXXTypeidExpr>(s)) { kind("typeid"); ln(); if (x->isTypeOperand()) J.attribute("of", type(x->getTypeOperand(C))); else exprAttr("e", x->getExprOperand()); return; }
    if (auto* x = dyn_cast<ArrayInitLoopExpr>(s)) { kind("arrcopy"); ln(); exprAttr("e", x->getCommonExpr()->getSourceExpr()); return; }
    if (auto* x = dyn_cast<OpaqueValueExpr>(s)) { if (x->getSourceExpr()) { stmtBody(strip(x->getSourceExpr())); return; } }
    if (auto* x = dyn_cast<StmtExpr>(s)) { kind("stmtexpr"); ln(); exprAttr("b", x->getSubStmt()); return; }
    if (auto* x = dyn_cast<CXXNoexceptExpr>(s)) { kind("bool"); J.attribute("v", x->getValue()); return; }
    if (auto* x = dyn_cast<TypeTraitExpr>(s)) { kind("bool"); J.attribute("v", !x->isValueDependent() && x->getValue()); return; }
    if (auto* x = dyn_cast<PredefinedExpr>(s)) { kind("str"); J.attribute("v", x->getFunctionName() ? x->getFunctionName()->getString() : ""); return; }
    if (auto* x = dyn_cast<ParenListExpr>(s)) { kind("parenlist"); listAttr("e", x->children()); return; }
    // dependent or unusual
    kind("other"); ln();
    J.attribute("c", s->getStmtClassName());
    if (auto* e = dyn_cast<Expr>(s)) attrType(e->getType());
    if (auto* x = dyn_cast<CXXDependentScopeMemberExpr>(s)) J.attribute("n", x->getMember().getAsString());
    if (auto* x = dyn_cast<OverloadExpr>(s)) J.attribute("n", x->getName().getAsString());
    listAttr("ch", const_cast<Stmt*>(s)->children());
  }

  void function(const FunctionDecl* f) {
    J.objectBegin();
    J.attribute("key", usr(f));
    J.attribute("q", qn(f));
    J.attribute("n", f->getNameAsString());
    J.attribute("file", norm(file(f->getLocation())));
    J.attribute("l", line(f->getLocation()));
    J.attribute("e", line(f->getEndLoc()));
    J.attribute("ret", type(f->getReturnType()));
    if (f->isVariadic()) J.attribute("variadic", true);
    if (f->isTemplateInstantiation()) J.attribute("inst", true);
    if (f->isDependentContext()) J.attribute("dep", true);
    if (auto* a = f->getTemplateSpecializationArgs()) {
      std::string o; llvm::raw_string_ostream os(o);
      printTemplateArgumentList(os, a->asArray(), PP);
      J.attribute("ta", os.str());
    }
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      J.attribute("cls", qn(m->getParent()));
      std::string ta = targs(m->getParent());
      if (!ta.empty()) J.attribute("cta", ta);
      J.attribute("clskey", usr(m->getParent()));
      if (m->getParent()->isLambda()) J.attribute("lambda", true);
      if (m->isConst()) J.attribute("const", true);
      if (m->isStatic()) J.attribute("stat", true);
      if (m->isVirtual()) J.attribute("virt", true);
      J.attribute("acc", m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private");
      if (m->size_overridden_methods()) {
        J.attributeBegin("over"); J.arrayBegin();
        for (auto* o : m->overridden_methods()) J.value(usr(o));
        J.arrayEnd(); J.attributeEnd();
      }
    }
    if (f->isImplicit()) J.attribute("implicit", true);
    if (f->isDefaulted()) J.attribute("defaulted", true);
    if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
      J.attribute("fk", c->isCopyConstructor() ? "copyctor" : c->isMoveConstructor() ? "movector" : "ctor");
      if (c->isDelegatingConstructor()) J.attribute("deleg", true);
      J.attributeBegin("inits"); J.arrayBegin();
      for (auto* i : c->inits()) {
        J.objectBegin();
        if (i->isAnyMemberInitializer()) { J.attribute("field", i->getAnyMember()->getNameAsString()); J.attribute("id", id(i->getAnyMember())); }
        else if (i->isBaseInitializer()) J.attribute("base", type(QualType(i->getBaseClass(), 0)));
        else J.attribute("deleg", true);
        J.attribute("written", i->isWritten());
        if (i->getInit() && isa<CXXDefaultInitExpr>(i->getInit())) J.attribute("dflt", true);
        exprAttr("e", i->getInit());
        J.objectEnd();
      }
      J.arrayEnd(); J.attributeEnd();
    } else if (isa<CXXDestructorDecl>(f)) J.attribute("fk", "dtor");
    else if (isa<CXXConversionDecl>(f)) J.attribute("fk", "conv");
    else if (auto* m = dyn_cast<CXXMethodDecl>(f)) J.attribute("fk", m->isCopyAssignmentOperator() ? "copyassign" : m->isMoveAssignmentOperator() ? "moveassign" : "method");
    else J.attribute("fk", "func");
    params(f);
    exprAttr("body", f->getBody());
    J.objectEnd();
  }

  void record(const CXXRecordDecl* r) {
    J.objectBegin();
    J.attribute("key", usr(r));
    J.attribute("q", qn(r));
    J.attribute("t", type(C.getRecordType(r)));
    std::string ta = targs(r);
    if (!ta.empty()) J.attribute("cta", ta);
    J.attribute("file", norm(file(r->getLocation())));
    J.attribute("l", line(r->getLocation()));
    if (r->isDependentContext()) J.attribute("dep", true);
    if (r->isUnion()) J.attribute("union", true);
    if (r->isLambda()) J.attribute("lambda", true);
    if (r->isAbstract()) J.attribute("abstract", true);
    if (r->isAggregate()) J.attribute("aggregate", true);
    J.attributeBegin("bases"); J.arrayBegin();
    for (auto& b : r->bases()) {
      J.objectBegin();
      J.attribute("t", type(b.getType()));
      if (auto* br = b.getType()->getAsCXXRecordDecl()) { J.attribute("q", qn(br)); J.attribute("key", usr(br)); }
      J.objectEnd();
    }
    J.arrayEnd(); J.attributeEnd();
    J.attributeBegin("fields"); J.arrayBegin();
    for (auto* f : r->fields()) {
      J.objectBegin();
      J.attribute("n", f->getNameAsString());
      J.attribute("id", id(f));
      J.attribute("l", line(f->getLocation()));
      attrType(f->getType());
      if (f->isMutable()) J.attribute("mut", true);
      QualType ct = f->getType().getCanonicalType();
      const Type* el = ct.getTypePtr();
      while (auto* at = dyn_cast<ArrayType>(el)) el = at->getElementType().getCanonicalType().getTypePtr();
      J.attribute("tk", ct->isReferenceType() ? "ref" : el->isPointerType() ? "ptr" : el->isBooleanType() ? "bool" : el->isEnumeralType() ? "enum" : el->isIntegerType() ? "int" : el->isFloatingType() ? "float" : el->isRecordType() ? "rec" : "other");
      if (ct->isArrayType()) J.attribute("arr", true);
      if (auto* fr = el->getAsCXXRecordDecl()) {
        J.attribute("rq", qn(fr)); J.attribute("rkey", usr(fr));
        if (fr->hasDefinition() && fr->isAggregate()) J.attribute("agg", true);
        if (fr->hasDefinition()) J.attribute("tdc", fr->hasTrivialDefaultConstructor());
      }
      if (f->hasInClassInitializer() && f->getInClassInitializer()) exprAttr("init", f->getInClassInitializer());
      J.objectEnd();
    }
    J.arrayEnd(); J.attributeEnd();
    J.attributeBegin("methods"); J.arrayBegin();
    for (auto* m : r->methods()) {
      J.objectBegin();
      J.attribute("n", m->getNameAsString());
      J.attribute("key", usr(m));
      J.attribute("l", line(m->getLocation()));
      J.attribute("np", (int64_t)m->getNumParams());
      J.attribute("ret", type(m->getReturnType()));
      if (m->isImplicit()) J.attribute("implicit", true);
      if (m->isDefaulted()) J.attribute("defaulted", true);
      if (m->isDeleted()) J.attribute("deleted", true);
      if (m->isUserProvided()) J.attribute("user", true);
      if (m->isVirtual()) J.attribute("virt", true);
      if (m->isPureVirtual()) J.attribute("pure", true);
      if (m->isStatic()) J.attribute("stat", true);
      if (m->isConst()) J.attribute("const", true);
      J.attribute("acc", m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private");
      if (auto* c = dyn_cast<CXXConstructorDecl>(m)) J.attribute("fk", c->isCopyConstructor() ? "copyctor" : c->isMoveConstructor() ? "movector" : c->isDefaultConstructor() ? "dctor" : "ctor");
      else if (isa<CXXDestructorDecl>(m)) J.attribute("fk", "dtor");
      else if (isa<CXXConversionDecl>(m)) J.attribute("fk", "conv");
      else J.attribute("fk", m->isCopyAssignmentOperator() ? "copyassign" : m->isMoveAssignmentOperator() ? "moveassign" : "method");
      if (m->size_overridden_methods()) {
        J.attributeBegin("over"); J.arrayBegin();
        for (auto* o : m->overridden_methods()) J.value(usr(o));
        J.arrayEnd(); J.attributeEnd();
      }
      J.objectEnd();
    }
    J.arrayEnd(); J.attributeEnd();
    J.attribute("idc", r->needsImplicitDefaultConstructor());
    J.attribute("icc", r->needsImplicitCopyConstructor());
    J.attribute("imc", r->needsImplicitMoveConstructor());
    J.attribute("ica", r->needsImplicitCopyAssignment());
    J.attribute("ima", r->needsImplicitMoveAssignment());
    J.objectEnd();
  }
};

class Collector : public RecursiveASTVisitor<Collector> {
public:
  explicit Collector(Dumper& d) : D(d) {}
  Dumper& D;
  std::vector<const FunctionDecl*>  funcs;
  std::vector<const CXXRecordDecl*> records;
  std::vector<const EnumDecl*>      enums;
  std::vector<const VarDecl*>       vars;
  std::set<const Decl*>             seen;
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl* f) {
    if (f->isThisDeclarationADefinition() && f->getBody() && D.inRoot(f->getLocation()) && seen.insert(f).second) funcs.push_back(f);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* r) {
    if (r->isThisDeclarationADefinition() && D.inRoot(r->getLocation()) && !r->isInjectedClassName() && seen.insert(r).second) records.push_back(r);
    return true;
  }
  bool VisitEnumDecl(EnumDecl* e) {
    if (e->isThisDeclarationADefinition() && D.inRoot(e->getLocation()) && seen.insert(e).second) enums.push_back(e);
    return true;
  }
  bool VisitVarDecl(VarDecl* v) {
    if (v->hasGlobalStorage() && !v->isStaticLocal() && !isa<ParmVarDecl>(v) && v->hasInit() && D.inRoot(v->getLocation()) && seen.insert(v).second) vars.push_back(v);
    return true;
  }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext& ctx) override {
    std::error_code      ec;
    llvm::raw_fd_ostream os(g_out, ec);
    if (ec) { llvm::errs() << "cannot write " << g_out << "\n"; g_errors++; return; }
    Dumper    D(ctx, os);
    Collector col(D);
    col.TraverseDecl(ctx.getTranslationUnitDecl());
    auto& J = D.J;
    J.objectBegin();
    J.attributeBegin("functions"); J.arrayBegin();
    for (auto* f : col.funcs) D.function(f);
    J.arrayEnd(); J.attributeEnd();
    J.attributeBegin("records"); J.arrayBegin();
    for (auto* r : col.records) D.record(r);
    J.arrayEnd(); J.attributeEnd();
    J.attributeBegin("enums"); J.arrayBegin();
    for (auto* e : col.enums) {
      J.objectBegin();
      J.attribute("q", D.qn(e)); J.attribute("file", Dumper::norm(D.file(e->getLocation()))); J.attribute("l", D.line(e->getLocation()));
      J.attributeBegin("c"); J.arrayBegin();
      for (auto* c : e->enumerators()) { J.arrayBegin(); J.value(c->getNameAsString()); J.value((int64_t)c->getInitVal().getExtValue()); J.arrayEnd(); }
      J.arrayEnd(); J.attributeEnd();
      J.objectEnd();
    }
    J.arrayEnd(); J.attributeEnd();
    J.attributeBegin("vars"); J.arrayBegin();
    for (auto* v : col.vars) {
      J.objectBegin();
      J.attribute("q", D.qn(v)); J.attribute("file", Dumper::norm(D.file(v->getLocation())));
      J.attributeBegin("v"); D.varDecl(v); J.attributeEnd();
      J.objectEnd();
    }
    J.arrayEnd(); J.attributeEnd();
    J.attributeBegin("types"); J.arrayBegin();
    for (auto& t : D.type_list) J.value(json::fixUTF8(t));
    J.arrayEnd(); J.attributeEnd();
    J.attribute("errors", (int64_t)ctx.getDiagnostics().getClient()->getNumErrors());
    J.objectEnd();
    os << "\n";
  }
};

class Action : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Consumer>(); }
};
}  // namespace

int main(int argc, const char** argv) {
  // sxdump OUT ROOT[:ROOT...] FILE -- flags...
  if (argc < 5) return 64;
  g_out = argv[1];
  llvm::SmallVector<llvm::StringRef, 4> rs;
  llvm::StringRef(argv[2]).split(rs, ':');
  for (auto r : rs) g_roots.push_back(r.str());
  std::string              f = argv[3];
  std::vector<std::string> flags;
  for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool                tool(db, {f});
  int                               r = tool.run(tooling::newFrontendActionFactory<Action>().get());
  return r | g_errors;
}
