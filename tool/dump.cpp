// Front end of the verifier: reads the real translation units of /repo with
// clang's own parser and writes, as JSON, every declaration that is located
// under the root given, fully typed.  Nothing is rewritten: what is dropped is
// only what has no run-time meaning (parentheses, cleanups of temporaries,
// constant wrappers), and a node of a kind not listed here is written out as
// {"k":"unsupported"} so that the verifier sees it.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
using namespace clang;
namespace json = llvm::json;

static std::string ROOT;
static json::Array OutFuncs, OutRecs, OutVars, OutEnums;
static json::Object OutTypes;

struct Dumper {
  ASTContext &C;
  PrintingPolicy PP;
  std::map<const Decl *, int> ids;
  std::set<std::string> seenTypes;
  std::set<const Decl*> seenRecs;
  Dumper(ASTContext &c) : C(c), PP(c.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true; PP.Bool = true; PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true; PP.AnonymousTagLocations = false;
  }
  int id(const Decl *d) {
    d = d->getCanonicalDecl();
    auto it = ids.find(d);
    if (it != ids.end()) return it->second;
    int n = ids.size() + 1; ids[d] = n; return n;
  }
  bool inRoot(SourceLocation l) {
    auto &SM = C.getSourceManager();
    auto e = SM.getExpansionLoc(l);
    auto f = SM.getFilename(e);
    if (f.empty()) return false;
    llvm::SmallString<256> p(f);
    SM.getFileManager().makeAbsolutePath(p);
    llvm::sys::path::remove_dots(p, true);
    return llvm::StringRef(p).starts_with(ROOT);
  }
  int line(SourceLocation l) { return C.getSourceManager().getExpansionLineNumber(l); }
  std::string file(SourceLocation l) {
    auto &SM = C.getSourceManager();
    llvm::SmallString<256> p(SM.getFilename(SM.getExpansionLoc(l)));
    SM.getFileManager().makeAbsolutePath(p);
    llvm::sys::path::remove_dots(p, true);
    std::string s = std::string(p);
    if (s.rfind(ROOT, 0) == 0) s = s.substr(ROOT.size());
    return s;
  }
  // ---- types
  std::string tname(QualType q) {
    q = q.getCanonicalType();
    std::string s = q.getAsString(PP);
    return s;
  }
  std::string recName(const RecordDecl *rd) {
    std::string s;
    if (rd->getDeclName().isEmpty()) {
      // anonymous: name by parent and position
      const DeclContext *dc = rd->getDeclContext();
      std::string parent = "";
      if (auto *pr = dyn_cast<RecordDecl>(dc)) parent = recName(pr);
      else if (auto *nd = dyn_cast<NamedDecl>(dc)) parent = nd->getQualifiedNameAsString();
      int n = 0;
      for (auto *d : dc->decls()) { if (auto *r = dyn_cast<RecordDecl>(d)) { if (r->getDeclName().isEmpty()) { if (r->getCanonicalDecl()==rd->getCanonicalDecl()) break; n++; } } }
      return parent + "::anon" + std::to_string(n);
    }
    return rd->getQualifiedNameAsString();
  }
  std::string ty(QualType q) {
    q = q.getCanonicalType();
    std::string s = tname(q);
    if (auto *rt = q->getAs<RecordType>()) {
      if (rt->getDecl()->getDeclName().isEmpty() || s.find("(unnamed") != std::string::npos || s.find("(anonymous") != std::string::npos || s.find("(lambda") != std::string::npos) {
        s = (q.isConstQualified() ? "const " : "") + recName(rt->getDecl()) + (isa<CXXRecordDecl>(rt->getDecl()) && cast<CXXRecordDecl>(rt->getDecl())->isLambda() ? "#lambda" + std::to_string(id(rt->getDecl())) : "");
      }
    }
    if (seenTypes.count(s)) return s;
    seenTypes.insert(s);
    json::Object o;
    if (q.isConstQualified()) o["const"] = true;
    QualType u = q.getUnqualifiedType();
    if (auto *b = u->getAs<BuiltinType>()) {
      if (b->getKind() == BuiltinType::Bool) o["k"] = "bool";
      else if (b->isInteger()) { o["k"] = "int"; o["bits"] = (int64_t)C.getTypeSize(u); o["signed"] = b->isSignedInteger(); }
      else if (b->isFloatingPoint()) { o["k"] = "float"; o["bits"] = (int64_t)C.getTypeSize(u); }
      else if (b->getKind() == BuiltinType::Void) o["k"] = "void";
      else if (b->getKind() == BuiltinType::NullPtr) o["k"] = "nullptr";
      else o["k"] = "other";
    } else if (auto *e = u->getAs<EnumType>()) {
      o["k"] = "enum"; auto it = e->getDecl()->getIntegerType();
      o["name"] = e->getDecl()->getQualifiedNameAsString();
      if (!it.isNull()) { o["bits"] = (int64_t)C.getTypeSize(it); o["signed"] = it->isSignedIntegerType(); }
    } else if (auto *p = u->getAs<PointerType>()) { o["k"] = "ptr"; o["to"] = ty(p->getPointeeType()); }
    else if (auto *r = u->getAs<ReferenceType>()) { o["k"] = "ref"; o["to"] = ty(r->getPointeeType()); o["rvalue"] = u->isRValueReferenceType(); }
    else if (auto *a = C.getAsConstantArrayType(u)) { o["k"] = "array"; o["of"] = ty(a->getElementType()); o["n"] = (int64_t)a->getSize().getZExtValue(); }
    else if (auto *a = C.getAsArrayType(u)) { o["k"] = "array"; o["of"] = ty(a->getElementType()); o["n"] = -1; }
    else if (u->isFunctionType()) o["k"] = "func";
    else if (auto *r = u->getAs<RecordType>()) {
      o["k"] = "rec"; auto *rd = r->getDecl(); o["name"] = recName(rd);
      if (auto *cr = dyn_cast<CXXRecordDecl>(rd)) if (cr->isLambda()) { o["lambda"] = id(rd); }
      if (auto *ts = dyn_cast<ClassTemplateSpecializationDecl>(rd)) {
        json::Array args;
        std::function<void(const TemplateArgument&)> add = [&](const TemplateArgument &t) {
          switch (t.getKind()) {
            case TemplateArgument::Type: args.push_back(ty(t.getAsType())); break;
            case TemplateArgument::Integral: args.push_back((int64_t)t.getAsIntegral().getExtValue()); break;
            case TemplateArgument::Pack: for (auto &x : t.pack_elements()) add(x); break;
            default: args.push_back("?");
          }
        };
        for (auto &t : ts->getTemplateArgs().asArray()) add(t);
        o["args"] = std::move(args);
      }
      auto rn = rd->getNameAsString();
      bool plainc = (rn == "timeval" || rn == "tm") && !rd->getDeclContext()->isNamespace();
      if (plainc || inRoot(rd->getLocation())) record(rd->getDefinition() ? rd->getDefinition() : rd);
    } else o["k"] = "other";
    OutTypes[s] = std::move(o);
    return s;
  }
  void record(const RecordDecl *rd) {
    if (!rd || seenRecs.count(rd)) return; seenRecs.insert(rd);
    json::Object o; o["name"] = recName(rd); o["union"] = rd->isUnion();
    if (auto *cr = dyn_cast<CXXRecordDecl>(rd)) if (cr->isLambda()) return;
    o["file"] = file(rd->getLocation());
    json::Array fs, bases;
    if (rd->isCompleteDefinition()) {
      for (auto *f : rd->fields()) {
        json::Object fo; fo["name"] = f->getNameAsString(); fo["type"] = ty(f->getType());
        if (f->getNameAsString().empty()) fo["name"] = "anonfield" + std::to_string(f->getFieldIndex());
        if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer());
        fs.push_back(std::move(fo));
      }
      if (auto *cr = dyn_cast<CXXRecordDecl>(rd)) { if (cr->hasDefinition()) for (auto &b : cr->bases()) bases.push_back(ty(b.getType())); o["aggregate"] = cr->isAggregate(); o["poly"] = cr->isPolymorphic(); }
    }
    o["fields"] = std::move(fs); o["bases"] = std::move(bases);
    OutRecs.push_back(std::move(o));
  }
  // ---- names
  std::string fname(const FunctionDecl *f) {
    if (auto *c = dyn_cast<CXXMethodDecl>(f)) {
      if (c->getParent()->isLambda()) return "lambda#" + std::to_string(id(c->getParent()));
      std::string base = recName(c->getParent());
      if (isa<CXXConstructorDecl>(f)) return base + "::#ctor";
      if (isa<CXXDestructorDecl>(f)) return base + "::#dtor";
      if (isa<CXXConversionDecl>(f)) return base + "::operator " + tname(f->getReturnType());
      return base + "::" + f->getNameAsString();
    }
    return f->getQualifiedNameAsString();
  }
  std::string fsig(const FunctionDecl *f) {
    std::string s = "(";
    bool first = true;
    for (auto *p : f->parameters()) { if (!first) s += ","; first = false; s += tname(p->getType()); }
    s += ")";
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) if (m->isConst()) s += "const";
    return s;
  }
  json::Object fref(const FunctionDecl *f) {
    json::Object o; o["name"] = fname(f); o["sig"] = fsig(f); o["ret"] = ty(f->getReturnType());
    json::Array ps; for (auto *p : f->parameters()) ps.push_back(ty(p->getType())); o["params"] = std::move(ps);
    if (auto *fd = f->getDefinition()) o["repo"] = inRoot(fd->getLocation()); else o["repo"] = inRoot(f->getLocation());
    if (f->isDefaulted() || f->isImplicit()) o["implicit"] = true;
    if (auto *fp = f->getType()->getAs<FunctionProtoType>()) {
      auto es = fp->getExceptionSpecType();
      if (es == EST_Unevaluated || es == EST_Uninstantiated) {} else if (fp->isNothrow()) o["noexcept"] = true;
    }
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) { o["cls"] = ty(C.getRecordType(m->getParent())); if (m->isVirtual()) o["virtual"] = true; if (m->isStatic()) o["static"] = true; if (m->isConst()) o["const"] = true;
      if (m->isCopyAssignmentOperator()) o["copyassign"] = true; if (m->isMoveAssignmentOperator()) o["moveassign"] = true; }
    return o;
  }
  json::Object varref(const ValueDecl *v) {
    json::Object o; o["k"] = "var"; o["id"] = id(v); o["n"] = v->getNameAsString(); o["t"] = ty(v->getType());
    if (auto *vd = dyn_cast<VarDecl>(v)) {
      if (vd->hasGlobalStorage()) { o["global"] = true; o["q"] = vd->getQualifiedNameAsString() + (vd->isStaticLocal() ? "#" + std::to_string(line(vd->getLocation())) : ""); if (inRoot(vd->getLocation())) gvar(vd); else o["ext"] = true; }
    }
    return o;
  }
  std::set<const Decl *> seenVars;
  void gvar(const VarDecl *vd) {
    const VarDecl *def = vd->getDefinition() ? vd->getDefinition() : vd;
    if (vd->isStaticLocal()) def = vd;
    if (!seenVars.insert(def->getCanonicalDecl()).second) return;
    json::Object o; o["q"] = vd->getQualifiedNameAsString() + (vd->isStaticLocal() ? "#" + std::to_string(line(vd->getLocation())) : ""); o["type"] = ty(def->getType()); o["file"] = file(def->getLocation());
    o["id"] = id(vd);
    const VarDecl *initd = nullptr; const Expr *ie = vd->getAnyInitializer(initd);
    if (ie) o["init"] = expr(ie);
    OutVars.push_back(std::move(o));
  }
  json::Object un(const Stmt *s) {
    json::Object o; o["k"] = "unsupported"; o["cls"] = s->getStmtClassName(); o["line"] = line(s->getBeginLoc()); return o;
  }
  json::Array exprs(llvm::ArrayRef<const Expr *> a) { json::Array r; for (auto *e : a) r.push_back(expr(e)); return r; }
  template <class It> json::Array exprsI(It b, It e) { json::Array r; for (; b != e; ++b) r.push_back(expr(*b)); return r; }

  json::Object expr(const Expr *e) {
    json::Object o = expr0(e);
    if (!o.get("t")) o["t"] = ty(e->getType());
    if (e->isGLValue()) o["lv"] = e->isXValue() ? "x" : "l";
    if (!o.get("line")) o["line"] = line(e->getExprLoc());
    return o;
  }
  json::Object bignum(const llvm::APSInt &v) {
    json::Object o; o["k"] = "int"; llvm::SmallString<64> s; v.toString(s, 10); o["v"] = std::string(s); return o;
  }
  json::Object expr0(const Expr *e) {
    json::Object o;
    switch (e->getStmtClass()) {
    case Stmt::ParenExprClass: return expr(cast<ParenExpr>(e)->getSubExpr());
    case Stmt::ExprWithCleanupsClass: return expr(cast<ExprWithCleanups>(e)->getSubExpr());
    case Stmt::CXXBindTemporaryExprClass: return expr(cast<CXXBindTemporaryExpr>(e)->getSubExpr());
    case Stmt::SubstNonTypeTemplateParmExprClass: return expr(cast<SubstNonTypeTemplateParmExpr>(e)->getReplacement());
    case Stmt::CXXDefaultArgExprClass: return expr(cast<CXXDefaultArgExpr>(e)->getExpr());
    case Stmt::CXXDefaultInitExprClass: return expr(cast<CXXDefaultInitExpr>(e)->getExpr());
    case Stmt::CXXRewrittenBinaryOperatorClass: return expr(cast<CXXRewrittenBinaryOperator>(e)->getSemanticForm());
    case Stmt::ConstantExprClass: return expr(cast<ConstantExpr>(e)->getSubExpr());
    case Stmt::OpaqueValueExprClass: if (cast<OpaqueValueExpr>(e)->getSourceExpr()) return expr(cast<OpaqueValueExpr>(e)->getSourceExpr()); return un(e);
    case Stmt::ArrayInitLoopExprClass: { o["k"] = "copyarr"; o["e"] = expr(cast<ArrayInitLoopExpr>(e)->getCommonExpr()); return o; }
    case Stmt::CXXStdInitializerListExprClass: { o["k"] = "stdinit"; o["e"] = expr(cast<CXXStdInitializerListExpr>(e)->getSubExpr()); return o; }
    case Stmt::MaterializeTemporaryExprClass: { o["k"] = "mat"; o["e"] = expr(cast<MaterializeTemporaryExpr>(e)->getSubExpr()); return o; }
    case Stmt::IntegerLiteralClass: { o["k"] = "int"; llvm::SmallString<64> s; cast<IntegerLiteral>(e)->getValue().toString(s, 10, e->getType()->isSignedIntegerType()); o["v"] = std::string(s); return o; }
    case Stmt::CharacterLiteralClass: { o["k"] = "int"; o["v"] = std::to_string((int64_t)(int32_t)cast<CharacterLiteral>(e)->getValue()); return o; }
    case Stmt::CXXBoolLiteralExprClass: { o["k"] = "bool"; o["v"] = cast<CXXBoolLiteralExpr>(e)->getValue(); return o; }
    case Stmt::FloatingLiteralClass: { o["k"] = "float"; llvm::SmallString<64> s; cast<FloatingLiteral>(e)->getValue().toString(s); o["v"] = std::string(s); return o; }
    case Stmt::CXXNullPtrLiteralExprClass: case Stmt::GNUNullExprClass: { o["k"] = "null"; return o; }
    case Stmt::StringLiteralClass: { auto *s = cast<StringLiteral>(e); o["k"] = "str"; json::Array b; for (unsigned i = 0; i < s->getLength(); i++) b.push_back((int64_t)s->getCodeUnit(i)); o["bytes"] = std::move(b); return o; }
    case Stmt::PredefinedExprClass: return expr(cast<PredefinedExpr>(e)->getFunctionName());
    case Stmt::DeclRefExprClass: {
      auto *d = cast<DeclRefExpr>(e)->getDecl();
      if (auto *f = dyn_cast<FunctionDecl>(d)) { o["k"] = "fn"; o["f"] = fref(f); return o; }
      if (auto *ec = dyn_cast<EnumConstantDecl>(d)) { o = bignum(ec->getInitVal()); o["enum"] = ec->getQualifiedNameAsString(); return o; }
      if (auto *bd = dyn_cast<BindingDecl>(d)) { o["k"] = "binding"; o["id"] = id(bd); o["n"] = bd->getNameAsString(); if (bd->getBinding()) o["e"] = expr(bd->getBinding()); if (bd->getHoldingVar()) o["hold"] = id(bd->getHoldingVar()); o["decomp"] = id(bd->getDecomposedDecl());
        int ix = 0; for (auto *b : cast<DecompositionDecl>(bd->getDecomposedDecl())->bindings()) { if (b == bd) break; ix++; } o["ix"] = ix; return o; }
      o = varref(d); o["t"] = ty(e->getType()); return o;
    }
    case Stmt::MemberExprClass: {
      auto *m = cast<MemberExpr>(e); auto *d = m->getMemberDecl();
      if (auto *vd = dyn_cast<VarDecl>(d)) return varref(vd);
      if (auto *ec = dyn_cast<EnumConstantDecl>(d)) return bignum(ec->getInitVal());
      o["k"] = "member"; o["n"] = d->getNameAsString(); 
      if (auto *fd = dyn_cast<FieldDecl>(d)) { if (fd->getNameAsString().empty()) o["n"] = "anonfield" + std::to_string(fd->getFieldIndex()); o["rec"] = recName(fd->getParent()); }
      if (auto *f = dyn_cast<FunctionDecl>(d)) { o["k"] = "memfn"; o["f"] = fref(f); }
      o["base"] = expr(m->getBase()); o["arrow"] = m->isArrow(); return o;
    }
    case Stmt::CXXThisExprClass: { o["k"] = "this"; return o; }
    case Stmt::UnaryOperatorClass: { auto *u = cast<UnaryOperator>(e); o["k"] = "un"; o["op"] = UnaryOperator::getOpcodeStr(u->getOpcode()).str(); o["post"] = u->isPostfix(); o["e"] = expr(u->getSubExpr()); return o; }
    case Stmt::BinaryOperatorClass: { auto *b = cast<BinaryOperator>(e); o["k"] = "bin"; o["op"] = b->getOpcodeStr().str(); o["l"] = expr(b->getLHS()); o["r"] = expr(b->getRHS()); return o; }
    case Stmt::CompoundAssignOperatorClass: { auto *b = cast<CompoundAssignOperator>(e); o["k"] = "assignop"; std::string op = b->getOpcodeStr().str(); op.pop_back(); o["op"] = op; o["l"] = expr(b->getLHS()); o["r"] = expr(b->getRHS()); o["ct"] = ty(b->getComputationResultType()); o["clt"] = ty(b->getComputationLHSType()); return o; }
    case Stmt::ConditionalOperatorClass: { auto *c = cast<ConditionalOperator>(e); o["k"] = "cond"; o["c"] = expr(c->getCond()); o["a"] = expr(c->getTrueExpr()); o["b"] = expr(c->getFalseExpr()); return o; }
    case Stmt::ImplicitCastExprClass: case Stmt::CStyleCastExprClass: case Stmt::CXXStaticCastExprClass: case Stmt::CXXFunctionalCastExprClass: case Stmt::CXXReinterpretCastExprClass: case Stmt::CXXConstCastExprClass: case Stmt::CXXDynamicCastExprClass: {
      auto *c = cast<CastExpr>(e); o["k"] = "cast"; o["ck"] = c->getCastKindName(); o["e"] = expr(c->getSubExpr());
      if (c->getCastKind() == CK_UserDefinedConversion) {}
      if (isa<ExplicitCastExpr>(c)) o["explicit"] = true;
      return o; }
    case Stmt::CallExprClass: { auto *c = cast<CallExpr>(e); o["k"] = "call"; if (auto *f = c->getDirectCallee()) o["f"] = fref(f); else o["fe"] = expr(c->getCallee()); o["args"] = exprsI(c->arg_begin(), c->arg_end()); return o; }
    case Stmt::CXXMemberCallExprClass: { auto *c = cast<CXXMemberCallExpr>(e); o["k"] = "mcall"; if (auto *f = c->getMethodDecl()) o["f"] = fref(f); 
      if (auto *ob = c->getImplicitObjectArgument()) { o["obj"] = expr(ob); if (auto *me = dyn_cast<MemberExpr>(c->getCallee()->IgnoreParens())) { o["arrow"] = me->isArrow(); if (me->hasQualifier()) o["qual"] = true; } } else o["fe"] = expr(c->getCallee());
      o["args"] = exprsI(c->arg_begin(), c->arg_end()); return o; }
    case Stmt::CXXOperatorCallExprClass: { auto *c = cast<CXXOperatorCallExpr>(e); o["k"] = "opcall"; o["op"] = getOperatorSpelling(c->getOperator()); if (auto *f = c->getDirectCallee()) { o["f"] = fref(f); o["method"] = isa<CXXMethodDecl>(f); } else o["fe"] = expr(c->getCallee()); o["args"] = exprsI(c->arg_begin(), c->arg_end()); return o; }
    case Stmt::CXXConstructExprClass: case Stmt::CXXTemporaryObjectExprClass: { auto *c = cast<CXXConstructExpr>(e); o["k"] = "ctor"; auto *cd = c->getConstructor(); o["f"] = fref(cd); o["copy"] = cd->isCopyConstructor(); o["move"] = cd->isMoveConstructor(); o["default"] = cd->isDefaultConstructor(); o["listinit"] = c->isListInitialization(); o["zero"] = c->requiresZeroInitialization(); o["stdlist"] = c->isStdInitListInitialization(); o["args"] = exprsI(c->arg_begin(), c->arg_end()); return o; }
    case Stmt::CXXInheritedCtorInitExprClass: return un(e);
    case Stmt::InitListExprClass: { auto *i = cast<InitListExpr>(e); if (i->isSemanticForm() == false && i->getSemanticForm()) i = i->getSemanticForm(); o["k"] = "initlist"; o["args"] = exprs(llvm::ArrayRef<const Expr*>((Expr *const *)i->getInits(), i->getNumInits())); if (i->hasArrayFiller()) o["filler"] = expr(i->getArrayFiller()); if (auto *ff = i->getInitializedFieldInUnion()) o["ufield"] = ff->getNameAsString(); return o; }
    case Stmt::ImplicitValueInitExprClass: case Stmt::CXXScalarValueInitExprClass: { o["k"] = "zero"; return o; }
    case Stmt::ArraySubscriptExprClass: { auto *a = cast<ArraySubscriptExpr>(e); o["k"] = "index"; o["base"] = expr(a->getBase()); o["i"] = expr(a->getIdx()); return o; }
    case Stmt::UnaryExprOrTypeTraitExprClass: { Expr::EvalResult r; if (e->EvaluateAsInt(r, C)) return bignum(r.Val.getInt()); return un(e); }
    case Stmt::TypeTraitExprClass: { Expr::EvalResult r; if (e->EvaluateAsInt(r, C)) return bignum(r.Val.getInt()); return un(e); }
    case Stmt::CXXThrowExprClass: { auto *t = cast<CXXThrowExpr>(e); o["k"] = "throw"; if (t->getSubExpr()) { o["e"] = expr(t->getSubExpr()); } return o; }
    case Stmt::CXXNewExprClass: { auto *n = cast<CXXNewExpr>(e); o["k"] = "new"; o["of"] = ty(n->getAllocatedType()); if (n->isArray() && n->getArraySize()) o["size"] = expr(*n->getArraySize()); if (n->getInitializer()) o["init"] = expr(n->getInitializer()); return o; }
    case Stmt::CXXDeleteExprClass: { auto *n = cast<CXXDeleteExpr>(e); o["k"] = "delete"; o["e"] = expr(n->getArgument()); o["arr"] = n->isArrayForm(); return o; }
    case Stmt::LambdaExprClass: { auto *l = cast<LambdaExpr>(e); o["k"] = "lambda"; o["lid"] = id(l->getLambdaClass());
      json::Array caps; for (auto &cp : l->captures()) { json::Object co; if (cp.capturesThis()) co["this"] = true; else if (cp.capturesVariable()) { auto *v = cp.getCapturedVar(); co["id"] = id(v); co["n"] = v->getNameAsString(); co["t"] = ty(v->getType()); co["byref"] = cp.getCaptureKind() == LCK_ByRef; } caps.push_back(std::move(co)); }
      o["caps"] = std::move(caps); json::Array ps; for (auto *p : l->getCallOperator()->parameters()) ps.push_back(param(p)); o["params"] = std::move(ps); o["ret"] = ty(l->getCallOperator()->getReturnType()); o["body"] = stmt(l->getBody()); return o; }
    case Stmt::SourceLocExprClass: { o["k"] = "srcloc"; return o; }
    case Stmt::CXXTypeidExprClass: default: { json::Object u = un(e); return u; }
    }
  }
  json::Object param(const ParmVarDecl *p) { json::Object o; o["id"] = id(p); o["n"] = p->getNameAsString(); o["t"] = ty(p->getType()); return o; }
  json::Object vdecl(const VarDecl *v) {
    json::Object o; o["id"] = id(v); o["n"] = v->getNameAsString(); o["t"] = ty(v->getType()); o["line"] = line(v->getLocation());
    if (v->isStaticLocal()) { o["static"] = true; o["q"] = v->getQualifiedNameAsString() + "#" + std::to_string(line(v->getLocation())); gvar(v); }
    if (auto *dd = dyn_cast<DecompositionDecl>(v)) { json::Array bs; for (auto *b : dd->bindings()) { json::Object bo; bo["n"] = b->getNameAsString(); bo["id"] = id(b); if (b->getHoldingVar()) bo["hold"] = id(b->getHoldingVar()); bs.push_back(std::move(bo)); } o["bindings"] = std::move(bs); }
    if (v->getInit()) o["init"] = expr(v->getInit());
    return o;
  }
  json::Value stmt(const Stmt *s) {
    if (!s) return nullptr;
    json::Object o; 
    switch (s->getStmtClass()) {
    case Stmt::CompoundStmtClass: { o["k"] = "block"; json::Array a; for (auto *x : cast<CompoundStmt>(s)->body()) a.push_back(stmt(x)); o["s"] = std::move(a); break; }
    case Stmt::DeclStmtClass: { o["k"] = "decl"; json::Array a; for (auto *d : cast<DeclStmt>(s)->decls()) { if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(vdecl(v)); else if (auto *r = dyn_cast<RecordDecl>(d)) record(r); } o["d"] = std::move(a); break; }
    case Stmt::IfStmtClass: { auto *i = cast<IfStmt>(s); o["k"] = "if"; if (i->getInit()) o["init"] = stmt(i->getInit()); if (i->getConditionVariable()) o["cv"] = vdecl(i->getConditionVariable()); o["c"] = expr(i->getCond()); o["a"] = stmt(i->getThen()); if (i->getElse()) o["b"] = stmt(i->getElse()); if (i->isConstexpr()) o["constexpr"] = true; break; }
    case Stmt::WhileStmtClass: { auto *w = cast<WhileStmt>(s); o["k"] = "while"; if (w->getConditionVariable()) o["cv"] = vdecl(w->getConditionVariable()); o["c"] = expr(w->getCond()); o["body"] = stmt(w->getBody()); break; }
    case Stmt::DoStmtClass: { auto *w = cast<DoStmt>(s); o["k"] = "do"; o["c"] = expr(w->getCond()); o["body"] = stmt(w->getBody()); break; }
    case Stmt::ForStmtClass: { auto *w = cast<ForStmt>(s); o["k"] = "for"; if (w->getInit()) o["init"] = stmt(w->getInit()); if (w->getCond()) o["c"] = expr(w->getCond()); if (w->getInc()) o["inc"] = expr(w->getInc()); o["body"] = stmt(w->getBody()); break; }
    case Stmt::CXXForRangeStmtClass: { auto *w = cast<CXXForRangeStmt>(s); o["k"] = "rangefor"; if (w->getInit()) o["init"] = stmt(w->getInit()); o["range"] = expr(w->getRangeInit()); o["var"] = vdecl(w->getLoopVariable()); o["body"] = stmt(w->getBody()); 
        break; }
    case Stmt::ReturnStmtClass: { o["k"] = "return"; if (cast<ReturnStmt>(s)->getRetValue()) o["e"] = expr(cast<ReturnStmt>(s)->getRetValue()); break; }
    case Stmt::BreakStmtClass: o["k"] = "break"; break;
    case Stmt::ContinueStmtClass: o["k"] = "continue"; break;
    case Stmt::NullStmtClass: o["k"] = "null"; break;
    case Stmt::SwitchStmtClass: { auto *w = cast<SwitchStmt>(s); o["k"] = "switch"; if (w->getInit()) o["init"] = stmt(w->getInit()); o["c"] = expr(w->getCond()); o["body"] = stmt(w->getBody()); break; }
    case Stmt::CaseStmtClass: { auto *c = cast<CaseStmt>(s); o["k"] = "case"; Expr::EvalResult r; if (c->getLHS()->EvaluateAsInt(r, C)) { llvm::SmallString<64> t; r.Val.getInt().toString(t, 10); o["v"] = std::string(t); } o["s"] = stmt(c->getSubStmt()); break; }
    case Stmt::DefaultStmtClass: { o["k"] = "default"; o["s"] = stmt(cast<DefaultStmt>(s)->getSubStmt()); break; }
    case Stmt::CXXTryStmtClass: { auto *t = cast<CXXTryStmt>(s); o["k"] = "try"; o["body"] = stmt(t->getTryBlock()); json::Array hs; for (unsigned i = 0; i < t->getNumHandlers(); i++) { auto *h = t->getHandler(i); json::Object ho; if (h->getExceptionDecl()) ho["v"] = vdecl(h->getExceptionDecl()); ho["body"] = stmt(h->getHandlerBlock()); hs.push_back(std::move(ho)); } o["handlers"] = std::move(hs); break; }
    case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(s)->getSubStmt());
    default:
      if (auto *e = dyn_cast<Expr>(s)) { o["k"] = "expr"; o["e"] = expr(e); }
      else o = un(s);
    }
    o["line"] = line(s->getBeginLoc());
    return o;
  }
  void function(const FunctionDecl *f) {
    if (!f->doesThisDeclarationHaveABody() || f->isDependentContext() || f->isImplicit() || f->isDefaulted()) return;
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) return;
    json::Object o = fref(f);
    o["file"] = file(f->getLocation()); o["line"] = line(f->getLocation());
    if (f->getFormalLinkage() == Linkage::Internal || f->isStatic()) o["internal"] = true;
    json::Array ps; for (auto *p : f->parameters()) ps.push_back(param(p)); o["params"] = std::move(ps);
    if (auto *c = dyn_cast<CXXConstructorDecl>(f)) {
      json::Array is;
      for (auto *i : c->inits()) { json::Object io; if (i->isMemberInitializer()) io["field"] = i->getMember()->getNameAsString(); else if (i->isBaseInitializer()) io["base"] = ty(QualType(i->getBaseClass(), 0)); else if (i->isDelegatingInitializer()) io["delegate"] = true; else if (i->isIndirectMemberInitializer()) io["field"] = i->getIndirectMember()->getNameAsString(); io["e"] = expr(i->getInit()); is.push_back(std::move(io)); }
      o["inits"] = std::move(is);
    }
    o["body"] = stmt(f->getBody());
    OutFuncs.push_back(std::move(o));
  }
};
struct V : RecursiveASTVisitor<V> {
  Dumper &D; V(Dumper &d) : D(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *f) { if (D.inRoot(f->getLocation())) D.function(f); return true; }
  bool VisitRecordDecl(RecordDecl *r) { if (D.inRoot(r->getLocation()) && r->isThisDeclarationADefinition() && !r->isDependentContext()) D.record(r); return true; }
  bool VisitVarDecl(VarDecl *v) { if (D.inRoot(v->getLocation()) && v->hasGlobalStorage() && !v->isStaticLocal() && !v->getDeclContext()->isDependentContext() && v->isThisDeclarationADefinition()) D.gvar(v); return true; }
  bool VisitEnumDecl(EnumDecl *e) { if (D.inRoot(e->getLocation()) && e->isThisDeclarationADefinition()) { json::Object o; o["name"] = e->getQualifiedNameAsString(); json::Object vs; for (auto *c : e->enumerators()) { llvm::SmallString<32> s; c->getInitVal().toString(s, 10); vs[c->getName()] = std::string(s); } o["values"] = std::move(vs); OutEnums.push_back(std::move(o)); } return true; }
  bool TraverseDecl(Decl *d) {
    if (d && !isa<TranslationUnitDecl>(d) && isa<DeclContext>(d) && d->getDeclContext() && d->getDeclContext()->isFileContext() && !isa<NamespaceDecl>(d) && !isa<LinkageSpecDecl>(d) && !D.inRoot(d->getLocation())) return true;
    if (d && isa<NamespaceDecl>(d) && (cast<NamespaceDecl>(d)->getName() == "std" || cast<NamespaceDecl>(d)->getName() == "__gnu_cxx")) return true;
    return RecursiveASTVisitor<V>::TraverseDecl(d);
  }
};
struct Cons : ASTConsumer { void HandleTranslationUnit(ASTContext &C) override { if (C.getDiagnostics().hasErrorOccurred()) return; Dumper D(C); V v(D); v.TraverseDecl(C.getTranslationUnitDecl()); } };
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override { return std::make_unique<Cons>(); } };
int main(int argc, const char **argv) {
  if (argc < 4) { llvm::errs() << "usage: dump ROOT OUT FILE [flags]\n"; return 2; }
  ROOT = argv[1]; if (ROOT.back() != '/') ROOT += '/';
  std::vector<std::string> flags; for (int i = 4; i < argc; i++) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {argv[3]});
  struct F : tooling::FrontendActionFactory { std::unique_ptr<FrontendAction> create() override { return std::make_unique<Act>(); } } fac;
  // g++ accepts "std::array<T, this->CONST>", clang 18 does not: blank the
  // "this->" of such a template argument (same width; the only text change made)
  static std::string src;
  if (auto mb = llvm::MemoryBuffer::getFile(argv[3])) {
    src = (*mb)->getBuffer().str(); bool ch = false;
    for (size_t p = 0; (p = src.find("std::array<", p)) != std::string::npos; p++) {
      size_t e = src.find('>', p), q = src.find("this->", p);
      if (q != std::string::npos && q + 5 == src.find('>', p) + 1 - 1 && q - p < 64) { for (int k = 0; k < 6; k++) src[q + k] = ' '; ch = true; }
      (void)e;
    }
    if (ch) tool.mapVirtualFile(argv[3], src);
  }
  int rc = tool.run(&fac);
  if (rc) return rc;
  std::error_code ec; llvm::raw_fd_ostream os(argv[2], ec);
  json::Object top; top["functions"] = std::move(OutFuncs); top["records"] = std::move(OutRecs); top["vars"] = std::move(OutVars); top["enums"] = std::move(OutEnums); top["types"] = std::move(OutTypes);
  os << json::Value(std::move(top)) << "\n";
  return 0;
}
