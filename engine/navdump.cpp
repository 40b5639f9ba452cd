// navdump: dump the type-resolved syntax trees of the functions and records that
// live under a given source root, as JSON (one document per translation unit).
// Static only: the program is parsed and type-checked by clang, never executed.
#include "llvm/Support/Path.h"
#include "llvm/Support/FileSystem.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>

using namespace clang;
namespace json = llvm::json;

static std::string ROOT;
static std::string OUT;

namespace {

struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::unique_ptr<MangleContext> MC;
  std::map<const Decl *, int> ids;
  json::Object functions, records, enums, globals;
  std::set<std::string> doneFn;
  int lambdaDepth = 0;

  Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    MC.reset(ItaniumMangleContext::create(C, C.getDiagnostics()));
  }

  int idOf(const Decl *d) {
    d = d->getCanonicalDecl();
    auto it = ids.find(d);
    if (it != ids.end()) return it->second;
    int n = (int)ids.size() + 1;
    ids[d] = n;
    return n;
  }

  bool inRoot(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return false;
    auto F = SM.getFilename(L);
    return F.starts_with(ROOT);
  }
  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return "";
    std::string f = SM.getFilename(L).str();
    if (llvm::StringRef(f).starts_with(ROOT)) f = f.substr(ROOT.size());
    while (!f.empty() && f[0] == '/') f = f.substr(1);
    return f;
  }
  int lineOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    return L.isInvalid() ? 0 : (int)SM.getExpansionLineNumber(L);
  }

  static std::string qname(const NamedDecl *d) {
    std::string s;
    llvm::raw_string_ostream os(s);
    d->printQualifiedName(os);
    os.flush();
    return s;
  }

  std::string mangled(const FunctionDecl *f) {
    if (f->isDependentContext() || f->getType()->isDependentType()) return qname(f) + "<dep>";
    if (auto *m = dyn_cast<CXXMethodDecl>(f))
      if (m->getParent()->isLambda()) return "lambda@" + std::to_string(idOf(f));
    std::string s;
    llvm::raw_string_ostream os(s);
    if (auto *c = dyn_cast<CXXConstructorDecl>(f))
      MC->mangleName(GlobalDecl(c, Ctor_Complete), os);
    else if (auto *dd = dyn_cast<CXXDestructorDecl>(f))
      MC->mangleName(GlobalDecl(dd, Dtor_Complete), os);
    else if (MC->shouldMangleDeclName(f))
      MC->mangleName(GlobalDecl(f), os);
    else
      os << f->getName();
    os.flush();
    // internal linkage: qualify by file
    if (f->getFormalLinkage() == Linkage::Internal || f->isInAnonymousNamespace())
      if (inRoot(f->getLocation())) s += "@" + fileOf(f->getLocation());
    return s;
  }

  json::Value typeJ(QualType t) {
    json::Object o;
    if (t.isNull()) return o;
    QualType c = t.getCanonicalType();
    bool ref = c->isReferenceType();
    bool rv = c->isRValueReferenceType();
    if (ref) { o["ref"] = 1; if (rv) o["rv"] = 1; c = c->getPointeeType(); }
    if (c.isConstQualified()) o["const"] = 1;
    if (c.isVolatileQualified()) o["vol"] = 1;
    QualType u = c.getUnqualifiedType();
    if (u->isPointerType()) {
      o["k"] = "ptr";
      QualType p = u->getPointeeType();
      if (!p->isFunctionType()) { o["to"] = typeJ(p); }
      else o["fn"] = 1;
      return o;
    }
    if (auto *bt = u->getAs<BuiltinType>()) {
      if (bt->getKind() == BuiltinType::Bool) o["k"] = "bool";
      else if (bt->isFloatingPoint()) { o["k"] = "float"; o["w"] = (int)C.getTypeSize(u); }
      else if (bt->isInteger()) { o["k"] = "int"; o["w"] = (int)C.getTypeSize(u); if (bt->isUnsignedInteger()) o["u"] = 1;
        if (bt->isAnyComplexType()) {} 
        if (u->isCharType()) o["ch"] = 1; }
      else if (bt->getKind() == BuiltinType::Void) o["k"] = "void";
      else if (bt->getKind() == BuiltinType::NullPtr) o["k"] = "nullptr";
      else o["k"] = "builtin";
      return o;
    }
    if (auto *et = u->getAs<EnumType>()) {
      o["k"] = "enum"; o["n"] = qname(et->getDecl());
      addEnum(et->getDecl());
      return o;
    }
    if (auto *rd = u->getAsCXXRecordDecl()) {
      o["k"] = "rec";
      o["n"] = qname(rd);
      if (rd->isLambda()) { o["lambda"] = idOf(rd); return o; }
      if (auto *s = dyn_cast<ClassTemplateSpecializationDecl>(rd)) {
        std::string full = u.getAsString(PP);
        o["full"] = full;
        json::Array ta;
        for (auto &a : s->getTemplateArgs().asArray()) {
          if (a.getKind() == TemplateArgument::Type && typeDepth < 3) { typeDepth++; ta.push_back(typeJ(a.getAsType())); typeDepth--; }
          if (ta.size() >= 3) break;
        }
        o["ta"] = std::move(ta);
      }
      addRecord(rd);
      return o;
    }
    if (u->isArrayType()) {
      o["k"] = "array";
      if (auto *at = C.getAsArrayType(u)) o["to"] = typeJ(at->getElementType());
      if (auto *ca = dyn_cast<ConstantArrayType>(u)) o["size"] = (int64_t)ca->getSize().getZExtValue();
      return o;
    }
    o["k"] = "other";
    o["s"] = u.getAsString(PP);
    return o;
  }
  int typeDepth = 0;

  void addEnum(const EnumDecl *e) {
    std::string n = qname(e);
    if (enums.get(n)) return;
    json::Object o;
    o["inroot"] = inRoot(e->getLocation());
    json::Array a;
    for (auto *k : e->enumerators()) {
      json::Array p; p.push_back(k->getNameAsString()); p.push_back((int64_t)k->getInitVal().getExtValue());
      a.push_back(std::move(p));
    }
    o["v"] = std::move(a);
    enums[n] = std::move(o);
  }

  std::set<const CXXRecordDecl *> seenRec;
  std::string recKey(const CXXRecordDecl *rd) {
    if (isa<ClassTemplateSpecializationDecl>(rd)) return C.getTypeDeclType(rd).getCanonicalType().getAsString(PP);
    return qname(rd);
  }
  void addRecord(const CXXRecordDecl *rd) {
    rd = rd->getDefinition();
    if (!rd) return;
    rd = cast<CXXRecordDecl>(rd->getCanonicalDecl()->getDefinition());
    if (!seenRec.insert(rd).second) return;
    if (!inRoot(rd->getLocation())) return;
    if (rd->isDependentContext() || rd->isLambda()) return;
    std::string key = recKey(rd);
    json::Object o;
    o["n"] = qname(rd);
    o["file"] = fileOf(rd->getLocation());
    o["line"] = lineOf(rd->getLocation());
    o["agg"] = rd->isAggregate();
    o["union"] = rd->isUnion();
    o["poly"] = rd->isPolymorphic();
    json::Array bs;
    for (auto &b : rd->bases()) bs.push_back(typeJ(b.getType()));
    o["bases"] = std::move(bs);
    json::Array fs;
    for (auto *f : rd->fields()) {
      json::Object fo;
      fo["n"] = f->getNameAsString();
      fo["t"] = typeJ(f->getType());
      fo["line"] = lineOf(f->getLocation());
      fo["mutable"] = f->isMutable();
      if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer());
      else if (f->hasInClassInitializer()) {
        // not instantiated yet: take the initialiser of the template it comes from
        const Expr *pe = nullptr;
        if (auto *crd = dyn_cast<CXXRecordDecl>(rd))
          if (auto *pat = crd->getTemplateInstantiationPattern())
            for (auto *pf : pat->fields())
              if (pf->getName() == f->getName()) pe = pf->getInClassInitializer();
        if (pe) fo["init"] = expr(pe);
        else fo["init"] = json::Object{{"k", "unknown"}};
      }
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    json::Array ss;
    for (auto *d : rd->decls())
      if (auto *v = dyn_cast<VarDecl>(d)) {
        if (v->isStaticDataMember()) { json::Object so; so["n"] = v->getNameAsString(); so["t"] = typeJ(v->getType()); so["line"] = lineOf(v->getLocation()); ss.push_back(std::move(so)); }
      }
    o["statics"] = std::move(ss);
    json::Array cs;
    bool dtor = false;
    for (auto *m : rd->methods()) {
      if (auto *dd = dyn_cast<CXXDestructorDecl>(m)) { if (dd->isUserProvided()) dtor = true; }
    }
    for (auto *ct : rd->ctors()) {
      json::Object co;
      co["id"] = mangled(ct);
      co["copy"] = ct->isCopyOrMoveConstructor();
      co["default"] = ct->isDefaultConstructor();
      co["user"] = ct->isUserProvided();
      co["deleted"] = ct->isDeleted();
      co["implicit"] = ct->isImplicit();
      cs.push_back(std::move(co));
    }
    json::Array cas;
    for (auto *m : rd->methods())
      if (m->isCopyAssignmentOperator() || m->isMoveAssignmentOperator()) {
        json::Object co; co["user"] = m->isUserProvided(); co["deleted"] = m->isDeleted(); co["implicit"] = m->isImplicit();
        co["move"] = m->isMoveAssignmentOperator();
        cas.push_back(std::move(co));
      }
    o["assigns"] = std::move(cas);
    o["ctors"] = std::move(cs);
    o["userdtor"] = dtor;
    o["hasImplicitDefault"] = rd->needsImplicitDefaultConstructor();
    o["needsImplicitCopy"] = rd->needsImplicitCopyConstructor();
    o["needsImplicitCopyAssign"] = rd->needsImplicitCopyAssignment();
    records[key] = std::move(o);
  }

  static const Expr *strip(const Expr *e) {
    while (e) {
      if (auto *x = dyn_cast<ParenExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<ExprWithCleanups>(e)) { e = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<ConstantExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = x->getReplacement(); continue; }
      if (auto *x = dyn_cast<ImplicitCastExpr>(e)) {
        switch (x->getCastKind()) {
        case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay: case CK_ArrayToPointerDecay:
        case CK_UserDefinedConversion: case CK_ConstructorConversion: case CK_NullToPointer:
        case CK_DerivedToBase: case CK_UncheckedDerivedToBase: case CK_BuiltinFnToFnPtr:
          e = x->getSubExpr(); continue;
        default: break;
        }
      }
      break;
    }
    return e;
  }

  json::Array args(llvm::iterator_range<CallExpr::const_arg_iterator> r) {
    json::Array a;
    for (auto *e : r) a.push_back(expr(e));
    return a;
  }

  json::Object calleeJ(const FunctionDecl *f) {
    json::Object o;
    o["id"] = mangled(f);
    o["n"] = qname(f);
    o["inroot"] = inRoot(f->getLocation()) || (f->getTemplateInstantiationPattern() && inRoot(f->getTemplateInstantiationPattern()->getLocation()));
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      if (!m->isStatic()) o["method"] = 1;
      if (m->isConst()) o["const"] = 1;
      if (m->isVirtual()) o["virt"] = 1;
      if (m->getParent()->isLambda()) o["lambda"] = idOf(m->getParent());
      if (m->isImplicit() || m->isDefaulted()) o["implicit"] = 1;
      if (m->isCopyAssignmentOperator() || m->isMoveAssignmentOperator()) o["assignop"] = 1;
    }
    json::Array pt;
    for (auto *p : f->parameters()) pt.push_back(typeJ(p->getType()));
    o["pt"] = std::move(pt);
    if (auto *ta = f->getTemplateSpecializationArgs()) {
      json::Array a;
      for (auto &x : ta->asArray()) { if (x.getKind() == TemplateArgument::Type) a.push_back(typeJ(x.getAsType())); if (a.size() >= 3) break; }
      o["ta"] = std::move(a);
    }
    if (f->isNoReturn()) o["noreturn"] = 1;
    queue(f);
    return o;
  }

  std::vector<const FunctionDecl *> work;
  void queue(const FunctionDecl *f) { work.push_back(f); }

  json::Object varJ(const VarDecl *v, bool withInit) {
    json::Object o;
    o["id"] = idOf(v);
    o["n"] = v->getNameAsString();
    o["t"] = typeJ(v->getType());
    o["line"] = lineOf(v->getLocation());
    if (v->isStaticLocal()) o["static"] = 1;
    if (v->isConstexpr()) o["constexpr"] = 1;
    if (auto *dd = dyn_cast<DecompositionDecl>(v)) {
      json::Array b;
      for (auto *x : dd->bindings()) {
        json::Object bo; bo["id"] = idOf(x); bo["n"] = x->getNameAsString(); bo["t"] = typeJ(x->getType());
        if (auto *hv = x->getHoldingVar()) { bo["hold"] = varJ(hv, true); }
        else if (x->getBinding()) bo["e"] = expr(x->getBinding());
        b.push_back(std::move(bo));
      }
      o["bindings"] = std::move(b);
    }
    if (withInit && v->hasInit()) {
      o["init"] = expr(v->getInit());
      const char *st = v->getInitStyle() == VarDecl::CInit ? "c" : (v->getInitStyle() == VarDecl::CallInit ? "call" : "list");
      o["istyle"] = st;
    }
    return o;
  }

  void evalConst(const Expr *e, json::Object &o) {
    if (e->isValueDependent() || e->isTypeDependent()) return;
    Expr::EvalResult R;
    if (e->getType()->isIntegralOrEnumerationType() && e->EvaluateAsInt(R, C)) {
      o["cv"] = (int64_t)R.Val.getInt().getExtValue();
    }
  }

  json::Value expr(const Expr *e0) {
    const Expr *e = strip(e0);
    json::Object o;
    if (!e) { o["k"] = "null"; return o; }
    o["l"] = lineOf(e->getExprLoc());
    auto T = [&](const Expr *x) { o["t"] = typeJ(x->getType()); };
    if (auto *x = dyn_cast<IntegerLiteral>(e)) {
      o["k"] = "int"; 
      llvm::SmallString<32> s; x->getValue().toStringUnsigned(s); o["v"] = s.str().str(); T(e); return o;
    }
    if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) { o["k"] = "bool"; o["v"] = x->getValue(); return o; }
    if (auto *x = dyn_cast<FloatingLiteral>(e)) {
      o["k"] = "float"; llvm::SmallString<40> s; x->getValue().toString(s, 17, 0); 
      char buf[64]; snprintf(buf, sizeof buf, "%.17g", x->getValueAsApproximateDouble()); o["v"] = std::string(buf); T(e); return o;
    }
    if (auto *x = dyn_cast<StringLiteral>(e)) { o["k"] = "str"; if (x->getCharByteWidth() == 1) o["v"] = json::fixUTF8(x->getString()); return o; }
    if (auto *x = dyn_cast<CharacterLiteral>(e)) { o["k"] = "int"; o["v"] = std::to_string(x->getValue()); T(e); return o; }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { o["k"] = "nullptr"; return o; }
    if (isa<CXXThisExpr>(e)) { o["k"] = "this"; T(e); return o; }
    if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) { return expr(x->getExpr()); }
    if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) { o["k"] = "definit"; o["e"] = expr(x->getExpr()); return o; }
    if (auto *x = dyn_cast<DeclRefExpr>(e)) {
      const ValueDecl *d = x->getDecl();
      T(e);
      if (auto *ec = dyn_cast<EnumConstantDecl>(d)) {
        o["k"] = "enumc"; o["n"] = qname(ec); o["v"] = (int64_t)ec->getInitVal().getExtValue(); return o;
      }
      if (auto *f = dyn_cast<FunctionDecl>(d)) { o["k"] = "fnref"; o["f"] = calleeJ(f); return o; }
      o["k"] = "var"; o["id"] = idOf(d); o["n"] = d->getNameAsString();
      if (auto *b = dyn_cast<BindingDecl>(d)) { (void)b; o["vk"] = "binding"; return o; }
      if (auto *v = dyn_cast<VarDecl>(d)) {
        if (isa<ParmVarDecl>(v)) o["vk"] = "param";
        else if (v->isStaticLocal()) { o["vk"] = "static"; addGlobal(v); }
        else if (v->hasGlobalStorage()) { o["vk"] = "global"; o["qn"] = qname(v); addGlobal(v); }
        else o["vk"] = "local";
        if (x->refersToEnclosingVariableOrCapture()) o["cap"] = 1;
      }
      return o;
    }
    if (auto *x = dyn_cast<MemberExpr>(e)) {
      const ValueDecl *d = x->getMemberDecl();
      T(e);
      if (auto *f = dyn_cast<FunctionDecl>(d)) { o["k"] = "mfnref"; o["f"] = calleeJ(f); o["b"] = expr(x->getBase()); return o; }
      if (auto *v = dyn_cast<VarDecl>(d)) { o["k"] = "var"; o["vk"] = "global"; o["id"] = idOf(d); o["n"] = d->getNameAsString(); o["qn"] = qname(v); addGlobal(v); return o; }
      if (auto *ec = dyn_cast<EnumConstantDecl>(d)) { o["k"] = "enumc"; o["n"] = qname(ec); o["v"] = (int64_t)ec->getInitVal().getExtValue(); return o; }
      o["k"] = "mem"; o["f"] = d->getNameAsString();
      if (auto *fd = dyn_cast<FieldDecl>(d)) { o["rec"] = qname(fd->getParent()); if (fd->isAnonymousStructOrUnion()) o["anon"] = 1; }
      o["b"] = expr(x->getBase());
      if (x->isArrow()) o["arrow"] = 1;
      return o;
    }
    if (auto *x = dyn_cast<CXXOperatorCallExpr>(e)) {
      o["k"] = "opcall"; o["op"] = getOperatorSpelling(x->getOperator()); T(e);
      if (auto *f = x->getDirectCallee()) o["f"] = calleeJ(f);
      o["a"] = args(x->arguments());
      return o;
    }
    if (auto *x = dyn_cast<CXXMemberCallExpr>(e)) {
      o["k"] = "mcall"; T(e);
      if (auto *f = x->getMethodDecl()) o["f"] = calleeJ(f);
      if (x->getImplicitObjectArgument()) {
        o["o"] = expr(x->getImplicitObjectArgument());
        if (x->getImplicitObjectArgument()->getType()->isPointerType()) o["arrow"] = 1;
      }
      if (auto *me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParenImpCasts())) {
        if (me->hasQualifier()) o["qual"] = 1;
        if (me->getQualifierLoc()) o["qual"] = 1;
      }
      o["a"] = args(x->arguments());
      return o;
    }
    if (auto *x = dyn_cast<CallExpr>(e)) {
      o["k"] = "call"; T(e);
      if (auto *f = x->getDirectCallee()) o["f"] = calleeJ(f);
      else o["ce"] = expr(x->getCallee());
      o["a"] = args(x->arguments());
      return o;
    }
    if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
      const CXXConstructorDecl *cd = x->getConstructor();
      o["k"] = "ctor"; T(e);
      o["f"] = calleeJ(cd);
      o["a"] = json::Array();
      json::Array a;
      for (auto *ar : x->arguments()) a.push_back(expr(ar));
      o["a"] = std::move(a);
      if (cd->isCopyOrMoveConstructor()) o["copy"] = 1;
      if (cd->isDefaultConstructor()) o["default"] = 1;
      if (x->isListInitialization()) o["list"] = 1;
      if (x->isStdInitListInitialization()) o["stdlist"] = 1;
      if (x->requiresZeroInitialization()) o["zero"] = 1;
      if (cd->isImplicit() || cd->isDefaulted()) o["implicit"] = 1;
      addRecord(cd->getParent());
      return o;
    }
    if (auto *x = dyn_cast<CXXInheritedCtorInitExpr>(e)) { o["k"] = "unknown"; o["cls"] = "inhctor"; T(e); (void)x; return o; }
    if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e)) { o["k"] = "stdil"; o["e"] = expr(x->getSubExpr()); T(e); return o; }
    if (auto *x = dyn_cast<InitListExpr>(e)) {
      const InitListExpr *sem = x->isSemanticForm() ? x : (x->getSemanticForm() ? x->getSemanticForm() : x);
      if (sem->isTransparent()) return expr(sem->getInit(0));
      o["k"] = "initlist"; T(e);
      json::Array a;
      for (auto *i : sem->inits()) a.push_back(expr(i));
      o["a"] = std::move(a);
      return o;
    }
    if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) { o["k"] = "zero"; T(e); return o; }
    if (auto *x = dyn_cast<UnaryOperator>(e)) {
      o["k"] = "un"; o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str(); T(e);
      if (x->isPostfix()) o["post"] = 1;
      o["e"] = expr(x->getSubExpr());
      return o;
    }
    if (auto *x = dyn_cast<CompoundAssignOperator>(e)) {
      o["k"] = "cassign"; std::string op = x->getOpcodeStr().str(); op.pop_back(); o["op"] = op; T(e);
      o["ct"] = typeJ(x->getComputationResultType());
      o["lhs"] = expr(x->getLHS()); o["rhs"] = expr(x->getRHS());
      return o;
    }
    if (auto *x = dyn_cast<BinaryOperator>(e)) {
      o["k"] = x->getOpcode() == BO_Assign ? "assign" : "bin";
      o["op"] = x->getOpcodeStr().str(); T(e);
      o["lhs"] = expr(x->getLHS()); o["rhs"] = expr(x->getRHS());
      evalConst(e, o);
      return o;
    }
    if (auto *x = dyn_cast<CXXRewrittenBinaryOperator>(e)) { return expr(x->getSemanticForm()); }
    if (auto *x = dyn_cast<ConditionalOperator>(e)) {
      o["k"] = "cond"; T(e);
      o["c"] = expr(x->getCond()); o["a"] = expr(x->getTrueExpr()); o["b"] = expr(x->getFalseExpr());
      return o;
    }
    if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) {
      o["k"] = "index"; T(e); o["b"] = expr(x->getBase()); o["i"] = expr(x->getIdx()); return o;
    }
    if (auto *x = dyn_cast<CastExpr>(e)) {
      o["k"] = "cast"; T(e);
      o["ck"] = x->getCastKindName();
      if (isa<CXXConstCastExpr>(e)) o["style"] = "const";
      else if (isa<CXXReinterpretCastExpr>(e)) o["style"] = "reinterpret";
      else if (isa<CStyleCastExpr>(e)) o["style"] = "c";
      else if (isa<CXXStaticCastExpr>(e)) o["style"] = "static";
      else if (isa<CXXFunctionalCastExpr>(e)) o["style"] = "functional";
      else if (isa<CXXDynamicCastExpr>(e)) o["style"] = "dynamic";
      else o["style"] = "implicit";
      o["e"] = expr(x->getSubExpr());
      return o;
    }
    if (auto *x = dyn_cast<CXXNewExpr>(e)) {
      o["k"] = "new"; T(e); o["nt"] = typeJ(x->getAllocatedType());
      if (x->isArray()) o["array"] = 1;
      if (x->hasInitializer() && x->getInitializer()) o["e"] = expr(x->getInitializer());
      return o;
    }
    if (auto *x = dyn_cast<CXXDeleteExpr>(e)) { o["k"] = "delete"; o["e"] = expr(x->getArgument()); if (x->isArrayForm()) o["array"] = 1; return o; }
    if (auto *x = dyn_cast<CXXThrowExpr>(e)) { o["k"] = "throw"; if (x->getSubExpr()) o["e"] = expr(x->getSubExpr()); return o; }
    if (auto *x = dyn_cast<LambdaExpr>(e)) {
      o["k"] = "lambda"; T(e);
      o["lid"] = idOf(x->getLambdaClass());
      json::Array caps;
      auto ii = x->capture_init_begin();
      for (auto &c : x->captures()) {
        json::Object co;
        if (c.capturesThis()) { co["this"] = 1; }
        else if (c.capturesVariable()) {
          co["id"] = idOf(c.getCapturedVar()); co["n"] = c.getCapturedVar()->getNameAsString();
          co["byref"] = c.getCaptureKind() == LCK_ByRef;
          if (auto *vd = dyn_cast<VarDecl>(c.getCapturedVar())) if (vd->isInitCapture()) { co["init"] = expr(vd->getInit()); }
        }
        caps.push_back(std::move(co));
        ++ii;
      }
      o["caps"] = std::move(caps);
      const CXXMethodDecl *op = x->getCallOperator();
      bool generic = x->isGenericLambda();
      if (generic) {
        o["generic"] = 1;
        // use an instantiation when there is one
        if (auto *ftd = x->getLambdaClass()->getDependentLambdaCallOperator()) {
          for (auto *sp : ftd->specializations())
            if (sp->hasBody()) { op = cast<CXXMethodDecl>(sp); generic = false; break; }
        }
      }
      json::Array ps;
      for (auto *p : op->parameters()) ps.push_back(varJ(p, false));
      o["params"] = std::move(ps);
      o["ret"] = typeJ(op->getReturnType());
      if (!generic && op->getBody()) o["body"] = stmt(op->getBody());
      return o;
    }
    if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) { o["k"] = "sizeof"; T(e); evalConst(x, o); return o; }
    if (auto *x = dyn_cast<CXXNoexceptExpr>(e)) { o["k"] = "bool"; o["v"] = x->getValue(); return o; }
    if (auto *x = dyn_cast<OpaqueValueExpr>(e)) { if (x->getSourceExpr()) return expr(x->getSourceExpr()); }
    if (auto *x = dyn_cast<PredefinedExpr>(e)) { o["k"] = "str"; o["v"] = "__func__"; (void)x; return o; }
    o["k"] = "unknown"; o["cls"] = e->getStmtClassName(); T(e);
    json::Array ch;
    for (auto *c : e->children()) if (auto *ce = dyn_cast_or_null<Expr>(c)) ch.push_back(expr(ce));
    o["ch"] = std::move(ch);
    return o;
  }

  void addGlobal(const VarDecl *v) {
    v = v->getDefinition() ? v->getDefinition() : v;
    if (!inRoot(v->getLocation())) return;
    std::string key = std::to_string(idOf(v));
    if (globals.get(key)) return;
    globals[key] = json::Object();
    json::Object o = varJ(v, !v->getType()->isDependentType());
    o["qn"] = qname(v);
    o["file"] = fileOf(v->getLocation());
    o["staticlocal"] = v->isStaticLocal();
    o["tls"] = v->getTLSKind() != VarDecl::TLS_None;
    o["intern"] = v->getFormalLinkage() == Linkage::Internal || v->isInAnonymousNamespace();
    globals[key] = std::move(o);
  }

  json::Value stmt(const Stmt *s) {
    json::Object o;
    if (!s) { o["k"] = "null"; return o; }
    o["l"] = lineOf(s->getBeginLoc());
    if (auto *x = dyn_cast<CompoundStmt>(s)) {
      o["k"] = "block"; json::Array a;
      for (auto *c : x->body()) a.push_back(stmt(c));
      o["c"] = std::move(a); return o;
    }
    if (auto *x = dyn_cast<DeclStmt>(s)) {
      o["k"] = "decl"; json::Array a;
      for (auto *d : x->decls())
        if (auto *v = dyn_cast<VarDecl>(d)) { if (v->isStaticLocal()) addGlobal(v); a.push_back(varJ(v, true)); }
        else if (auto *rd = dyn_cast<CXXRecordDecl>(d)) { if (rd->isCompleteDefinition()) addRecord(rd); }
      o["v"] = std::move(a); return o;
    }
    if (auto *x = dyn_cast<IfStmt>(s)) {
      o["k"] = "if";
      if (x->getInit()) o["init"] = stmt(x->getInit());
      if (auto *cv = x->getConditionVariable()) o["cv"] = varJ(cv, true);
      if (x->isConstexpr()) o["constexpr"] = 1;
      o["c"] = expr(x->getCond()); o["a"] = stmt(x->getThen());
      if (x->getElse()) o["b"] = stmt(x->getElse());
      return o;
    }
    if (auto *x = dyn_cast<WhileStmt>(s)) {
      o["k"] = "while";
      if (auto *cv = x->getConditionVariable()) o["cv"] = varJ(cv, true);
      o["c"] = expr(x->getCond()); o["b"] = stmt(x->getBody()); return o;
    }
    if (auto *x = dyn_cast<DoStmt>(s)) { o["k"] = "do"; o["c"] = expr(x->getCond()); o["b"] = stmt(x->getBody()); return o; }
    if (auto *x = dyn_cast<ForStmt>(s)) {
      o["k"] = "for";
      if (x->getInit()) o["init"] = stmt(x->getInit());
      if (auto *cv = x->getConditionVariable()) o["cv"] = varJ(cv, true);
      if (x->getCond()) o["c"] = expr(x->getCond());
      if (x->getInc()) o["inc"] = expr(x->getInc());
      o["b"] = stmt(x->getBody()); return o;
    }
    if (auto *x = dyn_cast<CXXForRangeStmt>(s)) {
      o["k"] = "rfor";
      if (x->getInit()) o["init"] = stmt(x->getInit());
      o["range"] = expr(x->getRangeInit());
      o["rt"] = typeJ(x->getRangeInit()->getType());
      o["var"] = varJ(x->getLoopVariable(), false);
      // element expression's conversion: keep the loop variable init (may convert)
      o["b"] = stmt(x->getBody());
      // note the callee of begin() so that the container kind is known
      return o;
    }
    if (auto *x = dyn_cast<ReturnStmt>(s)) { o["k"] = "return"; if (x->getRetValue()) o["e"] = expr(x->getRetValue()); return o; }
    if (isa<BreakStmt>(s)) { o["k"] = "break"; return o; }
    if (isa<ContinueStmt>(s)) { o["k"] = "continue"; return o; }
    if (auto *x = dyn_cast<SwitchStmt>(s)) {
      o["k"] = "switch";
      if (x->getInit()) o["init"] = stmt(x->getInit());
      if (auto *cv = x->getConditionVariable()) o["cv"] = varJ(cv, true);
      o["c"] = expr(x->getCond()); o["b"] = stmt(x->getBody()); return o;
    }
    if (auto *x = dyn_cast<CaseStmt>(s)) {
      o["k"] = "case"; o["v"] = expr(x->getLHS());
      json::Object tmp; evalConst(x->getLHS(), tmp); if (tmp.get("cv")) o["cv"] = *tmp.getInteger("cv");
      o["s"] = stmt(x->getSubStmt()); return o;
    }
    if (auto *x = dyn_cast<DefaultStmt>(s)) { o["k"] = "default"; o["s"] = stmt(x->getSubStmt()); return o; }
    if (isa<NullStmt>(s)) { o["k"] = "null"; return o; }
    if (auto *x = dyn_cast<CXXTryStmt>(s)) {
      o["k"] = "try"; o["b"] = stmt(x->getTryBlock()); json::Array h;
      for (unsigned i = 0; i < x->getNumHandlers(); i++) {
        json::Object ho; 
        if (x->getHandler(i)->getExceptionDecl()) ho["t"] = typeJ(x->getHandler(i)->getExceptionDecl()->getType());
        ho["b"] = stmt(x->getHandler(i)->getHandlerBlock()); h.push_back(std::move(ho));
      }
      o["h"] = std::move(h); return o;
    }
    if (auto *x = dyn_cast<AttributedStmt>(s)) return stmt(x->getSubStmt());
    if (auto *x = dyn_cast<LabelStmt>(s)) { o["k"] = "label"; o["s"] = stmt(x->getSubStmt()); return o; }
    if (isa<GotoStmt>(s)) { o["k"] = "goto"; return o; }
    if (auto *x = dyn_cast<Expr>(s)) { o["k"] = "expr"; o["e"] = expr(x); return o; }
    o["k"] = "unknown"; o["cls"] = s->getStmtClassName();
    return o;
  }

  void dumpFunction(const FunctionDecl *f0) {
    const FunctionDecl *f = nullptr;
    if (!f0->hasBody(f)) return;
    if (!f->doesThisDeclarationHaveABody()) return;
    if (f->isDependentContext() || f->getType()->isDependentType() || f->isTemplated()) return;
    SourceLocation L = f->getLocation();
    if (auto *p = f->getTemplateInstantiationPattern()) L = p->getLocation();
    if (!inRoot(L)) return;
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) { if (m->getParent()->isLambda()) return; }
    std::string id = mangled(f);
    if (!doneFn.insert(id).second) return;
    json::Object o;
    o["id"] = id;
    o["n"] = qname(f);
    o["file"] = fileOf(L);
    o["line"] = lineOf(L);
    o["endline"] = lineOf(f->getBodyRBrace());
    o["ret"] = typeJ(f->getReturnType());
    if (f->isImplicit() || f->isDefaulted()) o["implicit"] = 1;
    if (f->isMain()) o["main"] = 1;
    json::Array ps;
    for (auto *p : f->parameters()) ps.push_back(varJ(p, false));
    o["params"] = std::move(ps);
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      o["method"] = 1;
      if (m->isStatic()) o["static"] = 1;
      if (m->isConst()) o["const"] = 1;
      o["rec"] = recKey(m->getParent());
      addRecord(m->getParent());
      if (m->isVirtual()) {
        o["virt"] = 1;
        json::Array ov;
        for (auto *b : m->overridden_methods()) ov.push_back(mangled(b));
        o["overrides"] = std::move(ov);
      }
      switch (m->getAccess()) { case AS_public: o["acc"] = "public"; break; case AS_private: o["acc"] = "private"; break; default: o["acc"] = "protected"; }
    }
    if (auto *c = dyn_cast<CXXConstructorDecl>(f)) {
      o["isctor"] = 1;
      if (c->isCopyOrMoveConstructor()) o["copyctor"] = 1;
      json::Array in;
      for (auto *i : c->inits()) {
        json::Object io;
        io["written"] = i->isWritten();
        if (i->isMemberInitializer()) { io["field"] = i->getMember()->getNameAsString(); }
        else if (i->isBaseInitializer()) { io["base"] = typeJ(QualType(i->getBaseClass(), 0)); }
        else if (i->isDelegatingInitializer()) { io["deleg"] = 1; }
        if (i->getInit()) io["e"] = expr(i->getInit());
        io["l"] = lineOf(i->getSourceLocation());
        in.push_back(std::move(io));
      }
      o["inits"] = std::move(in);
    }
    if (isa<CXXDestructorDecl>(f)) o["isdtor"] = 1;
    o["body"] = stmt(f->getBody());
    functions[id] = std::move(o);
  }
};

class V : public RecursiveASTVisitor<V> {
  Dumper &D;
public:
  V(Dumper &d) : D(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool TraverseDecl(Decl *d) {
    if (d && isa<NamespaceDecl>(d) == false && isa<TranslationUnitDecl>(d) == false && isa<LinkageSpecDecl>(d) == false)
      if (auto *nd = dyn_cast<NamedDecl>(d))
        if (!D.inRoot(nd->getLocation())) return true;
    return RecursiveASTVisitor<V>::TraverseDecl(d);
  }
  bool VisitFunctionDecl(FunctionDecl *f) { D.dumpFunction(f); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *r) { if (r->isCompleteDefinition()) D.addRecord(r); return true; }
  bool VisitEnumDecl(EnumDecl *e) { D.addEnum(e); return true; }
  bool VisitVarDecl(VarDecl *v) {
    if (v->hasGlobalStorage() && !isa<ParmVarDecl>(v) && !v->getType()->isDependentType() && !v->isTemplated()) D.addGlobal(v);
    return true;
  }
};

class Cons : public ASTConsumer {
  std::string file;
public:
  Cons(std::string f) : file(f) {}
  void HandleTranslationUnit(ASTContext &C) override {
    Dumper D(C);
    V v(D);
    v.TraverseDecl(C.getTranslationUnitDecl());
    size_t i = 0;
    while (i < D.work.size()) { auto *f = D.work[i++]; D.dumpFunction(f); }
    json::Object top;
    top["functions"] = std::move(D.functions);
    top["records"] = std::move(D.records);
    top["enums"] = std::move(D.enums);
    top["globals"] = std::move(D.globals);
    top["file"] = file;
    json::Array deps;
    auto &SM = C.getSourceManager();
    for (auto it = SM.fileinfo_begin(); it != SM.fileinfo_end(); ++it) {
      llvm::SmallString<256> p(it->first.getName());
      llvm::sys::fs::make_absolute(p);
      llvm::sys::path::remove_dots(p, true);
      if (llvm::StringRef(p).starts_with(ROOT + "/")) deps.push_back(std::string(p.substr(ROOT.size() + 1)));
    }
    top["deps"] = std::move(deps);
    top["errors"] = C.getDiagnostics().hasErrorOccurred();
    std::error_code ec;
    llvm::raw_fd_ostream os(OUT, ec);
    os << json::Value(std::move(top));
  }
};

class Act : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef f) override { return std::make_unique<Cons>(f.str()); }
};

class Fac : public tooling::FrontendActionFactory {
public:
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Act>(); }
};
} // namespace

int main(int argc, const char **argv) {
  // navdump ROOT OUT FILE -- flags...
  if (argc < 5) { llvm::errs() << "usage: navdump ROOT OUT FILE -- flags\n"; return 2; }
  ROOT = argv[1]; OUT = argv[2];
  std::string file = argv[3];
  std::vector<std::string> flags;
  for (int i = 5; i < argc; i++) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {file});
  Fac fac;
  return tool.run(&fac);
}
