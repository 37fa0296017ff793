#include <cmath>
// ssfacts: dumps the type-checked program (resolved callees, instantiated
// templates, lambdas) of one translation unit as JSON for the Python analyses.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/Expr.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Basic/SourceManager.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Index/USRGeneration.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>

#include <deque>
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string g_root = "/repo";
static std::vector<std::string> g_extra_roots;
static unsigned g_errors = 0;
static std::vector<std::string> g_error_texts;

struct DiagCount : DiagnosticConsumer
{
  void HandleDiagnostic(DiagnosticsEngine::Level level, const Diagnostic & info) override
  {
    if (level >= DiagnosticsEngine::Error) {
      ++g_errors;
      llvm::SmallString<256> text;
      info.FormatDiagnostic(text);
      std::string where;
      if (info.hasSourceManager() && info.getLocation().isValid())
        where = info.getLocation().printToString(info.getSourceManager());
      if (g_error_texts.size() < 50) g_error_texts.push_back(where + ": " + text.str().str());
    }
  }
};

class Dumper
{
public:
  explicit Dumper(ASTContext & c) : ctx(c), sm(c.getSourceManager()), policy(c.getLangOpts())
  {
    policy.SuppressTagKeyword = true;
    policy.FullyQualifiedName = true;
    policy.SuppressInlineNamespace = true;
    policy.SuppressUnwrittenScope = true;
    policy.PrintCanonicalTypes = true;
    policy.Bool = true;
  }

  ASTContext & ctx;
  SourceManager & sm;
  PrintingPolicy policy;
  std::vector<std::string> strings;
  std::unordered_map<std::string, int> string_ids;
  std::deque<const FunctionDecl *> work;
  std::unordered_set<const FunctionDecl *> seen;
  std::unordered_map<const Decl *, int> decl_ids;
  std::unordered_map<const Decl *, std::string> keys;
  Object functions, records, enums, vars;
  std::unordered_set<const Decl *> record_seen, enum_seen, var_seen;
  std::unordered_map<const void *, std::string> type_ids;

  // interned strings are written as "@<index>"; literal text starting with '@' is written "@@..."
  std::string str(const std::string & s)
  {
    auto [it, fresh] = string_ids.emplace(s, strings.size());
    if (fresh) strings.push_back(s);
    return "@" + std::to_string(it->second);
  }
  static std::string lit(std::string s) { return (!s.empty() && s[0] == '@') ? "@" + s : s; }
  std::string type(QualType t)
  {
    if (t.isNull()) return str("<null>");
    t = t.getCanonicalType();
    auto it = type_ids.find(t.getAsOpaquePtr());
    if (it != type_ids.end()) return it->second;
    auto r = str(t.getAsString(policy));
    type_ids[t.getAsOpaquePtr()] = r;
    return r;
  }
  std::string file(SourceLocation l)
  {
    l = sm.getExpansionLoc(l);
    if (l.isInvalid()) return "";
    auto f = sm.getFilename(l);
    llvm::SmallString<256> p(f);
    if (auto e = sm.getFileEntryRefForID(sm.getFileID(l))) {
      auto real = e->getFileEntry().tryGetRealPathName();
      if (!real.empty()) return real.str();
    }
    return p.str().str();
  }
  bool in_repo(const Decl * d)
  {
    auto f = file(d->getLocation());
    if (f.rfind(g_root + "/_build", 0) == 0) return false;
    if (f.rfind(g_root + "/", 0) == 0) return true;
    for (auto & r : g_extra_roots)
      if (f.rfind(r, 0) == 0) return true;
    return false;
  }
  int line(SourceLocation l) { return l.isValid() ? (int)sm.getExpansionLineNumber(l) : 0; }
  int col(SourceLocation l) { return l.isValid() ? (int)sm.getExpansionColumnNumber(l) : 0; }

  std::string qname(const NamedDecl * d)
  {
    std::string s;
    llvm::raw_string_ostream o(s);
    PrintingPolicy p = policy;
    p.SuppressUnwrittenScope = true;
    p.SuppressInlineNamespace = true;
    d->printQualifiedName(o, p);
    return o.str();
  }
  int declid(const Decl * d)
  {
    auto [it, fresh] = decl_ids.emplace(d->getCanonicalDecl(), decl_ids.size() + 1);
    return it->second;
  }
  std::string key(const FunctionDecl * f)
  {
    f = f->getCanonicalDecl();
    auto it = keys.find(f);
    if (it != keys.end()) return it->second;
    llvm::SmallString<256> usr;
    std::string k;
    if (index::generateUSRForDecl(f, usr)) k = qname(f);
    else k = usr.str().str();
    bool local = f->getParentFunctionOrMethod() != nullptr;
    if (auto m = dyn_cast<CXXMethodDecl>(f))
      if (m->getParent()->isLambda() || m->getParent()->isLocalClass()) local = true;
    if (local) {
      k += "@" + file(f->getLocation()) + ":" + std::to_string(line(f->getLocation())) + ":" + std::to_string(col(f->getLocation()));
      // one macro may expand to several functions
      for (auto l = f->getLocation(); l.isMacroID();)
        l = sm.getImmediateMacroCallerLoc(l), k += "/" + std::to_string(sm.getSpellingLineNumber(l)) + ":" + std::to_string(sm.getSpellingColumnNumber(l));
      // lambdas inside template instantiations are distinct per instantiation
      const DeclContext * c = f->getDeclContext();
      while (c && !c->isTranslationUnit()) {
        if (auto pf = dyn_cast<FunctionDecl>(c); pf && pf != f) { k += "<" + key(pf) + ">"; break; }
        c = c->getParent();
      }
    }
    if (auto args = f->getTemplateSpecializationArgs()) {
      k += "#T<";
      for (auto & a : args->asArray()) { std::string s; llvm::raw_string_ostream o(s); a.print(policy, o, true); k += o.str() + ","; }
      k += ">";
    }
    {
      const DeclContext * c = f->getDeclContext();
      while (c && !c->isTranslationUnit()) {
        if (auto r = dyn_cast<ClassTemplateSpecializationDecl>(c)) {
          k += "#C<";
          for (auto & a : r->getTemplateArgs().asArray()) { std::string s; llvm::raw_string_ostream o(s); a.print(policy, o, true); k += o.str() + ","; }
          k += ">";
        }
        c = c->getParent();
      }
    }
    keys[f] = k;
    return k;
  }

  const FunctionDecl * definition(const FunctionDecl * f)
  {
    const FunctionDecl * def = nullptr;
    if (f->hasBody(def)) return def;
    if (auto p = f->getTemplateInstantiationPattern()) { (void)p; }
    return nullptr;
  }
  void enqueue(const FunctionDecl * f)
  {
    if (!f) return;
    auto def = definition(f);
    if (!def) return;
    if (def->isDependentContext()) return;
    if (!in_repo(def)) return;
    if (seen.insert(def->getCanonicalDecl()).second) work.push_back(def);
  }

  Value funcref(const FunctionDecl * f)
  {
    enqueue(f);
    Object o;
    o["k"] = str(key(f));
    o["n"] = str(qname(f));
    if (auto m = dyn_cast<CXXMethodDecl>(f)) {
      if (m->isStatic()) o["st"] = 1;
      if (m->isConst()) o["const"] = 1;
      if (m->isVirtual()) o["v"] = 1;
      if (m->getParent()->isLambda()) o["lam"] = 1;
    }
    if (auto args = f->getTemplateSpecializationArgs()) {
      Array a;
      for (auto & x : args->asArray()) targ(a, x);
      o["ta"] = std::move(a);
    }
    Array pt;
    for (auto p : f->parameters()) pt.push_back(type(p->getType()));
    if (!pt.empty()) o["pt"] = std::move(pt);
    o["rt"] = type(f->getReturnType());
    if (f->isVariadic()) o["va"] = 1;
    return o;
  }
  void targ(Array & a, const TemplateArgument & x)
  {
    if (x.getKind() == TemplateArgument::Pack) {
      for (auto & y : x.pack_elements()) targ(a, y);
    } else if (x.getKind() == TemplateArgument::Type) a.push_back(type(x.getAsType()));
    else { std::string s; llvm::raw_string_ostream o(s); x.print(policy, o, true); a.push_back(str(o.str())); }
  }

  Value nul() { return nullptr; }

  void constval(Object & o, const Expr * e)
  {
    if (e->isValueDependent() || e->isTypeDependent()) return;
    QualType t = e->getType();
    if (t.isNull()) return;
    if (e->isGLValue() ) {
      if (!(t->isIntegralOrEnumerationType())) return;
    }
    if (t->isIntegralOrEnumerationType() && !isa<IntegerLiteral>(e)) {
      Expr::EvalResult r;
      if (e->EvaluateAsInt(r, ctx, Expr::SE_NoSideEffects) && r.Val.isInt()) {
        auto & i = r.Val.getInt();
        llvm::SmallString<32> s;
        i.toString(s, 10);
        o["cv"] = s.str().str();
      }
    }
  }

  // the value of a constant of a floating-point type
  void floatval(Object & o, const Expr * e, const VarDecl * v)
  {
    if (!v->isConstexpr() || e->isValueDependent() || e->isTypeDependent() || !v->getType().getNonReferenceType()->isFloatingType()) return;
    Expr::EvalResult r;
    if (e->EvaluateAsRValue(r, ctx) && r.Val.isFloat()) {
      double d = r.Val.getFloat().convertToDouble();
      if (std::isfinite(d)) o["fv"] = d;
    }
  }

  Value expr(const Expr * e)
  {
    if (!e) return nul();
    // transparent nodes
    if (auto x = dyn_cast<ParenExpr>(e)) return expr(x->getSubExpr());
    if (auto x = dyn_cast<ExprWithCleanups>(e)) return expr(x->getSubExpr());
    if (auto x = dyn_cast<MaterializeTemporaryExpr>(e)) return expr(x->getSubExpr());
    if (auto x = dyn_cast<CXXBindTemporaryExpr>(e)) return expr(x->getSubExpr());
    if (auto x = dyn_cast<ConstantExpr>(e)) return expr(x->getSubExpr());
    if (auto x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return expr(x->getReplacement());
    if (auto x = dyn_cast<CXXDefaultArgExpr>(e)) { auto v = expr(x->getExpr()); if (auto o = v.getAsObject()) (*o)["dflt"] = 1; return v; }
    if (auto x = dyn_cast<CXXDefaultInitExpr>(e)) return expr(x->getExpr());
    if (auto x = dyn_cast<OpaqueValueExpr>(e)) return x->getSourceExpr() ? expr(x->getSourceExpr()) : nul();
    if (auto x = dyn_cast<CXXStdInitializerListExpr>(e)) return expr(x->getSubExpr());
    if (auto x = dyn_cast<CXXRewrittenBinaryOperator>(e)) return expr(x->getSemanticForm());
    if (auto x = dyn_cast<PackExpansionExpr>(e)) return expr(x->getPattern());
    if (auto x = dyn_cast<ImplicitCastExpr>(e)) {
      switch (x->getCastKind()) {
        case CK_IntegralToBoolean: case CK_PointerToBoolean: case CK_FloatingToBoolean: case CK_MemberPointerToBoolean:
        case CK_IntegralCast: case CK_IntegralToFloating: case CK_FloatingToIntegral: case CK_FloatingCast: case CK_BooleanToSignedIntegral: {
          Object o;
          o["k"] = "icast";
          o["ck"] = x->getCastKindName();
          o["t"] = type(x->getType());
          o["l"] = line(x->getBeginLoc());
          o["e"] = expr(x->getSubExpr());
          constval(o, x);
          return o;
        }
        default: return expr(x->getSubExpr());
      }
    }
    Object o;
    o["l"] = line(e->getBeginLoc());
    if (!isa<InitListExpr>(e)) o["t"] = type(e->getType());
    if (auto x = dyn_cast<IntegerLiteral>(e)) { o["k"] = "int"; llvm::SmallString<32> s; x->getValue().toString(s, 10, x->getType()->isSignedIntegerType()); o["v"] = s.str().str(); }
    else if (auto x = dyn_cast<CXXBoolLiteralExpr>(e)) { o["k"] = "bool"; o["v"] = x->getValue(); }
    else if (auto x = dyn_cast<CharacterLiteral>(e)) { o["k"] = "int"; o["v"] = std::to_string(x->getValue()); o["chr"] = 1; }
    else if (auto x = dyn_cast<FloatingLiteral>(e)) { o["k"] = "flt"; llvm::SmallString<40> s; x->getValue().toString(s); o["v"] = s.str().str(); }
    else if (auto x = dyn_cast<clang::StringLiteral>(e)) { o["k"] = "str"; o["v"] = x->getCharByteWidth() == 1 ? lit(llvm::json::fixUTF8(x->getString())) : std::string(""); }
    else if (auto x = dyn_cast<PredefinedExpr>(e)) { o["k"] = "str"; o["v"] = x->getFunctionName() ? x->getFunctionName()->getString().str() : ""; }
    else if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) o["k"] = "null";
    else if (isa<CXXThisExpr>(e)) o["k"] = "this";
    else if (auto x = dyn_cast<UserDefinedLiteral>(e)) { call(o, x); o["udl"] = 1; }
    else if (auto x = dyn_cast<DeclRefExpr>(e)) declref(o, x);
    else if (auto x = dyn_cast<MemberExpr>(e)) {
      if (auto f = dyn_cast<FieldDecl>(x->getMemberDecl())) {
        o["k"] = "mem"; o["f"] = str(qname(f)); o["b"] = expr(x->getBase()); if (x->isArrow()) o["arrow"] = 1;
        record(f->getParent());
      } else if (auto f = dyn_cast<FunctionDecl>(x->getMemberDecl())) {
        o["k"] = "memfn"; o["f"] = funcref(f); o["b"] = expr(x->getBase()); if (x->isArrow()) o["arrow"] = 1;
      } else if (auto v = dyn_cast<VarDecl>(x->getMemberDecl())) { varref(o, v); }
      else if (auto c = dyn_cast<EnumConstantDecl>(x->getMemberDecl())) enumref(o, c);
      else { o["k"] = "unk"; o["c"] = "MemberExpr"; }
      constval(o, e);
    }
    else if (auto x = dyn_cast<CallExpr>(e)) call(o, x);
    else if (auto x = dyn_cast<CXXConstructExpr>(e)) construct(o, x);
    else if (auto x = dyn_cast<CXXInheritedCtorInitExpr>(e)) { o["k"] = "ctor"; o["f"] = funcref(x->getConstructor()); o["inh"] = 1; o["a"] = Array(); }
    else if (auto x = dyn_cast<InitListExpr>(e)) {
      if (x->isSemanticForm() == false && x->getSemanticForm()) x = x->getSemanticForm();
      o["k"] = "list"; o["t"] = type(x->getType());
      Array a; for (auto i : x->inits()) a.push_back(expr(i)); o["a"] = std::move(a);
      if (auto rt = x->getType()->getAs<RecordType>()) { record(rt->getDecl()); }
    }
    else if (auto x = dyn_cast<CXXParenListInitExpr>(e)) { o["k"] = "list"; Array a; for (auto i : x->getInitExprs()) a.push_back(expr(i)); o["a"] = std::move(a); }
    else if (auto x = dyn_cast<LambdaExpr>(e)) lambda(o, x);
    else if (auto x = dyn_cast<UnaryOperator>(e)) { o["k"] = "un"; o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str(); if (x->isPostfix()) o["post"] = 1; o["e"] = expr(x->getSubExpr()); constval(o, e); }
    else if (auto x = dyn_cast<BinaryOperator>(e)) { o["k"] = "bin"; o["op"] = x->getOpcodeStr().str(); o["a"] = expr(x->getLHS()); o["b"] = expr(x->getRHS()); constval(o, e); }
    else if (auto x = dyn_cast<ConditionalOperator>(e)) { o["k"] = "cond"; o["c"] = expr(x->getCond()); o["a"] = expr(x->getTrueExpr()); o["b"] = expr(x->getFalseExpr()); }
    else if (auto x = dyn_cast<BinaryConditionalOperator>(e)) { o["k"] = "cond"; o["c"] = expr(x->getCommon()); o["a"] = expr(x->getCommon()); o["b"] = expr(x->getFalseExpr()); }
    else if (auto x = dyn_cast<ArraySubscriptExpr>(e)) { o["k"] = "idx"; o["a"] = expr(x->getBase()); o["b"] = expr(x->getIdx()); }
    else if (auto x = dyn_cast<CXXThrowExpr>(e)) { o["k"] = "throw"; if (x->getSubExpr()) { o["e"] = expr(x->getSubExpr()); o["tt"] = type(x->getSubExpr()->getType().getUnqualifiedType()); if (auto r = x->getSubExpr()->getType()->getAsCXXRecordDecl()) record(r); } }
    else if (auto x = dyn_cast<CXXNewExpr>(e)) { o["k"] = "new"; o["at"] = type(x->getAllocatedType()); if (x->getConstructExpr()) o["e"] = expr(x->getConstructExpr()); else if (x->getInitializer()) o["e"] = expr(x->getInitializer()); }
    else if (auto x = dyn_cast<CXXDeleteExpr>(e)) { o["k"] = "delete"; o["e"] = expr(x->getArgument()); }
    else if (auto x = dyn_cast<CXXTypeidExpr>(e)) { o["k"] = "typeid"; if (x->isTypeOperand()) o["v"] = type(x->getTypeOperand(ctx)); else o["e"] = expr(x->getExprOperand()); }
    else if (auto x = dyn_cast<CXXDynamicCastExpr>(e)) { o["k"] = "dyncast"; o["e"] = expr(x->getSubExpr()); }
    else if (auto x = dyn_cast<ExplicitCastExpr>(e)) { o["k"] = "cast"; o["ck"] = x->getCastKindName(); o["e"] = expr(x->getSubExpr()); constval(o, e); }
    else if (isa<CXXScalarValueInitExpr>(e) || isa<ImplicitValueInitExpr>(e)) { o["k"] = "zero"; constval(o, e); }
    else if (isa<UnaryExprOrTypeTraitExpr>(e) || isa<TypeTraitExpr>(e) || isa<CXXNoexceptExpr>(e) || isa<SizeOfPackExpr>(e) || isa<RequiresExpr>(e)) { o["k"] = "const"; constval(o, e); }
    else if (auto x = dyn_cast<RecoveryExpr>(e)) { o["k"] = "recovery"; Array a; for (auto s : x->subExpressions()) a.push_back(expr(s)); o["a"] = std::move(a); }
    else {
      o["k"] = "unk"; o["c"] = e->getStmtClassName();
      Array a; for (auto c : e->children()) if (auto ce = dyn_cast_or_null<Expr>(c)) a.push_back(expr(ce)); o["a"] = std::move(a);
    }
    return o;
  }
  void varref(Object & o, const VarDecl * v)
  {
    o["k"] = "var"; o["d"] = declid(v); o["n"] = v->getNameAsString();
    if (v->hasGlobalStorage()) { o["g"] = str(qname(v)); if (v->isStaticLocal()) o["sl"] = 1; var(v); }
    if (isa<ParmVarDecl>(v)) o["p"] = 1;
    if (v->getType()->isReferenceType()) o["r"] = 1;
  }
  void enumref(Object & o, const EnumConstantDecl * c)
  {
    o["k"] = "enum"; o["n"] = str(qname(c)); llvm::SmallString<32> s; c->getInitVal().toString(s, 10); o["v"] = s.str().str();
    if (auto ed = dyn_cast<EnumDecl>(c->getDeclContext())) enumdecl(ed);
  }
  void declref(Object & o, const DeclRefExpr * x)
  {
    auto d = x->getDecl();
    if (auto v = dyn_cast<VarDecl>(d)) { varref(o, v); if (x->refersToEnclosingVariableOrCapture()) o["cap"] = 1; constval(o, x); floatval(o, x, v); }
    else if (auto c = dyn_cast<EnumConstantDecl>(d)) enumref(o, c);
    else if (auto f = dyn_cast<FunctionDecl>(d)) { o["k"] = "fn"; o["f"] = funcref(f); }
    else if (auto b = dyn_cast<BindingDecl>(d)) {
      o["k"] = "bind"; o["d"] = declid(b); o["n"] = b->getNameAsString();
    }
    else if (auto f = dyn_cast<FieldDecl>(d)) { o["k"] = "fld"; o["n"] = str(qname(f)); }
    else { o["k"] = "unk"; o["c"] = "DeclRef"; }
  }
  void call(Object & o, const CallExpr * x)
  {
    o["k"] = "call";
    Array a;
    const FunctionDecl * f = x->getDirectCallee();
    if (auto m = dyn_cast<CXXMemberCallExpr>(x)) {
      if (auto me = dyn_cast<MemberExpr>(m->getCallee()->IgnoreParens())) {
        o["o"] = expr(me->getBase());
        if (me->isArrow()) o["arrow"] = 1;
        if (me->hasQualifier()) o["nv"] = 1;
      } else o["fe"] = expr(m->getCallee());
      if (f) o["f"] = funcref(f);
      for (auto arg : m->arguments()) a.push_back(expr(arg));
    } else if (auto op = dyn_cast<CXXOperatorCallExpr>(x)) {
      o["op"] = getOperatorSpelling(op->getOperator());
      if (f) o["f"] = funcref(f);
      unsigned i = 0;
      if (auto m = dyn_cast_or_null<CXXMethodDecl>(f); m && !m->isStatic()) { if (op->getNumArgs()) o["o"] = expr(op->getArg(0)); i = 1; }
      for (; i < op->getNumArgs(); ++i) a.push_back(expr(op->getArg(i)));
    } else {
      if (f) o["f"] = funcref(f); else o["fe"] = expr(x->getCallee());
      for (auto arg : x->arguments()) a.push_back(expr(arg));
    }
    o["a"] = std::move(a);
    if (x->getType()->isIntegralOrEnumerationType()) constval(o, x);
  }
  void construct(Object & o, const CXXConstructExpr * x)
  {
    o["k"] = "ctor"; o["f"] = funcref(x->getConstructor());
    auto c = x->getConstructor();
    if (c->isCopyOrMoveConstructor()) o["cm"] = 1;
    if (c->isDefaultConstructor()) o["dc"] = 1;
    Array a; for (auto arg : x->arguments()) a.push_back(expr(arg)); o["a"] = std::move(a);
    record(c->getParent());
  }
  void lambda(Object & o, const LambdaExpr * x)
  {
    o["k"] = "lambda";
    auto cls = x->getLambdaClass();
    auto opc = x->getCallOperator();
    o["c"] = col(x->getBeginLoc());
    Array fs;
    if (auto t = opc->getDescribedFunctionTemplate()) {
      for (auto s : t->specializations()) { enqueue(s); if (s->hasBody() && !s->isDependentContext()) fs.push_back(str(key(s))); }
      o["generic"] = 1;
    } else { enqueue(opc); fs.push_back(str(key(opc))); }
    o["fs"] = std::move(fs);
    Array caps;
    auto init = x->capture_init_begin();
    for (auto & c : x->captures()) {
      Object co;
      if (c.capturesThis()) { co["this"] = 1; if (c.getCaptureKind() == LCK_StarThis) co["star"] = 1; }
      else if (c.capturesVariable()) {
        co["d"] = declid(c.getCapturedVar()); co["n"] = c.getCapturedVar()->getNameAsString(); if (c.getCaptureKind() == LCK_ByRef) co["ref"] = 1;
        if (auto vd = dyn_cast<VarDecl>(c.getCapturedVar()); vd && vd->isInitCapture()) { co["init"] = expr(vd->getInit()); }
      }
      caps.push_back(std::move(co));
      ++init;
    }
    o["caps"] = std::move(caps);
    if (x->getCaptureDefault() == LCD_ByRef) o["cdef"] = "&"; else if (x->getCaptureDefault() == LCD_ByCopy) o["cdef"] = "=";
    (void)cls;
  }

  Value vardecl(const VarDecl * v)
  {
    Object o;
    o["d"] = declid(v); o["n"] = v->getNameAsString(); o["t"] = type(v->getType()); o["l"] = line(v->getLocation());
    if (v->getInit()) o["i"] = expr(v->getInit());
    if (v->isStaticLocal()) { o["static"] = 1; o["g"] = str(qname(v)); }
    if (v->getType()->isReferenceType()) o["r"] = 1;
    if (auto r = v->getType()->getAsCXXRecordDecl()) if (in_repo(r)) record(r);
    if (auto d = dyn_cast<DecompositionDecl>(v)) {
      Array b;
      for (auto x : d->bindings()) { Object bo; bo["d"] = declid(x); bo["n"] = x->getNameAsString(); if (x->getBinding()) bo["e"] = expr(x->getBinding()); if (auto hv = x->getHoldingVar()) { bo["hv"] = declid(hv); if (hv->getInit()) bo["hi"] = expr(hv->getInit()); } b.push_back(std::move(bo)); }
      o["b"] = std::move(b);
    }
    return o;
  }

  Value stmt(const Stmt * s)
  {
    if (!s) return nul();
    if (auto e = dyn_cast<Expr>(s)) { Object o; o["k"] = "expr"; o["e"] = expr(e); o["l"] = line(s->getBeginLoc()); return o; }
    Object o;
    o["l"] = line(s->getBeginLoc());
    if (auto x = dyn_cast<CompoundStmt>(s)) { o["k"] = "block"; Array a; for (auto c : x->body()) a.push_back(stmt(c)); o["b"] = std::move(a); o["le"] = line(s->getEndLoc()); }
    else if (auto x = dyn_cast<DeclStmt>(s)) {
      o["k"] = "decl"; Array a;
      for (auto d : x->decls()) if (auto v = dyn_cast<VarDecl>(d)) a.push_back(vardecl(v));
      o["v"] = std::move(a);
    }
    else if (auto x = dyn_cast<IfStmt>(s)) {
      o["k"] = "if"; if (x->isConstexpr()) { o["cx"] = 1; if (auto nd = x->getNondiscardedCase(ctx)) { if (*nd) return stmt(*nd); else { o["k"] = "null"; return o; } } }
      if (x->getInit()) o["init"] = stmt(x->getInit());
      if (x->getConditionVariable()) o["cvar"] = vardecl(x->getConditionVariable());
      o["c"] = expr(x->getCond()); o["a"] = stmt(x->getThen()); if (x->getElse()) o["b"] = stmt(x->getElse());
    }
    else if (auto x = dyn_cast<SwitchStmt>(s)) { o["k"] = "switch"; if (x->getInit()) o["init"] = stmt(x->getInit()); if (x->getConditionVariable()) o["cvar"] = vardecl(x->getConditionVariable()); o["c"] = expr(x->getCond()); o["b"] = stmt(x->getBody()); }
    else if (auto x = dyn_cast<CaseStmt>(s)) {
      o["k"] = "case"; Expr::EvalResult r;
      if (!x->getLHS()->isValueDependent() && x->getLHS()->EvaluateAsInt(r, ctx)) { llvm::SmallString<32> t; r.Val.getInt().toString(t, 10); o["v"] = t.str().str(); }
      o["e"] = expr(x->getLHS()); o["s"] = stmt(x->getSubStmt());
    }
    else if (auto x = dyn_cast<DefaultStmt>(s)) { o["k"] = "default"; o["s"] = stmt(x->getSubStmt()); }
    else if (auto x = dyn_cast<WhileStmt>(s)) { o["k"] = "while"; if (x->getConditionVariable()) o["cvar"] = vardecl(x->getConditionVariable()); o["c"] = expr(x->getCond()); o["b"] = stmt(x->getBody()); }
    else if (auto x = dyn_cast<DoStmt>(s)) { o["k"] = "do"; o["c"] = expr(x->getCond()); o["b"] = stmt(x->getBody()); }
    else if (auto x = dyn_cast<ForStmt>(s)) { o["k"] = "for"; if (x->getInit()) o["init"] = stmt(x->getInit()); if (x->getCond()) o["c"] = expr(x->getCond()); if (x->getInc()) o["inc"] = expr(x->getInc()); o["b"] = stmt(x->getBody()); }
    else if (auto x = dyn_cast<CXXForRangeStmt>(s)) { o["k"] = "rfor"; if (x->getInit()) o["init"] = stmt(x->getInit()); if (x->getLoopVariable()) o["v"] = vardecl(x->getLoopVariable()); o["r"] = expr(x->getRangeInit()); o["b"] = stmt(x->getBody()); }
    else if (auto x = dyn_cast<ReturnStmt>(s)) { o["k"] = "ret"; if (x->getRetValue()) o["e"] = expr(x->getRetValue()); }
    else if (isa<BreakStmt>(s)) o["k"] = "break";
    else if (isa<ContinueStmt>(s)) o["k"] = "continue";
    else if (auto x = dyn_cast<GotoStmt>(s)) { o["k"] = "goto"; o["n"] = x->getLabel()->getNameAsString(); }
    else if (auto x = dyn_cast<LabelStmt>(s)) { o["k"] = "label"; o["n"] = x->getDecl()->getNameAsString(); o["s"] = stmt(x->getSubStmt()); }
    else if (auto x = dyn_cast<AttributedStmt>(s)) return stmt(x->getSubStmt());
    else if (auto x = dyn_cast<CXXTryStmt>(s)) {
      o["k"] = "try"; o["b"] = stmt(x->getTryBlock()); Array a;
      for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
        auto h = x->getHandler(i); Object ho; ho["l"] = line(h->getBeginLoc());
        if (h->getExceptionDecl()) { ho["v"] = vardecl(h->getExceptionDecl()); auto ct = h->getCaughtType().getNonReferenceType().getUnqualifiedType(); ho["t"] = type(ct); if (auto r = ct->getAsCXXRecordDecl()) record(r); }
        ho["b"] = stmt(h->getHandlerBlock()); a.push_back(std::move(ho));
      }
      o["h"] = std::move(a);
    }
    else if (isa<NullStmt>(s)) o["k"] = "null";
    else { o["k"] = "unkstmt"; o["c"] = s->getStmtClassName(); }
    return o;
  }

  void enumdecl(const EnumDecl * e)
  {
    e = e->getDefinition() ? e->getDefinition() : e;
    if (!enum_seen.insert(e->getCanonicalDecl()).second) return;
    Object o; o["file"] = str(file(e->getLocation())); o["l"] = line(e->getLocation());
    Array a;
    for (auto c : e->enumerators()) { llvm::SmallString<32> s; c->getInitVal().toString(s, 10); a.push_back(Array{c->getNameAsString(), s.str().str()}); }
    o["e"] = std::move(a);
    std::string n = qname(e);
    if (!enums.get(n)) enums[n] = std::move(o);
  }
  std::string rkey(const RecordDecl * r) { return ctx.getRecordType(r).getCanonicalType().getAsString(policy); }
  void record(const RecordDecl * r0)
  {
    auto r = r0->getDefinition();
    if (!r) return;
    if (!record_seen.insert(r->getCanonicalDecl()).second) return;
    Object o;
    bool inrepo = in_repo(r);
    o["n"] = str(qname(r)); o["file"] = str(file(r->getLocation())); o["l"] = line(r->getLocation());
    if (inrepo) o["repo"] = 1;
    if (r->isUnion()) o["union"] = 1;
    Array fs;
    for (auto f : r->fields()) {
      Object fo; fo["n"] = f->getNameAsString(); fo["q"] = str(qname(f)); fo["t"] = type(f->getType()); fo["l"] = line(f->getLocation());
      if (inrepo && f->getInClassInitializer()) fo["i"] = expr(f->getInClassInitializer());
      if (f->isMutable()) fo["mut"] = 1;
      fs.push_back(std::move(fo));
    }
    o["f"] = std::move(fs);
    if (auto c = dyn_cast<CXXRecordDecl>(r)) {
      Array bs;
      if (!c->isDependentType()) for (auto & b : c->bases()) { bs.push_back(str(b.getType().getCanonicalType().getAsString(policy))); if (auto br = b.getType()->getAsCXXRecordDecl()) record(br); }
      o["b"] = std::move(bs);
      if (inrepo) {
        Array ms;
        for (auto m : c->methods()) {
          Object mo; mo["k"] = str(key(m)); mo["n"] = m->getDeclName().getAsString(); mo["l"] = line(m->getLocation());
          if (m->isVirtual()) mo["v"] = 1;
          if (m->isPureVirtual()) mo["pure"] = 1;
          if (m->isStatic()) mo["st"] = 1;
          if (m->isConst()) mo["const"] = 1;
          if (m->isImplicit()) mo["imp"] = 1;
          mo["acc"] = (int)m->getAccess();
          Array ov; for (auto x : m->overridden_methods()) ov.push_back(str(key(x))); if (!ov.empty()) mo["ov"] = std::move(ov);
          ms.push_back(std::move(mo));
          if (!m->isImplicit() && !r->isDependentType()) enqueue(m);
        }
        o["m"] = std::move(ms);
      }
    }
    std::string k = rkey(r);
    if (auto c = dyn_cast<CXXRecordDecl>(r); c && (c->isLambda() || c->isLocalClass())) k += "@" + std::to_string(line(r->getLocation()));
    if (!records.get(k)) records[k] = std::move(o);
  }
  void var(const VarDecl * v0)
  {
    auto v = v0->getInitializingDeclaration() ? v0->getInitializingDeclaration() : v0;
    if (!var_seen.insert(v->getCanonicalDecl()).second) return;
    if (!in_repo(v)) return;
    if (v->getType()->isDependentType() || v->getDeclContext()->isDependentContext()) return;
    Object o;
    o["file"] = str(file(v->getLocation())); o["l"] = line(v->getLocation()); o["t"] = type(v->getType());
    if (v->getType().isConstQualified()) o["const"] = 1;
    if (v->getTSCSpec() == TSCS_thread_local) o["tls"] = 1;
    if (v->isStaticLocal()) o["sl"] = 1;
    if (v->getInit() && !v->getInit()->isValueDependent()) o["i"] = expr(v->getInit());
    std::string n = qname(v);
    if (v->isStaticLocal()) { n += "@" + std::to_string(line(v->getLocation())); }
    if (!vars.get(n)) vars[n] = std::move(o);
  }

  void function(const FunctionDecl * f)
  {
    Object o;
    o["n"] = str(qname(f)); o["file"] = str(file(f->getLocation())); o["l"] = line(f->getLocation()); o["le"] = line(f->getEndLoc()); o["c"] = col(f->getLocation());
    o["rt"] = type(f->getReturnType());
    Array ps;
    for (auto p : f->parameters()) { Object po; po["d"] = declid(p); po["n"] = p->getNameAsString(); po["t"] = type(p->getType()); if (p->getType()->isReferenceType()) po["r"] = 1; ps.push_back(std::move(po)); }
    o["p"] = std::move(ps);
    if (f->isTemplateInstantiation() || f->getTemplateSpecializationArgs()) { o["inst"] = 1; if (auto args = f->getTemplateSpecializationArgs()) { Array a; for (auto & x : args->asArray()) targ(a, x); o["ta"] = std::move(a); } }
    if (auto m = dyn_cast<CXXMethodDecl>(f)) {
      o["cls"] = str(rkey(m->getParent())); o["clsn"] = str(qname(m->getParent()));
      record(m->getParent());
      if (m->isStatic()) o["st"] = 1;
      if (m->isConst()) o["const"] = 1;
      if (m->isVirtual()) o["v"] = 1;
      if (m->getParent()->isLambda()) o["lam"] = 1;
      o["acc"] = (int)m->getAccess();
      Array ov; for (auto x : m->overridden_methods()) ov.push_back(str(key(x))); if (!ov.empty()) o["ov"] = std::move(ov);
    }
    if (auto pt = f->getType()->getAs<FunctionProtoType>()) if (pt->isNothrow()) o["nx"] = 1;
    if (isa<CXXDestructorDecl>(f)) o["dtor"] = 1;
    if (auto c = dyn_cast<CXXConstructorDecl>(f)) {
      o["ctor"] = 1;
      Array is;
      for (auto i : c->inits()) {
        Object io; io["l"] = line(i->getSourceLocation()); if (i->isWritten()) io["w"] = 1;
        if (i->isAnyMemberInitializer()) { io["f"] = str(qname(i->getAnyMember())); }
        else if (i->isBaseInitializer()) { io["b"] = str(QualType(i->getBaseClass(), 0).getCanonicalType().getAsString(policy)); }
        else io["deleg"] = 1;
        io["e"] = expr(i->getInit());
        is.push_back(std::move(io));
      }
      o["inits"] = std::move(is);
    }
    if (f->isDefaulted()) o["defaulted"] = 1;
    o["body"] = stmt(f->getBody());
    functions[key(f)] = std::move(o);
  }

  void run()
  {
    while (!work.empty()) { auto f = work.front(); work.pop_front(); function(f); }
  }
};

class Collector : public RecursiveASTVisitor<Collector>
{
public:
  explicit Collector(Dumper & d) : d(d) {}
  Dumper & d;
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool VisitFunctionDecl(FunctionDecl * f)
  {
    if (f->isThisDeclarationADefinition() && !f->isDependentContext()) d.enqueue(f);
    return true;
  }
  bool VisitEnumDecl(EnumDecl * e) { if (e->isThisDeclarationADefinition() && d.in_repo(e)) d.enumdecl(e); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl * r) { if (r->isThisDeclarationADefinition() && !r->isDependentType() && d.in_repo(r) && !r->isLambda()) d.record(r); return true; }
  bool VisitVarDecl(VarDecl * v) { if (v->hasGlobalStorage() && !v->isStaticLocal() && d.in_repo(v)) d.var(v); return true; }
};

class Consumer : public ASTConsumer
{
public:
  Consumer(CompilerInstance & ci, std::string out) : ci(ci), out(std::move(out)) {}
  CompilerInstance & ci;
  std::string out;
  void HandleTranslationUnit(ASTContext & ctx) override
  {
    Dumper d(ctx);
    Collector collector(d);
    for (auto top_decl : ctx.getTranslationUnitDecl()->decls())
      if (d.in_repo(top_decl)) collector.TraverseDecl(top_decl);
    d.run();
    Object top;
    Array strs;
    for (auto & s : d.strings) strs.push_back(llvm::json::fixUTF8(s));
    Array errs;
    for (auto & e : g_error_texts) errs.push_back(llvm::json::fixUTF8(e));
    top["functions"] = std::move(d.functions); top["records"] = std::move(d.records); top["enums"] = std::move(d.enums); top["vars"] = std::move(d.vars); top["strings"] = std::move(strs); top["errors"] = std::move(errs);
    Array deps;
    auto & sm = ctx.getSourceManager();
    for (auto it = sm.fileinfo_begin(); it != sm.fileinfo_end(); ++it) { auto p = it->first.getFileEntry().tryGetRealPathName(); if (p.starts_with(g_root + "/")) deps.push_back(p.str()); }
    top["deps"] = std::move(deps);
    std::error_code ec;
    llvm::raw_fd_ostream os(out, ec);
    os << Value(std::move(top));
  }
};

class Action : public ASTFrontendAction
{
public:
  explicit Action(std::string out) : out(std::move(out)) {}
  std::string out;
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance & ci, StringRef) override
  {
    ci.getDiagnostics().setErrorLimit(0);
    return std::make_unique<Consumer>(ci, out);
  }
};

// usage: ssfacts OUT.json [--root DIR] [--also DIR] -- clang args...
int main(int argc, const char ** argv)
{
  std::string out = argv[1];
  std::vector<std::string> args{"clang++"};
  int i = 2;
  for (; i < argc && std::string(argv[i]) != "--"; ++i) {
    if (std::string(argv[i]) == "--root") g_root = argv[++i];
    else if (std::string(argv[i]) == "--also") g_extra_roots.push_back(argv[++i]);
  }
  for (++i; i < argc; ++i) args.push_back(argv[i]);
  args.push_back("-fsyntax-only");
  args.push_back("-w");
  DiagCount diags;
  llvm::IntrusiveRefCntPtr<FileManager> fm(new FileManager(FileSystemOptions()));
  tooling::ToolInvocation inv(args, std::make_unique<Action>(out), fm.get());
  inv.setDiagnosticConsumer(&diags);
  inv.run();
  llvm::errs() << "errors=" << g_errors << "\n";
  return 0;
}
