// Exports the resolved (type-checked) program of one or more translation units as JSON:
// every function whose definition lies under --root, with its body as a compact syntax tree
// whose callees, members and constants are already resolved by clang.
#include <map>
#include <set>
#include <string>
#include <fstream>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
namespace json = llvm::json;

static std::string g_root, g_out;

namespace {

class Exporter {
 public:
  explicit Exporter(ASTContext& c)
      : ctx(c), sm(c.getSourceManager()), mangle(c.createMangleContext()), pp(c.getPrintingPolicy()) {
    pp.SuppressTagKeyword = true;
    pp.Bool = true;
    pp.FullyQualifiedName = true;
    pp.PrintCanonicalTypes = true;
    pp.TerseOutput = true;
  }

  ASTContext& ctx;
  SourceManager& sm;
  std::unique_ptr<MangleContext> mangle;
  PrintingPolicy pp;
  json::Object functions, records, globals, types, enums;
  std::map<const Decl*, int> ids;
  int next = 1;

  int did(const Decl* d) {
    d = d->getCanonicalDecl();
    auto [it, fresh] = ids.try_emplace(d, next);
    if (fresh) ++next;
    return it->second;
  }

  std::string fileOf(SourceLocation l) {
    l = sm.getExpansionLoc(l);
    auto f = sm.getFilename(l);
    return f.str();
  }
  bool inRoot(SourceLocation l) {
    if (l.isInvalid()) return false;
    auto f = fileOf(l);
    return f.compare(0, g_root.size(), g_root) == 0;
  }
  int line(SourceLocation l) { return static_cast<int>(sm.getExpansionLineNumber(l)); }

  std::string qname(const NamedDecl* d) {
    std::string s;
    llvm::raw_string_ostream os(s);
    d->printQualifiedName(os, pp);
    return s;
  }

  std::string fnId(const FunctionDecl* f) {
    if (f->isDependentContext()) return "dep:" + qname(f);
    std::string s;
    llvm::raw_string_ostream os(s);
    GlobalDecl gd;
    if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
      gd = GlobalDecl(c, Ctor_Complete);
    } else if (auto* d = dyn_cast<CXXDestructorDecl>(f)) {
      gd = GlobalDecl(d, Dtor_Complete);
    } else {
      gd = GlobalDecl(f);
    }
    if (mangle->shouldMangleDeclName(f)) {
      mangle->mangleName(gd, os);
    } else {
      os << f->getNameAsString();
    }
    // internal linkage: add the file
    if (f->getFormalLinkage() == Linkage::Internal || !f->isExternallyVisible()) {
      os << "@" << fileOf(f->getLocation());
    }
    return s;
  }

  std::string ty(QualType t) {
    if (t.isNull()) return "?";
    t = t.getCanonicalType();
    std::string s = t.getAsString(pp);
    if (types.get(s) == nullptr) {
      types[s] = nullptr;  // break recursion
      types[s] = tyInfo(t);
    }
    return s;
  }

  json::Value tyInfo(QualType t) {
    json::Object o;
    if (t.isConstQualified()) o["const"] = true;
    QualType u = t.getUnqualifiedType();
    if (t->isDependentType()) {
      o["k"] = "dep";
    } else if (auto* r = u->getAs<ReferenceType>()) {
      o["k"] = "ref";
      o["to"] = ty(r->getPointeeType());
      if (isa<RValueReferenceType>(r)) o["rv"] = true;
    } else if (auto* p = u->getAs<PointerType>()) {
      o["k"] = "ptr";
      o["to"] = ty(p->getPointeeType());
    } else if (u->isBooleanType()) {
      o["k"] = "bool";
    } else if (auto* e = u->getAs<EnumType>()) {
      o["k"] = "enum";
      o["q"] = qname(e->getDecl());
      if (e->getDecl()->isComplete()) {
        auto ut = e->getDecl()->getIntegerType();
        o["bits"] = static_cast<int64_t>(ctx.getTypeSize(ut));
        o["sg"] = ut->isSignedIntegerType();
      }
    } else if (u->isIntegerType()) {
      o["k"] = "int";
      o["bits"] = static_cast<int64_t>(ctx.getTypeSize(u));
      o["sg"] = u->isSignedIntegerType();
    } else if (u->isFloatingType()) {
      o["k"] = "float";
      o["bits"] = static_cast<int64_t>(ctx.getTypeSize(u));
    } else if (u->isVoidType()) {
      o["k"] = "void";
    } else if (auto* at = ctx.getAsConstantArrayType(u)) {
      o["k"] = "carray";
      o["to"] = ty(at->getElementType());
      o["n"] = static_cast<int64_t>(at->getSize().getZExtValue());
    } else if (auto* rt = u->getAs<RecordType>()) {
      o["k"] = "rec";
      auto* rd = rt->getDecl();
      o["q"] = qname(rd);
      if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(rd)) {
        json::Array a;
        for (auto& arg : sp->getTemplateArgs().asArray()) addTArg(a, arg);
        o["targs"] = std::move(a);
      }
      o["abs"] = false;
      if (auto* cr = dyn_cast<CXXRecordDecl>(rd)) {
        if (cr->hasDefinition()) o["abs"] = cr->isAbstract();
        if (cr->isLambda()) o["lambda"] = true;
      }
    } else if (u->isFunctionType()) {
      o["k"] = "fn";
    } else if (u->isNullPtrType()) {
      o["k"] = "nullptr";
    } else {
      o["k"] = "other";
    }
    return o;
  }

  void addTArg(json::Array& a, const TemplateArgument& arg) {
    switch (arg.getKind()) {
      case TemplateArgument::Type:
        a.push_back(ty(arg.getAsType()));
        break;
      case TemplateArgument::Integral:
        a.push_back(static_cast<int64_t>(arg.getAsIntegral().getExtValue()));
        break;
      case TemplateArgument::Pack:
        for (auto& x : arg.pack_elements()) addTArg(a, x);
        break;
      default:
        a.push_back("?");
    }
  }

  // ---------------------------------------------------------------- expressions
  const Expr* strip(const Expr* e) {
    while (true) {
      if (auto* p = dyn_cast<ParenExpr>(e)) e = p->getSubExpr();
      else if (auto* p = dyn_cast<FullExpr>(e)) e = p->getSubExpr();
      else if (auto* p = dyn_cast<MaterializeTemporaryExpr>(e)) e = p->getSubExpr();
      else if (auto* p = dyn_cast<CXXBindTemporaryExpr>(e)) e = p->getSubExpr();
      else if (auto* p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = p->getReplacement();
      else if (auto* p = dyn_cast<CXXDefaultArgExpr>(e)) e = p->getExpr();
      else if (auto* p = dyn_cast<CXXDefaultInitExpr>(e)) e = p->getExpr();
      else if (auto* p = dyn_cast<CXXStdInitializerListExpr>(e)) e = p->getSubExpr();
      else if (auto* p = dyn_cast<OpaqueValueExpr>(e)) {
        if (!p->getSourceExpr()) return e;
        e = p->getSourceExpr();
      } else if (auto* p = dyn_cast<CXXRewrittenBinaryOperator>(e)) e = p->getSemanticForm();
      else if (auto* p = dyn_cast<ImplicitCastExpr>(e)) {
        switch (p->getCastKind()) {
          case CK_NoOp: case CK_LValueToRValue: case CK_ArrayToPointerDecay: case CK_FunctionToPointerDecay:
          case CK_UserDefinedConversion: case CK_ConstructorConversion: case CK_DerivedToBase:
          case CK_UncheckedDerivedToBase: case CK_BuiltinFnToFnPtr: case CK_LValueBitCast: case CK_AtomicToNonAtomic:
            e = p->getSubExpr();
            break;
          default:
            return e;
        }
      } else return e;
    }
  }

  json::Value expr(const Expr* e0) {
    if (!e0) return nullptr;
    const Expr* e = strip(e0);
    json::Object o;
    o["l"] = line(e->getExprLoc());
    QualType t = e->getType();
    if (!e->isValueDependent() && !e->isTypeDependent() && t->isIntegralOrEnumerationType()) {
      Expr::EvalResult r;
      if (e->isPRValue() || isa<DeclRefExpr>(e)) {
        bool skip = false;
        if (auto* dr = dyn_cast<DeclRefExpr>(e)) {
          auto* vd = dyn_cast<VarDecl>(dr->getDecl());
          // only fold globals and constants
          if (vd && vd->hasLocalStorage() ) skip = true;
        }
        if (!skip && e->EvaluateAsInt(r, ctx) && !r.HasSideEffects) {
          auto v = r.Val.getInt();
          o["k"] = "int";
          llvm::SmallString<32> s;
          v.toString(s, 10);
          o["v"] = s.str().str();
          o["t"] = ty(t);
          return o;
        }
      }
    }
    o["t"] = ty(t);
    if (e->isGLValue()) o["lv"] = true;
    if (auto* x = dyn_cast<FloatingLiteral>(e)) {
      o["k"] = "flt";
      o["v"] = x->getValueAsApproximateDouble();
    } else if (auto* x = dyn_cast<StringLiteral>(e)) {
      o["k"] = "str";
      auto raw = x->getBytes().str();
      o["v"] = json::isUTF8(raw) ? raw : json::fixUTF8(raw);
    } else if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) {
      o["k"] = "null";
    } else if (isa<CXXThisExpr>(e)) {
      o["k"] = "this";
    } else if (auto* x = dyn_cast<DeclRefExpr>(e)) {
      o["k"] = "ref";
      auto* d = x->getDecl();
      o["n"] = d->getNameAsString();
      if (auto* f = dyn_cast<FunctionDecl>(d)) {
        o["dk"] = "func";
        o["fn"] = fnId(f);
        o["q"] = qname(f);
      } else if (auto* v = dyn_cast<VarDecl>(d)) {
        o["d"] = did(v);
        if (v->hasLocalStorage()) o["dk"] = isa<ParmVarDecl>(v) ? "param" : "local";
        else if (v->isStaticLocal()) { o["dk"] = "static"; }
        else { o["dk"] = "global"; o["q"] = qname(v); noteGlobal(v); }
      } else if (auto* b = dyn_cast<BindingDecl>(d)) {
        o["dk"] = "binding";
        o["d"] = did(b);
      } else {
        o["dk"] = "other";
        o["q"] = qname(d);
      }
    } else if (auto* x = dyn_cast<MemberExpr>(e)) {
      if (auto* vd = dyn_cast<VarDecl>(x->getMemberDecl())) {
        o["k"] = "ref"; o["dk"] = "global"; o["d"] = did(vd); o["q"] = qname(vd); o["n"] = vd->getNameAsString();
        noteGlobal(vd);
      } else {
        o["k"] = "mem";
        o["f"] = x->getMemberDecl()->getNameAsString();
        o["b"] = expr(x->getBase());
        if (x->isArrow()) o["arrow"] = true;
        if (auto* fd = dyn_cast<FieldDecl>(x->getMemberDecl())) o["c"] = qname(fd->getParent());
      }
    } else if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
      o["k"] = "mcall";
      auto* me = dyn_cast<MemberExpr>(strip(x->getCallee()));
      auto* md = x->getMethodDecl();
      if (md) {
        o["fn"] = fnId(md);
        o["q"] = qname(md);
        o["n"] = md->getNameAsString();
        if (md->isVirtual() && !(me && me->hasQualifier())) o["virt"] = true;
        if (md->isConst()) o["cm"] = true;
        o["cls"] = qname(md->getParent());
        if (isa<CXXConversionDecl>(md)) o["conv"] = true;
        targs(o, md);
      }
      if (me) {
        o["obj"] = expr(me->getBase());
        if (me->isArrow()) o["arrow"] = true;
      }
      args(o, x, 0, x->getNumArgs());
    } else if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
      o["k"] = "opcall";
      o["op"] = getOperatorSpelling(x->getOperator());
      if (auto* f = x->getDirectCallee()) {
        o["fn"] = fnId(f);
        o["q"] = qname(f);
        auto* md = dyn_cast<CXXMethodDecl>(f);
        if (md && !md->isStatic()) o["mem"] = true;
        if (md && md->isConst()) o["cm"] = true;
        targs(o, f);
      }
      args(o, x, 0, x->getNumArgs());
    } else if (auto* x = dyn_cast<CallExpr>(e)) {
      o["k"] = "call";
      if (auto* f = x->getDirectCallee()) {
        o["fn"] = fnId(f);
        o["q"] = qname(f);
        targs(o, f);
      } else {
        o["callee"] = expr(x->getCallee());
      }
      args(o, x, 0, x->getNumArgs());
    } else if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
      auto* cd = x->getConstructor();
      o["k"] = "ctor";
      o["fn"] = fnId(cd);
      o["q"] = qname(cd->getParent());
      if (cd->isCopyConstructor()) o["copy"] = true;
      if (cd->isMoveConstructor()) o["move"] = true;
      if (cd->isDefaultConstructor()) o["dflt"] = true;
      if (x->isListInitialization()) o["list"] = true;
      if (x->requiresZeroInitialization()) o["zero"] = true;
      args2(o, x->getArgs(), x->getNumArgs());
    } else if (auto* x = dyn_cast<InitListExpr>(e)) {
      const InitListExpr* il = x->isSemanticForm() ? x : (x->getSemanticForm() ? x->getSemanticForm() : x);
      o["k"] = "ilist";
      json::Array a;
      for (auto* i : il->inits()) a.push_back(expr(i));
      o["inits"] = std::move(a);
      if (auto* rd = t->getAsCXXRecordDecl()) {
        json::Array f;
        for (auto& b : rd->bases()) f.push_back("base:" + ty(b.getType()));
        for (auto* fd : rd->fields()) f.push_back(fd->getNameAsString());
        o["fields"] = std::move(f);
        o["q"] = qname(rd);
      }
      if (il->hasArrayFiller()) o["filler"] = expr(il->getArrayFiller());
    } else if (auto* x = dyn_cast<CXXParenListInitExpr>(e)) {
      o["k"] = "ilist";
      json::Array a;
      for (auto* i : x->getInitExprs()) a.push_back(expr(i));
      o["inits"] = std::move(a);
    } else if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) {
      o["k"] = "zero";
    } else if (auto* x = dyn_cast<BinaryOperator>(e)) {
      o["k"] = x->isAssignmentOp() ? "assign" : "bin";
      o["op"] = x->getOpcodeStr().str();
      if (auto* ca = dyn_cast<CompoundAssignOperator>(e)) o["ct"] = ty(ca->getComputationResultType());
      o["a"] = expr(x->getLHS());
      o["b"] = expr(x->getRHS());
    } else if (auto* x = dyn_cast<UnaryOperator>(e)) {
      o["k"] = "un";
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      if (x->isPostfix()) o["post"] = true;
      o["a"] = expr(x->getSubExpr());
    } else if (auto* x = dyn_cast<ConditionalOperator>(e)) {
      o["k"] = "cond";
      o["c"] = expr(x->getCond());
      o["a"] = expr(x->getTrueExpr());
      o["b"] = expr(x->getFalseExpr());
    } else if (auto* x = dyn_cast<CastExpr>(e)) {
      o["k"] = "cast";
      o["ck"] = x->getCastKindName();
      if (isa<ImplicitCastExpr>(x)) o["impl"] = true;
      o["e"] = expr(x->getSubExpr());
    } else if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
      o["k"] = "idx";
      o["b"] = expr(x->getBase());
      o["i"] = expr(x->getIdx());
    } else if (auto* x = dyn_cast<LambdaExpr>(e)) {
      lambda(o, x);
    } else if (auto* x = dyn_cast<CXXNewExpr>(e)) {
      o["k"] = "new";
      o["at"] = ty(x->getAllocatedType());
      if (x->isArray()) {
        o["arr"] = true;
        if (x->getArraySize()) o["n"] = expr(*x->getArraySize());
      }
      o["init"] = expr(x->getInitializer());
      if (x->getConstructExpr()) o["init"] = expr(x->getConstructExpr());
    } else if (auto* x = dyn_cast<CXXDeleteExpr>(e)) {
      o["k"] = "delete";
      o["arr"] = x->isArrayForm();
      o["e"] = expr(x->getArgument());
    } else if (auto* x = dyn_cast<CXXThrowExpr>(e)) {
      o["k"] = "throw";
      if (x->getSubExpr()) {
        o["e"] = expr(x->getSubExpr());
        o["et"] = ty(x->getSubExpr()->getType());
      }
    } else if (isa<PredefinedExpr>(e)) {
      o["k"] = "str";
      o["v"] = "__func__";
    } else if (auto* x = dyn_cast<CXXTypeidExpr>(e)) {
      (void)x;
      o["k"] = "typeid";
    } else {
      o["k"] = "other";
      o["cn"] = e->getStmtClassName();
      json::Array a;
      for (auto* c : e->children())
        if (auto* ce = dyn_cast_or_null<Expr>(c)) a.push_back(expr(ce));
      o["kids"] = std::move(a);
    }
    return o;
  }

  void targs(json::Object& o, const FunctionDecl* f) {
    if (auto* ta = f->getTemplateSpecializationArgs()) {
      json::Array a;
      for (auto& arg : ta->asArray()) addTArg(a, arg);
      o["targs"] = std::move(a);
    }
  }
  void args(json::Object& o, const CallExpr* x, unsigned from, unsigned to) {
    json::Array a;
    for (unsigned i = from; i < to; ++i) a.push_back(expr(x->getArg(i)));
    o["args"] = std::move(a);
  }
  void args2(json::Object& o, const Expr* const* xs, unsigned n) {
    json::Array a;
    for (unsigned i = 0; i < n; ++i) a.push_back(expr(xs[i]));
    o["args"] = std::move(a);
  }

  json::Value params(const FunctionDecl* f) {
    json::Array a;
    for (auto* p : f->parameters()) {
      json::Object q;
      q["d"] = did(p);
      q["n"] = p->getNameAsString();
      q["t"] = ty(p->getType());
      a.push_back(std::move(q));
    }
    return a;
  }

  void lambda(json::Object& o, const LambdaExpr* x) {
    o["k"] = "lambda";
    json::Array caps;
    for (auto& c : x->captures()) {
      json::Object q;
      if (c.capturesThis()) {
        q["k"] = "this";
      } else if (c.capturesVariable()) {
        q["k"] = c.getCaptureKind() == LCK_ByRef ? "ref" : "copy";
        q["d"] = did(c.getCapturedVar());
        q["n"] = c.getCapturedVar()->getNameAsString();
        if (auto* vd = dyn_cast<VarDecl>(c.getCapturedVar()); vd && vd->isInitCapture() && vd->getInit())
          q["init"] = expr(vd->getInit());
      }
      caps.push_back(std::move(q));
    }
    o["caps"] = std::move(caps);
    const CXXMethodDecl* op = x->getCallOperator();
    if (x->isGenericLambda()) {
      o["generic"] = true;
      if (auto* ft = x->getDependentCallOperator()) {
        for (auto* sp : ft->specializations()) {
          if (sp->hasBody() || sp->getBody()) { op = cast<CXXMethodDecl>(sp); break; }
        }
      }
    }
    o["params"] = params(op);
    const Stmt* b = op->getBody();
    o["body"] = b ? stmt(b) : stmt(x->getBody());
  }

  // ---------------------------------------------------------------- statements
  json::Value var(const VarDecl* v) {
    json::Object o;
    o["d"] = did(v);
    o["n"] = v->getNameAsString();
    o["t"] = ty(v->getType());
    o["l"] = line(v->getLocation());
    if (v->isStaticLocal()) o["static"] = true;
    if (v->getInit()) o["init"] = expr(v->getInit());
    return o;
  }

  void switchItems(const Stmt* s, json::Array& out) {
    if (auto* c = dyn_cast<CompoundStmt>(s)) {
      for (auto* x : c->body()) switchItems(x, out);
    } else if (auto* cs = dyn_cast<CaseStmt>(s)) {
      json::Object o;
      o["case"] = expr(cs->getLHS());
      out.push_back(std::move(o));
      switchItems(cs->getSubStmt(), out);
    } else if (auto* ds = dyn_cast<DefaultStmt>(s)) {
      json::Object o;
      o["default"] = true;
      out.push_back(std::move(o));
      switchItems(ds->getSubStmt(), out);
    } else {
      json::Object o;
      o["stmt"] = stmt(s);
      out.push_back(std::move(o));
    }
  }

  json::Value stmt(const Stmt* s) {
    if (!s) return nullptr;
    json::Object o;
    o["l"] = line(s->getBeginLoc());
    if (auto* x = dyn_cast<CompoundStmt>(s)) {
      o["k"] = "block";
      json::Array a;
      for (auto* c : x->body()) a.push_back(stmt(c));
      o["s"] = std::move(a);
      o["end"] = line(x->getEndLoc());
    } else if (auto* x = dyn_cast<DeclStmt>(s)) {
      o["k"] = "decl";
      json::Array a;
      for (auto* d : x->decls()) {
        if (auto* dd = dyn_cast<DecompositionDecl>(d)) {
          auto j = var(dd);
          json::Array b;
          for (auto* bd : dd->bindings()) {
            json::Object q;
            q["d"] = did(bd);
            q["n"] = bd->getNameAsString();
            q["e"] = bd->getBinding() ? expr(bd->getBinding()) : json::Value(nullptr);
            b.push_back(std::move(q));
          }
          (*j.getAsObject())["bind"] = std::move(b);
          a.push_back(std::move(j));
        } else if (auto* vd = dyn_cast<VarDecl>(d)) {
          a.push_back(var(vd));
        }
      }
      o["vars"] = std::move(a);
    } else if (auto* x = dyn_cast<IfStmt>(s)) {
      o["k"] = "if";
      if (x->getInit()) o["init"] = stmt(x->getInit());
      if (x->getConditionVariable()) o["cv"] = var(x->getConditionVariable());
      o["c"] = expr(x->getCond());
      o["a"] = stmt(x->getThen());
      o["b"] = stmt(x->getElse());
    } else if (auto* x = dyn_cast<ForStmt>(s)) {
      o["k"] = "for";
      o["i"] = stmt(x->getInit());
      o["c"] = expr(x->getCond());
      o["n"] = expr(x->getInc());
      o["b"] = stmt(x->getBody());
    } else if (auto* x = dyn_cast<WhileStmt>(s)) {
      o["k"] = "while";
      if (x->getConditionVariable()) o["cv"] = var(x->getConditionVariable());
      o["c"] = expr(x->getCond());
      o["b"] = stmt(x->getBody());
    } else if (auto* x = dyn_cast<DoStmt>(s)) {
      o["k"] = "do";
      o["c"] = expr(x->getCond());
      o["b"] = stmt(x->getBody());
    } else if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
      o["k"] = "rfor";
      if (x->getInit()) o["init"] = stmt(x->getInit());
      o["range"] = expr(x->getRangeInit());
      auto* lv = x->getLoopVariable();
      auto j = json::Object();
      j["d"] = did(lv);
      j["n"] = lv->getNameAsString();
      j["t"] = ty(lv->getType());
      j["l"] = line(lv->getLocation());
      if (auto* dd = dyn_cast<DecompositionDecl>(lv)) {
        json::Array b;
        for (auto* bd : dd->bindings()) {
          json::Object q;
          q["d"] = did(bd);
          q["n"] = bd->getNameAsString();
          q["e"] = bd->getBinding() ? expr(bd->getBinding()) : json::Value(nullptr);
          b.push_back(std::move(q));
        }
        j["bind"] = std::move(b);
      }
      o["var"] = std::move(j);
      o["b"] = stmt(x->getBody());
    } else if (auto* x = dyn_cast<SwitchStmt>(s)) {
      o["k"] = "switch";
      if (x->getInit()) o["init"] = stmt(x->getInit());
      o["c"] = expr(x->getCond());
      json::Array a;
      switchItems(x->getBody(), a);
      o["items"] = std::move(a);
    } else if (auto* x = dyn_cast<ReturnStmt>(s)) {
      o["k"] = "return";
      o["e"] = expr(x->getRetValue());
    } else if (isa<BreakStmt>(s)) {
      o["k"] = "break";
    } else if (isa<ContinueStmt>(s)) {
      o["k"] = "continue";
    } else if (isa<NullStmt>(s)) {
      o["k"] = "nullstmt";
    } else if (auto* x = dyn_cast<CXXTryStmt>(s)) {
      o["k"] = "try";
      o["b"] = stmt(x->getTryBlock());
      json::Array a;
      for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
        auto* h = x->getHandler(i);
        json::Object q;
        if (h->getExceptionDecl()) {
          q["t"] = ty(h->getExceptionDecl()->getType());
          q["d"] = did(h->getExceptionDecl());
        }
        q["b"] = stmt(h->getHandlerBlock());
        a.push_back(std::move(q));
      }
      o["h"] = std::move(a);
    } else if (auto* x = dyn_cast<AttributedStmt>(s)) {
      return stmt(x->getSubStmt());
    } else if (auto* x = dyn_cast<LabelStmt>(s)) {
      o["k"] = "otherstmt";
      o["cn"] = "LabelStmt";
      (void)x;
    } else if (auto* x = dyn_cast<Expr>(s)) {
      o["k"] = "expr";
      o["e"] = expr(x);
    } else {
      o["k"] = "otherstmt";
      o["cn"] = s->getStmtClassName();
    }
    return o;
  }

  // ---------------------------------------------------------------- declarations
  void noteGlobal(const VarDecl* v) {
    auto q = qname(v);
    if (globals.get(q)) return;
    if (!inRoot(v->getLocation())) return;
    globals[q] = nullptr;
    globalVar(v);
  }

  void globalVar(const VarDecl* v) {
    const VarDecl* def = v->getAnyInitializer() ? v : v;
    const VarDecl* idecl = nullptr;
    const Expr* init = v->getAnyInitializer(idecl);
    if (idecl) def = idecl;
    json::Object o;
    o["t"] = ty(v->getType());
    o["file"] = fileOf(def->getLocation());
    o["line"] = line(def->getLocation());
    o["const"] = v->getType().isConstQualified();
    o["constexpr"] = v->isConstexpr();
    o["static_local"] = v->isStaticLocal();
    o["tls"] = v->getTLSKind() != VarDecl::TLS_None;
    if (init && !v->getDeclContext()->isDependentContext()) o["init"] = expr(init);
    std::string q = qname(v);
    if (v->isStaticLocal())
      if (auto* f = dyn_cast<FunctionDecl>(v->getDeclContext())) o["in"] = qname(f);
    globals[q] = std::move(o);
  }

  void function(const FunctionDecl* f) {
    if (f->isDependentContext()) return;
    auto id = fnId(f);
    if (functions.get(id)) return;
    json::Object o;
    functions[id] = nullptr;
    o["q"] = qname(f);
    o["n"] = f->getNameAsString();
    o["file"] = fileOf(f->getLocation());
    o["line"] = line(f->getLocation());
    o["ret"] = ty(f->getReturnType());
    o["params"] = params(f);
    targs(o, f);
    if (f->isExternC()) o["extern_c"] = true;
    if (f->getFormalLinkage() == Linkage::Internal) o["internal"] = true;
    if (auto* md = dyn_cast<CXXMethodDecl>(f)) {
      o["cls"] = qname(md->getParent());
      o["const"] = md->isConst();
      o["static"] = md->isStatic();
      o["virtual"] = md->isVirtual();
      o["access"] = static_cast<int64_t>(md->getAccess());
      json::Array ov;
      for (auto* b : md->overridden_methods()) ov.push_back(fnId(b));
      o["overrides"] = std::move(ov);
    }
    if (f->isDefaulted()) o["defaulted"] = true;
    if (f->isImplicit()) o["implicit"] = true;
    if (auto* cd = dyn_cast<CXXConstructorDecl>(f)) {
      o["isctor"] = true;
      if (cd->isCopyConstructor()) o["copy"] = true;
      if (cd->isMoveConstructor()) o["move"] = true;
      json::Array a;
      for (auto* in : cd->inits()) {
        json::Object q;
        if (in->isMemberInitializer()) q["f"] = in->getMember()->getNameAsString();
        else if (in->isBaseInitializer()) q["base"] = ty(QualType(in->getBaseClass(), 0));
        else if (in->isDelegatingInitializer()) q["deleg"] = true;
        q["written"] = in->isWritten();
        q["l"] = line(in->getSourceLocation());
        if (in->getInit()) {
          q["e"] = expr(in->getInit());
          if (isa<CXXDefaultInitExpr>(in->getInit())) q["dflt"] = true;
        }
        a.push_back(std::move(q));
      }
      o["inits"] = std::move(a);
    }
    if (isa<CXXDestructorDecl>(f)) o["isdtor"] = true;
    const Stmt* b = f->getBody();
    if (b) {
      o["body"] = stmt(b);
      o["endline"] = line(b->getEndLoc());
    }
    functions[id] = std::move(o);
  }

  void record(const CXXRecordDecl* r) {
    if (r->isDependentContext() || r->isLambda()) return;
    auto q = qname(r);
    if (records.get(q)) return;
    json::Object o;
    o["file"] = fileOf(r->getLocation());
    o["line"] = line(r->getLocation());
    o["abs"] = r->isAbstract();
    o["struct"] = r->isStruct();
    o["agg"] = r->isAggregate();
    o["poly"] = r->isPolymorphic();
    json::Array bs, fs, ms;
    for (auto& b : r->bases()) bs.push_back(ty(b.getType()));
    for (auto* f : r->fields()) {
      json::Object x;
      x["n"] = f->getNameAsString();
      x["t"] = ty(f->getType());
      x["l"] = line(f->getLocation());
      x["access"] = static_cast<int64_t>(f->getAccess());
      if (f->hasInClassInitializer() && f->getInClassInitializer()) x["init"] = expr(f->getInClassInitializer());
      fs.push_back(std::move(x));
    }
    for (auto* m : r->methods()) {
      json::Object x;
      x["fn"] = fnId(m);
      x["n"] = m->getNameAsString();
      x["q"] = qname(m);
      x["virtual"] = m->isVirtual();
      x["pure"] = m->isPureVirtual();
      x["deleted"] = m->isDeleted();
      x["implicit"] = m->isImplicit();
      x["defaulted"] = m->isDefaulted();
      x["access"] = static_cast<int64_t>(m->getAccess());
      x["const"] = m->isConst();
      x["isctor"] = isa<CXXConstructorDecl>(m);
      x["isdtor"] = isa<CXXDestructorDecl>(m);
      if (auto* c = dyn_cast<CXXConstructorDecl>(m)) {
        x["copy"] = c->isCopyConstructor();
        x["move"] = c->isMoveConstructor();
        x["dflt"] = c->isDefaultConstructor();
      }
      x["copyassign"] = m->isCopyAssignmentOperator();
      x["moveassign"] = m->isMoveAssignmentOperator();
      json::Array ps;
      for (auto* p : m->parameters()) ps.push_back(ty(p->getType()));
      x["params"] = std::move(ps);
      ms.push_back(std::move(x));
    }
    if (auto* d = r->getDestructor()) o["dtor_virtual"] = d->isVirtual();
    if (!r->isAbstract()) {
      o["copyable"] = r->hasSimpleCopyConstructor() || r->hasUserDeclaredCopyConstructor() ||
                      r->needsImplicitCopyConstructor();
    }
    o["bases"] = std::move(bs);
    o["fields"] = std::move(fs);
    o["methods"] = std::move(ms);
    records[q] = std::move(o);
  }

  void enumDecl(const EnumDecl* e) {
    json::Object o;
    for (auto* c : e->enumerators()) {
      llvm::SmallString<32> s;
      c->getInitVal().toString(s, 10);
      o[c->getNameAsString()] = s.str().str();
    }
    enums[qname(e)] = std::move(o);
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
 public:
  explicit Visitor(Exporter& e) : ex(e) {}
  Exporter& ex;
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool TraverseDecl(Decl* d) {
    if (!d) return true;
    if (isa<NamespaceDecl>(d) || isa<TranslationUnitDecl>(d) || isa<LinkageSpecDecl>(d))
      return RecursiveASTVisitor::TraverseDecl(d);
    if (!ex.inRoot(d->getLocation())) return true;
    return RecursiveASTVisitor::TraverseDecl(d);
  }
  bool VisitFunctionDecl(FunctionDecl* f) {
    if (!f->isThisDeclarationADefinition() && !f->isDefaulted()) return true;
    if (!ex.inRoot(f->getLocation())) return true;
    if (auto* md = dyn_cast<CXXMethodDecl>(f)) {
      if (md->getParent()->isLambda()) return true;
    }
    if (f->isDeleted()) return true;
    ex.function(f);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* r) {
    if (r->isThisDeclarationADefinition()) ex.record(r);
    return true;
  }
  bool VisitVarDecl(VarDecl* v) {
    if (v->hasGlobalStorage() && !v->getDeclContext()->isDependentContext()) {
      ex.noteGlobal(v);
    }
    return true;
  }
  bool VisitEnumDecl(EnumDecl* e) {
    if (e->isThisDeclarationADefinition() && !e->getDeclContext()->isDependentContext()) ex.enumDecl(e);
    return true;
  }
};

class Consumer : public ASTConsumer {
 public:
  explicit Consumer(std::string f) : file(std::move(f)) {}
  std::string file;
  void HandleTranslationUnit(ASTContext& ctx) override {
    if (ctx.getDiagnostics().hasErrorOccurred()) return;
    Exporter ex(ctx);
    Visitor v(ex);
    v.TraverseDecl(ctx.getTranslationUnitDecl());
    json::Object o;
    o["file"] = file;
    o["functions"] = std::move(ex.functions);
    o["records"] = std::move(ex.records);
    o["globals"] = std::move(ex.globals);
    o["types"] = std::move(ex.types);
    o["enums"] = std::move(ex.enums);
    std::error_code ec;
    llvm::raw_fd_ostream os(g_out, ec);
    os << json::Value(std::move(o)) << "\n";
  }
};

class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef f) override {
    return std::make_unique<Consumer>(f.str());
  }
};

}  // namespace

// usage: exporter ROOT SRC OUT -- compiler args
int main(int argc, const char** argv) {
  if (argc < 5) return 64;
  g_root = argv[1];
  std::string src = argv[2];
  g_out = argv[3];
  std::vector<std::string> args;
  for (int i = 5; i < argc; ++i) args.push_back(argv[i]);
  clang::tooling::FixedCompilationDatabase db(".", args);
  clang::tooling::ClangTool tool(db, {src});
  return tool.run(clang::tooling::newFrontendActionFactory<Action>().get());
}
