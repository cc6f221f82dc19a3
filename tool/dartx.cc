// dartx: libTooling extractor.
//
// Parses one translation unit with the flags it is given and writes, one JSON
// document per line, the type-checked program restricted to the functions that
// are defined under the given roots: for every function definition (including
// every template instantiation, lambda call operator and implicitly defined
// special member) its control-flow graph, the expressions of every block in
// evaluation order, resolved callees, types, exception specification and the
// try blocks that enclose each expression; plus records and static variables.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;
static std::string OutPath;

static json::Value apsint(llvm::APSInt const& v) {
  if (v.isRepresentableByInt64()) return (int64_t) v.getExtValue();
  return llvm::toString(v, 10);
}

namespace {

struct Extractor : RecursiveASTVisitor<Extractor> {
  ASTContext& ctx;
  SourceManager& sm;
  PrintingPolicy pp;
  llvm::raw_ostream& out;
  std::unique_ptr<ASTNameGenerator> namer;
  std::unique_ptr<MangleContext> mangler;

  std::map<void const*, int> typeIds;
  std::map<Decl const*, int> funcIds, recIds, varIds;
  std::vector<FunctionDecl const*> funcQueue;
  std::set<Decl const*> doneFuncs, doneRecs, doneVars;
  std::vector<std::string> errors;

  Extractor(ASTContext& c, llvm::raw_ostream& o)
      : ctx(c), sm(c.getSourceManager()), pp(c.getPrintingPolicy()), out(o) {
    pp.SuppressTagKeyword = true;
    pp.FullyQualifiedName = true;
    pp.PrintCanonicalTypes = true;
    pp.TerseOutput = true;
    namer.reset(new ASTNameGenerator(c));
    mangler.reset(c.createMangleContext());
  }

  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }

  // ---------------------------------------------------------------- locations
  std::string fileOf(SourceLocation l) {
    l = sm.getExpansionLoc(l);
    auto f = sm.getFilename(l);
    return f.str();
  }
  bool inRoots(SourceLocation l) {
    if (l.isInvalid()) return false;
    std::string f = fileOf(l);
    if (f.find("/extern/") != std::string::npos) return false;
    for (auto& r : Roots)
      if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  int lineOf(SourceLocation l) {
    if (l.isInvalid()) return 0;
    return (int) sm.getExpansionLineNumber(l);
  }

  void emit(json::Object o) {
    json::OStream j(out);
    j.value(json::Value(std::move(o)));
    out << "\n";
  }

  // -------------------------------------------------------------------- types
  int typeId(QualType q) {
    if (q.isNull()) return -1;
    q = q.getCanonicalType();
    auto it = typeIds.find(q.getAsOpaquePtr());
    if (it != typeIds.end()) return it->second;
    int id = (int) typeIds.size();
    typeIds[q.getAsOpaquePtr()] = id;
    json::Object o;
    o["D"] = "type";
    o["id"] = id;
    o["s"] = q.getAsString(pp);
    if (q.isConstQualified()) o["const"] = true;
    QualType u = q.getUnqualifiedType();
    if (u->isReferenceType()) {
      o["k"] = u->isRValueReferenceType() ? "rref" : "lref";
      o["of"] = typeId(u->getPointeeType());
    } else if (u->isPointerType()) {
      o["k"] = "ptr";
      o["of"] = typeId(u->getPointeeType());
    } else if (auto* a = ctx.getAsArrayType(u)) {
      o["k"] = "arr";
      o["of"] = typeId(a->getElementType());
      if (auto* c = dyn_cast<ConstantArrayType>(a))
        o["n"] = (int64_t) c->getSize().getZExtValue();
    } else if (auto* r = u->getAsCXXRecordDecl()) {
      o["k"] = "rec";
      o["rec"] = recId(r);
    } else if (auto* e = u->getAs<EnumType>()) {
      o["k"] = "enum";
      o["name"] = e->getDecl()->getQualifiedNameAsString();
    } else if (u->isBooleanType()) {
      o["k"] = "bool";
    } else if (u->isIntegerType()) {
      o["k"] = u->isSignedIntegerType() ? "sint" : "uint";
      o["w"] = (int64_t) ctx.getTypeSize(u);
    } else if (u->isRealFloatingType()) {
      o["k"] = "flt";
      o["w"] = (int64_t) ctx.getTypeSize(u);
    } else if (u->isVoidType()) {
      o["k"] = "void";
    } else if (u->isFunctionProtoType()) {
      o["k"] = "fn";
      o["nx"] = u->castAs<FunctionProtoType>()->isNothrow();
    } else if (u->isMemberPointerType()) {
      o["k"] = "memptr";
    } else {
      o["k"] = "other";
    }
    if (!u->isIncompleteType() && !u->isDependentType() && !u->isFunctionType() &&
        !u->isReferenceType() && !u->isUndeducedType() && !u->isPlaceholderType() && !u->isVoidType() && (u->isConstantArrayType() || !u->isArrayType())) {
      bool ok = true;
      if (auto* r = u->getAsCXXRecordDecl()) ok = !r->isInvalidDecl() && r->isCompleteDefinition();
      if (ok) {
        o["size"] = (int64_t) ctx.getTypeSizeInChars(u).getQuantity();
        o["align"] = (int64_t) ctx.getTypeAlignInChars(u).getQuantity();
      }
    }
    emit(std::move(o));
    return id;
  }

  std::string plainName(NamedDecl const* d) {
    std::string s;
    llvm::raw_string_ostream os(s);
    d->printQualifiedName(os, pp);
    return os.str();
  }
  // Qualified name without template arguments.
  std::string bareName(NamedDecl const* d) {
    std::vector<std::string> parts;
    parts.push_back(d->getDeclName().isIdentifier() ? d->getName().str()
                                                    : d->getDeclName().getAsString());
    for (auto* c = d->getDeclContext(); c && !c->isTranslationUnit(); c = c->getParent()) {
      if (auto* n = dyn_cast<NamespaceDecl>(c)) {
        if (n->isInline()) continue;
        parts.push_back(n->isAnonymousNamespace() ? "(anon)" : n->getName().str());
      } else if (auto* r = dyn_cast<RecordDecl>(c)) {
        if (r->getName().empty()) {
          auto* cr = dyn_cast<CXXRecordDecl>(r);
          parts.push_back(cr && cr->isLambda() ? "(lambda)" : "(anonrec)");
        } else
          parts.push_back(r->getName().str());
      } else if (auto* f = dyn_cast<FunctionDecl>(c)) {
        parts.push_back(f->getDeclName().getAsString());
      } else if (auto* e = dyn_cast<EnumDecl>(c)) {
        parts.push_back(e->getName().str());
      }
    }
    std::string s;
    for (auto it = parts.rbegin(); it != parts.rend(); ++it) {
      if (!s.empty()) s += "::";
      s += *it;
    }
    return s;
  }

  // ------------------------------------------------------------------ records
  int recId(CXXRecordDecl const* r) {
    r = r->getCanonicalDecl();
    auto it = recIds.find(r);
    if (it != recIds.end()) return it->second;
    int id = (int) recIds.size();
    recIds[r] = id;
    recQueue.push_back(r);
    return id;
  }
  std::vector<CXXRecordDecl const*> recQueue;

  void emitRecord(CXXRecordDecl const* canon) {
    CXXRecordDecl const* r = canon->getDefinition() ? canon->getDefinition() : canon;
    json::Object o;
    o["D"] = "rec";
    o["id"] = recId(canon);
    o["n"] = bareName(r);
    o["s"] = ctx.getRecordType(r).getAsString(pp);
    o["file"] = fileOf(r->getLocation());
    o["line"] = lineOf(r->getLocation());
    bool repo = inRoots(r->getLocation());
    o["repo"] = repo;
    if (r->isLambda()) o["lambda"] = true;
    if (r->isUnion()) o["union"] = true;
    if (auto* s = dyn_cast<ClassTemplateSpecializationDecl>(r)) {
      json::Array a;
      std::function<void(TemplateArgument const&)> add = [&](TemplateArgument const& t) {
        if (t.getKind() == TemplateArgument::Type) {
          a.push_back(json::Object{{"t", typeId(t.getAsType())}});
        } else if (t.getKind() == TemplateArgument::Integral) {
          a.push_back(json::Object{{"i", apsint(t.getAsIntegral())}});
        } else if (t.getKind() == TemplateArgument::Template) {
          auto* td = t.getAsTemplate().getAsTemplateDecl();
          a.push_back(json::Object{{"tt", td ? bareName(td) : std::string("?")}});
        } else if (t.getKind() == TemplateArgument::Pack) {
          for (auto& p : t.pack_elements()) add(p);
        } else {
          a.push_back(json::Object{{"o", 1}});
        }
      };
      for (auto& t : s->getTemplateArgs().asArray()) add(t);
      o["targs"] = std::move(a);
    }
    if (repo && r->isCompleteDefinition() && !r->isDependentContext() && !r->isInvalidDecl()) {
      json::Array fs;
      auto const& lay = ctx.getASTRecordLayout(r);
      for (auto* f : r->fields()) {
        json::Object fo;
        fo["n"] = f->getName().str();
        fo["t"] = typeId(f->getType());
        fo["off"] = (int64_t) lay.getFieldOffset(f->getFieldIndex()) / 8;
        if (f->isMutable()) fo["mut"] = true;
        fo["acc"] = (int) f->getAccess();
        fo["line"] = lineOf(f->getLocation());
        if (f->hasInClassInitializer()) fo["init"] = true;
        fs.push_back(std::move(fo));
      }
      o["fields"] = std::move(fs);
      json::Array bs;
      for (auto& b : r->bases())
        if (auto* br = b.getType()->getAsCXXRecordDecl()) bs.push_back(recId(br));
      o["bases"] = std::move(bs);
      o["size"] = (int64_t) lay.getSize().getQuantity();
      o["align"] = (int64_t) lay.getAlignment().getQuantity();
    } else if (r->isCompleteDefinition() && !r->isDependentContext() && !r->isInvalidDecl()) {
      json::Array bs;
      for (auto& b : r->bases())
        if (auto* br = b.getType()->getAsCXXRecordDecl()) bs.push_back(recId(br));
      o["bases"] = std::move(bs);
    }
    emit(std::move(o));
  }

  // ---------------------------------------------------------------- functions
  int isNothrow(FunctionDecl const* f) {
    auto* p = f->getType()->getAs<FunctionProtoType>();
    if (!p) return 0;
    if (isUnresolvedExceptionSpec(p->getExceptionSpecType())) return -1;
    return p->isNothrow() ? 1 : 0;
  }

  FunctionDecl const* canonFunc(FunctionDecl const* f) { return f->getCanonicalDecl(); }

  int funcId(FunctionDecl const* f) {
    f = canonFunc(f);
    auto it = funcIds.find(f);
    if (it != funcIds.end()) return it->second;
    int id = (int) funcIds.size();
    funcIds[f] = id;
    pendingDecls.push_back(f);
    return id;
  }
  std::vector<FunctionDecl const*> pendingDecls;

  void emitFuncDecl(FunctionDecl const* f) {
    json::Object o;
    o["D"] = "fdecl";
    o["id"] = funcId(f);
    o["n"] = bareName(f);
    o["q"] = plainName(f);
    std::string m;
    m = namer->getName(f);
    o["m"] = m;
    FunctionDecl const* def = nullptr;
    if (f->isDefined(def) && def) {
    } else
      def = f;
    o["file"] = fileOf(def->getLocation());
    o["line"] = lineOf(def->getLocation());
    o["repo"] = inRoots(def->getLocation());
    o["nx"] = isNothrow(f);
    o["ret"] = typeId(f->getReturnType());
    if (f->isNoReturn()) o["noret"] = true;
    if (f->isExternC()) o["externc"] = true;
    if (f->isDeleted()) o["deleted"] = true;
    if (f->isDefaulted()) o["defaulted"] = true;
    if (f->isTrivial()) o["trivial"] = true;
    if (f->isStatic()) o["static"] = true;
    if (f->getBuiltinID()) o["builtin"] = true;
    if (f->hasAttr<WarnUnusedResultAttr>()) o["nodiscard"] = true;
    o["hasdef"] = f->isDefined();
    if (f->isOverloadedOperator()) o["op"] = getOperatorSpelling(f->getOverloadedOperator());
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      o["rec"] = recId(m->getParent());
      if (m->isConst()) o["const"] = true;
      if (m->isStatic()) o["smeth"] = true;
      o["acc"] = (int) m->getAccess();
      if (m->getRefQualifier() == RQ_RValue) o["rq"] = 2;
      if (m->getRefQualifier() == RQ_LValue) o["rq"] = 1;
      if (isa<CXXConstructorDecl>(m)) {
        o["ctor"] = true;
        auto* c = cast<CXXConstructorDecl>(m);
        if (c->isCopyConstructor()) o["copyctor"] = true;
        if (c->isMoveConstructor()) o["movector"] = true;
        if (c->isDefaultConstructor()) o["defctor"] = true;
      }
      if (isa<CXXDestructorDecl>(m)) o["dtor"] = true;
      if (isa<CXXConversionDecl>(m)) o["conv"] = true;
      if (m->isCopyAssignmentOperator()) o["copyassign"] = true;
      if (m->isMoveAssignmentOperator()) o["moveassign"] = true;
    }
    if (auto* ta = f->getTemplateSpecializationArgs()) {
      json::Array a;
      std::function<void(TemplateArgument const&)> add = [&](TemplateArgument const& t) {
        if (t.getKind() == TemplateArgument::Type)
          a.push_back(json::Object{{"t", typeId(t.getAsType())}});
        else if (t.getKind() == TemplateArgument::Integral)
          a.push_back(json::Object{{"i", apsint(t.getAsIntegral())}});
        else if (t.getKind() == TemplateArgument::Pack) {
          for (auto& p : t.pack_elements()) add(p);
        } else
          a.push_back(json::Object{{"o", 1}});
      };
      for (auto& t : ta->asArray()) add(t);
      o["targs"] = std::move(a);
    }
    json::Array ps;
    for (auto* p : f->parameters()) {
      json::Object po;
      po["n"] = p->getName().str();
      po["t"] = typeId(p->getType());
      ps.push_back(std::move(po));
    }
    o["params"] = std::move(ps);
    emit(std::move(o));
  }

  void flushDecls() {
    while (!pendingDecls.empty() || !recQueue.empty()) {
      if (!pendingDecls.empty()) {
        auto* f = pendingDecls.back();
        pendingDecls.pop_back();
        emitFuncDecl(f);
      } else {
        auto* r = recQueue.back();
        recQueue.pop_back();
        if (doneRecs.insert(r).second) emitRecord(r);
      }
    }
  }

  int varId(ValueDecl const* v) {
    v = cast<ValueDecl>(v->getCanonicalDecl());
    auto it = varIds.find(v);
    if (it != varIds.end()) return it->second;
    int id = (int) varIds.size();
    varIds[v] = id;
    return id;
  }

  // ------------------------------------------------------------ function body
  struct FnState {
    std::map<Stmt const*, int> ids;
    json::Object exprs;
    std::map<Stmt const*, int> tryOf;  // stmt -> innermost try id
    std::vector<CXXTryStmt const*> tries;
  };
  FnState* cur = nullptr;

  int stmtId(Stmt const* s) {
    if (!s) return -1;
    auto it = cur->ids.find(s);
    if (it != cur->ids.end()) return it->second;
    int id = (int) cur->ids.size();
    cur->ids[s] = id;
    json::Object o;
    describe(s, o);
    auto t = cur->tryOf.find(s);
    if (t != cur->tryOf.end() && t->second >= 0) o["try"] = t->second;
    cur->exprs[std::to_string(id)] = std::move(o);
    return id;
  }

  json::Array kids(Stmt const* s) {
    json::Array a;
    for (auto* c : s->children())
      if (c) a.push_back(stmtId(c));
    return a;
  }

  void fnRef(json::Object& o, FunctionDecl const* f) {
    o["f"] = funcId(f);
  }

  json::Object varInfo(VarDecl const* v) {
    json::Object o;
    o["v"] = varId(v);
    o["n"] = v->getName().str();
    o["t"] = typeId(v->getType());
    if (v->isStaticLocal()) o["static"] = true;
    if (v->getTSCSpec() != TSCS_unspecified) o["tls"] = true;
    if (v->hasGlobalStorage() && !v->isStaticLocal()) o["global"] = true;
    if (v->hasInit()) {
      o["init"] = stmtId(v->getInit());
      if (auto* ce = dyn_cast<CXXConstructExpr>(v->getInit()->IgnoreImplicit()))
        if (v->getInitStyle() == VarDecl::CallInit && ce->getNumArgs() == 0 &&
            ce->getConstructor()->isTrivial() && !ce->requiresZeroInitialization())
          o["uninit"] = true;
    } else if (!v->getType()->isReferenceType())
      o["uninit"] = true;
    return o;
  }

  void describe(Stmt const* s, json::Object& o) {
    o["k"] = s->getStmtClassName();
    o["l"] = lineOf(s->getBeginLoc());
    if (auto* e = dyn_cast<Expr>(s)) {
      o["t"] = typeId(e->getType());
      if (e->isLValue()) o["lv"] = 1;
      else if (e->isXValue()) o["lv"] = 2;
      if (!e->isValueDependent() && e->getType()->isIntegralOrEnumerationType() && e->isPRValue() &&
          !isa<CXXThrowExpr>(e)) {
        Expr::EvalResult r;
        if (e->EvaluateAsInt(r, ctx, Expr::SE_NoSideEffects)) {
          auto& v = r.Val.getInt();
          o["cv"] = apsint(v);
        }
      }
    }
    if (auto* d = dyn_cast<DeclRefExpr>(s)) {
      auto* v = d->getDecl();
      o["n"] = v->getDeclName().isIdentifier() ? v->getName().str() : v->getDeclName().getAsString();
      if (auto* f = dyn_cast<FunctionDecl>(v)) {
        o["dk"] = "fn";
        fnRef(o, f);
      } else if (auto* ec = dyn_cast<EnumConstantDecl>(v)) {
        o["dk"] = "enum";
        o["ev"] = apsint(ec->getInitVal());
        o["en"] = bareName(ec);
      } else if (isa<ParmVarDecl>(v)) {
        o["dk"] = "parm";
        o["v"] = varId(v);
      } else if (auto* vd = dyn_cast<VarDecl>(v)) {
        o["dk"] = vd->hasGlobalStorage() ? "global" : "var";
        if (vd->hasGlobalStorage()) {
          o["gn"] = bareName(vd);
          noteStatic(vd);
        }
        o["v"] = varId(v);
        if (d->refersToEnclosingVariableOrCapture()) o["cap"] = true;
      } else {
        o["dk"] = "other";
        o["v"] = varId(v);
      }
      if (d->refersToEnclosingVariableOrCapture()) o["cap"] = true;
      return;
    }
    if (auto* m = dyn_cast<MemberExpr>(s)) {
      auto* v = m->getMemberDecl();
      o["n"] = v->getDeclName().isIdentifier() ? v->getName().str() : v->getDeclName().getAsString();
      if (auto* f = dyn_cast<FunctionDecl>(v)) {
        o["dk"] = "fn";
        fnRef(o, f);
      } else if (auto* fd = dyn_cast<FieldDecl>(v)) {
        o["dk"] = "field";
        o["rec"] = recId(cast<CXXRecordDecl>(fd->getParent()));
        o["fi"] = (int) fd->getFieldIndex();
      } else {
        o["dk"] = "static";
        if (auto* vd = dyn_cast<VarDecl>(v)) {
          o["gn"] = bareName(vd);
          noteStatic(vd);
        }
      }
      if (m->isArrow()) o["arrow"] = true;
      o["c"] = kids(s);
      return;
    }
    if (auto* c = dyn_cast<CallExpr>(s)) {
      if (auto* f = c->getDirectCallee()) fnRef(o, f);
      if (auto* mc = dyn_cast<CXXMemberCallExpr>(c)) {
        if (auto* obj = mc->getImplicitObjectArgument()) o["obj"] = stmtId(obj);
        o["callee"] = stmtId(mc->getCallee());
      } else if (isa<CXXOperatorCallExpr>(c)) {
        o["op"] = getOperatorSpelling(cast<CXXOperatorCallExpr>(c)->getOperator());
      } else {
        o["callee"] = stmtId(c->getCallee());
      }
      json::Array a;
      for (auto* x : c->arguments()) a.push_back(stmtId(x));
      o["a"] = std::move(a);
      return;
    }
    if (auto* c = dyn_cast<CXXConstructExpr>(s)) {
      fnRef(o, c->getConstructor());
      json::Array a;
      for (auto* x : c->arguments()) a.push_back(stmtId(x));
      o["a"] = std::move(a);
      if (c->isElidable()) o["elid"] = true;
      if (c->requiresZeroInitialization()) o["zero"] = true;
      return;
    }
    if (auto* c = dyn_cast<CXXInheritedCtorInitExpr>(s)) {
      fnRef(o, c->getConstructor());
      return;
    }
    if (auto* c = dyn_cast<CastExpr>(s)) {
      o["ck"] = c->getCastKindName();
      if (isa<ExplicitCastExpr>(c)) o["ex"] = true;
      if (auto* f = c->getConversionFunction())
        if (auto* fd = dyn_cast<FunctionDecl>(f)) fnRef(o, fd);
      o["c"] = kids(s);
      return;
    }
    if (auto* b = dyn_cast<BinaryOperator>(s)) {
      o["op"] = b->getOpcodeStr().str();
      o["c"] = kids(s);
      return;
    }
    if (auto* u = dyn_cast<UnaryOperator>(s)) {
      o["op"] = UnaryOperator::getOpcodeStr(u->getOpcode()).str();
      if (u->isPostfix()) o["post"] = true;
      o["c"] = kids(s);
      return;
    }
    if (auto* l = dyn_cast<IntegerLiteral>(s)) {
      o["val"] = llvm::toString(l->getValue(), 10, l->getType()->isSignedIntegerType());
      return;
    }
    if (auto* l = dyn_cast<CXXBoolLiteralExpr>(s)) {
      o["val"] = l->getValue();
      return;
    }
    if (auto* l = dyn_cast<CharacterLiteral>(s)) {
      o["val"] = (int64_t) l->getValue();
      return;
    }
    if (auto* l = dyn_cast<StringLiteral>(s)) {
      if (l->getCharByteWidth() == 1) {
        std::string b = l->getBytes().str();
        o["val"] = json::isUTF8(b) ? b : std::string("?");
        o["len"] = (int64_t) l->getLength();
      }
      return;
    }
    if (auto* d = dyn_cast<DeclStmt>(s)) {
      json::Array a;
      for (auto* x : d->decls())
        if (auto* v = dyn_cast<VarDecl>(x)) {
          if (v->isStaticLocal()) noteStatic(v);
          a.push_back(varInfo(v));
        }
      o["vars"] = std::move(a);
      return;
    }
    if (auto* t = dyn_cast<CXXThrowExpr>(s)) {
      if (t->getSubExpr()) o["tt"] = typeId(t->getSubExpr()->getType());
      else o["re"] = true;
      o["c"] = kids(s);
      return;
    }
    if (auto* l = dyn_cast<LambdaExpr>(s)) {
      o["rec"] = recId(l->getLambdaClass());
      json::Array caps;
      auto ii = l->capture_init_begin();
      for (auto& c : l->captures()) {
        json::Object co;
        if (c.capturesThis()) co["this"] = true;
        else if (c.capturesVariable()) {
          co["v"] = varId(c.getCapturedVar());
          co["n"] = c.getCapturedVar()->getName().str();
        }
        co["ref"] = c.getCaptureKind() == LCK_ByRef || c.getCaptureKind() == LCK_This;
        if (ii != l->capture_init_end() && *ii) co["init"] = stmtId(*ii);
        ++ii;
        caps.push_back(std::move(co));
      }
      o["caps"] = std::move(caps);
      json::Array ops;
      auto* callop = l->getCallOperator();
      if (l->isGenericLambda()) {
        if (auto* ft = callop->getDescribedFunctionTemplate())
          for (auto* sp : ft->specializations())
            if (sp->hasBody() || sp->getTemplateInstantiationPattern()) {
              FunctionDecl const* def = nullptr;
              if (sp->hasBody(def)) { ops.push_back(funcId(sp)); queueFunc(sp); }
            }
      } else {
        ops.push_back(funcId(callop));
        queueFunc(callop);
      }
      o["ops"] = std::move(ops);
      return;
    }
    if (auto* n = dyn_cast<CXXNewExpr>(s)) {
      o["at"] = typeId(n->getAllocatedType());
      if (n->isArray()) o["arr"] = true;
      json::Array pl;
      for (unsigned i = 0; i < n->getNumPlacementArgs(); ++i)
        pl.push_back(stmtId(n->getPlacementArg(i)));
      o["pl"] = std::move(pl);
      if (n->getOperatorNew()) fnRef(o, n->getOperatorNew());
      if (n->getInitializer()) o["init"] = stmtId(n->getInitializer());
      if (n->isArray() && n->getArraySize()) o["n"] = stmtId(*n->getArraySize());
      return;
    }
    if (auto* d = dyn_cast<CXXDeleteExpr>(s)) {
      if (d->isArrayForm()) o["arr"] = true;
      if (auto* r = d->getDestroyedType()->getAsCXXRecordDecl())
        if (auto* dd = r->getDestructor()) o["f"] = funcId(dd);
      o["c"] = kids(s);
      return;
    }
    if (auto* d = dyn_cast<CXXDefaultArgExpr>(s)) {
      json::Array a;
      a.push_back(stmtId(d->getExpr()));
      o["c"] = std::move(a);
      return;
    }
    if (auto* d = dyn_cast<CXXDefaultInitExpr>(s)) {
      json::Array a;
      a.push_back(stmtId(d->getExpr()));
      o["c"] = std::move(a);
      return;
    }
    if (auto* u = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) {
      o["n"] = (int) u->getKind();
      if (u->isArgumentType()) o["at"] = typeId(u->getArgumentType());
      else o["at"] = typeId(u->getArgumentExpr()->getType());
      return;
    }
    if (isa<CXXThisExpr>(s)) return;
    if (auto* p = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) {
      json::Array a;
      a.push_back(stmtId(p->getReplacement()));
      o["c"] = std::move(a);
      return;
    }
    if (isa<CXXNoexceptExpr>(s) || isa<TypeTraitExpr>(s) || isa<SizeOfPackExpr>(s)) return;
    if (auto* c = dyn_cast<CXXCatchStmt>(s)) {
      if (c->getCaughtType().isNull()) o["all"] = true;
      else {
        o["ct"] = typeId(c->getCaughtType());
        if (c->getExceptionDecl()) o["v"] = varId(c->getExceptionDecl());
      }
      // children: handler body (only ids of contained statements are listed in blocks)
      return;
    }
    if (auto* c = dyn_cast<CaseStmt>(s)) {
      o["lhs"] = stmtId(c->getLHS());
      return;
    }
    if (isa<DefaultStmt>(s)) return;
    if (auto* w = dyn_cast<SwitchStmt>(s)) {
      o["cond"] = stmtId(w->getCond());
      return;
    }
    if (isa<CXXTryStmt>(s)) return;
    if (auto* i = dyn_cast<IfStmt>(s)) {
      o["cond"] = stmtId(i->getCond());
      return;
    }
    if (auto* r = dyn_cast<CXXForRangeStmt>(s)) {
      o["loopvar"] = varId(r->getLoopVariable());
      return;
    }
    if (isa<ForStmt>(s) || isa<WhileStmt>(s) || isa<DoStmt>(s) || isa<CompoundStmt>(s)) return;
    if (auto* ov = dyn_cast<OpaqueValueExpr>(s)) {
      if (ov->getSourceExpr()) {
        json::Array a;
        a.push_back(stmtId(ov->getSourceExpr()));
        o["c"] = std::move(a);
      }
      return;
    }
    if (auto* il = dyn_cast<InitListExpr>(s)) {
      o["c"] = kids(s);
      if (il->isTransparent()) o["transp"] = true;
      return;
    }
    o["c"] = kids(s);
  }

  // Map every statement to its innermost enclosing try block (not handlers).
  void mapTries(Stmt const* s, int t) {
    if (!s) return;
    cur->tryOf[s] = t;
    if (isa<LambdaExpr>(s)) {
      for (auto* i : cast<LambdaExpr>(s)->capture_inits()) mapTries(i, t);
      return;
    }
    if (auto* d = dyn_cast<CXXDefaultArgExpr>(s)) { mapTries(d->getExpr(), t); return; }
    if (auto* ts = dyn_cast<CXXTryStmt>(s)) {
      int id = (int) cur->tries.size();
      cur->tries.push_back(ts);
      tryParent.push_back(t);
      mapTries(ts->getTryBlock(), id);
      for (unsigned i = 0; i < ts->getNumHandlers(); ++i) mapTries(ts->getHandler(i), t);
      return;
    }
    if (auto* d = dyn_cast<DeclStmt>(s)) {
      for (auto* x : d->decls())
        if (auto* v = dyn_cast<VarDecl>(x))
          if (v->hasInit()) mapTries(v->getInit(), t);
      return;
    }
    for (auto* c : s->children()) mapTries(c, t);
  }
  std::vector<int> tryParent;

  void queueFunc(FunctionDecl const* f) { funcQueue.push_back(f); }

  void processFunc(FunctionDecl const* f) {
    FunctionDecl const* def = nullptr;
    if (!f->hasBody(def) || !def) return;
    f = def;
    if (f->isDependentContext()) return;
    if (f->isInvalidDecl()) return;
    if (!doneFuncs.insert(canonFunc(f)).second) return;

    FnState st;
    cur = &st;
    tryParent.clear();
    json::Object o;
    o["D"] = "fn";
    o["id"] = funcId(f);
    o["file"] = fileOf(f->getLocation());
    o["line"] = lineOf(f->getLocation());
    o["end"] = lineOf(f->getBody()->getEndLoc());
    // constructor initialisers may be covered by a function-try-block
    int ctorTry = -1;
    mapTries(f->getBody(), -1);
    if (isa<CXXTryStmt>(f->getBody())) {
      o["fntry"] = true;
      ctorTry = 0;
    }
    if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
      for (auto* i : c->inits())
        if (i->getInit()) mapTries(i->getInit(), ctorTry);
    }
    json::Array ps;
    for (auto* p : f->parameters()) ps.push_back(json::Object{{"v", varId(p)}, {"n", p->getName().str()}, {"t", typeId(p->getType())}});
    o["params"] = std::move(ps);

    CFG::BuildOptions bo;
    bo.setAllAlwaysAdd();
    bo.AddImplicitDtors = true;
    bo.AddInitializers = true;
    bo.AddEHEdges = false;
    bo.AddTemporaryDtors = false;
    bo.AddScopes = false;
    bo.PruneTriviallyFalseEdges = true;
    bo.AddCXXNewAllocator = false;
    bo.AddCXXDefaultInitExprInCtors = false;
    auto cfg = CFG::buildCFG(f, f->getBody(), &ctx, bo);
    if (!cfg) {
      o["nocfg"] = true;
      o["E"] = json::Object{};
      emit(std::move(o));
      cur = nullptr;
      return;
    }
    json::Array blocks;
    for (auto* b : *cfg) {
      json::Object bo2;
      bo2["id"] = (int) b->getBlockID();
      json::Array els;
      for (auto& el : *b) {
        if (auto cs = el.getAs<CFGStmt>()) {
          els.push_back(stmtId(cs->getStmt()));
        } else if (auto ci = el.getAs<CFGInitializer>()) {
          auto* i = ci->getInitializer();
          json::Object io;
          if (i->isAnyMemberInitializer() && i->getAnyMember()) {
            io["field"] = i->getAnyMember()->getName().str();
            io["fi"] = (int) i->getAnyMember()->getFieldIndex();
            io["rec"] = recId(cast<CXXRecordDecl>(i->getAnyMember()->getParent()));
          }
          else if (i->isBaseInitializer()) io["base"] = typeId(QualType(i->getBaseClass(), 0));
          else if (i->isDelegatingInitializer()) io["deleg"] = true;
          if (i->getInit()) io["init"] = stmtId(i->getInit());
          io["l"] = lineOf(i->getSourceLocation());
          if (i->isWritten()) io["written"] = true;
          els.push_back(std::move(io));
        } else if (auto ad = el.getAs<CFGAutomaticObjDtor>()) {
          json::Object io;
          io["dtor"] = typeId(ad->getVarDecl()->getType());
          io["v"] = varId(ad->getVarDecl());
          if (auto* dd = ad->getDestructorDecl(ctx)) io["f"] = funcId(dd);
          els.push_back(std::move(io));
        } else if (auto md = el.getAs<CFGMemberDtor>()) {
          json::Object io;
          io["mdtor"] = md->getFieldDecl()->getName().str();
          if (auto* dd = md->getDestructorDecl(ctx)) io["f"] = funcId(dd);
          els.push_back(std::move(io));
        } else if (auto bd = el.getAs<CFGBaseDtor>()) {
          json::Object io;
          io["bdtor"] = 1;
          if (auto* dd = bd->getDestructorDecl(ctx)) io["f"] = funcId(dd);
          els.push_back(std::move(io));
        } else if (auto dd = el.getAs<CFGDeleteDtor>()) {
          json::Object io;
          io["deldtor"] = 1;
          if (auto* d2 = dd->getDestructorDecl(ctx)) io["f"] = funcId(d2);
          els.push_back(std::move(io));
        }
      }
      bo2["el"] = std::move(els);
      if (b->getTerminatorStmt()) {
        bo2["tk"] = b->getTerminatorStmt()->getStmtClassName();
        bo2["tl"] = lineOf(b->getTerminatorStmt()->getBeginLoc());
        if (auto* bop = dyn_cast<BinaryOperator>(b->getTerminatorStmt()))
          bo2["top"] = bop->getOpcodeStr().str();
        if (auto* ts = dyn_cast<CXXTryStmt>(b->getTerminatorStmt())) {
          for (size_t i = 0; i < st.tries.size(); ++i)
            if (st.tries[i] == ts) bo2["trydisp"] = (int) i;
        }
      }
      if (auto* c = b->getTerminatorCondition(false)) bo2["cond"] = stmtId(c);
      if (auto* l = b->getLabel()) bo2["label"] = stmtId(l);
      json::Array su;
      for (auto& x : b->succs()) {
        if (x.getReachableBlock()) su.push_back((int) x.getReachableBlock()->getBlockID());
        else if (x.getPossiblyUnreachableBlock())
          su.push_back(json::Object{{"dead", (int) x.getPossiblyUnreachableBlock()->getBlockID()}});
        else su.push_back(nullptr);
      }
      bo2["su"] = std::move(su);
      if (b->hasNoReturnElement()) bo2["noret"] = true;
      blocks.push_back(std::move(bo2));
    }
    o["entry"] = (int) cfg->getEntry().getBlockID();
    o["exit"] = (int) cfg->getExit().getBlockID();
    o["B"] = std::move(blocks);
    json::Array tr;
    for (size_t i = 0; i < st.tries.size(); ++i) {
      json::Object t;
      t["parent"] = tryParent[i];
      json::Array hs;
      for (unsigned h = 0; h < st.tries[i]->getNumHandlers(); ++h) {
        auto* c = st.tries[i]->getHandler(h);
        json::Object ho;
        ho["s"] = stmtId(c);
        if (c->getCaughtType().isNull()) ho["all"] = true;
        else ho["ct"] = typeId(c->getCaughtType());
        hs.push_back(std::move(ho));
      }
      t["h"] = std::move(hs);
      tr.push_back(std::move(t));
    }
    o["tries"] = std::move(tr);
    o["E"] = std::move(st.exprs);
    emit(std::move(o));
    cur = nullptr;
  }

  // ------------------------------------------------------------------ statics
  std::vector<VarDecl const*> statQueue;
  void noteStatic(VarDecl const* v) {
    v = v->getCanonicalDecl();
    if (doneVars.insert(v).second) statQueue.push_back(v);
  }
  void emitStatic(VarDecl const* v) {
    VarDecl const* def = v->getDefinition() ? v->getDefinition() : v;
    json::Object o;
    o["D"] = "static";
    o["n"] = bareName(v);
    o["file"] = fileOf(def->getLocation());
    o["line"] = lineOf(def->getLocation());
    o["repo"] = inRoots(def->getLocation());
    o["t"] = typeId(def->getType());
    if (def->isConstexpr()) o["constexpr"] = true;
    if (def->getTSCSpec() != TSCS_unspecified) o["tls"] = true;
    if (def->isStaticLocal()) o["local"] = true;
    o["const"] = def->getType().isConstQualified() ||
        (def->getType()->isReferenceType()) ||
        (ctx.getAsArrayType(def->getType()) && ctx.getBaseElementType(def->getType()).isConstQualified());
    if (auto* e = def->getAnyInitializer())
      if (!e->isValueDependent() && def->isConstexpr() && def->getType()->isLiteralType(ctx)) {
        if (auto* val = def->getEvaluatedValue()) {
          if (val->isInt()) o["val"] = llvm::toString(val->getInt(), 10);
          if (val->isArray()) {
            json::Array a;
            for (unsigned i = 0; i < val->getArrayInitializedElts(); ++i) {
              auto& x = val->getArrayInitializedElt(i);
              if (x.isInt()) a.push_back(llvm::toString(x.getInt(), 10));
            }
            o["vals"] = std::move(a);
          }
        }
      }
    emit(std::move(o));
  }

  // ----------------------------------------------------------------- visiting
  bool VisitFunctionDecl(FunctionDecl* f) {
    if (f->isDependentContext()) return true;
    FunctionDecl const* def = nullptr;
    if (!f->hasBody(def) || !def) {
      // record declarations made in the roots too (deleted, abi.h)
      if (inRoots(f->getLocation()) && !f->isImplicit()) funcId(f);
      return true;
    }
    if (!inRoots(def->getLocation())) return true;
    queueFunc(f);
    return true;
  }
  bool VisitLambdaExpr(LambdaExpr* l) {
    if (!inRoots(l->getBeginLoc())) return true;
    auto* callop = l->getCallOperator();
    if (callop->isDependentContext() && !l->isGenericLambda()) return true;
    if (l->isGenericLambda()) {
      if (auto* ft = callop->getDescribedFunctionTemplate())
        for (auto* sp : ft->specializations()) queueFunc(sp);
    } else
      queueFunc(callop);
    return true;
  }
  bool VisitVarDecl(VarDecl* v) {
    if (v->hasGlobalStorage() && inRoots(v->getLocation()) && !v->getType()->isDependentType() &&
        !v->getDeclContext()->isDependentContext())
      noteStatic(v);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* r) {
    if (inRoots(r->getLocation()) && r->isCompleteDefinition() && !r->isDependentContext()) recId(r);
    return true;
  }
  std::set<EnumDecl const*> doneEnums;
  bool VisitEnumDecl(EnumDecl* e) {
    if (!inRoots(e->getLocation()) || e->isDependentContext() || !e->isComplete()) return true;
    if (!doneEnums.insert(e->getCanonicalDecl()).second) return true;
    json::Object o;
    o["D"] = "enum";
    o["n"] = bareName(e);
    o["line"] = lineOf(e->getLocation());
    o["file"] = fileOf(e->getLocation());
    json::Object vs;
    for (auto* c : e->enumerators()) vs[c->getName().str()] = apsint(c->getInitVal());
    o["vals"] = std::move(vs);
    emit(std::move(o));
    return true;
  }

  void drain() {
    bool more = true;
    while (more) {
      more = false;
      while (!funcQueue.empty()) {
        auto* f = funcQueue.back();
        funcQueue.pop_back();
        processFunc(f);
        more = true;
      }
      if (!pendingDecls.empty() || !recQueue.empty()) { flushDecls(); more = true; }
      while (!statQueue.empty()) {
        auto* v = statQueue.back();
        statQueue.pop_back();
        emitStatic(v);
        more = true;
      }
    }
  }
};

struct Consumer : ASTConsumer {
  CompilerInstance& ci;
  explicit Consumer(CompilerInstance& c) : ci(c) {}
  void HandleTranslationUnit(ASTContext& ctx) override {
    if (ctx.getDiagnostics().hasErrorOccurred()) return;
    std::error_code ec;
    llvm::raw_fd_ostream os(OutPath, ec);
    if (ec) { llvm::errs() << "cannot open " << OutPath << "\n"; exit(3); }
    Extractor x(ctx, os);
    x.TraverseDecl(ctx.getTranslationUnitDecl());
    x.drain();
    os.flush();
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, llvm::StringRef) override {
    return std::make_unique<Consumer>(ci);
  }
};

}  // namespace

int main(int argc, char** argv) {
  std::string file;
  std::vector<std::string> args;
  bool rest = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (rest) args.push_back(a);
    else if (a == "--") rest = true;
    else if (a == "--out") OutPath = argv[++i];
    else if (a == "--root") Roots.push_back(argv[++i]);
    else file = a;
  }
  clang::tooling::FixedCompilationDatabase db(".", args);
  clang::tooling::ClangTool tool(db, {file});
  return tool.run(clang::tooling::newFrontendActionFactory<Action>().get());
}
