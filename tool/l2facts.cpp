// l2facts: dumps the resolved program (typed syntax trees, control flow graphs, classes, enums,
// variables) of one translation unit, restricted to declarations located below given roots, as JSON.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/Analysis/CFG.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Index/USRGeneration.h>
#include <clang/Lex/Lexer.h>
#include <clang/Lex/PPCallbacks.h>
#include <clang/Lex/Preprocessor.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>

#include <fstream>
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> gRoots;
static std::string gOut;

namespace {

class Dumper : public RecursiveASTVisitor<Dumper> {
 public:
  Dumper(ASTContext& ctx, llvm::raw_ostream& os, json::Array includes)
      : ctx_{ctx}, sm_{ctx.getSourceManager()}, policy_{ctx.getLangOpts()}, j_{os}, includes_{std::move(includes)} {
    policy_.SuppressTagKeyword = true;
    policy_.FullyQualifiedName = true;
    policy_.PrintCanonicalTypes = false;
    policy_.Bool = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool shouldVisitLambdaBody() const { return true; }

  void run() {
    j_.objectBegin();
    j_.attributeBegin("funcs");
    j_.arrayBegin();
    pass_ = 0;
    TraverseDecl(ctx_.getTranslationUnitDecl());
    j_.arrayEnd();
    j_.attributeEnd();
    j_.attributeBegin("records");
    j_.arrayBegin();
    for (auto* r : records_) dumpRecord(r);
    j_.arrayEnd();
    j_.attributeEnd();
    j_.attributeBegin("enums");
    j_.arrayBegin();
    for (auto* e : enums_) {
      j_.objectBegin();
      j_.attribute("name", qname(e));
      loc(e->getLocation());
      j_.attributeBegin("vals");
      j_.arrayBegin();
      for (auto* c : e->enumerators()) {
        j_.arrayBegin();
        j_.value(c->getNameAsString());
        llvm::SmallString<16> s;
        c->getInitVal().toString(s, 10);
        j_.value(s.str());
        j_.arrayEnd();
      }
      j_.arrayEnd();
      j_.attributeEnd();
      j_.objectEnd();
    }
    j_.arrayEnd();
    j_.attributeEnd();
    j_.attributeBegin("vars");
    j_.arrayBegin();
    for (auto* v : vars_) dumpGlobal(v);
    j_.arrayEnd();
    j_.attributeEnd();
    j_.attributeBegin("fdecls");
    j_.arrayBegin();
    for (auto* f : fdecls_) {
      j_.objectBegin();
      funcHead(f);
      j_.objectEnd();
    }
    j_.arrayEnd();
    j_.attributeEnd();
    j_.attributeBegin("types");
    j_.arrayBegin();
    for (auto& t : typeTable_) j_.value(t);
    j_.arrayEnd();
    j_.attributeEnd();
    j_.attributeBegin("includes");
    j_.value(json::Value(std::move(includes_)));
    j_.attributeEnd();
    j_.objectEnd();
  }

  bool inRoots(SourceLocation l) {
    if (l.isInvalid()) return false;
    l = sm_.getExpansionLoc(l);
    FileID f = sm_.getFileID(l);
    auto it = fileIn_.find(f);
    if (it != fileIn_.end()) return it->second;
    bool r = false;
    std::string n = sm_.getFilename(l).str();
    for (auto& root : gRoots)
      if (n.compare(0, root.size(), root) == 0) r = true;
    fileIn_[f] = r;
    return r;
  }

  bool VisitFunctionDecl(FunctionDecl* f) {
    if (!inRoots(f->getLocation())) return true;
    if (!f->doesThisDeclarationHaveABody() || f->isDefaulted()) {
      if (!f->isImplicit() && !f->isDependentContext() && seenDecl_.insert(f).second) fdecls_.push_back(f);
      return true;
    }
    if (f->isImplicit() && !f->isDefaulted()) {
      auto* m = dyn_cast<CXXMethodDecl>(f);
      if (!m || !m->getParent()->isLambda()) return true;
    }
    dumpFunction(f);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* r) {
    if (!r->isThisDeclarationADefinition() || !inRoots(r->getLocation())) return true;
    if (r->isLambda()) return true;
    records_.push_back(r);
    return true;
  }
  bool VisitEnumDecl(EnumDecl* e) {
    if (e->isThisDeclarationADefinition() && inRoots(e->getLocation())) enums_.push_back(e);
    return true;
  }
  bool VisitVarDecl(VarDecl* v) {
    if (!inRoots(v->getLocation())) return true;
    if (v->isLocalVarDecl() && !v->isStaticLocal()) return true;
    if (isa<ParmVarDecl>(v)) return true;
    if (v->hasGlobalStorage()) vars_.push_back(v);
    return true;
  }
  // lambdas: visit operator() explicitly
  bool VisitLambdaExpr(LambdaExpr* l) {
    if (auto* op = l->getCallOperator())
      if (inRoots(op->getLocation())) {
        if (auto* ft = l->getLambdaClass()->getDependentLambdaCallOperator()) {
          for (auto* s : ft->specializations())
            if (s->hasBody()) {
              dumpFunction(s);
              TraverseStmt(s->getBody());  // lambdas inside an instantiated generic lambda
            }
          if (ft->specializations().begin() == ft->specializations().end()) dumpFunction(op);
        } else if (op->hasBody())
          dumpFunction(op);
      }
    return true;
  }

 private:
  std::string nameOf(const NamedDecl* d) {
    if (auto* c = dyn_cast<CXXConstructorDecl>(d)) return c->getParent()->getNameAsString();
    if (auto* c = dyn_cast<CXXDestructorDecl>(d)) return "~" + c->getParent()->getNameAsString();
    if (auto* c = dyn_cast<CXXConversionDecl>(d)) return "operator " + typeStr(c->getConversionType());
    if (auto* r = dyn_cast<CXXRecordDecl>(d))
      if (r->isLambda()) return "(lambda)";
    return d->getNameAsString();
  }
  std::string qname(const Decl* dd) {
    auto* d = dyn_cast<NamedDecl>(dd);
    if (!d) return "";
    std::string s = nameOf(d);
    const DeclContext* c = d->getDeclContext();
    while (c && !c->isTranslationUnit()) {
      if (auto* n = dyn_cast<NamespaceDecl>(c)) {
        if (n->isAnonymousNamespace())
          s = "(anon)::" + s;
        else if (!n->isInline())
          s = n->getNameAsString() + "::" + s;
      } else if (auto* n = dyn_cast<NamedDecl>(c)) {
        std::string nn = nameOf(n);
        if (!(isa<EnumDecl>(n) && nn.empty())) s = nn + "::" + s;
      }
      c = c->getParent();
    }
    return s;
  }
  std::string typeStr(QualType t) {
    if (t.isNull()) return "";
    std::string s = t.getCanonicalType().getAsString(policy_);
    if (s.size() > 500) {
      s.resize(500);
      // what matters about a long type is often whether it is a reference
      if (t->isRValueReferenceType()) s += "... &&";
      else if (t->isLValueReferenceType()) s += "... &";
      else if (t->isPointerType()) s += "... *";
    }
    return s;
  }
  int typeId(QualType t) {
    if (t.isNull()) return -1;
    void* key = t.getCanonicalType().getAsOpaquePtr();
    auto it = typeMap_.find(key);
    if (it != typeMap_.end()) return it->second;
    int id = typeTable_.size();
    typeTable_.push_back(typeStr(t));
    typeMap_[key] = id;
    return id;
  }
  std::string usr(const Decl* d) {
    auto it = usr_.find(d);
    if (it != usr_.end()) return it->second;
    std::string res;
    const FunctionDecl* f = dyn_cast<FunctionDecl>(d);
    auto* m = f ? dyn_cast<CXXMethodDecl>(f) : nullptr;
    if (m && m->getParent()->isLambda()) {
      // parent function usr + position
      const Decl* p = nullptr;
      const DeclContext* c = m->getParent()->getDeclContext();
      while (c && !isa<FunctionDecl>(c) && !c->isTranslationUnit()) c = c->getParent();
      if (c && isa<FunctionDecl>(c)) p = cast<FunctionDecl>(c);
      PresumedLoc pl = sm_.getPresumedLoc(sm_.getExpansionLoc(m->getParent()->getLocation()));
      res = (p ? usr(p) : std::string()) + "@L" + std::to_string(pl.isValid() ? pl.getLine() : 0) + ":" +
            std::to_string(pl.isValid() ? pl.getColumn() : 0);
      if (!p && pl.isValid()) res += std::string("@") + pl.getFilename();
      if (auto* args = m->getTemplateSpecializationArgs()) {
        for (auto& a : args->asArray()) {
          res += "<";
          if (a.getKind() == TemplateArgument::Type) res += typeStr(a.getAsType());
        }
      }
    } else {
      llvm::SmallString<128> buf;
      if (index::generateUSRForDecl(d, buf)) {
        PresumedLoc pl = sm_.getPresumedLoc(sm_.getExpansionLoc(d->getLocation()));
        res = std::string("loc:") + (pl.isValid() ? pl.getFilename() : "") + ":" +
              std::to_string(pl.isValid() ? pl.getLine() : 0) + ":" +
              std::to_string(pl.isValid() ? pl.getColumn() : 0);
      } else
        res = buf.str().str();
    }
    usr_[d] = res;
    return res;
  }
  void loc(SourceLocation l) {
    l = sm_.getExpansionLoc(l);
    PresumedLoc p = sm_.getPresumedLoc(l);
    if (p.isValid()) {
      j_.attribute("file", p.getFilename());
      j_.attribute("line", p.getLine());
    }
  }
  unsigned line(SourceLocation l) {
    PresumedLoc p = sm_.getPresumedLoc(sm_.getExpansionLoc(l));
    return p.isValid() ? p.getLine() : 0;
  }
  std::string localId(const Decl* d) {
    auto* n = dyn_cast<NamedDecl>(d);
    PresumedLoc p = sm_.getPresumedLoc(sm_.getExpansionLoc(d->getLocation()));
    return (n ? n->getNameAsString() : std::string()) + "#" + std::to_string(p.isValid() ? p.getLine() : 0) + ":" +
           std::to_string(p.isValid() ? p.getColumn() : 0);
  }

  void funcHead(const FunctionDecl* f) {
    j_.attribute("id", usr(f));
    j_.attribute("name", qname(f));
    loc(f->getLocation());
    auto* m = dyn_cast<CXXMethodDecl>(f);
    const char* kind = "func";
    if (m) kind = "method";
    if (isa<CXXConstructorDecl>(f)) kind = "ctor";
    if (isa<CXXDestructorDecl>(f)) kind = "dtor";
    if (isa<CXXConversionDecl>(f)) kind = "conv";
    if (m && m->getParent()->isLambda()) kind = "lambda";
    j_.attribute("kind", kind);
    if (m) {
      j_.attribute("cls", qname(m->getParent()));
      j_.attribute("clst", typeStr(QualType(m->getParent()->getTypeForDecl(), 0)));
      if (m->isConst()) j_.attribute("const", true);
      if (m->isVirtual()) j_.attribute("virtual", true);
      if (m->isStatic()) j_.attribute("static", true);
      if (m->isPureVirtual()) j_.attribute("pure", true);
      if (m->getRefQualifier() == RQ_LValue) j_.attribute("refq", "&");
      if (m->getRefQualifier() == RQ_RValue) j_.attribute("refq", "&&");
      if (m->size_overridden_methods()) {
        j_.attributeBegin("overrides");
        j_.arrayBegin();
        for (auto* o : m->overridden_methods()) j_.value(usr(o));
        j_.arrayEnd();
        j_.attributeEnd();
      }
    } else if (f->getStorageClass() == SC_Static)
      j_.attribute("static", true);
    if (f->getAccess() != AS_none)
      j_.attribute("access", f->getAccess() == AS_public ? "public" : f->getAccess() == AS_private ? "private" : "protected");
    if (f->isInAnonymousNamespace()) j_.attribute("anon", true);
    if (f->isInlined()) j_.attribute("inline", true);
    if (f->isExternC()) j_.attribute("externc", true);
    if (f->isDeleted()) j_.attribute("deleted", true);
    if (f->isDefaulted()) j_.attribute("defaulted", true);
    if (f->isNoReturn()) j_.attribute("noreturn", true);
    if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
      if (c->isCopyConstructor()) j_.attribute("copy", true);
      if (c->isMoveConstructor()) j_.attribute("move", true);
      if (c->isDelegatingConstructor()) j_.attribute("delegating", true);
      if (c->isInheritingConstructor()) j_.attribute("inheriting", true);
    }
    if (auto* mm = m) {
      if (mm->isCopyAssignmentOperator()) j_.attribute("copyassign", true);
      if (mm->isMoveAssignmentOperator()) j_.attribute("moveassign", true);
    }
    if (f->isDependentContext()) j_.attribute("dep", true);
    switch (f->getTemplateSpecializationKind()) {
      case TSK_ImplicitInstantiation:
      case TSK_ExplicitInstantiationDefinition:
      case TSK_ExplicitInstantiationDeclaration:
        j_.attribute("inst", true);
        break;
      case TSK_ExplicitSpecialization:
        j_.attribute("spec", true);
        break;
      default:
        break;
    }
    if (auto* a = f->getTemplateSpecializationArgs()) {
      j_.attributeBegin("targs");
      j_.arrayBegin();
      for (auto& x : a->asArray()) {
        std::string s;
        llvm::raw_string_ostream o(s);
        x.print(policy_, o, true);
        o.flush();
        if (s.size() > 300) s.resize(300);
        j_.value(s);
      }
      j_.arrayEnd();
      j_.attributeEnd();
    }
    auto* fpt = f->getType()->getAs<FunctionProtoType>();
    if (fpt) {
      auto est = fpt->getExceptionSpecType();
      if (est == EST_BasicNoexcept || est == EST_NoexceptTrue || est == EST_DynamicNone || est == EST_NoThrow)
        j_.attribute("noexcept", true);
      j_.attribute("est", (int)est);
    }
    j_.attribute("ret", typeId(f->getReturnType()));
    {
      std::string g = grants(f->getReturnType());
      if (!g.empty()) j_.attribute("grants", g);
      for (auto* p : f->parameters()) {
        g = grants(p->getType());
        if (!g.empty()) {
          j_.attribute("pgrants", g);
          break;
        }
      }
    }
    j_.attributeBegin("params");
    j_.arrayBegin();
    for (auto* p : f->parameters()) {
      j_.objectBegin();
      j_.attribute("n", p->getNameAsString());
      j_.attribute("t", typeId(p->getType()));
      j_.attribute("id", localId(p));
      if (p->hasDefaultArg()) {
        j_.attribute("def", true);
        if (!p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) {
          const Expr* d = p->getDefaultArg();
          Expr::EvalResult r;
          if (d && !d->isValueDependent() && d->EvaluateAsRValue(r, ctx_)) {
            if (r.Val.isInt()) j_.attribute("dv", llvm::toString(r.Val.getInt(), 10));
            else if (r.Val.isFloat()) {
              SmallString<24> fs;
              r.Val.getFloat().toString(fs);
              j_.attribute("dv", fs.str());
            }
          }
        }
      }
      j_.objectEnd();
    }
    j_.arrayEnd();
    j_.attributeEnd();
  }

  // ------------------------------------------------------------------ expressions
  const Stmt* strip(const Stmt* s) {
    while (s) {
      if (auto* e = dyn_cast<ExprWithCleanups>(s)) s = e->getSubExpr();
      else if (auto* e = dyn_cast<MaterializeTemporaryExpr>(s)) s = e->getSubExpr();
      else if (auto* e = dyn_cast<CXXBindTemporaryExpr>(s)) s = e->getSubExpr();
      else if (auto* e = dyn_cast<ImplicitCastExpr>(s)) s = e->getSubExpr();
      else if (auto* e = dyn_cast<ParenExpr>(s)) s = e->getSubExpr();
      else if (auto* e = dyn_cast<ConstantExpr>(s)) s = e->getSubExpr();
      else if (auto* e = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) s = e->getReplacement();
      else if (auto* e = dyn_cast<CXXDefaultArgExpr>(s)) return s;
      else if (auto* e = dyn_cast<CXXStdInitializerListExpr>(s)) s = e->getSubExpr();
      else break;
    }
    return s;
  }
  std::map<const Stmt*, int> ids_;
  int idOf(const Stmt* s) {
    s = strip(s);
    auto it = ids_.find(s);
    if (it != ids_.end()) return it->second;
    int n = ids_.size();
    ids_[s] = n;
    return n;
  }
  std::set<const Stmt*> dumped_;

  void declRef(const ValueDecl* d) {
    j_.attributeBegin("d");
    j_.objectBegin();
    if (isa<FunctionDecl>(d)) {
      j_.attribute("k", "Function");
      j_.attribute("n", qname(d));
      j_.attribute("id", usr(d));
    } else if (isa<EnumConstantDecl>(d)) {
      j_.attribute("k", "Enum");
      j_.attribute("n", qname(d));
    } else if (auto* v = dyn_cast<VarDecl>(d)) {
      if (isa<ParmVarDecl>(v)) {
        j_.attribute("k", "Parm");
        j_.attribute("n", v->getNameAsString());
        j_.attribute("id", localId(v));
      } else if (v->hasGlobalStorage()) {
        j_.attribute("k", "Global");
        if (auto* gv = dyn_cast<VarDecl>(d))
          if (gv->getTLSKind() != VarDecl::TLS_None) j_.attribute("tls", true);
        j_.attribute("n", qname(v));
        if (v->isStaticLocal()) j_.attribute("sl", true);
      } else {
        j_.attribute("k", "Var");
        j_.attribute("n", v->getNameAsString());
        j_.attribute("id", localId(v));
      }
    } else if (isa<BindingDecl>(d)) {
      j_.attribute("k", "Var");
      j_.attribute("n", d->getNameAsString());
      j_.attribute("id", localId(d));
    } else if (isa<FieldDecl>(d)) {
      j_.attribute("k", "Field");
      j_.attribute("n", qname(d));
    } else {
      j_.attribute("k", d->getDeclKindName());
      j_.attribute("n", qname(d));
    }
    j_.objectEnd();
    j_.attributeEnd();
  }
  void callee(const FunctionDecl* f) {
    j_.attribute("f", qname(f));
    j_.attribute("fid", usr(f));
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      if (m->isConst()) j_.attribute("fconst", true);
      if (m->isStatic()) j_.attribute("fstatic", true);
      if (m->isVirtual()) j_.attribute("fvirt", true);
    }
    if (auto* fpt = f->getType()->getAs<FunctionProtoType>()) {
      // does callee declare noexcept?
      auto est = fpt->getExceptionSpecType();
      if (est == EST_BasicNoexcept || est == EST_NoexceptTrue || est == EST_DynamicNone || est == EST_NoThrow)
        j_.attribute("fnx", true);
      // parameter passing: n = non-const lvalue ref/ptr, r = rvalue ref, c = const ref/ptr, v = value
      std::string modes;
      for (auto* p : f->parameters()) {
        QualType t = p->getType();
        if (t->isRValueReferenceType()) modes += 'r';
        else if (t->isLValueReferenceType()) modes += t->getPointeeType().isConstQualified() ? 'c' : 'n';
        else if (t->isPointerType()) modes += t->getPointeeType().isConstQualified() ? 'c' : 'n';
        else modes += 'v';
      }
      j_.attribute("pm", modes);
    }
    if (auto* a = f->getTemplateSpecializationArgs()) {
      j_.attributeBegin("fta");
      j_.arrayBegin();
      for (auto& x : a->asArray()) {
        std::string s;
        llvm::raw_string_ostream o(s);
        x.print(policy_, o, true);
        o.flush();
        if (s.size() > 200) s.resize(200);
        j_.value(s);
      }
      j_.arrayEnd();
      j_.attributeEnd();
    }
  }

  void dumpStmt(const Stmt* s0) {
    const Stmt* s = strip(s0);
    if (!s) {
      j_.value(nullptr);
      return;
    }
    j_.objectBegin();
    bool again = !dumped_.insert(s).second;
    j_.attribute("i", idOf(s));
    j_.attribute("k", s->getStmtClassName());
    j_.attribute("l", line(s->getBeginLoc()));
    if (s->getBeginLoc().isMacroID()) {
      SourceLocation ml = s->getBeginLoc();
      j_.attribute("mac", Lexer::getImmediateMacroName(ml, sm_, ctx_.getLangOpts()));
    }
    if (again) {
      j_.attribute("again", true);
      j_.objectEnd();
      return;
    }
    if (auto* e = dyn_cast<Expr>(s)) {
      j_.attribute("t", typeId(e->getType()));
      if (e->isLValue()) j_.attribute("lv", true);
      if (!e->getType().isNull() && !e->isValueDependent() && !e->isTypeDependent() && e->getType()->isIntegralOrEnumerationType() &&
          !isa<IntegerLiteral>(e)) {
        bool cand = isa<BinaryOperator>(e) || isa<UnaryOperator>(e) || isa<DeclRefExpr>(e) || isa<CallExpr>(e) ||
                    isa<ExplicitCastExpr>(e) || isa<ConditionalOperator>(e) || isa<CXXConstructExpr>(e) ||
                    isa<UnaryExprOrTypeTraitExpr>(e) || isa<CXXBoolLiteralExpr>(e);
        if (cand) {
          Expr::EvalResult r;
          if (e->EvaluateAsInt(r, ctx_, Expr::SE_NoSideEffects)) {
            llvm::SmallString<16> str;
            r.Val.getInt().toString(str, 10);
            j_.attribute("ev", str.str());
          }
        }
      }
    }
    auto kids = [&](auto range) {
      j_.attributeBegin("c");
      j_.arrayBegin();
      for (auto* c : range) dumpStmt(c);
      j_.arrayEnd();
      j_.attributeEnd();
    };
    if (auto* e = dyn_cast<DeclRefExpr>(s)) {
      declRef(e->getDecl());
    } else if (auto* e = dyn_cast<MemberExpr>(s)) {
      j_.attribute("m", qname(e->getMemberDecl()));
      if (auto* f = dyn_cast<FunctionDecl>(e->getMemberDecl())) j_.attribute("fid", usr(f));
      if (e->isArrow()) j_.attribute("arrow", true);
      kids(e->children());
    } else if (auto* e = dyn_cast<CXXConstructExpr>(s)) {
      callee(e->getConstructor());
      j_.attribute("ctor", true);
      if (e->isElidable()) j_.attribute("elide", true);
      if (e->getConstructor()->isCopyConstructor()) j_.attribute("copy", true);
      if (e->getConstructor()->isMoveConstructor()) j_.attribute("move", true);
      kids(e->children());
    } else if (auto* e = dyn_cast<CallExpr>(s)) {
      if (auto* f = e->getDirectCallee()) callee(f);
      if (auto* o = dyn_cast<CXXOperatorCallExpr>(e)) j_.attribute("op", getOperatorSpelling(o->getOperator()));
      kids(e->children());
    } else if (auto* e = dyn_cast<BinaryOperator>(s)) {
      j_.attribute("op", e->getOpcodeStr());
      kids(e->children());
    } else if (auto* e = dyn_cast<UnaryOperator>(s)) {
      j_.attribute("op", UnaryOperator::getOpcodeStr(e->getOpcode()));
      if (e->isPostfix()) j_.attribute("post", true);
      kids(e->children());
    } else if (auto* e = dyn_cast<IntegerLiteral>(s)) {
      llvm::SmallString<16> str;
      e->getValue().toString(str, 10, true);
      j_.attribute("v", str.str());
    } else if (auto* e = dyn_cast<FloatingLiteral>(s)) {
      llvm::SmallString<16> str;
      e->getValue().toString(str);
      j_.attribute("v", str.str());
    } else if (auto* e = dyn_cast<CXXBoolLiteralExpr>(s)) {
      j_.attribute("v", e->getValue() ? "1" : "0");
    } else if (auto* e = dyn_cast<clang::StringLiteral>(s)) {
      if (e->getCharByteWidth() == 1) {
        std::string v = e->getBytes().str();
        if (json::isUTF8(v)) j_.attribute("v", v);
        else j_.attribute("v", json::fixUTF8(v));
      }
    } else if (auto* e = dyn_cast<CharacterLiteral>(s)) {
      j_.attribute("v", std::to_string(e->getValue()));
    } else if (auto* e = dyn_cast<CXXDefaultArgExpr>(s)) {
      j_.attributeBegin("c");
      j_.arrayBegin();
      dumpStmt(e->getExpr());
      j_.arrayEnd();
      j_.attributeEnd();
    } else if (auto* e = dyn_cast<CXXDefaultInitExpr>(s)) {
      j_.attributeBegin("c");
      j_.arrayBegin();
      dumpStmt(e->getExpr());
      j_.arrayEnd();
      j_.attributeEnd();
    } else if (auto* e = dyn_cast<ExplicitCastExpr>(s)) {
      j_.attribute("ck", e->getCastKindName());
      j_.attribute("tw", e->getTypeAsWritten().getAsString(policy_));
      kids(e->children());
    } else if (auto* e = dyn_cast<LambdaExpr>(s)) {
      std::vector<std::string> fids;
      if (auto* ft = e->getLambdaClass()->getDependentLambdaCallOperator()) {
        for (auto* sp : ft->specializations()) fids.push_back(usr(sp));
        if (fids.empty()) fids.push_back(usr(e->getCallOperator()));
      } else
        fids.push_back(usr(e->getCallOperator()));
      j_.attributeBegin("lam");
      j_.arrayBegin();
      for (auto& x : fids) j_.value(x);
      j_.arrayEnd();
      j_.attributeEnd();
      j_.attributeBegin("cap");
      j_.arrayBegin();
      for (auto& c : e->captures()) {
        j_.objectBegin();
        if (c.capturesThis()) j_.attribute("this", true);
        if (c.capturesVariable()) {
          j_.attribute("id", localId(c.getCapturedVar()));
          j_.attribute("byref", c.getCaptureKind() == LCK_ByRef);
        }
        j_.objectEnd();
      }
      j_.arrayEnd();
      j_.attributeEnd();
      // capture initialisers (for copies / init captures)
      j_.attributeBegin("c");
      j_.arrayBegin();
      for (auto* x : e->capture_inits())
        dumpStmt(x);
      j_.arrayEnd();
      j_.attributeEnd();
    } else if (auto* d = dyn_cast<DeclStmt>(s)) {
      j_.attributeBegin("vars");
      j_.arrayBegin();
      for (auto* x : d->decls()) {
        auto* v = dyn_cast<VarDecl>(x);
        if (!v) continue;
        j_.objectBegin();
        j_.attribute("id", localId(v));
        j_.attribute("n", v->getNameAsString());
        j_.attribute("t", typeId(v->getType()));
        if (v->isStaticLocal()) j_.attribute("static", qname(v));
        if (v->getTLSKind() != VarDecl::TLS_None) j_.attribute("tls", true);
        if (v->getInit()) {
          j_.attributeBegin("init");
          dumpStmt(v->getInit());
          j_.attributeEnd();
        }
        if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
          j_.attributeBegin("bind");
          j_.arrayBegin();
          for (auto* b : dd->bindings()) j_.value(localId(b));
          j_.arrayEnd();
          j_.attributeEnd();
        }
        j_.objectEnd();
      }
      j_.arrayEnd();
      j_.attributeEnd();
    } else if (auto* f = dyn_cast<CXXForRangeStmt>(s)) {
      j_.attribute("var", localId(f->getLoopVariable()));
      j_.attributeBegin("range");
      dumpStmt(f->getRangeInit());
      j_.attributeEnd();
      j_.attributeBegin("c");
      j_.arrayBegin();
      if (f->getRangeStmt()) dumpStmt(f->getRangeStmt());
      if (f->getBeginStmt()) dumpStmt(f->getBeginStmt());
      if (f->getEndStmt()) dumpStmt(f->getEndStmt());
      if (f->getCond()) dumpStmt(f->getCond());
      if (f->getInc()) dumpStmt(f->getInc());
      if (f->getLoopVarStmt()) dumpStmt(f->getLoopVarStmt());
      dumpStmt(f->getBody());
      j_.arrayEnd();
      j_.attributeEnd();
    } else if (auto* c = dyn_cast<CXXCatchStmt>(s)) {
      if (c->getExceptionDecl()) j_.attribute("ct", typeId(c->getCaughtType()));
      if (c->getExceptionDecl()) j_.attribute("cv", localId(c->getExceptionDecl()));
      kids(c->children());
    } else if (auto* c = dyn_cast<CaseStmt>(s)) {
      j_.attributeBegin("case");
      dumpStmt(c->getLHS());
      j_.attributeEnd();
      j_.attributeBegin("c");
      j_.arrayBegin();
      dumpStmt(c->getSubStmt());
      j_.arrayEnd();
      j_.attributeEnd();
    } else if (auto* u = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) {
      (void)u;
    } else if (auto* il = dyn_cast<InitListExpr>(s)) {
      if (auto* rt = il->getType()->getAsCXXRecordDecl()) {
        j_.attributeBegin("flds");
        j_.arrayBegin();
        for (auto* fd : rt->fields()) j_.value(qname(fd));
        j_.arrayEnd();
        j_.attributeEnd();
      }
      kids(il->inits());
    } else if (auto* u = dyn_cast<UnresolvedLookupExpr>(s)) {
      j_.attribute("un", u->getName().getAsString());
    } else if (auto* u = dyn_cast<UnresolvedMemberExpr>(s)) {
      j_.attribute("un", u->getMemberName().getAsString());
      if (!u->isImplicitAccess()) kids(u->children());
    } else if (auto* u = dyn_cast<CXXDependentScopeMemberExpr>(s)) {
      j_.attribute("un", u->getMember().getAsString());
      if (!u->isImplicitAccess()) kids(u->children());
    } else if (auto* u = dyn_cast<CXXNewExpr>(s)) {
      j_.attribute("nt", typeId(u->getAllocatedType()));
      kids(u->children());
    } else {
      kids(s->children());
    }
    j_.objectEnd();
  }

  void dumpFunction(const FunctionDecl* f) {
    std::string id = usr(f);
    if (!done_.insert(id).second) return;
    ids_.clear();
    dumped_.clear();
    j_.objectBegin();
    funcHead(f);
    j_.attribute("end", line(f->getBody() ? f->getBody()->getEndLoc() : f->getEndLoc()));
    if (auto* m = dyn_cast<CXXMethodDecl>(f); m && m->getParent()->isLambda()) {
      const DeclContext* c = m->getParent()->getDeclContext();
      while (c && !isa<FunctionDecl>(c) && !c->isTranslationUnit()) c = c->getParent();
      if (c && isa<FunctionDecl>(c)) j_.attribute("parent", usr(cast<FunctionDecl>(c)));
    }
    if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
      j_.attributeBegin("inits");
      j_.arrayBegin();
      for (auto* in : c->inits()) {
        j_.objectBegin();
        if (in->isAnyMemberInitializer()) j_.attribute("m", qname(in->getAnyMember()));
        if (in->isBaseInitializer()) j_.attribute("b", typeStr(QualType(in->getBaseClass(), 0)));
        if (in->isDelegatingInitializer()) j_.attribute("deleg", true);
        if (in->isWritten()) j_.attribute("written", true);
        if (in->getInit()) {
          j_.attributeBegin("e");
          dumpStmt(in->getInit());
          j_.attributeEnd();
        }
        j_.objectEnd();
      }
      j_.arrayEnd();
      j_.attributeEnd();
    }
    j_.attributeBegin("body");
    dumpStmt(f->getBody());
    j_.attributeEnd();
    if (!f->isDependentContext()) {
      CFG::BuildOptions bo;
      bo.setAllAlwaysAdd();
      bo.AddInitializers = true;
      bo.AddImplicitDtors = false;
      bo.PruneTriviallyFalseEdges = false;
      bo.AddCXXDefaultInitExprInCtors = true;
      auto cfg = CFG::buildCFG(f, f->getBody(), &ctx_, bo);
      if (cfg) {
        j_.attributeBegin("cfg");
        j_.objectBegin();
        j_.attribute("entry", cfg->getEntry().getBlockID());
        j_.attribute("exit", cfg->getExit().getBlockID());
        j_.attributeBegin("b");
        j_.arrayBegin();
        for (auto* b : *cfg) {
          j_.objectBegin();
          j_.attribute("id", b->getBlockID());
          j_.attributeBegin("e");
          j_.arrayBegin();
          int last = -1;
          for (auto& el : *b) {
            if (auto se = el.getAs<CFGStmt>()) {
              int n = idOf(se->getStmt());
              // transparent wrappers map to the wrapped node: keep the last occurrence order
              if (n != last) j_.value(n);
              last = n;
            } else if (auto ie = el.getAs<CFGInitializer>()) {
              auto* in = ie->getInitializer();
              j_.objectBegin();
              if (in->isAnyMemberInitializer()) j_.attribute("m", qname(in->getAnyMember()));
              if (in->getInit()) j_.attribute("e", idOf(in->getInit()));
              j_.objectEnd();
              last = -1;
            }
          }
          j_.arrayEnd();
          j_.attributeEnd();
          if (auto* t = b->getTerminatorStmt()) {
            j_.attribute("t", t->getStmtClassName());
            j_.attribute("ti", idOf(t));
          }
          if (auto* c = b->getTerminatorCondition()) j_.attribute("cond", idOf(c));
          if (auto* l = b->getLabel()) {
            j_.attribute("lab", l->getStmtClassName());
            j_.attribute("labi", idOf(l));
          }
          if (b->hasNoReturnElement()) j_.attribute("noret", true);
          j_.attributeBegin("s");
          j_.arrayBegin();
          for (auto& su : b->succs()) {
            const CFGBlock* x = su.getReachableBlock();
            if (!x) x = su.getPossiblyUnreachableBlock();
            if (x) j_.value(x->getBlockID());
            else j_.value(nullptr);
          }
          j_.arrayEnd();
          j_.attributeEnd();
          j_.objectEnd();
        }
        j_.arrayEnd();
        j_.attributeEnd();
        j_.objectEnd();
        j_.attributeEnd();
      }
    }
    j_.objectEnd();
  }

  // ------------------------------------------------------------------ mutable access
  // Why a value of type t lets its holder change data shared with others ("" if it does not).
  std::map<const void*, std::string> grants_;
  static bool derivesFrom(const CXXRecordDecl* r, llvm::function_ref<bool(const CXXRecordDecl*)> p, int depth = 0) {
    if (!r || depth > 12) return false;
    if (p(r)) return true;
    if (!(r = r->getDefinition())) return false;
    for (auto& b : r->bases())
      if (derivesFrom(b.getType()->getAsCXXRecordDecl(), p, depth + 1)) return true;
    return false;
  }
  bool isLanelet(const CXXRecordDecl* r, const char* name) { return qname(r) == std::string("lanelet::") + name; }
  bool mutableHandle(const CXXRecordDecl* r) {
    if (derivesFrom(r, [&](const CXXRecordDecl* b) { return isLanelet(b, "Primitive"); })) return true;
    for (auto* n : {"WeakLanelet", "WeakArea", "LineStringOrPolygon3d", "LineStringOrPolygon2d"})
      if (isLanelet(r, n)) return true;
    return false;
  }
  // objects that others can hold too, as opposed to handles and plain values
  bool sharedObject(const CXXRecordDecl* r) {
    return derivesFrom(r, [&](const CXXRecordDecl* b) {
      for (auto* n : {"PrimitiveData", "ConstPrimitive", "LaneletMapLayers", "PrimitiveLayer", "LaneletMap", "LaneletSubmap", "LaneletSequenceData",
                      "Attribute", "HybridMap", "routing::Route", "routing::RoutingGraph", "CompoundLineStringData"})
        if (isLanelet(b, n)) return true;
      return false;
    });
  }
  QualType memberType(const CXXRecordDecl* r, const char* name, int depth = 0) {
    if (!r || depth > 10 || !(r = r->getDefinition())) return QualType();
    for (auto* d : r->lookup(&ctx_.Idents.get(name)))
      if (auto* t = dyn_cast<TypedefNameDecl>(d)) return t->getUnderlyingType();
    for (auto& b : r->bases()) {
      QualType t = memberType(b.getType()->getAsCXXRecordDecl(), name, depth + 1);
      if (!t.isNull()) return t;
    }
    return QualType();
  }
  std::string grants(QualType t, int depth = 0) {
    if (t.isNull() || depth > 12 || t->isDependentType()) return "";
    t = t.getCanonicalType();
    if (t->isReferenceType() || t->isPointerType()) {
      QualType p = t->getPointeeType();
      if (p->isFunctionType() || p->isVoidType()) return "";
      auto* r = p->getAsCXXRecordDecl();
      if (!p.isConstQualified() && !t->isRValueReferenceType()) {
        if (!r) return p->isBuiltinType() ? "reference to " + typeStr(p) : "";
        std::string n = qname(r);
        if (StringRef(n).starts_with("std::basic_ostream") || StringRef(n).starts_with("std::basic_istream")) return "";
        if (StringRef(n).starts_with("lanelet::") || StringRef(n).starts_with("std::") || StringRef(n).starts_with("Eigen::") ||
            StringRef(n).starts_with("boost::"))
          return (t->isPointerType() ? "pointer to " : "reference to ") + n;
      }
      return grants(p.getUnqualifiedType(), depth + 1);
    }
    auto* r = t->getAsCXXRecordDecl();
    if (!r) return "";
    const void* key = t.getUnqualifiedType().getAsOpaquePtr();
    auto it = grants_.find(key);
    if (it != grants_.end()) return it->second;
    grants_[key] = "";
    std::string res;
    std::string n = qname(r);
    auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(r);
    if (mutableHandle(r))
      res = n;
    else if (sp && (n == "std::shared_ptr" || n == "std::weak_ptr" || n == "std::unique_ptr" || n == "boost::shared_ptr")) {
      QualType a = sp->getTemplateArgs()[0].getAsType();
      auto* ar = a->getAsCXXRecordDecl();
      if (ar && !a.isConstQualified() && sharedObject(ar)) res = n.substr(n.rfind(':') + 1) + " to " + qname(ar);
      // a pointer to const only hands out what can be copied from it
      if (ar && res.empty() && !sharedObject(ar)) res = grants(a.getUnqualifiedType(), depth + 1);
    } else if (!derivesFrom(r, [&](const CXXRecordDecl* b) { return isLanelet(b, "ConstPrimitive"); })) {
      QualType ref = memberType(r, "reference"), val = memberType(r, "value_type"), cat = memberType(r, "iterator_category");
      if (!ref.isNull() && !cat.isNull()) {
        res = grants(ref, depth + 1);
        if (StringRef(res).starts_with("reference to ") && n.find("insert_iterator") != std::string::npos) res = "";
      } else if (sp && (StringRef(n).starts_with("std::") || StringRef(n).starts_with("boost::") || n == "lanelet::HybridMap")) {
        std::function<void(const TemplateArgument&)> each = [&](const TemplateArgument& a) {
          if (!res.empty()) return;
          if (a.getKind() == TemplateArgument::Type) {
            if (n == "std::function" || n == "std::hash" || n == "std::equal_to" || n == "std::less") return;
            res = grants(a.getAsType(), depth + 1);
          } else if (a.getKind() == TemplateArgument::Pack)
            for (auto& x : a.pack_elements()) each(x);
        };
        for (auto& a : sp->getTemplateArgs().asArray()) each(a);
      }
    }
    grants_[key] = res;
    return res;
  }
  // what callers can use of a class: every public member function, inherited ones by their own class
  void dumpApi(const CXXRecordDecl* r) {
    j_.attribute("handle", mutableHandle(r));
    QualType ref = memberType(r, "reference");
    if (!ref.isNull() && !memberType(r, "iterator_category").isNull()) {
      j_.attribute("iter", true);
      j_.attribute("iterref", grants(ref));
    }
    j_.attributeBegin("api");
    j_.arrayBegin();
    for (auto* d : r->decls()) {
      auto* m = dyn_cast<CXXMethodDecl>(d);
      if (auto* f = dyn_cast<FieldDecl>(d)) {
        if (f->getAccess() != AS_public && !r->isStruct()) continue;
        if (f->getAccess() != AS_public) continue;
        j_.objectBegin();
        j_.attribute("field", true);
        j_.attribute("n", f->getNameAsString());
        j_.attribute("line", line(f->getLocation()));
        // what a constant object shows: its members are constant too
        QualType t = f->getType();
        std::string g = grants(t->isReferenceType() || t->isPointerType() ? t : t.getUnqualifiedType());
        j_.attribute("grants", g);
        j_.attribute("t", typeStr(t));
        j_.objectEnd();
        continue;
      }
      if (!m || m->isImplicit() || isa<CXXDestructorDecl>(m) || m->isDeleted()) continue;
      j_.objectBegin();
      j_.attribute("n", m->getNameAsString());
      j_.attribute("id", usr(m));
      j_.attribute("line", line(m->getLocation()));
      if (m->isConst()) j_.attribute("const", true);
      if (m->isStatic()) j_.attribute("static", true);
      if (isa<CXXConstructorDecl>(m)) j_.attribute("ctor", true);
      j_.attribute("acc", m->getAccess() == AS_public ? "public" : m->getAccess() == AS_private ? "private" : "protected");
      if (!isa<CXXConstructorDecl>(m)) {
        j_.attribute("grants", grants(m->getReturnType()));
        j_.attribute("ret", typeStr(m->getReturnType()));
      }
      std::string pg;
      for (auto* p : m->parameters())
        if (pg.empty()) pg = grants(p->getType());
      j_.attribute("pgrants", pg);
      j_.objectEnd();
    }
    j_.arrayEnd();
    j_.attributeEnd();
  }

  void dumpRecord(const CXXRecordDecl* r) {
    j_.objectBegin();
    j_.attribute("id", usr(r));
    j_.attribute("name", qname(r));
    j_.attribute("type", typeStr(QualType(r->getTypeForDecl(), 0)));
    loc(r->getLocation());
    j_.attribute("kind", r->getKindName());
    if (r->isDependentContext()) j_.attribute("dep", true);
    if (r->isInAnonymousNamespace()) j_.attribute("anon", true);
    if (r->isUnion()) j_.attribute("union", true);
    if (auto* s = dyn_cast<ClassTemplateSpecializationDecl>(r)) {
      j_.attribute("inst", true);
      (void)s;
    }
    if (r->isAggregate()) j_.attribute("aggregate", true);
    if (!r->isDependentContext() && r->isAbstract()) j_.attribute("abstract", true);
    if (r->hasUserDeclaredConstructor()) j_.attribute("userctor", true);
    if (r->needsImplicitDefaultConstructor() || (r->hasDefaultConstructor())) j_.attribute("defctor", true);
    j_.attributeBegin("bases");
    j_.arrayBegin();
    for (auto& b : r->bases()) {
      j_.objectBegin();
      j_.attribute("t", typeStr(b.getType()));
      if (auto* br = b.getType()->getAsCXXRecordDecl()) {
        j_.attribute("n", qname(br));
        j_.attribute("id", usr(br));
      }
      j_.attribute("acc", (int)b.getAccessSpecifier());
      j_.objectEnd();
    }
    j_.arrayEnd();
    j_.attributeEnd();
    j_.attributeBegin("fields");
    j_.arrayBegin();
    for (auto* f : r->fields()) {
      j_.objectBegin();
      j_.attribute("n", f->getNameAsString());
      j_.attribute("q", qname(f));
      j_.attribute("t", typeId(f->getType()));
      j_.attribute("line", line(f->getLocation()));
      if (f->isMutable()) j_.attribute("mutable", true);
      if (f->hasInClassInitializer()) {
        j_.attribute("init", true);
        if (auto* e = f->getInClassInitializer()) {
          ids_.clear();
          dumped_.clear();
          j_.attributeBegin("initx");
          dumpStmt(e);
          j_.attributeEnd();
        }
      }
      QualType t = f->getType().getCanonicalType();
      const char* cat = "class";
      if (t->isReferenceType()) cat = "ref";
      else if (t->isPointerType() || t->isMemberPointerType()) cat = "ptr";
      else if (t->isEnumeralType()) cat = "enum";
      else if (t->isFundamentalType()) cat = "builtin";
      else if (t->isArrayType()) {
        QualType bt = ctx_.getBaseElementType(t);
        cat = (bt->isFundamentalType() || bt->isPointerType() || bt->isEnumeralType()) ? "array" : "class";
      } else if (t->isDependentType()) cat = "dep";
      j_.attribute("cat", cat);
      if (auto* rt = t->getAsCXXRecordDecl()) {
        if (rt->hasDefinition()) {
          if (rt->isPOD()) j_.attribute("pod", true);
          // a class whose default construction leaves members indeterminate
          if (rt->hasTrivialDefaultConstructor()) j_.attribute("trivdef", true);
          if (rt->isEmpty()) j_.attribute("empty", true);
        }
      }
      j_.attribute("acc", f->getAccess() == AS_public ? "public" : f->getAccess() == AS_private ? "private" : "protected");
      j_.objectEnd();
    }
    j_.arrayEnd();
    j_.attributeEnd();
    if (!r->isDependentContext() && r->getDefinition()) dumpApi(r->getDefinition());
    if (!r->isDependentContext()) {
      j_.attributeBegin("methods");
      j_.arrayBegin();
      for (auto* m : r->methods()) {
        if (m->isImplicit()) continue;
        j_.value(usr(m));
      }
      j_.arrayEnd();
      j_.attributeEnd();
      j_.attributeBegin("friends");
      j_.arrayBegin();
      for (auto* fr : r->friends()) {
        if (auto* nd = fr->getFriendDecl()) j_.value(qname(nd));
        else if (fr->getFriendType()) j_.value(typeStr(fr->getFriendType()->getType()));
      }
      j_.arrayEnd();
      j_.attributeEnd();
    }
    j_.objectEnd();
  }

  void dumpGlobal(const VarDecl* v) {
    j_.objectBegin();
    j_.attribute("name", qname(v));
    loc(v->getLocation());
    j_.attribute("t", typeId(v->getType()));
    if (v->getType().isConstQualified()) j_.attribute("const", true);
    if (v->isConstexpr()) j_.attribute("constexpr", true);
    if (v->isStaticLocal()) j_.attribute("sl", true);
    if (v->isStaticDataMember()) j_.attribute("member", true);
    if (v->isInline()) j_.attribute("inline", true);
    if (v->isThisDeclarationADefinition() == VarDecl::Definition) j_.attribute("isdef", true);
    if (v->getStorageClass() == SC_Static) j_.attribute("static", true);
    if (v->isInAnonymousNamespace()) j_.attribute("anon", true);
    if (v->hasExternalFormalLinkage()) j_.attribute("extlink", true);
    if (v->getTemplateSpecializationKind() != TSK_Undeclared) j_.attribute("inst", true);
    if (v->getDeclContext()->isDependentContext() || v->getType()->isDependentType()) j_.attribute("dep", true);
    if (v->getTLSKind() != VarDecl::TLS_None) j_.attribute("tls", true);
    if (v->getInit() && !(v->getInit()->isValueDependent())) {
      ids_.clear();
      dumped_.clear();
      if (v->getType()->isIntegralOrEnumerationType()) {
        Expr::EvalResult r;
        if (v->getInit()->EvaluateAsInt(r, ctx_, Expr::SE_NoSideEffects)) {
          llvm::SmallString<16> s;
          r.Val.getInt().toString(s, 10);
          j_.attribute("ev", s.str());
        }
      }
      j_.attributeBegin("init");
      dumpStmt(v->getInit());
      j_.attributeEnd();
    }
    j_.objectEnd();
  }

  ASTContext& ctx_;
  SourceManager& sm_;
  PrintingPolicy policy_;
  json::OStream j_;
  json::Array includes_;
  int pass_ = 0;
  std::map<FileID, bool> fileIn_;
  std::set<std::string> done_;
  std::set<const Decl*> seenDecl_;
  std::map<const Decl*, std::string> usr_;
  std::map<void*, int> typeMap_;
  std::vector<std::string> typeTable_;
  std::vector<const CXXRecordDecl*> records_;
  std::vector<const EnumDecl*> enums_;
  std::vector<const VarDecl*> vars_;
  std::vector<const FunctionDecl*> fdecls_;
};

class Includes : public PPCallbacks {
 public:
  Includes(SourceManager& sm, json::Array& out) : sm_{sm}, out_{out} {}
  void InclusionDirective(SourceLocation h, const Token&, StringRef name, bool, CharSourceRange,
                          OptionalFileEntryRef file, StringRef, StringRef, const Module*,
                          SrcMgr::CharacteristicKind) override {
    std::string from = sm_.getFilename(sm_.getExpansionLoc(h)).str();
    bool in = false;
    for (auto& r : gRoots)
      if (from.compare(0, r.size(), r) == 0) in = true;
    if (!in) return;
    json::Array a;
    a.push_back(from);
    a.push_back(name.str());
    a.push_back(file ? file->getName().str() : std::string());
    out_.push_back(json::Value(std::move(a)));
  }

 private:
  SourceManager& sm_;
  json::Array& out_;
};

class Consumer : public ASTConsumer {
 public:
  explicit Consumer(CompilerInstance& ci, json::Array& inc) : ci_{ci}, inc_{inc} {}
  void HandleTranslationUnit(ASTContext& ctx) override {
    std::error_code ec;
    llvm::raw_fd_ostream os(gOut, ec);
    if (ec) {
      llvm::errs() << "cannot write " << gOut << "\n";
      exit(3);
    }
    if (ci_.getDiagnostics().hasErrorOccurred()) {
      os << "{\"error\":true}";
      return;
    }
    Dumper d(ctx, os, std::move(inc_));
    d.run();
  }

 private:
  CompilerInstance& ci_;
  json::Array& inc_;
};

class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, StringRef) override {
    ci.getPreprocessor().addPPCallbacks(std::make_unique<Includes>(ci.getSourceManager(), inc_));
    return std::make_unique<Consumer>(ci, inc_);
  }
  json::Array inc_;
};
}  // namespace

int main(int argc, const char** argv) {
  // l2facts OUT ROOT[:ROOT...] FILE -- FLAGS
  if (argc < 5) {
    llvm::errs() << "usage: l2facts OUT ROOTS FILE -- FLAGS\n";
    return 2;
  }
  gOut = argv[1];
  std::string roots = argv[2];
  size_t p = 0;
  while (p <= roots.size()) {
    size_t q = roots.find(':', p);
    if (q == std::string::npos) q = roots.size();
    if (q > p) gRoots.push_back(roots.substr(p, q - p));
    p = q + 1;
  }
  std::string file = argv[3];
  std::vector<std::string> flags;
  for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db("/", flags);
  tooling::ClangTool tool(db, {file});
  int r = tool.run(tooling::newFrontendActionFactory<Action>().get());
  return r;
}
