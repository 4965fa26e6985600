// AST fact extractor: writes one JSON object per declaration of /repo found in a translation unit.
//   astx OUT ROOT FILE.cpp -- clang flags
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Lex/Lexer.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <set>
#include <string>
#include <vector>
using namespace clang;

static std::string ROOT, OUT;
static llvm::raw_ostream* os;

struct Dumper : RecursiveASTVisitor<Dumper> {
  ASTContext& C;
  SourceManager& SM;
  PrintingPolicy PP;
  std::set<std::string> seen;
  explicit Dumper(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.Bool = true;
  }
  bool shouldVisitTemplateInstantiations() const { return false; }
  bool shouldVisitImplicitCode() const { return false; }
  bool shouldVisitLambdaBody() const { return false; }

  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto f = SM.getFilename(L).str();
    if (f.rfind(ROOT, 0) == 0) return f.substr(ROOT.size() + 1);
    return "";
  }
  int line(SourceLocation L) { return L.isValid() ? (int) SM.getExpansionLineNumber(L) : 0; }
  std::string type(QualType t) {
    if (t.isNull()) return "";
    if (const auto* d = t->getAs<DeducedType>())
      if (d->isDeduced()) return d->getDeducedType().getAsString(PP);
    return t.getAsString(PP);
  }
  std::string id(const Decl* d) {
    auto L = SM.getExpansionLoc(d->getLocation());
    auto S = SM.getSpellingLoc(d->getLocation());
    return std::to_string(SM.getExpansionLineNumber(L)) + ":" + std::to_string(SM.getExpansionColumnNumber(L)) + (S != L ? "@" + std::to_string(SM.getFileOffset(S)) : "");
  }
  std::string qn(const NamedDecl* d) {
    std::string s;
    llvm::raw_string_ostream o(s);
    d->printQualifiedName(o, PP);
    return o.str();
  }
  std::string macro(SourceLocation L) {
    if (!L.isMacroID()) return "";
    // outermost macro
    while (true) {
      auto n = SM.getImmediateMacroCallerLoc(L);
      if (!n.isMacroID()) break;
      L = n;
    }
    return Lexer::getImmediateMacroName(L, SM, C.getLangOpts()).str();
  }
  std::string nns(NestedNameSpecifier* q) {
    if (!q) return "";
    std::string s;
    llvm::raw_string_ostream o(s);
    q->print(o, PP);
    return o.str();
  }
  template <class R>
  std::string targs(R args) {
    std::string s;
    llvm::raw_string_ostream o(s);
    bool first = true;
    for (const TemplateArgumentLoc& a : args) {
      if (!first) o << ", ";
      first = false;
      a.getArgument().print(PP, o, true);
    }
    return o.str();
  }

  using V = llvm::json::Value;
  using A = llvm::json::Array;
  using O = llvm::json::Object;

  O var(const VarDecl* v) {
    O o{{"k", "Var"}, {"n", v->getNameAsString()}, {"t", type(v->getType())}, {"d", id(v)}, {"l", line(v->getLocation())}};
    if (v->isStaticLocal()) o["static"] = true;
    if (v->isConstexpr()) o["constexpr"] = true;
    if (v->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
    if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
      A b;
      for (auto* x : dd->bindings()) b.push_back(O{{"n", x->getNameAsString()}, {"d", id(x)}});
      o["bindings"] = std::move(b);
    }
    A c;
    if (v->hasInit() && !isa<ParmVarDecl>(v)) {
      V e = expr(v->getInit());
      c.push_back(std::move(e));
    }
    o["c"] = std::move(c);
    return o;
  }
  O param(const ParmVarDecl* p) {
    O o{{"n", p->getNameAsString()}, {"t", type(p->getType())}, {"d", id(p)}};
    if (p->isParameterPack()) o["pack"] = true;
    if (p->hasDefaultArg() && !p->hasUnparsedDefaultArg() && !p->hasUninstantiatedDefaultArg()) o["def"] = expr(p->getDefaultArg());
    else if (p->hasDefaultArg()) o["def"] = true;
    return o;
  }
  void kids(const Stmt* s, A& c) {
    for (const Stmt* x : s->children())
      if (x) c.push_back(expr(x));
      else c.push_back(nullptr);
  }
  V expr(const Stmt* s) {
    if (!s) return nullptr;
    // transparent nodes
    while (true) {
      if (auto* e = dyn_cast<ImplicitCastExpr>(s)) s = e->getSubExpr();
      else if (auto* e = dyn_cast<MaterializeTemporaryExpr>(s)) s = e->getSubExpr();
      else if (auto* e = dyn_cast<FullExpr>(s)) s = e->getSubExpr();
      else if (auto* e = dyn_cast<ParenExpr>(s)) s = e->getSubExpr();
      else if (auto* e = dyn_cast<CXXBindTemporaryExpr>(s)) s = e->getSubExpr();
      else if (auto* e = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) s = e->getReplacement();
      else if (auto* e = dyn_cast<CXXRewrittenBinaryOperator>(s)) s = e->getSemanticForm();
      else if (auto* e = dyn_cast<AttributedStmt>(s)) s = e->getSubStmt();
      else if (auto* e = dyn_cast<CXXStdInitializerListExpr>(s)) s = e->getSubExpr();
      else break;
    }
    O o;
    A c;
    o["l"] = line(s->getBeginLoc());
    auto m = macro(s->getBeginLoc());
    if (!m.empty()) o["m"] = m;
    std::string k = s->getStmtClassName();
    auto rename = [&](std::initializer_list<std::pair<const char*, const char*>> l) {
      for (auto& p : l) if (k == p.first) k = p.second;
    };
    rename({{"CXXMemberCallExpr", "Call"}, {"CallExpr", "Call"}, {"UserDefinedLiteral", "Call"}, {"CompoundStmt", "Block"}, {"IfStmt", "If"}, {"ForStmt", "For"}, {"ReturnStmt", "Return"}});
    if (auto* e = dyn_cast<Expr>(s)) o["t"] = type(e->getType());
    if (auto* e = dyn_cast<DeclRefExpr>(s)) {
      k = "Ref";
      o["n"] = e->getDecl()->getNameAsString();
      o["q"] = qn(e->getDecl());
      o["dk"] = e->getDecl()->getDeclKindName();
      o["d"] = id(e->getDecl());
      if (e->hasExplicitTemplateArgs()) o["ta"] = targs(e->template_arguments());
    }
    else if (auto* e = dyn_cast<MemberExpr>(s)) {
      k = "Member";
      o["n"] = e->getMemberDecl()->getNameAsString();
      o["q"] = qn(e->getMemberDecl());
      if (e->hasExplicitTemplateArgs()) o["ta"] = targs(e->template_arguments());
      if (e->isImplicitAccess()) o["implicit"] = true;
      c.push_back(expr(e->getBase()));
    }
    else if (auto* e = dyn_cast<CXXDependentScopeMemberExpr>(s)) {
      k = "Member";
      o["n"] = e->getMember().getAsString();
      o["dep"] = true;
      if (e->hasExplicitTemplateArgs()) o["ta"] = targs(e->template_arguments());
      if (!e->isImplicitAccess()) c.push_back(expr(e->getBase()));
      else o["implicit"] = true;
    }
    else if (auto* e = dyn_cast<UnresolvedMemberExpr>(s)) {
      k = "Member";
      o["n"] = e->getMemberName().getAsString();
      o["dep"] = true;
      if (e->hasExplicitTemplateArgs()) o["ta"] = targs(e->template_arguments());
      if (!e->isImplicitAccess()) c.push_back(expr(e->getBase()));
      else o["implicit"] = true;
    }
    else if (auto* e = dyn_cast<UnresolvedLookupExpr>(s)) {
      k = "Ref";
      o["n"] = e->getName().getAsString();
      o["q"] = nns(e->getQualifier()) + e->getName().getAsString();
      o["dk"] = "Unresolved";
      A cand;
      int cnt = 0;
      for (auto* d : e->decls()) {
        if (++cnt > 4) break;
        cand.push_back(qn(d));
      }
      o["cand"] = std::move(cand);
      if (e->hasExplicitTemplateArgs()) o["ta"] = targs(e->template_arguments());
    }
    else if (auto* e = dyn_cast<DependentScopeDeclRefExpr>(s)) {
      k = "Ref";
      o["n"] = e->getDeclName().getAsString();
      o["q"] = nns(e->getQualifier()) + e->getDeclName().getAsString();
      o["dk"] = "Dependent";
      if (e->hasExplicitTemplateArgs()) o["ta"] = targs(e->template_arguments());
    }
    else if (auto* e = dyn_cast<CXXOperatorCallExpr>(s)) {
      k = "OpCall";
      o["op"] = getOperatorSpelling(e->getOperator());
      for (auto* a : e->arguments()) c.push_back(expr(a));
    }
    else if (auto* e = dyn_cast<CallExpr>(s)) {
      k = "Call";
      if (auto* f = e->getDirectCallee()) {
        o["q"] = qn(f);
        if (f->hasAttr<WarnUnusedResultAttr>()) o["nodiscard"] = true;
      }
      c.push_back(expr(e->getCallee()));
      for (auto* a : e->arguments()) c.push_back(expr(a));
    }
    else if (auto* e = dyn_cast<CXXConstructExpr>(s)) {
      k = "Construct";
      o["q"] = qn(e->getConstructor());
      if (e->isElidable()) o["elide"] = true;
      if (e->isListInitialization()) o["list"] = true;
      for (auto* a : e->arguments()) c.push_back(expr(a));
    }
    else if (auto* e = dyn_cast<CXXUnresolvedConstructExpr>(s)) {
      k = "Construct";
      o["dep"] = true;
      for (auto* a : e->arguments()) c.push_back(expr(a));
    }
    else if (auto* e = dyn_cast<CXXDefaultArgExpr>(s)) { k = "DefaultArg"; (void) e; }
    else if (auto* e = dyn_cast<CXXDefaultInitExpr>(s)) { k = "DefaultInit"; (void) e; }
    else if (auto* e = dyn_cast<InitListExpr>(s)) {
      k = "InitList";
      const InitListExpr* x = e->isSemanticForm() && e->getSyntacticForm() ? e->getSyntacticForm() : e;
      for (auto* a : x->inits()) c.push_back(expr(a));
    }
    else if (auto* e = dyn_cast<ParenListExpr>(s)) { k = "ParenList"; kids(e, c); }
    else if (auto* e = dyn_cast<LambdaExpr>(s)) {
      k = "Lambda";
      A caps, ps;
      for (const auto& cap : e->captures()) {
        O x;
        if (cap.capturesThis()) { x["n"] = "this"; x["by"] = cap.getCaptureKind() == LCK_StarThis ? "copy" : "ref"; }
        else if (cap.capturesVariable()) {
          auto* v = cap.getCapturedVar();
          x["n"] = v->getNameAsString();
          x["by"] = cap.getCaptureKind() == LCK_ByRef ? "ref" : "copy";
          x["d"] = id(v);
          if (auto* vd = dyn_cast<VarDecl>(v)) {
            x["t"] = type(vd->getType());
            if (vd->isInitCapture()) x["init"] = vd->getInit() ? expr(vd->getInit()) : V(nullptr);
          }
        }
        if (cap.isImplicit()) x["implicit"] = true;
        caps.push_back(std::move(x));
      }
      o["caps"] = std::move(caps);
      o["capdef"] = e->getCaptureDefault() == LCD_None ? "" : e->getCaptureDefault() == LCD_ByRef ? "&" : "=";
      for (auto* p : e->getCallOperator()->parameters()) ps.push_back(param(p));
      o["params"] = std::move(ps);
      if (e->isMutable()) o["mutable"] = true;
      c.push_back(expr(e->getBody()));
    }
    else if (auto* e = dyn_cast<DeclStmt>(s)) {
      k = "Decl";
      for (auto* d : e->decls()) {
        if (auto* v = dyn_cast<VarDecl>(d)) c.push_back(var(v));
        else if (auto* u = dyn_cast<UsingDecl>(d)) c.push_back(O{{"k", "Using"}, {"n", nns(u->getQualifier()) + u->getNameAsString()}, {"l", line(u->getLocation())}, {"c", A{}}});
        else if (auto* u = dyn_cast<TypedefNameDecl>(d)) c.push_back(O{{"k", "TypeAlias"}, {"n", u->getNameAsString()}, {"t", type(u->getUnderlyingType())}, {"l", line(u->getLocation())}, {"c", A{}}});
        else c.push_back(O{{"k", std::string(d->getDeclKindName()) + "Decl"}, {"l", line(d->getLocation())}, {"c", A{}}});
      }
    }
    else if (auto* e = dyn_cast<IfStmt>(s)) {
      k = "If";
      if (e->isConstexpr()) o["constexpr"] = true;
      if (e->getInit()) o["init"] = expr(e->getInit());
      if (e->getConditionVariable()) o["condvar"] = var(e->getConditionVariable());
      c.push_back(expr(e->getCond()));
      c.push_back(expr(e->getThen()));
      c.push_back(expr(e->getElse()));
    }
    else if (auto* e = dyn_cast<ForStmt>(s)) {
      k = "For";
      c.push_back(expr(e->getInit()));
      c.push_back(expr(e->getCond()));
      c.push_back(expr(e->getInc()));
      c.push_back(expr(e->getBody()));
    }
    else if (auto* e = dyn_cast<CXXForRangeStmt>(s)) {
      k = "ForRange";
      o["var"] = var(e->getLoopVariable());
      c.push_back(expr(e->getRangeInit()));
      c.push_back(expr(e->getBody()));
    }
    else if (auto* e = dyn_cast<WhileStmt>(s)) {
      k = "While";
      c.push_back(expr(e->getCond()));
      c.push_back(expr(e->getBody()));
    }
    else if (auto* e = dyn_cast<SwitchStmt>(s)) {
      k = "Switch";
      if (e->getInit()) o["init"] = expr(e->getInit());
      c.push_back(expr(e->getCond()));
      c.push_back(expr(e->getBody()));
    }
    else if (auto* e = dyn_cast<CaseStmt>(s)) {
      k = "Case";
      c.push_back(expr(e->getLHS()));
      c.push_back(expr(e->getSubStmt()));
    }
    else if (auto* e = dyn_cast<BinaryOperator>(s)) {
      k = "Bin";
      o["op"] = e->getOpcodeStr().str();
      kids(e, c);
    }
    else if (auto* e = dyn_cast<UnaryOperator>(s)) {
      k = "Un";
      o["op"] = (e->isPostfix() ? "post" : "") + UnaryOperator::getOpcodeStr(e->getOpcode()).str();
      kids(e, c);
    }
    else if (auto* e = dyn_cast<ConditionalOperator>(s)) { k = "Cond"; kids(e, c); }
    else if (auto* e = dyn_cast<IntegerLiteral>(s)) { k = "Int"; o["v"] = llvm::toString(e->getValue(), 10, true); }
    else if (auto* e = dyn_cast<FloatingLiteral>(s)) { k = "Float"; llvm::SmallString<32> b; e->getValue().toString(b); o["v"] = b.str().str(); }
    else if (auto* e = dyn_cast<CXXBoolLiteralExpr>(s)) { k = "Bool"; o["v"] = e->getValue(); }
    else if (auto* e = dyn_cast<StringLiteral>(s)) { k = "Str"; o["v"] = e->isOrdinary() && llvm::json::isUTF8(e->getString()) ? e->getString().str() : "?"; }
    else if (auto* e = dyn_cast<CharacterLiteral>(s)) { k = "Char"; o["v"] = (int) e->getValue(); }
    else if (isa<CXXNullPtrLiteralExpr>(s)) k = "Null";
    else if (isa<CXXThisExpr>(s)) k = "This";
    else if (auto* e = dyn_cast<ExplicitCastExpr>(s)) {
      o["ck"] = k;
      k = "Cast";
      c.push_back(expr(e->getSubExpr()));
    }
    else if (auto* e = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) {
      k = "SizeOf";
      if (e->isArgumentType()) o["at"] = type(e->getArgumentType());
      else c.push_back(expr(e->getArgumentExpr()));
    }
    else if (auto* e = dyn_cast<PackExpansionExpr>(s)) { k = "PackExpansion"; c.push_back(expr(e->getPattern())); }
    else if (auto* e = dyn_cast<CXXNewExpr>(s)) { k = "New"; kids(e, c); }
    else if (auto* e = dyn_cast<CXXDeleteExpr>(s)) { k = "Delete"; kids(e, c); }
    else if (auto* e = dyn_cast<CXXCatchStmt>(s)) {
      k = "Catch";
      if (e->getExceptionDecl()) o["t"] = type(e->getExceptionDecl()->getType());
      c.push_back(expr(e->getHandlerBlock()));
    }
    else if (auto* e = dyn_cast<OpaqueValueExpr>(s)) { k = "Opaque"; if (e->getSourceExpr()) c.push_back(expr(e->getSourceExpr())); }
    else kids(s, c);
    o["k"] = k;
    o["c"] = std::move(c);
    return o;
  }

  A tparams(const TemplateParameterList* l) {
    A r;
    if (l)
      for (auto* p : *l) {
        O o{{"n", p->getNameAsString()}};
        if (auto* n = dyn_cast<NonTypeTemplateParmDecl>(p)) o["t"] = type(n->getType());
        else o["t"] = isa<TemplateTypeParmDecl>(p) ? "typename" : "template";
        if (p->isParameterPack()) o["pack"] = true;
        r.push_back(std::move(o));
      }
    return r;
  }
  bool fresh(const Decl* d, const std::string& kind, std::string& f) {
    f = file(d->getLocation());
    if (f.empty()) return false;
    return seen.insert(kind + f + id(d)).second;
  }
  void emit(O o) {
    V v(std::move(o));
    *os << v << "\n";
  }

  bool VisitFunctionDecl(FunctionDecl* d) {
    if (d->isTemplateInstantiation()) return true;
    if (auto* m = dyn_cast<CXXMethodDecl>(d))
      if (m->getParent()->isLambda()) return true;
    if (d->isImplicit()) return true;
    std::string f;
    bool def = d->doesThisDeclarationHaveABody();
    if (!fresh(d, def ? "F" : "P", f)) return true;
    O o{{"kind", "function"}, {"q", qn(d)}, {"n", d->getNameAsString()}, {"f", f}, {"l", line(d->getBeginLoc())}, {"e", line(d->getEndLoc())}, {"ret", type(d->getReturnType())}, {"d", id(d)}};
    auto mc = macro(d->getLocation());
    if (!mc.empty()) o["m"] = mc;
    A ps;
    for (auto* p : d->parameters()) ps.push_back(param(p));
    o["params"] = std::move(ps);
    if (auto* t = d->getDescribedFunctionTemplate()) o["tparams"] = tparams(t->getTemplateParameters());
    if (auto* s = d->getTemplateSpecializationArgsAsWritten()) o["spec"] = targs(s->arguments());
    if (d->isExternC()) o["externC"] = true;
    if (d->isDeletedAsWritten()) o["deleted"] = true;
    if (d->isExplicitlyDefaulted()) o["defaulted"] = true;
    if (d->isStatic()) o["static"] = true;
    if (d->hasAttr<WarnUnusedResultAttr>()) o["nodiscard"] = true;
    if (auto* pt = d->getType()->getAs<FunctionProtoType>()) o["noexcept"] = pt->getExceptionSpecType() == EST_BasicNoexcept || pt->getExceptionSpecType() == EST_NoexceptTrue;
    if (auto* m = dyn_cast<CXXMethodDecl>(d)) {
      o["cls"] = qn(m->getParent());
      o["const"] = m->isConst();
      o["access"] = (int) m->getAccess();
      o["refq"] = (int) m->getRefQualifier();
      if (m->isVirtual()) o["virtual"] = true;
      if (auto* cs = dyn_cast<ClassTemplatePartialSpecializationDecl>(m->getParent())) o["clsspec"] = targs(cs->getTemplateArgsAsWritten()->arguments());
      else if (auto* cs = dyn_cast<ClassTemplateSpecializationDecl>(m->getParent())) {
        std::string s;
        llvm::raw_string_ostream so(s);
        bool first = true;
        for (auto& a : cs->getTemplateArgs().asArray()) { if (!first) so << ", "; first = false; a.print(PP, so, true); }
        o["clsspec"] = so.str();
      }
    }
    if (auto* cd = dyn_cast<CXXConstructorDecl>(d)) {
      o["ctor"] = cd->isCopyConstructor() ? "copy" : cd->isMoveConstructor() ? "move" : cd->isDefaultConstructor() ? "default" : "other";
      if (cd->isExplicit()) o["explicit"] = true;
      A in;
      if (def)
        for (auto* i : cd->inits()) {
          if (!i->isWritten()) continue;
          O x;
          if (i->isMemberInitializer()) x["n"] = i->getMember()->getNameAsString();
          else if (i->isDelegatingInitializer()) x["n"] = "#delegate";
          else x["n"] = "#base";
          if (i->getTypeSourceInfo()) x["t"] = type(i->getTypeSourceInfo()->getType());
          x["e"] = expr(i->getInit());
          in.push_back(std::move(x));
        }
      o["inits"] = std::move(in);
    }
    if (isa<CXXDestructorDecl>(d)) o["dtor"] = true;
    if (def) {
      o["body"] = expr(d->getBody());
    }
    emit(std::move(o));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* d) {
    if (!d->isThisDeclarationADefinition() || d->isLambda() || d->isImplicit()) return true;
    if (isa<ClassTemplateSpecializationDecl>(d) && !isa<ClassTemplatePartialSpecializationDecl>(d)) {
      auto* s = cast<ClassTemplateSpecializationDecl>(d);
      if (s->getSpecializationKind() != TSK_ExplicitSpecialization) return true;
    }
    std::string f;
    if (!fresh(d, "C", f)) return true;
    O o{{"kind", "class"}, {"q", qn(d)}, {"n", d->getNameAsString()}, {"f", f}, {"l", line(d->getBeginLoc())}, {"e", line(d->getEndLoc())}};
    if (auto* t = d->getDescribedClassTemplate()) o["tparams"] = tparams(t->getTemplateParameters());
    if (auto* cs = dyn_cast<ClassTemplatePartialSpecializationDecl>(d)) o["spec"] = targs(cs->getTemplateArgsAsWritten()->arguments());
    else if (auto* cs = dyn_cast<ClassTemplateSpecializationDecl>(d)) {
      std::string s;
      llvm::raw_string_ostream so(s);
      bool first = true;
      for (auto& a : cs->getTemplateArgs().asArray()) { if (!first) so << ", "; first = false; a.print(PP, so, true); }
      o["spec"] = so.str();
    }
    A fs, bs, ms, us;
    for (auto* x : d->fields()) {
      O y{{"n", x->getNameAsString()}, {"t", type(x->getType())}, {"access", (int) x->getAccess()}, {"l", line(x->getLocation())}};
      if (x->isMutable()) y["mutable"] = true;
      if (x->hasInClassInitializer() && x->getInClassInitializer()) y["init"] = expr(x->getInClassInitializer());
      fs.push_back(std::move(y));
    }
    for (auto* x : d->decls()) {
      if (auto* v = dyn_cast<VarDecl>(x)) {
        O y = var(v);
        y["static"] = true;
        fs.push_back(std::move(y));
      }
      if (auto* u = dyn_cast<UsingDecl>(x)) us.push_back(O{{"n", nns(u->getQualifier()) + u->getNameAsString()}, {"access", (int) u->getAccess()}});
      if (auto* u = dyn_cast<TypedefNameDecl>(x)) us.push_back(O{{"n", u->getNameAsString()}, {"t", type(u->getUnderlyingType())}, {"access", (int) u->getAccess()}});
      if (auto* fr = dyn_cast<FriendDecl>(x)) {
        std::string s;
        if (fr->getFriendType()) s = type(fr->getFriendType()->getType());
        else if (auto* nd = fr->getFriendDecl()) s = qn(nd);
        us.push_back(O{{"n", "friend"}, {"t", s}, {"access", 0}});
      }
    }
    for (auto& b : d->bases()) bs.push_back(O{{"t", type(b.getType())}, {"access", (int) b.getAccessSpecifierAsWritten()}});
    o["fields"] = std::move(fs);
    o["bases"] = std::move(bs);
    o["using"] = std::move(us);
    emit(std::move(o));
    return true;
  }
  bool VisitEnumDecl(EnumDecl* d) {
    if (!d->isThisDeclarationADefinition()) return true;
    std::string f;
    if (!fresh(d, "E", f)) return true;
    A v;
    for (auto* e : d->enumerators()) v.push_back(O{{"n", e->getNameAsString()}, {"v", llvm::toString(e->getInitVal(), 10)}});
    emit(O{{"kind", "enum"}, {"q", qn(d)}, {"f", f}, {"l", line(d->getLocation())}, {"vals", std::move(v)}});
    return true;
  }
  bool VisitVarDecl(VarDecl* d) {
    if (!d->isFileVarDecl() && !d->isStaticDataMember()) return true;
    if (isa<ParmVarDecl>(d) || d->getDeclContext()->isFunctionOrMethod()) return true;
    if (isa<VarTemplateSpecializationDecl>(d) && cast<VarTemplateSpecializationDecl>(d)->getSpecializationKind() == TSK_ImplicitInstantiation) return true;
    std::string f;
    if (!fresh(d, "V", f)) return true;
    O o{{"kind", "var"}, {"q", qn(d)}, {"f", f}, {"l", line(d->getLocation())}};
    o["v"] = var(d);
    if (auto* t = d->getDescribedVarTemplate()) o["tparams"] = tparams(t->getTemplateParameters());
    if (auto* p = dyn_cast<VarTemplatePartialSpecializationDecl>(d)) if (p->getTemplateArgsInfo()) o["spec"] = targs(p->getTemplateArgsInfo()->arguments());
    emit(std::move(o));
    return true;
  }
  bool VisitTypedefNameDecl(TypedefNameDecl* d) {
    if (d->getDeclContext()->isFunctionOrMethod()) return true;
    std::string f;
    if (!fresh(d, "T", f)) return true;
    emit(O{{"kind", "alias"}, {"q", qn(d)}, {"f", f}, {"l", line(d->getLocation())}, {"t", type(d->getUnderlyingType())}});
    return true;
  }
  // explicit instantiations (definitions and extern declarations)
  bool VisitClassTemplateSpecializationDecl(ClassTemplateSpecializationDecl* d) {
    auto k = d->getSpecializationKind();
    if (k != TSK_ExplicitInstantiationDeclaration && k != TSK_ExplicitInstantiationDefinition) return true;
    auto f = file(d->getPointOfInstantiation().isValid() ? d->getPointOfInstantiation() : d->getLocation());
    auto f2 = file(d->getExternLoc());
    std::string s;
    llvm::raw_string_ostream so(s);
    bool first = true;
    for (auto& a : d->getTemplateArgs().asArray()) { if (!first) so << ", "; first = false; a.print(PP, so, true); }
    emit(O{{"kind", "instantiation"}, {"q", qn(d)}, {"args", so.str()}, {"f", f}, {"f2", f2}, {"l", line(d->getPointOfInstantiation())}, {"def", k == TSK_ExplicitInstantiationDefinition}});
    return true;
  }
  bool VisitFunctionTemplateDecl(FunctionTemplateDecl* t) {
    for (auto* d : t->specializations()) {
      auto k = d->getTemplateSpecializationKind();
      if (k != TSK_ExplicitInstantiationDeclaration && k != TSK_ExplicitInstantiationDefinition) continue;
      std::string s;
      llvm::raw_string_ostream so(s);
      bool first = true;
      if (auto* ta = d->getTemplateSpecializationArgs())
        for (auto& a : ta->asArray()) { if (!first) so << ", "; first = false; a.print(PP, so, true); }
      A ps;
      for (auto* p : d->parameters()) ps.push_back(type(p->getType()));
      auto key = std::string("I") + qn(d) + so.str() + type(d->getType()) + (k == TSK_ExplicitInstantiationDefinition ? "d" : "e");
      if (!seen.insert(key).second) continue;
      emit(O{{"kind", "instantiation"}, {"fn", true}, {"q", qn(d)}, {"args", so.str()}, {"f", file(d->getPointOfInstantiation())}, {"l", line(d->getPointOfInstantiation())}, {"ps", std::move(ps)}, {"def", k == TSK_ExplicitInstantiationDefinition}});
    }
    return true;
  }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext& c) override {
    Dumper d(c);
    d.TraverseDecl(c.getTranslationUnitDecl());
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override { return std::make_unique<Consumer>(); }
};

int main(int argc, char** argv) {
  OUT = argv[1];
  ROOT = argv[2];
  std::vector<std::string> args;
  for (int i = 5; i < argc; ++i) args.push_back(argv[i]);
  std::error_code ec;
  llvm::raw_fd_ostream o(OUT, ec);
  os = &o;
  tooling::FixedCompilationDatabase db(".", args);
  tooling::ClangTool tool(db, {argv[3]});
  struct F : tooling::FrontendActionFactory {
    std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
  } f;
  return tool.run(&f);
}
