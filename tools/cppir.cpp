// C++ source -> the common IR (one JSON object per translation unit on stdout).
// usage: cppir FILE -root PREFIX [-root PREFIX...] -- CLANG_ARGS...
// Declarations whose (presumed) file lies under one of the prefixes are emitted; class and function templates are
// emitted as written (their pattern), implicit conversions are dropped, explicit casts are kept.
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include <fstream>
#include <set>
using namespace clang;
static std::vector<std::string> roots;
static std::string out;
static ASTContext* C;
static PrintingPolicy* PP;

static void str(llvm::StringRef s)
{
    out += '"';
    for (unsigned char ch : s)
    {
        if (ch == '"' || ch == '\\') { out += '\\'; out += ch; }
        else if (ch < 0x20 || ch > 0x7e) { char b[8]; snprintf(b, 8, "\\u%04x", ch); out += b; }
        else out += ch;
    }
    out += '"';
}
static unsigned line(SourceLocation l) { return C->getSourceManager().getExpansionLineNumber(l); }
static std::string ty(QualType t) { return t.isNull() ? "?" : t.getAsString(*PP); }
static void ex(const Expr* e);
static void st(const Stmt* s);
static void body(const Stmt* s);
static void klass(const CXXRecordDecl* r);
static void func(const FunctionDecl* f);

static void args(const Expr* const* b, unsigned n)
{
    out += '[';
    bool f = true;
    for (unsigned i = 0; i < n; ++i)
    {
        if (isa<CXXDefaultArgExpr>(b[i])) continue;
        if (!f) out += ','; f = false;
        ex(b[i]);
    }
    out += ']';
}
static void dname(const NamedDecl* d)
{
    out += "[\"name\",";
    str(d->getNameAsString());
    out += ',';
    if (isa<ParmVarDecl>(d) || (isa<VarDecl>(d) && cast<VarDecl>(d)->isLocalVarDecl())) str("local");
    else str(d->getQualifiedNameAsString());
    out += ']';
}
static std::string qualStr(NestedNameSpecifier* q)
{
    if (!q) return "";
    std::string s; llvm::raw_string_ostream o(s); q->print(o, *PP); o.flush(); return s;
}
static std::string can(QualType t) { return t.isNull() ? "?" : t.getCanonicalType().getAsString(*PP); }
static std::string tmplArgs(const TemplateArgumentLoc* a, unsigned n)
{
    if (!n) return "";
    std::string s = "<"; llvm::raw_string_ostream o(s);
    for (unsigned i = 0; i < n; ++i) { if (i) o << ", "; const TemplateArgument& g = a[i].getArgument(); if (g.getKind() == TemplateArgument::Type) o << can(g.getAsType()); else g.print(*PP, o, true); }
    o << ">"; o.flush(); return s;
}
static void ex(const Expr* e)
{
    if (!e) { out += "[\"null\"]"; return; }
    if (auto x = dyn_cast<ParenExpr>(e)) return ex(x->getSubExpr());
    if (auto x = dyn_cast<ImplicitCastExpr>(e)) return ex(x->getSubExpr());
    if (auto x = dyn_cast<FullExpr>(e)) return ex(x->getSubExpr());
    if (auto x = dyn_cast<MaterializeTemporaryExpr>(e)) return ex(x->getSubExpr());
    if (auto x = dyn_cast<CXXBindTemporaryExpr>(e)) return ex(x->getSubExpr());
    if (auto x = dyn_cast<CXXStdInitializerListExpr>(e)) return ex(x->getSubExpr());
    if (auto x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return ex(x->getReplacement());
    if (auto x = dyn_cast<CXXDefaultArgExpr>(e)) return ex(x->getExpr());
    if (auto x = dyn_cast<CXXDefaultInitExpr>(e)) return ex(x->getExpr());
    if (auto x = dyn_cast<PackExpansionExpr>(e)) { out += "[\"star\","; ex(x->getPattern()); out += ']'; return; }
    if (auto x = dyn_cast<IntegerLiteral>(e)) { llvm::SmallString<32> s; x->getValue().toString(s, 10, x->getType()->isSignedIntegerType()); out += "[\"num\","; out += s.c_str(); out += ']'; return; }
    if (auto x = dyn_cast<FloatingLiteral>(e)) { char b[64]; snprintf(b, 64, "%.17g", x->getValueAsApproximateDouble()); out += "[\"num\","; out += b; out += ']'; return; }
    if (auto x = dyn_cast<StringLiteral>(e)) { out += "[\"str\","; str(x->getBytes()); out += ']'; return; }
    if (auto x = dyn_cast<CharacterLiteral>(e)) { out += "[\"char\","; std::string c(1, (char)x->getValue()); str(c); out += ']'; return; }
    if (auto x = dyn_cast<CXXBoolLiteralExpr>(e)) { out += x->getValue() ? "[\"bool\",true]" : "[\"bool\",false]"; return; }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { out += "[\"null\"]"; return; }
    if (isa<CXXThisExpr>(e)) { out += "[\"name\",\"this\"]"; return; }
    if (auto x = dyn_cast<DeclRefExpr>(e)) { dname(x->getDecl()); if (x->hasExplicitTemplateArgs()) { out.pop_back(); out += ','; str(tmplArgs(x->getTemplateArgs(), x->getNumTemplateArgs())); out += ']'; } return; }
    if (auto x = dyn_cast<MemberExpr>(e)) { out += "[\"attr\","; ex(x->getBase()); out += ','; str(x->getMemberDecl()->getNameAsString()); out += ','; str(x->getMemberDecl()->getQualifiedNameAsString()); if (x->hasExplicitTemplateArgs()) { out += ','; str(tmplArgs(x->getTemplateArgs(), x->getNumTemplateArgs())); } out += ']'; return; }
    if (auto x = dyn_cast<CXXDependentScopeMemberExpr>(e))
    {
        out += "[\"attr\","; if (x->isImplicitAccess()) out += "[\"name\",\"this\"]"; else ex(x->getBase());
        out += ','; str(x->getMember().getAsString());
        if (x->hasExplicitTemplateArgs()) { out += ",\"\","; str(tmplArgs(x->getTemplateArgs(), x->getNumTemplateArgs())); }
        out += ']'; return;
    }
    if (auto x = dyn_cast<UnresolvedMemberExpr>(e))
    {
        out += "[\"attr\","; if (x->isImplicitAccess()) out += "[\"name\",\"this\"]"; else ex(x->getBase());
        out += ','; str(x->getMemberName().getAsString()); out += ']'; return;
    }
    if (auto x = dyn_cast<OverloadExpr>(e)) { out += "[\"name\","; str(x->getName().getAsString()); out += ','; str(qualStr(x->getQualifier()) + x->getName().getAsString());
        if (x->hasExplicitTemplateArgs()) { out += ','; str(tmplArgs(x->getTemplateArgs(), x->getNumTemplateArgs())); } out += ']'; return; }
    if (auto x = dyn_cast<DependentScopeDeclRefExpr>(e)) { out += "[\"name\","; str(x->getDeclName().getAsString()); out += ','; str(qualStr(x->getQualifier()) + x->getDeclName().getAsString()); out += ']'; return; }
    if (auto x = dyn_cast<CXXOperatorCallExpr>(e))
    {
        OverloadedOperatorKind o = x->getOperator();
        const char* sp = getOperatorSpelling(o);
        if (o == OO_Call) { out += "[\"call\","; ex(x->getArg(0)); out += ','; args(x->getArgs() + 1, x->getNumArgs() - 1); out += ",{}," + std::to_string(line(x->getBeginLoc())) + "]"; return; }
        if (o == OO_Subscript) { out += "[\"idx\","; ex(x->getArg(0)); out += ','; ex(x->getArg(1)); out += ']'; return; }
        if (o == OO_Arrow) return ex(x->getArg(0));
        if (x->isAssignmentOp()) { out += "[\"assign\",\""; out += sp; out += "\","; ex(x->getArg(0)); out += ','; ex(x->getArg(1)); out += ']'; return; }
        if (o == OO_PlusPlus || o == OO_MinusMinus) { out += "[\"un\",\""; out += x->getNumArgs() == 2 ? std::string("post") + sp : std::string(sp) + "pre"; out += "\","; ex(x->getArg(0)); out += ']'; return; }
        if (x->getNumArgs() == 2) { out += "[\"bin\",\""; out += sp; out += "\","; ex(x->getArg(0)); out += ','; ex(x->getArg(1)); out += ']'; return; }
        out += "[\"un\",\""; out += o == OO_Star ? "*deref" : sp; out += "\","; ex(x->getArg(0)); out += ']'; return;
    }
    if (auto x = dyn_cast<UserDefinedLiteral>(e)) { out += "[\"call\",[\"name\",\"UDL\"],"; args(x->getArgs(), x->getNumArgs()); out += ",{},0]"; return; }
    if (auto x = dyn_cast<CallExpr>(e))
    {
        out += "[\"call\","; ex(x->getCallee()); out += ','; args(x->getArgs(), x->getNumArgs());
        out += ",{}," + std::to_string(line(x->getBeginLoc())) + "]"; return;
    }
    if (auto x = dyn_cast<CXXConstructExpr>(e))
    {
        unsigned n = 0;
        for (unsigned i = 0; i < x->getNumArgs(); ++i) if (!isa<CXXDefaultArgExpr>(x->getArg(i))) ++n;
        if (n == 1 && !isa<CXXTemporaryObjectExpr>(x) && x->getConstructor()->isCopyOrMoveConstructor()) return ex(x->getArg(0));
        if (x->isStdInitListInitialization() && n == 1) return ex(x->getArg(0));
        out += "[\"new\","; str(ty(x->getType())); out += ','; args(x->getArgs(), x->getNumArgs()); out += "," + std::to_string(line(x->getBeginLoc())) + ","; str(can(x->getType())); out += "]"; return;
    }
    if (auto x = dyn_cast<CXXUnresolvedConstructExpr>(e)) { out += "[\"new\","; str(ty(x->getTypeAsWritten())); out += ",[";
        bool f = true; for (auto a : x->arguments()) { if (!f) out += ','; f = false; ex(a); } out += "]," + std::to_string(line(x->getBeginLoc())) + "]"; return; }
    if (isa<CXXScalarValueInitExpr>(e) || isa<ImplicitValueInitExpr>(e)) { out += "[\"new\","; str(ty(e->getType())); out += ",[],0]"; return; }
    if (auto x = dyn_cast<CXXNewExpr>(e)) { out += "[\"heapnew\","; str(ty(x->getAllocatedType())); out += ','; ex(x->getInitializer()); out += ']'; return; }
    if (auto x = dyn_cast<CXXDeleteExpr>(e)) { out += "[\"un\",\"delete\","; ex(x->getArgument()); out += ']'; return; }
    if (auto x = dyn_cast<ExplicitCastExpr>(e))
    {
        const Expr* sub = x->getSubExprAsWritten();
        out += "[\"cast\","; str(ty(x->getTypeAsWritten())); out += ','; ex(sub); out += ','; str(can(x->getTypeAsWritten())); out += ']'; return;
    }
    if (auto x = dyn_cast<CompoundAssignOperator>(e)) { out += "[\"assign\",\""; out += x->getOpcodeStr().str(); out += "\","; ex(x->getLHS()); out += ','; ex(x->getRHS()); out += ']'; return; }
    if (auto x = dyn_cast<BinaryOperator>(e))
    {
        if (x->getOpcode() == BO_Assign) { out += "[\"assign\",\"=\","; ex(x->getLHS()); out += ','; ex(x->getRHS()); out += ']'; return; }
        out += "[\"bin\",\""; out += x->getOpcodeStr().str(); out += "\","; ex(x->getLHS()); out += ','; ex(x->getRHS()); out += ']'; return;
    }
    if (auto x = dyn_cast<UnaryOperator>(e))
    {
        std::string o;
        switch (x->getOpcode()) { case UO_PostInc: o = "post++"; break; case UO_PostDec: o = "post--"; break; case UO_PreInc: o = "++pre"; break; case UO_PreDec: o = "--pre"; break; case UO_Deref: o = "*deref"; break; case UO_AddrOf: o = "&addr"; break; default: o = UnaryOperator::getOpcodeStr(x->getOpcode()).str(); }
        out += "[\"un\",\"" + o + "\","; ex(x->getSubExpr()); out += ']'; return;
    }
    if (auto x = dyn_cast<ConditionalOperator>(e)) { out += "[\"cond\","; ex(x->getCond()); out += ','; ex(x->getTrueExpr()); out += ','; ex(x->getFalseExpr()); out += ']'; return; }
    if (auto x = dyn_cast<ArraySubscriptExpr>(e)) { out += "[\"idx\","; ex(x->getLHS()); out += ','; ex(x->getRHS()); out += ']'; return; }
    if (auto x = dyn_cast<InitListExpr>(e)) { if (x->isSemanticForm() && x->getSyntacticForm()) x = x->getSyntacticForm(); out += "[\"list\","; args(x->getInits(), x->getNumInits()); out += ','; str(x->getType().isNull() ? "" : ty(x->getType())); out += ']'; return; }
    if (auto x = dyn_cast<ParenListExpr>(e)) { out += "[\"tuple\",["; bool f = true; for (unsigned i = 0; i < x->getNumExprs(); ++i) { if (!f) out += ','; f = false; ex(x->getExpr(i)); } out += "]]"; return; }
    if (auto x = dyn_cast<CXXThrowExpr>(e)) { out += "[\"throwx\","; ex(x->getSubExpr()); out += ']'; return; }
    if (auto x = dyn_cast<LambdaExpr>(e))
    {
        out += "[\"lambda\",["; bool f = true;
        for (auto p : x->getCallOperator()->parameters()) { if (!f) out += ','; f = false; str(p->getNameAsString()); }
        out += "],[\"lbody\","; body(x->getBody()); out += "]]"; return;
    }
    if (auto x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) { out += "[\"sizeof\","; if (x->isArgumentType()) str(ty(x->getArgumentType())); else ex(x->getArgumentExpr()); out += ']'; return; }
    if (auto x = dyn_cast<CXXNoexceptExpr>(e)) { out += "[\"bool\","; out += "true"; out += ']'; return; }
    if (auto x = dyn_cast<RecoveryExpr>(e)) { llvm::errs() << "recovery expression\n"; exit(3); }
    out += "[\"other\","; str(e->getStmtClassName()); out += ']';
}
static void list(llvm::ArrayRef<const Stmt*> l)
{
    out += '[';
    bool f = true;
    for (auto s : l)
    {
        if (!s || isa<NullStmt>(s)) continue;
        if (auto d = dyn_cast<DeclStmt>(s))
        {
            for (auto dd : d->decls())
            {
                auto v = dyn_cast<VarDecl>(dd);
                if (auto r = dyn_cast<CXXRecordDecl>(dd)) { if (!f) out += ','; f = false; out += "[\"localclass\","; klass(r); out += "," + std::to_string(line(s->getBeginLoc())) + "]"; continue; }
                if (!v) continue;
                if (!f) out += ','; f = false;
                out += "[\"decl\","; str(v->getNameAsString()); out += ','; str(ty(v->getType()));
                out += ','; if (v->getInit()) ex(v->getInit()); else out += "[\"none\"]";
                out += "," + std::to_string(line(s->getBeginLoc()));
                if (v->isStaticLocal()) out += ",\"static\"";
                out += "]";
            }
            continue;
        }
        if (!f) out += ','; f = false;
        st(s);
    }
    out += ']';
}
static void body(const Stmt* s)
{
    if (!s) { out += "[]"; return; }
    if (auto c = dyn_cast<CompoundStmt>(s)) { std::vector<const Stmt*> v(c->body_begin(), c->body_end()); list(v); return; }
    list({s});
}
static void flat(const Stmt* s, std::vector<std::pair<std::vector<const Expr*>, std::vector<const Stmt*>>>& cases)
{
    if (auto c = dyn_cast<CaseStmt>(s))
    {
        if (cases.empty() || !cases.back().second.empty() || false) cases.push_back({});
        cases.back().first.push_back(c->getLHS());
        flat(c->getSubStmt(), cases); return;
    }
    if (auto d = dyn_cast<DefaultStmt>(s))
    {
        if (cases.empty() || !cases.back().second.empty()) cases.push_back({});
        cases.back().first.push_back(nullptr);
        flat(d->getSubStmt(), cases); return;
    }
    if (cases.empty()) cases.push_back({});
    cases.back().second.push_back(s);
}
static void st(const Stmt* s)
{
    std::string ln = std::to_string(line(s->getBeginLoc()));
    if (auto x = dyn_cast<CompoundStmt>(s)) { out += "[\"block\","; body(x); out += "," + ln + "]"; return; }
    if (auto x = dyn_cast<ReturnStmt>(s)) { out += "[\"return\","; if (x->getRetValue()) ex(x->getRetValue()); else out += "null"; out += "," + ln + "]"; return; }
    if (auto x = dyn_cast<IfStmt>(s)) { out += "[\"if\","; ex(x->getCond()); out += ','; body(x->getThen()); out += ','; body(x->getElse()); out += "," + ln + "]"; return; }
    if (auto x = dyn_cast<WhileStmt>(s)) { out += "[\"while\","; ex(x->getCond()); out += ','; body(x->getBody()); out += "," + ln + "]"; return; }
    if (auto x = dyn_cast<DoStmt>(s)) { out += "[\"do\","; body(x->getBody()); out += ','; ex(x->getCond()); out += "," + ln + "]"; return; }
    if (auto x = dyn_cast<ForStmt>(s))
    {
        out += "[\"for\","; if (x->getInit()) list({x->getInit()}); else out += "[]"; out += ',';
        if (x->getCond()) ex(x->getCond()); else out += "null"; out += ',';
        if (x->getInc()) list({x->getInc()}); else out += "[]"; out += ','; body(x->getBody()); out += "," + ln + "]"; return;
    }
    if (auto x = dyn_cast<CXXForRangeStmt>(s)) { out += "[\"foreach\",[\"name\","; str(x->getLoopVariable()->getNameAsString()); out += "],"; ex(x->getRangeInit()); out += ','; body(x->getBody()); out += "," + ln + "]"; return; }
    if (auto x = dyn_cast<SwitchStmt>(s))
    {
        std::vector<std::pair<std::vector<const Expr*>, std::vector<const Stmt*>>> cases;
        if (auto c = dyn_cast<CompoundStmt>(x->getBody())) { for (auto q : c->body()) flat(q, cases); } else flat(x->getBody(), cases);
        out += "[\"switch\","; ex(x->getCond()); out += ",[";
        bool f = true;
        for (auto& c : cases)
        {
            if (!f) out += ','; f = false;
            out += "[["; bool g = true;
            for (auto l : c.first) { if (!g) out += ','; g = false; if (l) ex(l); else out += "[\"default\"]"; }
            out += "],"; list(c.second); out += "]";
        }
        out += "]," + ln + "]"; return;
    }
    if (isa<BreakStmt>(s)) { out += "[\"break\"," + ln + "]"; return; }
    if (isa<ContinueStmt>(s)) { out += "[\"continue\"," + ln + "]"; return; }
    if (auto x = dyn_cast<CXXTryStmt>(s))
    {
        out += "[\"try\","; body(x->getTryBlock()); out += ",[";
        for (unsigned i = 0; i < x->getNumHandlers(); ++i)
        {
            auto h = x->getHandler(i);
            if (i) out += ','; out += "["; 
            if (h->getExceptionDecl()) { out += "[\"name\","; str(ty(h->getCaughtType())); out += "],"; str(h->getExceptionDecl()->getNameAsString()); } else out += "null,null";
            out += ','; body(h->getHandlerBlock()); out += "]";
        }
        out += "],[]," + ln + ",[]]"; return;
    }
    if (auto x = dyn_cast<DeclStmt>(s)) { out += "[\"block\","; list({s}); out += "," + ln + "]"; return; }
    if (auto x = dyn_cast<Expr>(s))
    {
        const Expr* e = x;
        while (true) { if (auto f = dyn_cast<FullExpr>(e)) e = f->getSubExpr(); else if (auto f = dyn_cast<ParenExpr>(e)) e = f->getSubExpr(); else break; }
        if (auto t = dyn_cast<CXXThrowExpr>(e)) { out += "[\"throw\","; if (t->getSubExpr()) ex(t->getSubExpr()); else out += "null"; out += "," + ln + "]"; return; }
        out += "[\"expr\","; ex(x); out += "," + ln + "]"; return;
    }
    out += "[\"other\","; str(s->getStmtClassName()); out += "," + ln + "]";
}
static std::string fileOf(SourceLocation l)
{
    auto& sm = C->getSourceManager();
    return sm.getFilename(sm.getExpansionLoc(l)).str();
}
static bool inRoots(SourceLocation l)
{
    std::string f = fileOf(l);
    for (auto& r : roots) if (f.compare(0, r.size(), r) == 0) return true;
    return false;
}
static void func(const FunctionDecl* f)
{
    const FunctionDecl* def = f;
    f->hasBody(def);
    out += "{\"name\":"; str(f->getNameAsString()); out += ",\"q\":"; str(f->getQualifiedNameAsString());
    out += ",\"line\":" + std::to_string(line(def->getLocation())) + ",\"file\":"; str(fileOf(def->getLocation()));
    out += ",\"ret\":"; str(ty(f->getReturnType()));
    auto m = dyn_cast<CXXMethodDecl>(f);
    out += ",\"const\":"; out += m && m->isConst() ? "true" : "false";
    out += ",\"static\":"; out += (m && m->isStatic()) ? "true" : "false";
    out += ",\"virtual\":"; out += (m && m->isVirtual()) ? "true" : "false";
    out += ",\"deleted\":"; out += f->isDeleted() ? "true" : "false";
    out += ",\"defaulted\":"; out += f->isDefaulted() ? "true" : "false";
    out += ",\"template\":"; out += f->getDescribedFunctionTemplate() ? "true" : "false";
    if (f->getTemplateSpecializationArgs()) { out += ",\"targs\":["; bool g = true; for (auto& a : f->getTemplateSpecializationArgs()->asArray()) { if (!g) out += ','; g = false; std::string t; llvm::raw_string_ostream o(t); a.print(*PP, o, true); o.flush(); str(t);} out += "]"; }
    out += ",\"access\":"; str(f->getAccess() == AS_private ? "private" : f->getAccess() == AS_protected ? "protected" : "public");
    out += ",\"params\":["; bool g = true;
    for (auto p : def->parameters()) { if (!g) out += ','; g = false; str(p->getNameAsString()); }
    out += "],\"ptypes\":["; g = true;
    for (auto p : def->parameters()) { if (!g) out += ','; g = false; str(ty(p->getType())); }
    out += "],\"cptypes\":["; g = true;
    for (auto p : def->parameters()) { if (!g) out += ','; g = false; str(can(p->getType())); }
    out += "],\"cret\":"; str(can(f->getReturnType()));
    out += ",\"defaults\":{"; g = true;
    for (auto p : f->parameters()) if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) { if (!g) out += ','; g = false; str(p->getNameAsString()); out += ':'; ex(p->getDefaultArg()); }
    out += "},\"inits\":["; g = true;
    if (auto ct = dyn_cast<CXXConstructorDecl>(def))
        for (auto i : ct->inits())
        {
            if (!i->isWritten() && !i->getInit()) continue;
            if (!g) out += ','; g = false;
            out += "["; str(i->isAnyMemberInitializer() ? i->getAnyMember()->getNameAsString() : i->isDelegatingInitializer() ? "<delegate>" : "<base>");
            out += ","; ex(i->getInit()); out += i->isWritten() ? ",true]" : ",false]";
        }
    out += "],\"body\":"; if (def->hasBody() && def->getBody()) body(def->getBody()); else out += "null";
    out += "}";
}
static void klass(const CXXRecordDecl* r)
{
    out += "{\"name\":"; str(r->getNameAsString()); out += ",\"q\":"; str(r->getQualifiedNameAsString());
    out += ",\"line\":" + std::to_string(line(r->getLocation())) + ",\"file\":"; str(fileOf(r->getLocation()));
    if (auto sp = dyn_cast<ClassTemplateSpecializationDecl>(r))
    { out += ",\"spec\":"; std::string s; llvm::raw_string_ostream o(s); r->getNameForDiagnostic(o, *PP, true); o.flush(); str(s); }
    if (auto t = r->getDescribedClassTemplate())
    { out += ",\"tparams\":["; bool g = true; for (auto p : *t->getTemplateParameters()) { if (!g) out += ','; g = false; str(p->getNameAsString()); } out += "]"; }
    out += ",\"bases\":["; bool f = true;
    if (r->hasDefinition()) for (auto& b : r->bases()) { if (!f) out += ','; f = false; str(ty(b.getType())); }
    out += "],\"fields\":["; f = true;
    for (auto d : r->decls())
    {
        if (auto fd = dyn_cast<FieldDecl>(d)) { if (!f) out += ','; f = false; out += "{\"name\":"; str(fd->getNameAsString()); out += ",\"type\":"; str(ty(fd->getType())); out += ",\"ctype\":"; str(can(fd->getType())); out += ",\"line\":" + std::to_string(line(fd->getLocation())) + ",\"mutable\":" + (fd->isMutable() ? "true" : "false") + ",\"init\":"; if (fd->hasInClassInitializer()) ex(fd->getInClassInitializer()); else out += "null"; out += "}"; }
        else if (auto vd = dyn_cast<VarDecl>(d)) { if (!f) out += ','; f = false; out += "{\"name\":"; str(vd->getNameAsString()); out += ",\"static\":true,\"type\":"; str(ty(vd->getType())); out += ",\"line\":" + std::to_string(line(vd->getLocation())) + ",\"init\":"; if (vd->getAnyInitializer()) ex(vd->getAnyInitializer()); else out += "null"; out += "}"; }
    }
    out += "],\"usings\":{"; f = true;
    for (auto d : r->decls()) if (auto t = dyn_cast<TypedefNameDecl>(d)) { if (!f) out += ','; f = false; str(t->getNameAsString()); out += ':'; str(can(t->getUnderlyingType())); }
    out += "},\"enums\":["; f = true;
    for (auto d : r->decls()) if (auto en = dyn_cast<EnumDecl>(d)) { if (!f) out += ','; f = false; out += "{\"name\":"; str(en->getNameAsString()); out += ",\"items\":["; bool g = true; for (auto c : en->enumerators()) { if (!g) out += ','; g = false; llvm::SmallString<32> v; c->getInitVal().toString(v, 10); out += "["; str(c->getNameAsString()); out += ","; out += v.c_str(); out += "]"; } out += "]}"; }
    out += "],\"methods\":["; f = true;
    for (auto d : r->decls())
    {
        const FunctionDecl* fd = dyn_cast<FunctionDecl>(d);
        if (auto t = dyn_cast<FunctionTemplateDecl>(d)) fd = t->getTemplatedDecl();
        if (!fd || fd->isImplicit()) continue;
        if (!f) out += ','; f = false; func(fd);
    }
    out += "],\"classes\":["; f = true;
    for (auto d : r->decls())
    {
        const CXXRecordDecl* rd = dyn_cast<CXXRecordDecl>(d);
        if (auto t = dyn_cast<ClassTemplateDecl>(d)) rd = t->getTemplatedDecl();
        if (!rd || rd->isImplicit() || !rd->isThisDeclarationADefinition()) continue;
        if (!f) out += ','; f = false; klass(rd);
    }
    out += "]}";
}
static std::vector<std::string> K, F, V, E, U;
static void take(std::vector<std::string>& v, size_t mark) { v.push_back(out.substr(mark)); out.resize(mark); }
static void walk(const DeclContext* dc)
{
    for (auto d : dc->decls())
    {
        if (auto n = dyn_cast<NamespaceDecl>(d)) { walk(n); continue; }
        if (auto l = dyn_cast<LinkageSpecDecl>(d)) { walk(l); continue; }
        if (!inRoots(d->getLocation())) continue;
        size_t mark = out.size();
        const CXXRecordDecl* rd = dyn_cast<CXXRecordDecl>(d);
        if (auto t = dyn_cast<ClassTemplateDecl>(d)) rd = t->getTemplatedDecl();
        if (rd) { if (rd->isThisDeclarationADefinition()) { klass(rd); take(K, mark); } continue; }
        const FunctionDecl* fd = dyn_cast<FunctionDecl>(d);
        if (auto t = dyn_cast<FunctionTemplateDecl>(d)) fd = t->getTemplatedDecl();
        if (fd)
        {
            if (isa<CXXMethodDecl>(fd)) continue; // emitted with its class
            const FunctionDecl* def = nullptr;
            if (fd->hasBody(def) && def != fd) continue;
            func(fd); take(F, mark); continue;
        }
        if (auto v = dyn_cast<VarDecl>(d)) { out += "{\"name\":"; str(v->getQualifiedNameAsString()); out += ",\"type\":"; str(ty(v->getType())); out += ",\"const\":"; out += (v->getType().isConstQualified() || v->isConstexpr()) ? "true" : "false"; out += ",\"line\":" + std::to_string(line(v->getLocation())) + ",\"file\":"; str(fileOf(v->getLocation())); out += ",\"init\":"; if (v->getAnyInitializer()) ex(v->getAnyInitializer()); else out += "null"; out += "}"; take(V, mark); continue; }
        if (auto en = dyn_cast<EnumDecl>(d)) { out += "{\"name\":"; str(en->getQualifiedNameAsString()); out += ",\"line\":" + std::to_string(line(en->getLocation())) + ",\"items\":["; bool g = true; for (auto c : en->enumerators()) { if (!g) out += ','; g = false; llvm::SmallString<32> v; c->getInitVal().toString(v, 10); out += "["; str(c->getNameAsString()); out += ","; out += v.c_str(); out += "]"; } out += "],\"underlying\":"; str(ty(en->getIntegerType())); out += "}"; take(E, mark); continue; }
        if (auto t = dyn_cast<TypedefNameDecl>(d)) { out += "["; str(t->getQualifiedNameAsString()); out += ","; str(ty(t->getUnderlyingType())); out += "]"; take(U, mark); continue; }
        if (auto ta = dyn_cast<TypeAliasTemplateDecl>(d)) { out += "["; str(ta->getQualifiedNameAsString()); out += ","; str(ty(ta->getTemplatedDecl()->getUnderlyingType())); out += "]"; take(U, mark); continue; }
    }
}
static void join(const char* k, const std::vector<std::string>& v, bool comma = true)
{
    out += "\""; out += k; out += "\":["; bool f = true;
    for (auto& s : v) { if (!f) out += ','; f = false; out += s; }
    out += "]"; if (comma) out += ",";
}
class Cons : public ASTConsumer
{
    void HandleTranslationUnit(ASTContext& c) override
    {
        if (c.getDiagnostics().hasErrorOccurred()) { llvm::errs() << "ERROR: does not compile\n"; exit(3); }
        C = &c; PrintingPolicy pp(c.getLangOpts()); pp.SuppressTagKeyword = true; pp.FullyQualifiedName = true; PP = &pp;
        walk(c.getTranslationUnitDecl());
        out = "{\"lang\":\"cpp\",";
        join("classes", K); join("functions", F); join("vars", V); join("enums", E); join("usings", U, false);
        out += "}\n";
        llvm::outs() << out;
    }
};
class Act : public ASTFrontendAction { TranslationUnitKind getTranslationUnitKind() override { return getenv("CPPIR_FULL") ? TU_Complete : TU_Prefix; } std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Cons>(); } };
int main(int argc, const char** argv)
{
    std::vector<std::string> a;
    int i = 2;
    for (; i < argc && std::string(argv[i]) != "--"; ++i) if (std::string(argv[i]) == "-root") roots.push_back(argv[++i]);
    for (++i; i < argc; ++i) a.push_back(argv[i]);
    auto buf = llvm::MemoryBuffer::getFile(argv[1]);
    if (!buf) { llvm::errs() << "cannot read " << argv[1] << "\n"; return 3; }
    return clang::tooling::runToolOnCodeWithArgs(std::make_unique<Act>(), (*buf)->getBuffer(), a, argv[1]) ? 0 : 3;
}
