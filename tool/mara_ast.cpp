// mara_ast: a libTooling-style front end that parses one translation unit with
// the project's real flags and dumps the resolved program (functions, template
// instantiations, lambdas, records, globals) as compact JSON for the rule
// engines in ../rules.  It only reads source; nothing is compiled to code.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "clang/AST/RecordLayout.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/FileSystem.h"
#include <map>
#include <set>
#include <deque>
#include <string>
#include <vector>

using namespace clang;
using llvm::json::OStream;

static std::string OutPath;
static std::vector<std::string> Roots; // path prefixes whose functions are dumped
static std::vector<std::string> Excl;

class Dumper {
public:
    ASTContext& C; SourceManager& SM; OStream& J; PrintingPolicy PP;
    std::map<const void*, int> declIds; 
    std::map<std::string, int> typeIds; std::vector<std::string> typeNames;
    std::map<const Type*, int> typePtrCache;
    std::vector<std::string> typeMeta;
    std::set<const FunctionDecl*> done; std::deque<const FunctionDecl*> queue;
    std::set<const RecordDecl*> recDone; std::deque<const RecordDecl*> recQueue;
    Dumper(ASTContext& c, OStream& j) : C(c), SM(c.getSourceManager()), J(j), PP(c.getLangOpts()) {
        PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true;
        PP.AnonymousTagLocations = false;
    }
    int id(const Decl* d) {
        if (!d) return -1;
        d = d->getCanonicalDecl();
        auto it = declIds.find(d); if (it != declIds.end()) return it->second;
        int n = declIds.size() + 1; declIds[d] = n; return n;
    }
    std::string capped(std::string s) {
        if (s.size() > 1500) { auto h = std::hash<std::string>{}(s); s = s.substr(0, 1200) + "...#" + std::to_string(h); }
        return s;
    }
    struct TInfo { std::string s; int rec; std::string kind; int pointee; bool cst; std::string recName; };
    std::vector<TInfo> tinfo;
    std::map<void*, int> tcache;
    int type(QualType q) {
        if (q.isNull()) return -1;
        q = q.getCanonicalType();
        auto it = tcache.find(q.getAsOpaquePtr()); if (it != tcache.end()) return it->second;
        int n = tinfo.size(); tcache[q.getAsOpaquePtr()] = n; tinfo.push_back({});
        TInfo t; t.cst = q.isConstQualified(); t.rec = -1; t.pointee = -1;
        t.s = capped(q.getAsString(PP));
        if (q->isDependentType()) t.kind = "dep";
        else if (q->isLValueReferenceType()) { t.kind = "lref"; t.pointee = type(q->getPointeeType()); }
        else if (q->isRValueReferenceType()) { t.kind = "rref"; t.pointee = type(q->getPointeeType()); }
        else if (q->isPointerType()) { t.kind = "ptr"; t.pointee = type(q->getPointeeType()); }
        else if (auto* rd = q->getAsCXXRecordDecl()) { t.kind = rd->isLambda() ? "lambda" : "rec"; t.rec = id(rd); t.recName = rd->getQualifiedNameAsString();
            if (recDone.insert(rd).second) recQueue.push_back(rd); }
        else if (q->isBooleanType()) t.kind = "bool";
        else if (q->isEnumeralType()) t.kind = "enum";
        else if (q->isAnyCharacterType()) t.kind = "char";
        else if (q->isIntegerType()) t.kind = q->isUnsignedIntegerType() ? "uint" : "int";
        else if (q->isRealFloatingType()) t.kind = "float";
        else if (q->isVoidType()) t.kind = "void";
        else if (q->isArrayType()) { t.kind = "array"; t.pointee = type(C.getAsArrayType(q)->getElementType()); }
        else if (q->isFunctionType()) t.kind = "func";
        else t.kind = "other";
        tinfo[n] = t; return n;
    }
    std::string file(SourceLocation l) { l = SM.getExpansionLoc(l); auto f = SM.getFilename(l); return f.str(); }
    int line(SourceLocation l) { return SM.getExpansionLineNumber(l); }
    bool inRoots(SourceLocation l) {
        std::string f = file(l); if (f.empty()) return false;
        for (auto& e : Excl) if (f.find(e) != std::string::npos) return false;
        for (auto& r : Roots) if (r[0] == '/' ? f.compare(0, r.size(), r) == 0 : f.find(r) != std::string::npos) return true;
        return false;
    }
    std::string qname(const NamedDecl* d) { return d->getQualifiedNameAsString(); }
    std::string targs(const TemplateArgumentList* l) {
        if (!l) return "";
        std::string s; llvm::raw_string_ostream os(s); bool first = true;
        for (unsigned i = 0; i < l->size(); ++i) {
            auto& a = l->get(i);
            if (a.getKind() == TemplateArgument::Pack) { for (auto& p : a.pack_elements()) { if (!first) os << ", "; first = false; p.print(PP, os, true); } continue; }
            if (!first) os << ", "; first = false; a.print(PP, os, true); }
        os.flush(); return capped(s);
    }
    // ---------------------------------------------------------------- nodes
    struct Obj { OStream& J; Obj(OStream& j, const char* k, int l) : J(j) { J.objectBegin(); J.attribute("k", k); if (l) J.attribute("l", l); } ~Obj() { J.objectEnd(); } };
    void attrT(QualType q) { J.attribute("t", type(q)); }
    template<typename R> void list(const char* name, R&& range) { J.attributeBegin(name); J.arrayBegin(); for (auto* e : range) node(e); J.arrayEnd(); J.attributeEnd(); }
    void sub(const char* name, const Stmt* s) { if (!s) return; J.attributeBegin(name); node(s); J.attributeEnd(); }
    void want(const FunctionDecl* f) {
        if (!f) return; 
        const FunctionDecl* def = nullptr; f->hasBody(def); if (!def) def = f;
        if (def->isImplicit() && def->isDefaulted()) return;
        if (!inRoots(def->getLocation())) return;
        if (done.insert(def).second) queue.push_back(def);
    }
    void callee(const FunctionDecl* f) {
        // callee reference
        J.attribute("f", id(calleeDecl(f))); J.attribute("n", qname(f));
        sig(f);
        want(f);
    }
    void sig(const FunctionDecl* f) {
        if (auto* ta = f->getTemplateSpecializationArgs()) if (!f->isDependentContext()) { auto t = targs(ta); if (!t.empty()) J.attribute("ta", t.size() > 200 ? t.substr(0, 200) : t); }
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) if (m->isConst()) J.attribute("cm", true);
        J.attributeBegin("outs"); J.arrayBegin();
        for (unsigned i = 0; i < f->getNumParams(); ++i) { auto q = f->getParamDecl(i)->getType();
            if (q->isLValueReferenceType() && !q->getPointeeType().isConstQualified()) J.value((int) i);
            else if (q->isPointerType() && !q->getPointeeType().isConstQualified() && !q->isFunctionPointerType()) J.value((int) i + 100);
            else if (q->isRValueReferenceType()) J.value((int) i + 200); }
        J.arrayEnd(); J.attributeEnd();
    }
    const Decl* calleeDecl(const FunctionDecl* f) { return f; }
    void var(const VarDecl* v) {
        J.objectBegin(); J.attribute("id", id(v)); J.attribute("name", v->getNameAsString()); attrT(v->getType()); J.attribute("l", line(v->getLocation()));
        if (v->isStaticLocal()) J.attribute("static", true);
        if (v->getTLSKind() != VarDecl::TLS_None) J.attribute("tls", true);
        if (v->isConstexpr()) J.attribute("constexpr", true);
        if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
            J.attributeBegin("bind"); J.arrayBegin();
            for (auto* b : dd->bindings()) { J.objectBegin(); J.attribute("id", id(b)); J.attribute("name", b->getNameAsString());
                if (auto* hv = b->getHoldingVar()) { J.attribute("hid", id(hv)); if (hv->getInit()) sub("init", hv->getInit()); }
                else if (b->getBinding()) sub("init", b->getBinding());
                J.objectEnd(); }
            J.arrayEnd(); J.attributeEnd();
        }
        if (v->getInit()) sub("init", v->getInit());
        J.objectEnd();
    }
    bool constInt(const Expr* e) {
        if (e->isValueDependent() || e->isTypeDependent()) return false;
        QualType q = e->getType(); if (!(q->isIntegralOrEnumerationType())) return false;
        if (isa<IntegerLiteral>(e) || isa<CXXBoolLiteralExpr>(e)) return false;
        Expr::EvalResult r; 
        if (!e->isPRValue() ) return false;
        if (!e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects)) return false;
        Obj o(J, "Int", line(e->getBeginLoc())); J.attribute("v", llvm::toString(r.Val.getInt(), 10)); attrT(q); 
        J.attribute("ce", true);
        // keep enum name
        if (auto* dr = dyn_cast<DeclRefExpr>(e->IgnoreParenImpCasts())) if (auto* ec = dyn_cast<EnumConstantDecl>(dr->getDecl())) J.attribute("enum", qname(ec));
        if (auto* dr = dyn_cast<DeclRefExpr>(e->IgnoreParenImpCasts())) if (auto* vd = dyn_cast<VarDecl>(dr->getDecl())) J.attribute("cvar", qname(vd));
        return true;
    }
    void node(const Stmt* s) {
        if (!s) { J.value(nullptr); return; }
        if (auto* e = dyn_cast<Expr>(s)) { expr(e); return; }
        int l = line(s->getBeginLoc());
        switch (s->getStmtClass()) {
        case Stmt::CompoundStmtClass: { Obj o(J, "Compound", l); list("c", cast<CompoundStmt>(s)->body()); return; }
        case Stmt::DeclStmtClass: { Obj o(J, "Decl", l); J.attributeBegin("vars"); J.arrayBegin();
            for (auto* d : cast<DeclStmt>(s)->decls()) if (auto* v = dyn_cast<VarDecl>(d)) var(v);
            J.arrayEnd(); J.attributeEnd(); return; }
        case Stmt::IfStmtClass: { auto* i = cast<IfStmt>(s); 
            if (i->isConstexpr() && !i->getCond()->isValueDependent()) {
                auto nd = i->getNondiscardedCase(C);
                Obj o(J, "Compound", l); J.attribute("ifconstexpr", true); J.attributeBegin("c"); J.arrayBegin();
                if (i->getInit()) node(i->getInit());
                if (nd && *nd) node(*nd);
                J.arrayEnd(); J.attributeEnd(); return; }
            Obj o(J, "If", l); sub("init", i->getInit()); if (i->getConditionVariable()) { J.attributeBegin("var"); var(i->getConditionVariable()); J.attributeEnd(); }
            sub("cond", i->getCond()); sub("then", i->getThen()); sub("else", i->getElse()); return; }
        case Stmt::ForStmtClass: { auto* f = cast<ForStmt>(s); Obj o(J, "For", l); sub("init", f->getInit()); sub("cond", f->getCond()); sub("inc", f->getInc()); sub("body", f->getBody()); return; }
        case Stmt::WhileStmtClass: { auto* w = cast<WhileStmt>(s); Obj o(J, "While", l); if (w->getConditionVariable()) { J.attributeBegin("var"); var(w->getConditionVariable()); J.attributeEnd(); } sub("cond", w->getCond()); sub("body", w->getBody()); return; }
        case Stmt::DoStmtClass: { auto* w = cast<DoStmt>(s); Obj o(J, "Do", l); sub("cond", w->getCond()); sub("body", w->getBody()); return; }
        case Stmt::CXXForRangeStmtClass: { auto* f = cast<CXXForRangeStmt>(s); Obj o(J, "RangeFor", l);
            J.attributeBegin("var"); var(f->getLoopVariable()); J.attributeEnd(); sub("range", f->getRangeInit());
            if (f->getBeginStmt()) sub("begin", f->getBeginStmt()); if (f->getEndStmt()) sub("end", f->getEndStmt());
            if (f->getRangeStmt()) sub("rangedecl", f->getRangeStmt()); if (f->getInc()) sub("inc", f->getInc()); if (f->getCond()) sub("cond", f->getCond());
            sub("body", f->getBody()); return; }
        case Stmt::ReturnStmtClass: { Obj o(J, "Return", l); sub("e", cast<ReturnStmt>(s)->getRetValue()); return; }
        case Stmt::BreakStmtClass: { Obj o(J, "Break", l); return; }
        case Stmt::ContinueStmtClass: { Obj o(J, "Continue", l); return; }
        case Stmt::NullStmtClass: { Obj o(J, "Null", l); return; }
        case Stmt::SwitchStmtClass: { auto* w = cast<SwitchStmt>(s); Obj o(J, "Switch", l); sub("init", w->getInit()); sub("cond", w->getCond()); sub("body", w->getBody()); return; }
        case Stmt::CaseStmtClass: { auto* w = cast<CaseStmt>(s); Obj o(J, "Case", l); sub("v", w->getLHS()); sub("s", w->getSubStmt()); return; }
        case Stmt::DefaultStmtClass: { auto* w = cast<DefaultStmt>(s); Obj o(J, "Default", l); sub("s", w->getSubStmt()); return; }
        case Stmt::CXXTryStmtClass: { auto* t = cast<CXXTryStmt>(s); Obj o(J, "Try", l); sub("body", t->getTryBlock());
            J.attributeBegin("handlers"); J.arrayBegin();
            for (unsigned i = 0; i < t->getNumHandlers(); ++i) { auto* h = t->getHandler(i); J.objectBegin(); J.attribute("k", "Catch"); J.attribute("l", line(h->getBeginLoc()));
                if (h->getExceptionDecl()) { J.attributeBegin("var"); var(h->getExceptionDecl()); J.attributeEnd(); } else J.attribute("all", true);
                sub("body", h->getHandlerBlock()); J.objectEnd(); }
            J.arrayEnd(); J.attributeEnd(); return; }
        default: { Obj o(J, "OtherStmt", l); J.attribute("cls", s->getStmtClassName()); list("c", s->children()); return; }
        }
    }
    void initlist(const InitListExpr* il, int l) {
        if (il->isSyntacticForm() && il->getSemanticForm()) il = il->getSemanticForm();
        Obj o(J, "InitList", l); attrT(il->getType());
        if (auto* rt = il->getType()->getAsCXXRecordDecl()) {
            J.attributeBegin("fields"); J.arrayBegin();
            if (il->getInitializedFieldInUnion()) J.value(il->getInitializedFieldInUnion()->getNameAsString());
            else { 
                unsigned nb = rt->getNumBases(); for (unsigned i = 0; i < nb; ++i) J.value("<base>");
                for (auto* f : rt->fields()) J.value(f->getNameAsString()); }
            J.arrayEnd(); J.attributeEnd();
        }
        J.attribute("explicit", (int) (il->getSyntacticForm() ? il->getSyntacticForm()->getNumInits() : il->getNumInits()));
        list("c", il->inits());
    }
    void expr(const Expr* e) {
        int l = line(e->getBeginLoc());
        if (constInt(e)) return;
        switch (e->getStmtClass()) {
        // transparent
        case Stmt::ParenExprClass: expr(cast<ParenExpr>(e)->getSubExpr()); return;
        case Stmt::ExprWithCleanupsClass: expr(cast<ExprWithCleanups>(e)->getSubExpr()); return;
        case Stmt::ConstantExprClass: expr(cast<ConstantExpr>(e)->getSubExpr()); return;
        case Stmt::MaterializeTemporaryExprClass: { Obj o(J, "Temp", l); sub("e", cast<MaterializeTemporaryExpr>(e)->getSubExpr()); return; }
        case Stmt::CXXBindTemporaryExprClass: expr(cast<CXXBindTemporaryExpr>(e)->getSubExpr()); return;
        case Stmt::SubstNonTypeTemplateParmExprClass: expr(cast<SubstNonTypeTemplateParmExpr>(e)->getReplacement()); return;
        case Stmt::CXXDefaultArgExprClass: { Obj o(J, "DefArg", l); sub("e", cast<CXXDefaultArgExpr>(e)->getExpr()); return; }
        case Stmt::CXXDefaultInitExprClass: { Obj o(J, "DefInit", l); sub("e", cast<CXXDefaultInitExpr>(e)->getExpr()); return; }
        case Stmt::ImplicitCastExprClass: case Stmt::CStyleCastExprClass: case Stmt::CXXStaticCastExprClass: case Stmt::CXXFunctionalCastExprClass:
        case Stmt::CXXReinterpretCastExprClass: case Stmt::CXXConstCastExprClass: case Stmt::CXXDynamicCastExprClass: {
            auto* c = cast<CastExpr>(e); auto ck = c->getCastKind();
            if (!isa<CXXReinterpretCastExpr>(e) && !isa<CXXConstCastExpr>(e)) {
                if (ck == CK_LValueToRValue) { Obj o(J, "Load", l); sub("e", c->getSubExpr()); return; }
                if (ck == CK_ArrayToPointerDecay) { Obj o(J, "Decay", l); sub("e", c->getSubExpr()); return; }
                if (ck == CK_NoOp || ck == CK_FunctionToPointerDecay || ck == CK_BuiltinFnToFnPtr || ck == CK_ConstructorConversion || ck == CK_UserDefinedConversion) {
                    if (!(ck == CK_NoOp && isa<CStyleCastExpr>(e) && e->getType()->isPointerType())) { expr(c->getSubExpr()); return; } }
            }
            Obj o(J, "Cast", l); J.attribute("ck", c->getCastKindName()); attrT(e->getType()); 
            if (isa<CXXConstCastExpr>(e)) J.attribute("constcast", true);
            if (isa<CXXReinterpretCastExpr>(e)) J.attribute("reinterpret", true);
            if (isa<CStyleCastExpr>(e)) J.attribute("cstyle", true);
            sub("e", c->getSubExpr()); return; }
        case Stmt::IntegerLiteralClass: { Obj o(J, "Int", l); J.attribute("v", llvm::toString(cast<IntegerLiteral>(e)->getValue(), 10, e->getType()->isSignedIntegerType())); attrT(e->getType()); return; }
        case Stmt::CharacterLiteralClass: { Obj o(J, "Int", l); J.attribute("v", std::to_string(cast<CharacterLiteral>(e)->getValue())); attrT(e->getType()); return; }
        case Stmt::CXXBoolLiteralExprClass: { Obj o(J, "Int", l); J.attribute("v", cast<CXXBoolLiteralExpr>(e)->getValue() ? "1" : "0"); attrT(e->getType()); return; }
        case Stmt::FloatingLiteralClass: { Obj o(J, "Float", l); llvm::SmallString<40> b; cast<FloatingLiteral>(e)->getValue().toString(b, 0, 0); J.attribute("v", b.str()); return; }
        case Stmt::StringLiteralClass: { Obj o(J, "Str", l); auto* sl = cast<StringLiteral>(e); J.attribute("v", sl->getCharByteWidth() == 1 ? llvm::json::fixUTF8(sl->getString()) : std::string("<wide>")); return; }
        case Stmt::CXXNullPtrLiteralExprClass: case Stmt::GNUNullExprClass: { Obj o(J, "Nullptr", l); return; }
        case Stmt::CXXThisExprClass: { Obj o(J, "This", l); attrT(e->getType()); return; }
        case Stmt::DeclRefExprClass: {
            auto* d = cast<DeclRefExpr>(e)->getDecl();
            if (auto* ec = dyn_cast<EnumConstantDecl>(d)) { Obj o(J, "Int", l); J.attribute("v", llvm::toString(ec->getInitVal(), 10)); J.attribute("enum", qname(ec)); attrT(e->getType()); return; }
            Obj o(J, "Ref", l); J.attribute("id", id(d));
            if (auto* fd = dyn_cast<FunctionDecl>(d)) { J.attribute("dk", "fn"); J.attribute("n", qname(fd)); want(fd); }
            else if (auto* vd = dyn_cast<VarDecl>(d)) {
                J.attribute("n", vd->hasLinkage() || vd->isStaticDataMember() ? qname(vd) : vd->getNameAsString());
                J.attribute("dk", isa<ParmVarDecl>(vd) ? "parm" : vd->isStaticLocal() ? "static" : vd->hasGlobalStorage() ? "global" : "local");
                if (cast<DeclRefExpr>(e)->refersToEnclosingVariableOrCapture()) J.attribute("cap", true);
            } else { J.attribute("n", d->getNameAsString()); J.attribute("dk", isa<BindingDecl>(d) ? "binding" : "other"); }
            attrT(e->getType()); return; }
        case Stmt::MemberExprClass: {
            auto* m = cast<MemberExpr>(e); auto* d = m->getMemberDecl();
            if (auto* vd = dyn_cast<VarDecl>(d)) { Obj o(J, "Ref", l); J.attribute("id", id(vd)); J.attribute("n", qname(vd)); J.attribute("dk", "global"); attrT(e->getType()); return; }
            Obj o(J, "Member", l); J.attribute("n", d->getNameAsString()); J.attribute("m", id(d)); if (m->isArrow()) J.attribute("arrow", true);
            if (auto* fd = dyn_cast<FunctionDecl>(d)) { J.attribute("fn", true); J.attribute("q", qname(fd)); want(fd); }
            if (auto* fld = dyn_cast<FieldDecl>(d)) { J.attribute("rec", qname(fld->getParent())); if (recDone.insert(fld->getParent()).second) recQueue.push_back(fld->getParent()); }
            attrT(e->getType()); sub("e", m->getBase()); return; }
        case Stmt::CXXOperatorCallExprClass: case Stmt::CXXMemberCallExprClass: case Stmt::CallExprClass: case Stmt::UserDefinedLiteralClass: {
            auto* c = cast<CallExpr>(e); auto* fd = c->getDirectCallee();
            if (auto* pd = dyn_cast<CXXPseudoDestructorExpr>(c->getCallee()->IgnoreParens())) { Obj o(J, "PseudoDtor", l); sub("e", pd->getBase()); return; }
            Obj o(J, "Call", l); attrT(e->getType());
            if (auto* oc = dyn_cast<CXXOperatorCallExpr>(e)) J.attribute("op", getOperatorSpelling(oc->getOperator()));
            if (fd) {
                callee(fd);
                if (auto* md = dyn_cast<CXXMethodDecl>(fd)) {
                    J.attribute("method", true);
                    if (md->isVirtual()) J.attribute("virtual", true);
                    if (md->isStatic()) J.attribute("smethod", true);
                    if (md->getParent()->isLambda()) J.attribute("lam", id(md->getParent()));
                    if (auto* mc = dyn_cast<CXXMemberCallExpr>(e)) { sub("obj", mc->getImplicitObjectArgument());
                        if (auto* me = dyn_cast<MemberExpr>(mc->getCallee()->IgnoreParens())) { if (me->isArrow()) J.attribute("arrow", true); if (me->hasQualifier() ) J.attribute("qual", true); } }
                    else if (isa<CXXOperatorCallExpr>(e) && !md->isStatic()) { sub("obj", c->getArg(0)); J.attributeBegin("args"); J.arrayBegin(); for (unsigned i = 1; i < c->getNumArgs(); ++i) node(c->getArg(i)); J.arrayEnd(); J.attributeEnd(); return; }
                }
            } else {
                sub("callee", c->getCallee());
            }
            list("args", c->arguments()); return; }
        case Stmt::CXXConstructExprClass: case Stmt::CXXTemporaryObjectExprClass: {
            auto* c = cast<CXXConstructExpr>(e); auto* cd = c->getConstructor();
            Obj o(J, "Construct", l); attrT(e->getType()); J.attribute("f", id(cd)); J.attribute("n", qname(cd)); sig(cd); want(cd);
            if (cd->isCopyConstructor()) J.attribute("copy", true); if (cd->isMoveConstructor()) J.attribute("move", true); if (cd->isDefaultConstructor()) J.attribute("dflt", true);
            if (c->isElidable()) J.attribute("elide", true);
            if (cd->isImplicit() || cd->isDefaulted()) J.attribute("implicit", true);
            if (c->isListInitialization()) J.attribute("list", true);
            if (c->isStdInitListInitialization()) J.attribute("stdlist", true);
            list("args", c->arguments()); return; }
        case Stmt::CXXStdInitializerListExprClass: { Obj o(J, "StdInitList", l); attrT(e->getType()); sub("e", cast<CXXStdInitializerListExpr>(e)->getSubExpr()); return; }
        case Stmt::InitListExprClass: initlist(cast<InitListExpr>(e), l); return;
        case Stmt::CXXParenListInitExprClass: { Obj o(J, "OtherExpr", l); J.attribute("cls", e->getStmtClassName()); list("c", e->children()); return; }
        case Stmt::ImplicitValueInitExprClass: case Stmt::CXXScalarValueInitExprClass: { Obj o(J, "ZeroInit", l); attrT(e->getType()); return; }
        case Stmt::BinaryOperatorClass: case Stmt::CompoundAssignOperatorClass: {
            auto* b = cast<BinaryOperator>(e); Obj o(J, b->isAssignmentOp() ? "Assign" : "Bin", l); J.attribute("op", b->getOpcodeStr()); attrT(e->getType()); sub("a", b->getLHS()); sub("b", b->getRHS()); return; }
        case Stmt::UnaryOperatorClass: { auto* u = cast<UnaryOperator>(e); Obj o(J, "Un", l); J.attribute("op", UnaryOperator::getOpcodeStr(u->getOpcode())); if (u->isPostfix()) J.attribute("post", true); attrT(e->getType()); sub("e", u->getSubExpr()); return; }
        case Stmt::ConditionalOperatorClass: { auto* c = cast<ConditionalOperator>(e); Obj o(J, "Cond", l); attrT(e->getType()); sub("c", c->getCond()); sub("a", c->getTrueExpr()); sub("b", c->getFalseExpr()); return; }
        case Stmt::ArraySubscriptExprClass: { auto* a = cast<ArraySubscriptExpr>(e); Obj o(J, "Sub", l); attrT(e->getType()); sub("a", a->getBase()); sub("b", a->getIdx()); return; }
        case Stmt::CXXThrowExprClass: { Obj o(J, "Throw", l); sub("e", cast<CXXThrowExpr>(e)->getSubExpr()); return; }
        case Stmt::CXXNewExprClass: { auto* n = cast<CXXNewExpr>(e); Obj o(J, "New", l); attrT(e->getType()); if (n->isArray()) { J.attribute("array", true); if (n->getArraySize()) sub("size", *n->getArraySize()); } list("place", n->placement_arguments()); sub("init", n->getInitializer()); return; }
        case Stmt::CXXDeleteExprClass: { auto* n = cast<CXXDeleteExpr>(e); Obj o(J, "Delete", l); if (n->isArrayForm()) J.attribute("array", true); sub("e", n->getArgument()); return; }
        case Stmt::LambdaExprClass: {
            auto* le = cast<LambdaExpr>(e); Obj o(J, "Lambda", l); auto* cls = le->getLambdaClass(); J.attribute("lam", id(cls)); attrT(e->getType());
            J.attributeBegin("caps"); J.arrayBegin();
            auto it = le->capture_init_begin();
            for (auto& cap : le->captures()) {
                J.objectBegin();
                if (cap.capturesThis()) J.attribute("this", cap.getCaptureKind() == LCK_StarThis ? "copy" : "ref");
                else if (cap.capturesVariable()) { auto* cv = cap.getCapturedVar(); J.attribute("id", id(cv)); J.attribute("name", cv->getNameAsString()); J.attribute("by", cap.getCaptureKind() == LCK_ByRef ? "ref" : "copy"); J.attribute("t", type(cv->getType()));
                    if (auto* vd = dyn_cast<VarDecl>(cv)) if (vd->isInitCapture()) { J.attribute("initcap", true); sub("init", vd->getInit()); } }
                J.objectEnd(); ++it;
            }
            J.arrayEnd(); J.attributeEnd();
            if (auto* md = le->getCallOperator()) {
                if (le->isGenericLambda()) {
                    J.attribute("generic", true);
                    if (auto* ft = md->getDescribedFunctionTemplate()) { J.attributeBegin("insts"); J.arrayBegin(); for (auto* sp : ft->specializations()) { J.value(id(sp)); want(sp); } J.arrayEnd(); J.attributeEnd(); }
                    J.attribute("pat", id(md)); want(md);
                } else { J.attribute("call", id(md)); want(md); }
            }
            return; }
        case Stmt::CXXInheritedCtorInitExprClass: { Obj o(J, "Construct", l); attrT(e->getType()); auto* cd = cast<CXXInheritedCtorInitExpr>(e)->getConstructor(); J.attribute("f", id(cd)); J.attribute("n", qname(cd)); J.attribute("inherit", true); J.attributeBegin("args"); J.arrayBegin(); J.arrayEnd(); J.attributeEnd(); return; }
        case Stmt::OffsetOfExprClass: { Obj o(J, "OffsetOf", l); auto* u = cast<OffsetOfExpr>(e); std::string f; for (unsigned i = 0; i < u->getNumComponents(); ++i) { auto& c = u->getComponent(i); if (c.getKind() == OffsetOfNode::Field) f += (f.empty() ? "" : ".") + c.getField()->getNameAsString(); else f += "?"; } J.attribute("f", f); J.attribute("rec", u->getTypeSourceInfo()->getType().getCanonicalType().getAsString()); return; }
        case Stmt::UnaryExprOrTypeTraitExprClass: { Obj o(J, "SizeOf", l); auto* u = cast<UnaryExprOrTypeTraitExpr>(e); J.attribute("at", type(u->getTypeOfArgument())); return; }
        case Stmt::ArrayInitLoopExprClass: { Obj o(J, "ArrayInit", l); attrT(e->getType()); sub("e", cast<ArrayInitLoopExpr>(e)->getCommonExpr()->getSourceExpr()); return; }
        case Stmt::OpaqueValueExprClass: { if (cast<OpaqueValueExpr>(e)->getSourceExpr()) { expr(cast<OpaqueValueExpr>(e)->getSourceExpr()); return; } Obj o(J, "OtherExpr", l); J.attribute("cls", "Opaque"); return; }
        // dependent forms
        case Stmt::UnresolvedLookupExprClass: { auto* u = cast<UnresolvedLookupExpr>(e); Obj o(J, "ULookup", l); J.attribute("n", u->getName().getAsString());
            J.attributeBegin("cands"); J.arrayBegin(); for (auto* d : u->decls()) J.value(qname(d)); J.arrayEnd(); J.attributeEnd(); return; }
        case Stmt::UnresolvedMemberExprClass: { auto* u = cast<UnresolvedMemberExpr>(e); Obj o(J, "DepMember", l); J.attribute("n", u->getMemberName().getAsString()); if (!u->isImplicitAccess()) sub("e", u->getBase()); else J.attribute("implicit", true); return; }
        case Stmt::CXXDependentScopeMemberExprClass: { auto* u = cast<CXXDependentScopeMemberExpr>(e); Obj o(J, "DepMember", l); J.attribute("n", u->getMember().getAsString()); if (!u->isImplicitAccess()) sub("e", u->getBase()); return; }
        case Stmt::DependentScopeDeclRefExprClass: { auto* u = cast<DependentScopeDeclRefExpr>(e); Obj o(J, "ULookup", l); J.attribute("n", u->getDeclName().getAsString()); return; }
        case Stmt::CXXUnresolvedConstructExprClass: { auto* u = cast<CXXUnresolvedConstructExpr>(e); Obj o(J, "DepConstruct", l); attrT(u->getTypeAsWritten()); J.attributeBegin("args"); J.arrayBegin(); for (unsigned i = 0; i < u->getNumArgs(); ++i) node(u->getArg(i)); J.arrayEnd(); J.attributeEnd(); return; }
        case Stmt::ParenListExprClass: { Obj o(J, "ParenList", l); auto* p = cast<ParenListExpr>(e); list("c", const_cast<ParenListExpr*>(p)->children()); return; }
        default: { Obj o(J, "OtherExpr", l); J.attribute("cls", e->getStmtClassName()); attrT(e->getType()); list("c", e->children()); return; }
        }
    }
    // closures held by value in a type: template arguments, members, bases and what closures capture
    void held(QualType q, std::set<const void*>& seen, std::set<int>& out, int depth = 0) {
        if (q.isNull() || depth > 200) return;
        q = q.getCanonicalType();
        if (!seen.insert(q.getAsOpaquePtr()).second || q->isDependentType()) return;
        if (q->isReferenceType() || q->isPointerType()) return;
        if (q->isArrayType()) return held(C.getAsArrayType(q)->getElementType(), seen, out, depth + 1);
        auto* rd = q->getAsCXXRecordDecl(); if (!rd) return;
        if (rd->isLambda()) { out.insert(id(rd)); if (recDone.insert(rd).second) recQueue.push_back(rd); }
        auto args = [&] (const TemplateArgument& a, auto& self) -> void {
            if (a.getKind() == TemplateArgument::Type) held(a.getAsType(), seen, out, depth + 1);
            else if (a.getKind() == TemplateArgument::Pack) for (auto& x : a.pack_elements()) self(x, self); };
        if (auto* cts = dyn_cast<ClassTemplateSpecializationDecl>(rd)) for (unsigned i = 0; i < cts->getTemplateArgs().size(); ++i) args(cts->getTemplateArgs().get(i), args);
        if (rd->hasDefinition()) {
            for (auto* f : rd->getDefinition()->fields()) held(f->getType(), seen, out, depth + 1);
            for (auto& b : rd->getDefinition()->bases()) held(b.getType(), seen, out, depth + 1); }
    }
    void function(const FunctionDecl* f) {
        J.objectBegin();
        if (!f->isDependentContext() && f->hasBody() && inRoots(f->getLocation())) { std::set<const void*> seen; std::set<int> out; held(f->getReturnType(), seen, out);
            if (!out.empty()) { J.attributeBegin("holds"); J.arrayBegin(); for (int i : out) J.value(i); J.arrayEnd(); J.attributeEnd(); } }
        J.attribute("id", id(f)); J.attribute("n", qname(f)); J.attribute("file", file(f->getLocation())); J.attribute("l", line(f->getBeginLoc())); J.attribute("le", line(f->getEndLoc()));
        J.attribute("ret", type(f->getReturnType()));
        bool dep = f->isDependentContext(); if (dep) J.attribute("dep", true);
        if (auto* p = f->getTemplateInstantiationPattern()) { J.attribute("pat", id(p)); }
        J.attribute("pl", line((f->getTemplateInstantiationPattern() ? f->getTemplateInstantiationPattern() : f)->getLocation()));
        if (auto* ta = f->getTemplateSpecializationArgs()) J.attribute("targs", targs(ta));
        if (f->isInlined()) J.attribute("inl", true);
        if (f->getStorageClass() == SC_Static) J.attribute("st", true);
        if (f->isDeleted()) J.attribute("deleted", true);
        if (f->isDefaulted()) J.attribute("defaulted", true);
        if (auto* pt = f->getType()->getAs<FunctionProtoType>()) if (!dep && pt->canThrow() == CT_Cannot) J.attribute("noexcept", true);
        if (f->getFormalLinkage() == Linkage::External) J.attribute("ext", true);
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            J.attribute("rec", id(m->getParent())); J.attribute("recn", qname(m->getParent())); if (m->isConst()) J.attribute("const", true); if (m->isStatic()) J.attribute("smethod", true);
            if (m->getRefQualifier() == RQ_RValue) J.attribute("rq", "&&"); if (m->getRefQualifier() == RQ_LValue) J.attribute("rq", "&");
            if (m->isVirtual()) J.attribute("virtual", true);
            if (m->getParent()->isLambda()) { J.attribute("lam", id(m->getParent())); if (m->getParent()->getParentFunctionOrMethod()) {} }
            J.attribute("access", (int) m->getAccess());
            if (auto* cts = dyn_cast<ClassTemplateSpecializationDecl>(m->getParent())) J.attribute("rectargs", targs(&cts->getTemplateArgs()));
            if (recDone.insert(m->getParent()).second) recQueue.push_back(m->getParent());
        }
        const char* kind = isa<CXXConstructorDecl>(f) ? "ctor" : isa<CXXDestructorDecl>(f) ? "dtor" : isa<CXXConversionDecl>(f) ? "conv" : isa<CXXMethodDecl>(f) ? "method" : "fn";
        J.attribute("kind", kind);
        if (f->isOverloadedOperator()) J.attribute("op", getOperatorSpelling(f->getOverloadedOperator()));
        J.attributeBegin("params"); J.arrayBegin(); for (auto* p : f->parameters()) { J.objectBegin(); J.attribute("id", id(p)); J.attribute("name", p->getNameAsString()); attrT(p->getType()); 
            if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) sub("def", p->getDefaultArg());
            J.objectEnd(); } J.arrayEnd(); J.attributeEnd();
        if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
            if (c->isCopyConstructor()) J.attribute("copy", true); if (c->isMoveConstructor()) J.attribute("move", true); if (c->isExplicit()) J.attribute("explicit", true);
            J.attributeBegin("inits"); J.arrayBegin();
            for (auto* i : c->inits()) { J.objectBegin(); 
                if (i->isAnyMemberInitializer()) { J.attribute("m", i->getAnyMember()->getNameAsString()); J.attribute("mid", id(i->getAnyMember())); }
                else if (i->isBaseInitializer()) { J.attribute("base", type(QualType(i->getBaseClass(), 0))); }
                else if (i->isDelegatingInitializer()) J.attribute("deleg", true);
                if (i->isWritten()) J.attribute("written", true);
                sub("e", i->getInit()); J.objectEnd(); }
            J.arrayEnd(); J.attributeEnd();
        }
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) { if (m->isCopyAssignmentOperator()) J.attribute("copyassign", true); if (m->isMoveAssignmentOperator()) J.attribute("moveassign", true); }
        if (f->hasBody() && !f->isDefaulted()) sub("body", f->getBody());
        J.objectEnd();
    }
    void record(const RecordDecl* r0) {
        const RecordDecl* r = r0->getDefinition() ? r0->getDefinition() : r0;
        J.objectBegin(); J.attribute("id", id(r)); J.attribute("n", qname(r)); J.attribute("file", file(r->getLocation())); J.attribute("l", line(r->getLocation()));
        if (!r0->getDefinition()) { J.attribute("incomplete", true); J.objectEnd(); return; }
        if (r->isUnion()) J.attribute("union", true);
        if (r->isDependentContext()) J.attribute("dep", true);
        if (auto* cr = dyn_cast<CXXRecordDecl>(r)) {
            if (auto* cts = dyn_cast<ClassTemplateSpecializationDecl>(cr)) J.attribute("targs", targs(&cts->getTemplateArgs()));
            if (cr->isLambda()) J.attribute("lambda", true);
            if (cr->isAggregate()) J.attribute("aggregate", true);
            if (!cr->isDependentContext() && inRoots(r->getLocation())) {
                if (cr->isTriviallyCopyable()) J.attribute("trivcopy", true);
            }
            J.attributeBegin("bases"); J.arrayBegin(); for (auto& b : cr->bases()) J.value(type(b.getType())); J.arrayEnd(); J.attributeEnd();
            if (inRoots(r->getLocation())) {
                J.attributeBegin("methods"); J.arrayBegin();
                for (auto* m : cr->methods()) { J.objectBegin(); J.attribute("id", id(m)); J.attribute("n", m->getNameAsString()); J.attribute("access", (int) m->getAccess()); if (m->isDeleted()) J.attribute("deleted", true); if (m->isDefaulted()) J.attribute("defaulted", true); if (m->isImplicit()) J.attribute("implicit", true); if (m->isConst()) J.attribute("const", true);
                    J.attribute("ret", type(m->getReturnType())); if (m->isUserProvided()) J.attribute("user", true);
                    if (auto* c = dyn_cast<CXXConstructorDecl>(m)) { if (c->isCopyConstructor()) J.attribute("copy", true); if (c->isMoveConstructor()) J.attribute("move", true); }
                    if (m->isCopyAssignmentOperator()) J.attribute("copyassign", true); if (m->isMoveAssignmentOperator()) J.attribute("moveassign", true);
                    J.objectEnd(); }
                J.arrayEnd(); J.attributeEnd();
                J.attributeBegin("friends"); J.arrayBegin();
                for (auto* fr : cr->friends()) { if (auto* t = fr->getFriendType()) J.value(capped(t->getType().getAsString(PP))); else if (auto* nd = fr->getFriendDecl()) J.value(qname(nd)); }
                J.arrayEnd(); J.attributeEnd();
            }
        }
        const ASTRecordLayout* lay = !r->isDependentContext() && !r->isInvalidDecl() && r->isCompleteDefinition() ? &C.getASTRecordLayout(r) : nullptr;
        if (lay) J.attribute("size", (int64_t) lay->getSize().getQuantity());
        J.attributeBegin("fields"); J.arrayBegin();
        for (auto* f : r->fields()) { J.objectBegin(); if (lay && !f->isBitField()) J.attribute("off", (int64_t) (lay->getFieldOffset(f->getFieldIndex()) / 8)); J.attribute("id", id(f)); J.attribute("name", f->getNameAsString()); attrT(f->getType()); J.attribute("l", line(f->getLocation())); J.attribute("access", (int) f->getAccess()); if (f->isMutable()) J.attribute("mutable", true);
            if (f->hasInClassInitializer() && f->getInClassInitializer() && !r->isDependentContext() && inRoots(r->getLocation())) sub("init", f->getInClassInitializer());
            J.objectEnd(); }
        J.arrayEnd(); J.attributeEnd();
        J.objectEnd();
    }
};

class Collector : public RecursiveASTVisitor<Collector> {
public:
    Dumper& D; std::vector<const VarDecl*> globals; std::vector<const FunctionDecl*> fns; std::vector<const FunctionDecl*> specs;
    Collector(Dumper& d) : D(d) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool shouldVisitLambdaBody() const { return true; }
    bool VisitFunctionDecl(FunctionDecl* f) {
        if (f->isThisDeclarationADefinition() && D.inRoots(f->getLocation())) { if (D.done.insert(f).second) D.queue.push_back(f); }
        return true;
    }
    bool VisitVarDecl(VarDecl* v) { if (v->hasGlobalStorage() && !isa<ParmVarDecl>(v) && D.inRoots(v->getLocation())) globals.push_back(v); return true; }
    bool VisitCXXRecordDecl(CXXRecordDecl* r) { if (D.inRoots(r->getLocation()) && r->isThisDeclarationADefinition()) if (D.recDone.insert(r).second) D.recQueue.push_back(r); return true; }
};

class Consumer : public ASTConsumer {
public:
    CompilerInstance& CI; std::string main;
    Consumer(CompilerInstance& ci, std::string m) : CI(ci), main(m) {}
    void HandleTranslationUnit(ASTContext& C) override {
        std::error_code ec; llvm::raw_fd_ostream os(OutPath, ec);
        if (ec) { llvm::errs() << ec.message() << "\n"; exit(3); }
        OStream J(os, 0); Dumper D(C, J);
        J.objectBegin(); J.attribute("tu", main); J.attribute("errors", (int) CI.getDiagnostics().getClient()->getNumErrors());
        Collector col(D); col.TraverseDecl(C.getTranslationUnitDecl());
        J.attributeBegin("globals"); J.arrayBegin();
        for (auto* v : col.globals) { J.objectBegin(); J.attribute("id", D.id(v)); J.attribute("n", D.qname(v)); D.attrT(v->getType()); J.attribute("file", D.file(v->getLocation())); J.attribute("l", D.line(v->getLocation()));
            if (v->isStaticLocal()) J.attribute("local", true); if (v->getTLSKind() != VarDecl::TLS_None) J.attribute("tls", true); if (v->isConstexpr()) J.attribute("constexpr", true);
            if (v->getType()->isDependentType()) J.attribute("dep", true);
            if (v->getInit() && !v->getInit()->isValueDependent()) D.sub("init", v->getInit());
            J.objectEnd(); }
        J.arrayEnd(); J.attributeEnd();
        J.attributeBegin("funcs"); J.arrayBegin();
        while (!D.queue.empty()) { auto* f = D.queue.front(); D.queue.pop_front(); D.function(f); }
        J.arrayEnd(); J.attributeEnd();
        J.attributeBegin("records"); J.arrayBegin();
        while (!D.recQueue.empty()) { auto* r = D.recQueue.front(); D.recQueue.pop_front(); D.record(r); }
        J.arrayEnd(); J.attributeEnd();
        J.attributeBegin("types"); J.arrayBegin();
        for (size_t i = 0; i < D.tinfo.size(); ++i) { auto t = D.tinfo[i]; J.objectBegin(); J.attribute("s", llvm::json::fixUTF8(t.s)); J.attribute("k", t.kind); if (t.rec >= 0) { J.attribute("rec", t.rec); J.attribute("rn", t.recName); } if (t.pointee >= 0) J.attribute("p", t.pointee); if (t.cst) J.attribute("c", true); J.objectEnd(); }
        J.arrayEnd(); J.attributeEnd();
        J.objectEnd(); os << "\n";
    }
};
class Action : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, StringRef f) override { return std::make_unique<Consumer>(CI, f.str()); }
};
class Factory : public tooling::FrontendActionFactory { public: std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); } };

// usage: mara-ast OUT.json root1:root2 excl1:excl2 FILE -- flags...
static std::vector<std::string> split(std::string s) { std::vector<std::string> r; size_t p; while ((p = s.find(':')) != std::string::npos) { if (p) r.push_back(s.substr(0, p)); s = s.substr(p + 1); } if (!s.empty()) r.push_back(s); return r; }
int main(int argc, const char** argv) {
    if (argc < 6) { llvm::errs() << "usage\n"; return 3; }
    OutPath = argv[1]; Roots = split(argv[2]); Excl = split(argv[3]); std::string f = argv[4];
    std::vector<std::string> flags(argv + 6, argv + argc);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, {f});
    tool.clearArgumentsAdjusters();
    tool.appendArgumentsAdjuster(tooling::getClangSyntaxOnlyAdjuster());
    Factory fac; int rc = tool.run(&fac);
    return rc;
}
