// Fact extractor: parses one translation unit with clang and writes the resolved program
// (statement/expression trees with resolved callees, canonical types, records, enums) as JSON.
// usage: rotor-extract OUT.json ROOT[:ROOT...] -- file.cpp <clang args>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <fstream>
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static std::string OutFile;
static std::vector<std::string> Roots;
static std::vector<std::string> AllRoots; // dump every non-dependent function defined below these

namespace {
struct Extractor {
    ASTContext &C;
    SourceManager &SM;
    PrintingPolicy PP;
    ASTNameGenerator NG;
    std::map<const Decl *, int> ids;
    json::Object functions, records, enums, vars;
    std::deque<const FunctionDecl *> work;
    std::set<const FunctionDecl *> seen;
    std::set<const CXXRecordDecl *> recSeen;
    std::set<const VarDecl *> varSeen;

    explicit Extractor(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()), NG(c) {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.SuppressScope = false;
        PP.Bool = true;
        PP.SuppressInlineNamespace = true;
        PP.AnonymousTagLocations = true;
    }
    int id(const Decl *d) {
        d = d->getCanonicalDecl();
        auto it = ids.find(d);
        if (it != ids.end())
            return it->second;
        int n = (int)ids.size() + 1;
        ids[d] = n;
        return n;
    }
    std::string fileOf(SourceLocation l) {
        auto e = SM.getExpansionLoc(l);
        auto f = SM.getFilename(e);
        return f.str();
    }
    bool under(const std::string &f, const std::vector<std::string> &rs) {
        for (auto &r : rs)
            if (f.compare(0, r.size(), r) == 0)
                return true;
        return false;
    }
    bool inRoots(SourceLocation l) { return l.isValid() && under(fileOf(l), Roots); }
    bool inAll(SourceLocation l) { return l.isValid() && under(fileOf(l), AllRoots); }
    std::string ty(QualType t) {
        if (t.isNull())
            return "";
        return t.getCanonicalType().getAsString(PP);
    }
    std::string qname(const NamedDecl *d) {
        std::string s;
        llvm::raw_string_ostream os(s);
        d->printQualifiedName(os, PP);
        return os.str();
    }
    std::string recName(const RecordDecl *r) {
        if (auto *cr = dyn_cast<CXXRecordDecl>(r); cr && cr->isLambda())
            return "lambda@" + locs(r->getLocation());
        return ty(C.getTypeDeclType(r));
    }
    std::string locs(SourceLocation l) {
        auto e = SM.getExpansionLoc(l);
        return fileOf(l) + ":" + std::to_string(SM.getExpansionLineNumber(e)) + ":" +
               std::to_string(SM.getExpansionColumnNumber(e));
    }
    void loc(json::Object &o, SourceLocation l) {
        auto e = SM.getExpansionLoc(l);
        o["l"] = (int64_t)SM.getExpansionLineNumber(e);
        o["c"] = (int64_t)SM.getExpansionColumnNumber(e);
    }
    std::string mangled(const FunctionDecl *f) {
        if (auto *m = dyn_cast<CXXMethodDecl>(f); m && m->getParent()->isLambda())
            return "";
        if (isa<CXXConstructorDecl>(f) || isa<CXXDestructorDecl>(f)) {
            auto v = NG.getAllManglings(f);
            std::string r;
            for (auto &s : v) // complete object variant
                if (r.empty() || s.size() <= r.size())
                    r = r.empty() ? s : r;
            return v.empty() ? "" : v.front();
        }
        return NG.getName(f);
    }
    // ------------------------------------------------------------------ functions
    int fn(const FunctionDecl *f) {
        int i = id(f);
        if (seen.insert(f->getCanonicalDecl()).second)
            work.push_back(f);
        return i;
    }
    json::Array targs(const TemplateArgumentList *l) {
        json::Array a;
        if (!l)
            return a;
        for (auto &t : l->asArray())
            targ(a, t);
        return a;
    }
    void targ(json::Array &a, const TemplateArgument &t) {
        switch (t.getKind()) {
        case TemplateArgument::Type:
            a.push_back(ty(t.getAsType()));
            break;
        case TemplateArgument::Integral:
            a.push_back(llvm::toString(t.getAsIntegral(), 10));
            break;
        case TemplateArgument::Pack:
            for (auto &p : t.pack_elements())
                targ(a, p);
            break;
        default:
            a.push_back("?");
        }
    }
    void dumpFunction(const FunctionDecl *f) {
        const FunctionDecl *def = nullptr;
        f->isDefined(def);
        if (def && def->isDependentContext())
            def = nullptr;
        const FunctionDecl *d = def ? def : f;
        json::Object o;
        o["id"] = id(f);
        o["name"] = d->getNameAsString();
        o["qname"] = qname(d);
        o["mangled"] = mangled(d);
        o["file"] = fileOf(d->getLocation());
        loc(o, d->getLocation());
        o["ret"] = ty(d->getReturnType());
        bool ne = false;
        if (auto *fpt = d->getType()->getAs<FunctionProtoType>()) {
            auto es = fpt->getExceptionSpecType();
            if (!isUnresolvedExceptionSpec(es))
                ne = fpt->isNothrow();
        }
        if (isa<CXXDestructorDecl>(d))
            ne = true;
        o["noexcept"] = ne;
        o["noreturn"] = d->isNoReturn();
        if (d->isOverloadedOperator())
            o["op"] = getOperatorSpelling(d->getOverloadedOperator());
        if (d->getTemplateSpecializationArgs())
            o["targs"] = targs(d->getTemplateSpecializationArgs());
        o["inst"] = d->isTemplateInstantiation();
        json::Array ps;
        for (auto *p : d->parameters()) {
            json::Object po;
            po["id"] = id(p);
            po["name"] = p->getNameAsString();
            po["t"] = ty(p->getType());
            po["ref"] = p->getType()->isReferenceType();
            ps.push_back(std::move(po));
        }
        o["params"] = std::move(ps);
        if (auto *m = dyn_cast<CXXMethodDecl>(d)) {
            o["cls"] = recName(m->getParent());
            rec(m->getParent());
            o["static"] = m->isStatic();
            o["virtual"] = m->isVirtual();
            o["const"] = m->isConst();
            o["access"] = (int)m->getAccess();
            o["lambda"] = m->getParent()->isLambda();
            if (m->isVirtual()) {
                json::Array ov;
                for (auto *b : m->overridden_methods()) {
                    ov.push_back(fn(b));
                }
                o["overrides"] = std::move(ov);
                o["pure"] = m->isPureVirtual();
            }
            if (isa<CXXConstructorDecl>(m)) {
                auto *cd = cast<CXXConstructorDecl>(m);
                o["ctor"] = true;
                o["copymove"] = cd->isCopyOrMoveConstructor();
            }
            if (isa<CXXDestructorDecl>(m))
                o["dtor"] = true;
            if (isa<CXXConversionDecl>(m))
                o["conv"] = true;
        }
        bool body = def && def->getBody() && inRoots(def->getLocation());
        if (def && def->isDefaulted())
            o["defaulted"] = true;
        if (body) {
            if (auto *cd = dyn_cast<CXXConstructorDecl>(def)) {
                json::Array in;
                for (auto *i : cd->inits()) {
                    json::Object io;
                    if (i->isAnyMemberInitializer()) {
                        io["field"] = i->getAnyMember()->getNameAsString();
                        io["t"] = ty(i->getAnyMember()->getType());
                    } else if (i->isBaseInitializer())
                        io["base"] = ty(QualType(i->getBaseClass(), 0));
                    else
                        io["deleg"] = true;
                    io["init"] = ex(i->getInit());
                    loc(io, i->getSourceLocation());
                    in.push_back(std::move(io));
                }
                o["inits"] = std::move(in);
            }
            o["body"] = st(def->getBody());
        }
        functions[std::to_string(id(f))] = std::move(o);
    }
    // ------------------------------------------------------------------ records
    void rec(const CXXRecordDecl *r) {
        r = r->getDefinition();
        if (!r || r->isDependentContext())
            return;
        if (!recSeen.insert(r).second)
            return;
        if (!inRoots(r->getLocation()))
            return;
        json::Object o;
        o["name"] = recName(r);
        o["file"] = fileOf(r->getLocation());
        loc(o, r->getLocation());
        json::Array bs;
        for (auto &b : r->bases()) {
            bs.push_back(ty(b.getType()));
            if (auto *br = b.getType()->getAsCXXRecordDecl())
                rec(br);
        }
        o["bases"] = std::move(bs);
        json::Array fs;
        for (auto *f : r->fields()) {
            json::Object fo;
            fo["name"] = f->getNameAsString();
            fo["t"] = ty(f->getType());
            fo["access"] = (int)f->getAccess();
            if (f->hasInClassInitializer() && f->getInClassInitializer())
                fo["init"] = ex(f->getInClassInitializer());
            fs.push_back(std::move(fo));
        }
        o["fields"] = std::move(fs);
        json::Object cs;
        for (auto *d : r->decls())
            if (auto *v = dyn_cast<VarDecl>(d); v && v->isStaticDataMember() && v->getType()->isIntegralOrEnumerationType() &&
                                                v->getType().isConstQualified() && v->getAnyInitializer() && !v->getAnyInitializer()->isValueDependent())
                if (auto *val = v->evaluateValue(); val && val->isInt())
                    cs[v->getNameAsString()] = val->getInt().getExtValue();
        o["consts"] = std::move(cs);
        json::Array ms;
        for (auto *m : r->methods()) {
            if (m->isImplicit())
                continue;
            json::Object mo;
            mo["id"] = fn(m);
            mo["name"] = m->getNameAsString();
            ms.push_back(std::move(mo));
        }
        if (auto *dd = r->getDestructor())
            o["dtor"] = fn(dd);
        o["methods"] = std::move(ms);
        o["lambda"] = r->isLambda();
        if (auto *sp = dyn_cast<ClassTemplateSpecializationDecl>(r)) {
            o["tmpl"] = qname(sp->getSpecializedTemplate());
            o["targs"] = targs(&sp->getTemplateArgs());
        }
        records[recName(r)] = std::move(o);
    }
    void enu(const EnumDecl *e) {
        auto n = ty(C.getTypeDeclType(e));
        if (enums.find(n) != enums.end())
            return;
        json::Object o;
        json::Array vs;
        for (auto *c : e->enumerators())
            vs.push_back(json::Array{c->getNameAsString(), (int64_t)c->getInitVal().getExtValue()});
        o["values"] = std::move(vs);
        o["file"] = fileOf(e->getLocation());
        loc(o, e->getLocation());
        enums[n] = std::move(o);
    }
    void var(const VarDecl *v) {
        if (!varSeen.insert(v->getCanonicalDecl()).second)
            return;
        if (!v->hasGlobalStorage() || v->isStaticLocal())
            return;
        auto *d = v->getDefinition();
        json::Object o;
        o["name"] = qname(v);
        o["t"] = ty(v->getType());
        o["file"] = fileOf(v->getLocation());
        loc(o, v->getLocation());
        vars[std::to_string(id(v))] = nullptr;
        if (d && inRoots(d->getLocation()) && d->getInit() && !d->getInit()->isValueDependent())
            o["init"] = ex(d->getInit());
        vars[std::to_string(id(v))] = std::move(o);
    }
    // ------------------------------------------------------------------ expressions
    json::Value exs(ArrayRef<const Expr *> a) {
        json::Array r;
        for (auto *e : a)
            r.push_back(ex(e));
        return r;
    }
    template <class R> json::Array exr(R &&range) {
        json::Array r;
        for (auto *e : range)
            r.push_back(ex(cast<Expr>(e)));
        return r;
    }
    json::Value other(const Expr *e, const char *n) {
        json::Object o;
        o["k"] = "other";
        o["n"] = n;
        o["t"] = ty(e->getType());
        loc(o, e->getBeginLoc());
        json::Array kids;
        for (auto *c : e->children())
            if (auto *ce = dyn_cast_or_null<Expr>(c))
                kids.push_back(ex(ce));
        o["kids"] = std::move(kids);
        return o;
    }
    json::Value ex(const Expr *e) {
        if (!e)
            return nullptr;
        // ---- constants
        if (!e->isValueDependent() && !e->isTypeDependent() && e->isPRValue() && !isa<CallExpr>(e) &&
            (e->getType()->isIntegralOrEnumerationType())) {
            Expr::EvalResult r;
            bool simple = isa<IntegerLiteral>(e) || isa<CXXBoolLiteralExpr>(e) || isa<DeclRefExpr>(e) ||
                          isa<UnaryOperator>(e) || isa<BinaryOperator>(e) || isa<ImplicitCastExpr>(e) ||
                          isa<CXXStaticCastExpr>(e) || isa<SubstNonTypeTemplateParmExpr>(e) ||
                          isa<UnaryExprOrTypeTraitExpr>(e) || isa<CXXNoexceptExpr>(e) || isa<TypeTraitExpr>(e) ||
                          isa<CharacterLiteral>(e);
            if (simple && e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects) && r.Val.isInt()) {
                json::Object o;
                o["k"] = "lit";
                o["v"] = (int64_t)r.Val.getInt().getExtValue();
                auto t = e->getType();
                if (auto *et = t->getAs<EnumType>())
                    enu(et->getDecl());
                o["t"] = ty(t);
                return o;
            }
        }
        json::Object o;
        auto K = [&](const char *k) { o["k"] = k; };
        loc(o, e->getExprLoc());
        switch (e->getStmtClass()) {
        case Stmt::ParenExprClass:
            return ex(cast<ParenExpr>(e)->getSubExpr());
        case Stmt::ExprWithCleanupsClass:
            return ex(cast<ExprWithCleanups>(e)->getSubExpr());
        case Stmt::ConstantExprClass:
            return ex(cast<ConstantExpr>(e)->getSubExpr());
        case Stmt::CXXBindTemporaryExprClass:
            return ex(cast<CXXBindTemporaryExpr>(e)->getSubExpr());
        case Stmt::SubstNonTypeTemplateParmExprClass:
            return ex(cast<SubstNonTypeTemplateParmExpr>(e)->getReplacement());
        case Stmt::CXXDefaultArgExprClass:
            return ex(cast<CXXDefaultArgExpr>(e)->getExpr());
        case Stmt::CXXDefaultInitExprClass:
            return ex(cast<CXXDefaultInitExpr>(e)->getExpr());
        case Stmt::CXXStdInitializerListExprClass:
            return ex(cast<CXXStdInitializerListExpr>(e)->getSubExpr());
        case Stmt::OpaqueValueExprClass:
            return ex(cast<OpaqueValueExpr>(e)->getSourceExpr());
        case Stmt::MaterializeTemporaryExprClass:
            K("tmp");
            o["t"] = ty(e->getType());
            o["e"] = ex(cast<MaterializeTemporaryExpr>(e)->getSubExpr());
            return o;
        case Stmt::ImplicitCastExprClass: {
            auto *ce = cast<ImplicitCastExpr>(e);
            switch (ce->getCastKind()) {
            case CK_LValueToRValue:
                K("rd");
                o["e"] = ex(ce->getSubExpr());
                return o;
            case CK_NullToPointer:
            case CK_NullToMemberPointer:
                K("lit");
                o["v"] = 0;
                o["t"] = ty(e->getType());
                return o;
            case CK_IntegralCast:
            case CK_IntegralToFloating:
            default:
                return ex(ce->getSubExpr());
            }
        }
        case Stmt::CXXStaticCastExprClass:
        case Stmt::CXXReinterpretCastExprClass:
        case Stmt::CXXConstCastExprClass:
        case Stmt::CStyleCastExprClass:
        case Stmt::CXXFunctionalCastExprClass:
        case Stmt::CXXDynamicCastExprClass: {
            auto *ce = cast<ExplicitCastExpr>(e);
            K("cast");
            o["ck"] = e->getStmtClassName();
            o["kind"] = ce->getCastKindName();
            o["t"] = ty(ce->getTypeAsWritten());
            o["e"] = ex(ce->getSubExpr());
            return o;
        }
        case Stmt::IntegerLiteralClass:
            K("lit");
            o["v"] = (int64_t)cast<IntegerLiteral>(e)->getValue().getLimitedValue();
            return o;
        case Stmt::CXXBoolLiteralExprClass:
            K("lit");
            o["v"] = cast<CXXBoolLiteralExpr>(e)->getValue() ? 1 : 0;
            return o;
        case Stmt::CXXNullPtrLiteralExprClass:
        case Stmt::GNUNullExprClass:
            K("lit");
            o["v"] = 0;
            return o;
        case Stmt::FloatingLiteralClass:
            K("flt");
            o["v"] = cast<FloatingLiteral>(e)->getValueAsApproximateDouble();
            return o;
        case Stmt::StringLiteralClass:
            K("str");
            if (cast<StringLiteral>(e)->isOrdinary() || cast<StringLiteral>(e)->isUTF8())
                o["v"] = json::fixUTF8(cast<StringLiteral>(e)->getString());
            else
                o["v"] = "?";
            return o;
        case Stmt::CXXThisExprClass:
            K("this");
            return o;
        case Stmt::DeclRefExprClass: {
            auto *d = cast<DeclRefExpr>(e)->getDecl();
            K("ref");
            o["n"] = d->getNameAsString();
            if (auto *f = dyn_cast<FunctionDecl>(d)) {
                o["dk"] = "fn";
                o["d"] = fn(f);
            } else if (auto *ec = dyn_cast<EnumConstantDecl>(d)) {
                o["k"] = "lit";
                o["v"] = (int64_t)ec->getInitVal().getExtValue();
                enu(cast<EnumDecl>(ec->getDeclContext()));
                o["t"] = ty(e->getType());
            } else if (auto *v = dyn_cast<VarDecl>(d)) {
                o["dk"] = "var";
                o["d"] = id(v);
                o["ref"] = v->getType()->isReferenceType();
                if (v->hasGlobalStorage() && !v->isStaticLocal()) {
                    o["dk"] = "glob";
                    o["n"] = qname(v);
                    var(v);
                }
                o["t"] = ty(v->getType());
            } else if (auto *b = dyn_cast<BindingDecl>(d)) {
                o["dk"] = "bind";
                o["d"] = id(b);
                o["t"] = ty(b->getType());
            } else {
                o["dk"] = "other";
                o["d"] = id(d);
            }
            return o;
        }
        case Stmt::MemberExprClass: {
            auto *me = cast<MemberExpr>(e);
            auto *d = me->getMemberDecl();
            if (auto *v = dyn_cast<VarDecl>(d)) { // static member
                K("ref");
                o["dk"] = "glob";
                o["d"] = id(v);
                o["n"] = qname(v);
                o["t"] = ty(v->getType());
                var(v);
                return o;
            }
            if (isa<EnumConstantDecl>(d)) {
                K("lit");
                o["v"] = (int64_t)cast<EnumConstantDecl>(d)->getInitVal().getExtValue();
                return o;
            }
            K("mem");
            o["n"] = d->getNameAsString();
            o["t"] = ty(d->getType());
            o["arrow"] = me->isArrow();
            if (auto *fd = dyn_cast<FieldDecl>(d)) {
                o["cls"] = recName(fd->getParent());
                o["ref"] = fd->getType()->isReferenceType();
                if (auto *cr = dyn_cast<CXXRecordDecl>(fd->getParent()))
                    rec(cr);
            }
            if (auto *f = dyn_cast<FunctionDecl>(d))
                o["fn"] = fn(f);
            o["b"] = ex(me->getBase());
            return o;
        }
        case Stmt::CXXOperatorCallExprClass: {
            auto *oc = cast<CXXOperatorCallExpr>(e);
            K("call");
            o["op"] = getOperatorSpelling(oc->getOperator());
            o["t"] = ty(e->getType());
            o["vk"] = e->isPRValue() ? "R" : "L";
            auto *f = oc->getDirectCallee();
            if (f) {
                o["f"] = fn(f);
                if (auto *m = dyn_cast<CXXMethodDecl>(f); m && !m->isStatic()) {
                    o["obj"] = ex(oc->getArg(0));
                    json::Array a;
                    for (unsigned i = 1; i < oc->getNumArgs(); ++i)
                        a.push_back(ex(oc->getArg(i)));
                    o["args"] = std::move(a);
                    return o;
                }
            } else
                o["callee"] = ex(oc->getCallee());
            o["args"] = exr(oc->arguments());
            return o;
        }
        case Stmt::CXXMemberCallExprClass: {
            auto *mc = cast<CXXMemberCallExpr>(e);
            K("call");
            o["t"] = ty(e->getType());
            o["vk"] = e->isPRValue() ? "R" : "L";
            if (auto *md = mc->getMethodDecl()) {
                o["f"] = fn(md);
                auto *callee = mc->getCallee()->IgnoreParens();
                auto *me = dyn_cast<MemberExpr>(callee);
                bool qual = me && me->hasQualifier();
                bool virt = md->isVirtual() && !qual;
                if (virt && me) {
                    if (auto *dm = md->getDevirtualizedMethod(me->getBase(), false)) {
                        o["f"] = fn(dm);
                        virt = false;
                    }
                }
                o["virt"] = virt;
                if (me) {
                    o["arrow"] = me->isArrow();
                    o["obj"] = ex(me->getBase());
                    o["objt"] = ty(me->getBase()->getType());
                } else
                    o["obj"] = ex(mc->getImplicitObjectArgument());
            } else { // pointer to member
                o["callee"] = ex(mc->getCallee());
            }
            o["args"] = exr(mc->arguments());
            return o;
        }
        case Stmt::UserDefinedLiteralClass:
        case Stmt::CallExprClass: {
            auto *ce = cast<CallExpr>(e);
            K("call");
            o["t"] = ty(e->getType());
            o["vk"] = e->isPRValue() ? "R" : "L";
            if (auto *f = ce->getDirectCallee())
                o["f"] = fn(f);
            else
                o["callee"] = ex(ce->getCallee());
            o["args"] = exr(ce->arguments());
            return o;
        }
        case Stmt::CXXTemporaryObjectExprClass:
        case Stmt::CXXConstructExprClass: {
            auto *ce = cast<CXXConstructExpr>(e);
            K("ctor");
            o["t"] = ty(e->getType());
            auto *cd = ce->getConstructor();
            o["f"] = fn(cd);
            o["cm"] = cd->isCopyOrMoveConstructor();
            rec(cd->getParent());
            o["args"] = exr(ce->arguments());
            return o;
        }
        case Stmt::CXXInheritedCtorInitExprClass: {
            auto *ce = cast<CXXInheritedCtorInitExpr>(e);
            K("ctor");
            o["t"] = ty(e->getType());
            o["f"] = fn(ce->getConstructor());
            o["inherited"] = true;
            o["args"] = json::Array{};
            return o;
        }
        case Stmt::CXXNewExprClass: {
            auto *n = cast<CXXNewExpr>(e);
            K("new");
            o["t"] = ty(n->getAllocatedType());
            o["init"] = n->getInitializer() ? ex(n->getInitializer()) : json::Value(nullptr);
            if (n->getConstructExpr() && !n->getInitializer())
                o["init"] = ex(n->getConstructExpr());
            return o;
        }
        case Stmt::CXXDeleteExprClass:
            K("del");
            o["e"] = ex(cast<CXXDeleteExpr>(e)->getArgument());
            return o;
        case Stmt::UnaryOperatorClass: {
            auto *u = cast<UnaryOperator>(e);
            K("un");
            auto op = UnaryOperator::getOpcodeStr(u->getOpcode()).str();
            if (u->isPostfix())
                op = "p" + op;
            o["op"] = op;
            o["e"] = ex(u->getSubExpr());
            return o;
        }
        case Stmt::CompoundAssignOperatorClass:
        case Stmt::BinaryOperatorClass: {
            auto *b = cast<BinaryOperator>(e);
            K("bin");
            o["op"] = b->getOpcodeStr().str();
            o["t"] = ty(e->getType());
            o["a"] = ex(b->getLHS());
            o["b"] = ex(b->getRHS());
            return o;
        }
        case Stmt::CXXRewrittenBinaryOperatorClass:
            return ex(cast<CXXRewrittenBinaryOperator>(e)->getSemanticForm());
        case Stmt::ConditionalOperatorClass: {
            auto *c = cast<ConditionalOperator>(e);
            K("cond");
            o["q"] = ex(c->getCond());
            o["a"] = ex(c->getTrueExpr());
            o["b"] = ex(c->getFalseExpr());
            o["t"] = ty(e->getType());
            o["vk"] = e->isPRValue() ? "R" : "L";
            return o;
        }
        case Stmt::ArraySubscriptExprClass:
            K("idx");
            o["a"] = ex(cast<ArraySubscriptExpr>(e)->getBase());
            o["b"] = ex(cast<ArraySubscriptExpr>(e)->getIdx());
            return o;
        case Stmt::LambdaExprClass: {
            auto *l = cast<LambdaExpr>(e);
            K("lam");
            auto *r = l->getLambdaClass();
            o["cls"] = recName(r);
            rec(r);
            json::Array ops;
            if (l->isGenericLambda()) {
                if (auto *ft = r->getDependentLambdaCallOperator())
                    for (auto *s : ft->specializations())
                        ops.push_back(fn(s));
            } else
                ops.push_back(fn(l->getCallOperator()));
            o["ops"] = std::move(ops);
            json::Array cs;
            auto ii = l->capture_init_begin();
            for (auto &c : l->captures()) {
                json::Object co;
                if (c.capturesThis())
                    co["this"] = true;
                else if (c.capturesVariable()) {
                    auto *v = c.getCapturedVar();
                    co["d"] = id(v);
                    co["n"] = v->getNameAsString();
                    co["byref"] = c.getCaptureKind() == LCK_ByRef;
                    auto *vd = dyn_cast<VarDecl>(v);
                    co["initcap"] = vd && vd->isInitCapture();
                    if (vd && vd->isInitCapture())
                        co["init"] = ex(vd->getInit());
                    else if (c.getCaptureKind() != LCK_ByRef)
                        co["init"] = ex(*ii);
                    co["t"] = ty(v->getType());
                    co["ref"] = v->getType()->isReferenceType();
                }
                ++ii;
                cs.push_back(std::move(co));
            }
            o["caps"] = std::move(cs);
            return o;
        }
        case Stmt::InitListExprClass: {
            auto *il = cast<InitListExpr>(e);
            if (auto *s = il->getSemanticForm())
                il = s;
            K("init");
            o["t"] = ty(e->getType());
            if (auto *rt = e->getType()->getAsCXXRecordDecl(); rt && (rt = rt->getDefinition())) {
                rec(rt);
                json::Array fs;
                for (auto *f : rt->fields())
                    fs.push_back(f->getNameAsString());
                o["fields"] = std::move(fs);
                o["nb"] = (int64_t)rt->getNumBases();
            }
            o["args"] = exr(il->inits());
            return o;
        }
        case Stmt::ImplicitValueInitExprClass:
        case Stmt::CXXScalarValueInitExprClass:
            K("lit");
            o["v"] = 0;
            o["t"] = ty(e->getType());
            return o;
        case Stmt::CXXThrowExprClass:
            K("throw");
            o["t"] = cast<CXXThrowExpr>(e)->getSubExpr() ? ty(cast<CXXThrowExpr>(e)->getSubExpr()->getType()) : "";
            o["e"] = ex(cast<CXXThrowExpr>(e)->getSubExpr());
            return o;
        case Stmt::CXXTypeidExprClass: {
            auto *t = cast<CXXTypeidExpr>(e);
            K("typeid");
            if (t->isTypeOperand())
                o["t"] = ty(t->getTypeOperand(C));
            else
                o["t"] = "expr:" + ty(t->getExprOperand()->getType());
            return o;
        }
        case Stmt::PredefinedExprClass:
            K("str");
            o["v"] = "__func__";
            return o;
        case Stmt::PseudoObjectExprClass:
            return other(e, "pseudo");
        case Stmt::StmtExprClass:
            return other(e, "stmtexpr");
        default:
            return other(e, e->getStmtClassName());
        }
    }
    // ------------------------------------------------------------------ statements
    json::Value vd(const VarDecl *v) {
        json::Object o;
        o["id"] = id(v);
        o["n"] = v->getNameAsString();
        o["t"] = ty(v->getType());
        o["ref"] = v->getType()->isReferenceType();
        o["static"] = v->isStaticLocal();
        loc(o, v->getLocation());
        if (auto *r = v->getType()->getAsCXXRecordDecl()) {
            rec(r);
            if (r->hasDefinition() && !r->hasTrivialDestructor())
                o["dt"] = true;
        }
        if (v->getInit())
            o["init"] = ex(v->getInit());
        if (auto *dd = dyn_cast<DecompositionDecl>(v)) {
            json::Array bs;
            int i = 0;
            for (auto *b : dd->bindings()) {
                json::Object bo;
                bo["id"] = id(b);
                bo["i"] = i++;
                if (auto *be = b->getBinding())
                    if (auto *me = dyn_cast<MemberExpr>(be->IgnoreParenImpCasts()))
                        bo["fld"] = me->getMemberDecl()->getNameAsString();
                bs.push_back(std::move(bo));
            }
            o["binds"] = std::move(bs);
        }
        return o;
    }
    json::Value st(const Stmt *s) {
        if (!s)
            return nullptr;
        json::Object o;
        loc(o, s->getBeginLoc());
        auto K = [&](const char *k) { o["k"] = k; };
        if (auto *e = dyn_cast<Expr>(s)) {
            K("expr");
            o["e"] = ex(e);
            return o;
        }
        switch (s->getStmtClass()) {
        case Stmt::CompoundStmtClass: {
            K("blk");
            json::Array a;
            for (auto *c : cast<CompoundStmt>(s)->body())
                a.push_back(st(c));
            o["s"] = std::move(a);
            auto le = cast<CompoundStmt>(s)->getRBracLoc();
            o["le"] = (int64_t)SM.getExpansionLineNumber(le);
            return o;
        }
        case Stmt::DeclStmtClass: {
            K("decl");
            json::Array a;
            for (auto *d : cast<DeclStmt>(s)->decls())
                if (auto *v = dyn_cast<VarDecl>(d))
                    a.push_back(vd(v));
            o["v"] = std::move(a);
            return o;
        }
        case Stmt::IfStmtClass: {
            auto *i = cast<IfStmt>(s);
            K("if");
            o["init"] = st(i->getInit());
            if (auto *v = i->getConditionVariable())
                o["cv"] = vd(v);
            o["q"] = ex(i->getCond());
            o["a"] = st(i->getThen());
            o["b"] = st(i->getElse());
            if (i->isConstexpr())
                o["constexpr"] = true;
            return o;
        }
        case Stmt::WhileStmtClass: {
            auto *w = cast<WhileStmt>(s);
            K("while");
            if (auto *v = w->getConditionVariable())
                o["cv"] = vd(v);
            o["q"] = ex(w->getCond());
            o["s"] = st(w->getBody());
            return o;
        }
        case Stmt::DoStmtClass:
            K("do");
            o["q"] = ex(cast<DoStmt>(s)->getCond());
            o["s"] = st(cast<DoStmt>(s)->getBody());
            return o;
        case Stmt::ForStmtClass: {
            auto *f = cast<ForStmt>(s);
            K("for");
            o["init"] = st(f->getInit());
            if (auto *v = f->getConditionVariable())
                o["cv"] = vd(v);
            o["q"] = f->getCond() ? ex(f->getCond()) : json::Value(nullptr);
            o["inc"] = f->getInc() ? ex(f->getInc()) : json::Value(nullptr);
            o["s"] = st(f->getBody());
            return o;
        }
        case Stmt::CXXForRangeStmtClass: {
            auto *f = cast<CXXForRangeStmt>(s);
            K("range");
            o["r"] = ex(f->getRangeInit());
            o["v"] = vd(f->getLoopVariable());
            o["s"] = st(f->getBody());
            return o;
        }
        case Stmt::SwitchStmtClass: {
            auto *w = cast<SwitchStmt>(s);
            K("switch");
            o["init"] = st(w->getInit());
            if (auto *v = w->getConditionVariable())
                o["cv"] = vd(v);
            o["q"] = ex(w->getCond());
            o["s"] = st(w->getBody());
            return o;
        }
        case Stmt::CaseStmtClass: {
            auto *c = cast<CaseStmt>(s);
            K("case");
            o["v"] = ex(c->getLHS());
            if (c->getRHS())
                o["v2"] = ex(c->getRHS());
            o["s"] = st(c->getSubStmt());
            return o;
        }
        case Stmt::DefaultStmtClass:
            K("default");
            o["s"] = st(cast<DefaultStmt>(s)->getSubStmt());
            return o;
        case Stmt::ReturnStmtClass:
            K("ret");
            o["e"] = ex(cast<ReturnStmt>(s)->getRetValue());
            return o;
        case Stmt::BreakStmtClass:
            K("brk");
            return o;
        case Stmt::ContinueStmtClass:
            K("cnt");
            return o;
        case Stmt::NullStmtClass:
            K("nop");
            return o;
        case Stmt::GotoStmtClass:
            K("goto");
            o["n"] = cast<GotoStmt>(s)->getLabel()->getNameAsString();
            return o;
        case Stmt::LabelStmtClass:
            K("label");
            o["n"] = cast<LabelStmt>(s)->getDecl()->getNameAsString();
            o["s"] = st(cast<LabelStmt>(s)->getSubStmt());
            return o;
        case Stmt::AttributedStmtClass:
            return st(cast<AttributedStmt>(s)->getSubStmt());
        case Stmt::CXXTryStmtClass: {
            auto *t = cast<CXXTryStmt>(s);
            K("try");
            o["s"] = st(t->getTryBlock());
            json::Array hs;
            for (unsigned i = 0; i < t->getNumHandlers(); ++i) {
                auto *h = t->getHandler(i);
                json::Object ho;
                ho["t"] = h->getExceptionDecl() ? ty(h->getExceptionDecl()->getType()) : "...";
                ho["s"] = st(h->getHandlerBlock());
                hs.push_back(std::move(ho));
            }
            o["h"] = std::move(hs);
            return o;
        }
        default:
            K("other");
            o["n"] = s->getStmtClassName();
            return o;
        }
    }
    void run() {
        while (!work.empty()) {
            auto *f = work.front();
            work.pop_front();
            dumpFunction(f);
        }
    }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
    Extractor &X;
    explicit Visitor(Extractor &x) : X(x) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool VisitFunctionDecl(FunctionDecl *f) {
        if (f->isDependentContext() || !f->isThisDeclarationADefinition())
            return true;
        if (X.inAll(f->getLocation()))
            X.fn(f);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *r) {
        if (r->isThisDeclarationADefinition() && !r->isDependentContext() && X.inRoots(r->getLocation()))
            X.rec(r);
        return true;
    }
    bool VisitEnumDecl(EnumDecl *e) {
        if (!e->isDependentContext() && X.inRoots(e->getLocation()))
            X.enu(e);
        return true;
    }
    bool VisitVarDecl(VarDecl *v) {
        if (!v->isTemplated() && v->hasGlobalStorage() && !v->isStaticLocal() && X.inAll(v->getLocation()))
            X.var(v);
        return true;
    }
};

struct Consumer : ASTConsumer {
    void HandleTranslationUnit(ASTContext &c) override {
        if (c.getDiagnostics().hasErrorOccurred())
            return;
        Extractor x(c);
        Visitor v(x);
        v.TraverseDecl(c.getTranslationUnitDecl());
        x.run();
        json::Object o;
        o["functions"] = std::move(x.functions);
        o["records"] = std::move(x.records);
        o["enums"] = std::move(x.enums);
        o["vars"] = std::move(x.vars);
        std::error_code ec;
        llvm::raw_fd_ostream os(OutFile, ec);
        os << json::Value(std::move(o));
    }
};
struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
        return std::make_unique<Consumer>();
    }
};
} // namespace

static std::vector<std::string> split(const std::string &s) {
    std::vector<std::string> r;
    size_t p = 0;
    while (p <= s.size()) {
        auto q = s.find(':', p);
        if (q == std::string::npos)
            q = s.size();
        if (q > p)
            r.push_back(s.substr(p, q - p));
        p = q + 1;
    }
    return r;
}

int main(int argc, char **argv) {
    // OUT ROOTS ALLROOTS file args...
    if (argc < 5)
        return 2;
    OutFile = argv[1];
    Roots = split(argv[2]);
    AllRoots = split(argv[3]);
    std::string file = argv[4];
    std::vector<std::string> args{"clang-tool"};
    for (int i = 5; i < argc; ++i)
        args.push_back(argv[i]);
    args.push_back("-fsyntax-only");
    args.push_back(file);
    llvm::IntrusiveRefCntPtr<FileManager> fm(new FileManager(FileSystemOptions()));
    tooling::ToolInvocation inv(args, std::make_unique<Action>(), fm.get());
    return inv.run() ? 0 : 1;
}
