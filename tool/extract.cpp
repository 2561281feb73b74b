// ctx-extract: dumps the resolved, instantiated AST of every function defined under the given roots as compact JSON.
// It makes no judgement; all rules live in /verif/checks/*.py.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/AST/Mangle.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;
using namespace llvm;

static cl::OptionCategory Cat("ctx-extract");
static cl::list<std::string> Roots("root", cl::desc("source root prefix"), cl::cat(Cat));
static cl::list<std::string> Maps("map", cl::desc("file=replacement"), cl::cat(Cat));
static cl::opt<std::string> Out("o", cl::desc("output"), cl::cat(Cat));

namespace {

std::string q(StringRef s)
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
        {
            o += '\\';
            o += c;
        }
        else if (c < 0x20 || c >= 0x7f)
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        }
        else
            o += c;
    }
    return o + "\"";
}

struct Dumper
{
    ASTContext& C;
    SourceManager& SM;
    PrintingPolicy PP;
    raw_ostream& OS;
    
    std::vector<std::string> typeDescs;
    std::map<std::string, int> fileIds;
    std::vector<std::string> files;
    std::map<const Decl*, int> declIds;
    std::set<const FunctionDecl*> doneFns;
    std::set<const CXXRecordDecl*> doneRecs;
    std::vector<const FunctionDecl*> fnQueue;
    std::map<const FunctionDecl*, std::string> keyCache;
    bool firstFn = true, firstRec = true;
    std::string recOut;

    Dumper(ASTContext& c, raw_ostream& os) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()), OS(os)
    {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
        PP.Bool = true;
        PP.SuppressDefaultTemplateArgs = true;
        PP.TerseOutput = true;
        PP.AnonymousTagLocations = false;
    }

    int did(const Decl* d)
    {
        d = d->getCanonicalDecl();
        auto it = declIds.find(d);
        if (it != declIds.end())
            return it->second;
        int n = declIds.size() + 1;
        declIds[d] = n;
        return n;
    }
    std::string fileOf(SourceLocation l)
    {
        l = SM.getExpansionLoc(l);
        auto p = SM.getPresumedLoc(l, false);
        if (p.isInvalid())
            return "";
        return p.getFilename();
    }
    bool inRoots(SourceLocation l)
    {
        std::string f = fileOf(l);
        for (auto& r : Roots)
            if (StringRef(f).starts_with(r))
                return true;
        return false;
    }
    std::string loc(SourceLocation l)
    {
        l = SM.getExpansionLoc(l);
        auto p = SM.getPresumedLoc(l, false);
        if (p.isInvalid())
            return "[-1,0]";
        std::string f = p.getFilename();
        auto it = fileIds.find(f);
        int id;
        if (it == fileIds.end())
        {
            id = files.size();
            files.push_back(f);
            fileIds[f] = id;
        }
        else
            id = it->second;
        return "[" + std::to_string(id) + "," + std::to_string(p.getLine()) + "]";
    }
    std::string tstr(QualType t) { return t.getCanonicalType().getAsString(PP); }

    std::string tmplArgs(const CXXRecordDecl* r)
    {
        auto* s = dyn_cast<ClassTemplateSpecializationDecl>(r);
        if (!s)
            return "[]";
        std::string o = "[";
        bool first = true;
        for (auto& a : s->getTemplateArgs().asArray())
        {
            if (!first)
                o += ",";
            first = false;
            if (a.getKind() == TemplateArgument::Integral)
                o += toString(a.getAsIntegral(), 10);
            else if (a.getKind() == TemplateArgument::Type)
                o += std::to_string(tid(a.getAsType()));
            else if (a.getKind() == TemplateArgument::Pack)
                o += "null";
            else
                o += "null";
        }
        return o + "]";
    }

    // Eigen: find PlainObjectBase<Matrix<S,r,c,...>> / Array base
    bool eigenDims(const CXXRecordDecl* r, std::string& out, int depth = 0)
    {
        if (!r || depth > 6)
            return false;
        r = r->getDefinition() ? r->getDefinition() : r;
        if (auto* s = dyn_cast<ClassTemplateSpecializationDecl>(r))
        {
            std::string n = s->getQualifiedNameAsString();
            if (n == "Eigen::Matrix" || n == "Eigen::Array")
            {
                auto& a = s->getTemplateArgs();
                int rr = (int)a[1].getAsIntegral().getSExtValue(), cc = (int)a[2].getAsIntegral().getSExtValue();
                out = "[" + std::to_string(rr) + "," + std::to_string(cc) + "," + (n == "Eigen::Array" ? "1" : "0") +
                      "," + std::to_string(tid(a[0].getAsType())) + "]";
                return true;
            }
        }
        if (!r->hasDefinition())
            return false;
        for (auto& b : r->bases())
            if (eigenDims(b.getType()->getAsCXXRecordDecl(), out, depth + 1))
                return true;
        return false;
    }

    int tid(QualType qt)
    {
        qt = qt.getCanonicalType();
        bool isConst = qt.isConstQualified();
        const void* key = qt.getAsOpaquePtr();
        static std::map<const void*, int> ids;
        auto it = ids.find(key);
        if (it != ids.end())
            return it->second;
        int id = typeDescs.size();
        ids[key] = id;
        typeDescs.push_back("");
        QualType u = qt.getUnqualifiedType();
        std::string d = "{\"s\":" + q(tstr(u));
        if (isConst)
            d += ",\"const\":1";
        const clang::Type* t = u.getTypePtr();
        if (t->isReferenceType())
        {
            int p = tid(t->getPointeeType());
            d += ",\"k\":\"ref\",\"to\":" + std::to_string(p);
            if (t->isRValueReferenceType())
                d += ",\"rv\":1";
        }
        else if (t->isPointerType())
        {
            int p = tid(t->getPointeeType());
            d += ",\"k\":\"ptr\",\"to\":" + std::to_string(p);
        }
        else if (t->isBooleanType())
            d += ",\"k\":\"bool\"";
        else if (t->isEnumeralType())
        {
            d += ",\"k\":\"enum\"";
            auto* e = t->castAs<clang::EnumType>()->getDecl();
            if (e->getDefinition())
                e = e->getDefinition();
            d += ",\"name\":" + q(e->getQualifiedNameAsString()) + ",\"vals\":{";
            bool f = true;
            for (auto* c : e->enumerators())
            {
                if (!f)
                    d += ",";
                f = false;
                d += q(c->getName()) + ":" + toString(c->getInitVal(), 10);
            }
            d += "}";
        }
        else if (t->isIntegerType())
            d += std::string(",\"k\":\"int\"") + (t->isUnsignedIntegerType() ? ",\"u\":1" : "");
        else if (t->isRealFloatingType())
            d += ",\"k\":\"flt\"";
        else if (t->isVoidType())
            d += ",\"k\":\"void\"";
        else if (auto* r = t->getAsCXXRecordDecl())
        {
            d += ",\"k\":\"rec\",\"name\":" + q(r->getQualifiedNameAsString());
            d += ",\"key\":" + q(tstr(u));
            if (r->isLambda())
                d += ",\"lambda\":1";
            std::string ed;
            if (eigenDims(r, ed))
                d += ",\"eig\":" + ed;
            d += ",\"targs\":" + tmplArgs(r);
            if (r->hasDefinition() && inRoots(r->getLocation()))
                d += ",\"own\":1";
            if (r->hasDefinition() && r->isPolymorphic())
                d += ",\"poly\":1";
        }
        else if (auto* a = C.getAsConstantArrayType(u))
            d += ",\"k\":\"arr\",\"n\":" + toString(a->getSize(), 10, false) + ",\"to\":" +
                 std::to_string(tid(a->getElementType()));
        else
            d += ",\"k\":\"other\"";
        d += "}";
        typeDescs[id] = d;
        return id;
    }

    std::string fnKey(const FunctionDecl* f)
    {
        f = f->getCanonicalDecl();
        auto it = keyCache.find(f);
        if (it != keyCache.end())
            return it->second;
        std::string s;
        raw_string_ostream o(s);
        if (auto* m = dyn_cast<CXXMethodDecl>(f))
        {
            if (m->getParent()->isLambda())
                o << "<lambda " << loc(m->getParent()->getLocation()) << ":" << did(m->getParent()) << ">";
            else
                o << tstr(C.getRecordType(m->getParent()));
            o << "::" << f->getDeclName().getAsString();
        }
        else
            f->printQualifiedName(o, PP);
        if (auto* ta = f->getTemplateSpecializationArgs())
        {
            o << "<";
            bool first = true;
            for (auto& a : ta->asArray())
            {
                if (!first)
                    o << ",";
                first = false;
                a.print(PP, o, true);
            }
            o << ">";
        }
        o << "(";
        for (unsigned i = 0; i < f->getNumParams(); ++i)
            o << (i ? "," : "") << tstr(f->getParamDecl(i)->getType());
        o << ")";
        if (auto* m = dyn_cast<CXXMethodDecl>(f))
            if (m->isConst())
                o << " const";
        o.flush();
        keyCache[f] = s;
        return s;
    }

    const Expr* strip(const Expr* e)
    {
        while (true)
        {
            if (auto* x = dyn_cast<ExprWithCleanups>(e))
                e = x->getSubExpr();
            else if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e))
                e = x->getSubExpr();
            else if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e))
                e = x->getSubExpr();
            else if (auto* x = dyn_cast<ParenExpr>(e))
                e = x->getSubExpr();
            else if (auto* x = dyn_cast<ConstantExpr>(e))
                e = x->getSubExpr();
            else if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e))
                e = x->getReplacement();
            else if (auto* x = dyn_cast<CXXDefaultArgExpr>(e))
                e = x->getExpr();
            else if (auto* x = dyn_cast<CXXDefaultInitExpr>(e))
                e = x->getExpr();
            else if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e))
                e = x->getSubExpr();
            else
                return e;
        }
    }
    std::string exprs(ArrayRef<const Expr*> v)
    {
        std::string o = "[";
        for (size_t i = 0; i < v.size(); ++i)
            o += (i ? "," : "") + ex(v[i]);
        return o + "]";
    }
    std::string ty(QualType t) { return std::to_string(tid(t)); }

    void want(const FunctionDecl* f)
    {
        if (!f)
            return;
        fnQueue.push_back(f);
    }

    // the construction that make_shared/make_unique<T>(args) performs, found in the instantiated library code
    struct NewFinder : public RecursiveASTVisitor<NewFinder>
    {
        ASTContext& ctx;
        QualType T;
        size_t n;
        const CXXConstructExpr* found = nullptr;
        std::vector<const FunctionDecl*> todo;
        std::set<const FunctionDecl*> seen;
        NewFinder(ASTContext& c, QualType t, size_t k) : ctx(c), T(t), n(k) {}
        bool shouldVisitTemplateInstantiations() const { return true; }
        bool shouldVisitImplicitCode() const { return true; }
        void add(const FunctionDecl* f)
        {
            if (!f)
                return;
            if (auto* d = f->getDefinition())
                f = d;
            if (f->hasBody() && seen.insert(f).second)
                todo.push_back(f);
        }
        bool VisitCXXNewExpr(CXXNewExpr* x)
        {
            if (!found && ctx.hasSameUnqualifiedType(x->getAllocatedType(), T))
                if (auto* c = dyn_cast_or_null<CXXConstructExpr>(x->getInitializer()))
                {
                    size_t k = 0;
                    for (auto* a : c->arguments())
                        if (!isa<CXXDefaultArgExpr>(a))
                            ++k;
                    if (k == n)
                        found = c;
                }
            return !found;
        }
        bool VisitCallExpr(CallExpr* x)
        {
            add(x->getDirectCallee());
            return true;
        }
        bool VisitCXXConstructExpr(CXXConstructExpr* x)
        {
            add(x->getConstructor());
            return true;
        }
        const CXXConstructExpr* run(const FunctionDecl* f)
        {
            add(f);
            for (size_t i = 0; i < todo.size() && i < 300 && !found; ++i)
            {
                auto* g = const_cast<FunctionDecl*>(todo[i]);
                if (auto* c = dyn_cast<CXXConstructorDecl>(g))
                    for (auto* in : c->inits())
                        if (in->getInit())
                            TraverseStmt(in->getInit());
                TraverseStmt(g->getBody());
            }
            return found;
        }
    };

    std::string makeNode(const FunctionDecl* f, ArrayRef<const Expr*> args, SourceLocation l)
    {
        auto* ii = f->getIdentifier();
        if (!ii || !(ii->isStr("make_shared") || ii->isStr("make_unique") || ii->isStr("allocate_shared")) || !f->isInStdNamespace())
            return "";
        auto* ta = f->getTemplateSpecializationArgs();
        if (!ta || !ta->size() || ta->get(0).getKind() != TemplateArgument::Type)
            return "";
        QualType T = ta->get(0).getAsType();
        auto* rd = T->getAsCXXRecordDecl();
        if (!rd || !inRoots(rd->getLocation()))
            return "";
        if (ii->isStr("allocate_shared"))
            args = args.slice(1);
        NewFinder nf(C, T, args.size());
        auto* c = nf.run(f);
        if (!c)
            return "";
        auto* d = c->getConstructor();
        std::vector<const Expr*> a(args.begin(), args.end());
        for (size_t i = a.size(); i < c->getNumArgs(); ++i)
            a.push_back(c->getArg(i));
        std::string fl = "{";
        fl += d->isCopyConstructor() ? "\"copy\":1" : d->isMoveConstructor() ? "\"move\":1" : "\"o\":0";
        if (d->isDefaultConstructor())
            fl += ",\"def\":1";
        if (inRoots(d->getLocation()))
            fl += ",\"own\":1";
        fl += ",\"cls\":" + q(d->getParent()->getQualifiedNameAsString()) + "}";
        return "[\"new\"," + ty(T) + ",[\"ctor\"," + q(fnKey(d)) + "," + exprs(a) + "," + ty(T) + "," + fl + "," + loc(l) + "]," +
               loc(l) + "]";
    }

    // ["call", key, name, obj|null, [args], type, {flags}, loc]
    std::string callNode(const FunctionDecl* f, const Expr* obj, bool arrow, ArrayRef<const Expr*> args, QualType t,
        bool nonvirt, SourceLocation l)
    {
        std::string flags = "{";
        bool virt = false;
        std::string cls;
        if (auto* m = dyn_cast_or_null<CXXMethodDecl>(f))
        {
            virt = m->isVirtual() && !nonvirt;
            cls = m->getParent()->getQualifiedNameAsString();
            flags += "\"cls\":" + q(cls) + ",\"const\":" + (m->isConst() ? "1" : "0");
            if (virt)
                flags += ",\"virt\":1";
            if (m->isStatic())
                flags += ",\"static\":1";
            if (arrow)
                flags += ",\"arrow\":1";
            if (m->getParent()->isLambda())
                flags += ",\"lam\":1";
        }
        else
            flags += "\"cls\":null";
        if (f)
        {
            std::string targs;
            if (auto* ta = f->getTemplateSpecializationArgs())
            {
                for (auto& a : ta->asArray())
                {
                    if (!targs.empty())
                        targs += ",";
                    if (a.getKind() == TemplateArgument::Integral)
                        targs += toString(a.getAsIntegral(), 10);
                    else if (a.getKind() == TemplateArgument::Type)
                        targs += "\"t" + ty(a.getAsType()) + "\"";
                    else
                        targs += "null";
                }
            }
            if (!targs.empty())
                flags += ",\"ta\":[" + targs + "]";
            if (inRoots(f->getLocation()))
            {
                flags += ",\"own\":1";
            }
            std::string pr;
            for (auto* p : f->parameters())
            {
                if (!pr.empty())
                    pr += ",";
                QualType pt = p->getType();
                // v value, c const ref/ptr, m mutable ref/ptr, r mutable ref to a smart pointer
                auto* prd = pt->isReferenceType() ? pt->getPointeeType()->getAsCXXRecordDecl() : nullptr;
                if (prd && !pt->getPointeeType().isConstQualified() && prd->isInStdNamespace() &&
                    (prd->getName() == "shared_ptr" || prd->getName() == "unique_ptr"))
                    pr += "\"r\"";
                else if (pt->isReferenceType() || pt->isPointerType())
                    pr += pt->getPointeeType().isConstQualified() ? "\"c\"" : "\"m\"";
                else
                    pr += "\"v\"";
            }
            flags += ",\"p\":[" + pr + "]";
        }
        flags += "}";
        std::string qn = f ? f->getQualifiedNameAsString() : "";
        return "[\"call\"," + q(f ? fnKey(f) : "") + "," +
               q(f ? (isa<CXXMethodDecl>(f) ? f->getDeclName().getAsString() : qn) : "") + "," +
               (obj ? ex(obj) : "null") + "," + exprs(args) + "," + ty(t) + "," + flags + "," + loc(l) + "]";
    }

    std::string ex(const Expr* e0)
    {
        const Expr* e = strip(e0);
        // constants
        if (!e->isValueDependent() && !e->isTypeDependent() && e->isPRValue() &&
            (e->getType()->isIntegralOrEnumerationType()))
        {
            Expr::EvalResult R;
            if (!isa<IntegerLiteral>(e) && e->EvaluateAsInt(R, C, Expr::SE_NoSideEffects) && !R.HasSideEffects)
            {
                std::string v = toString(R.Val.getInt(), 10);
                if (e->getType()->isBooleanType())
                    return std::string("[\"bool\",") + (R.Val.getInt().getBoolValue() ? "1" : "0") + "]";
                if (e->getType()->isEnumeralType())
                    return "[\"enum\"," + v + "," + ty(e->getType()) + "]";
                return "[\"int\"," + v + "]";
            }
        }
        if (auto* x = dyn_cast<IntegerLiteral>(e))
            return "[\"int\"," + toString(x->getValue(), 10, x->getType()->isSignedIntegerType()) + "]";
        if (auto* x = dyn_cast<FloatingLiteral>(e))
        {
            std::string s = Lexer::getSpelling(SM.getSpellingLoc(x->getLocation()), *new SmallString<32>(), SM, C.getLangOpts()).str();
            if (x->getLocation().isInvalid() || s.empty())
            {
                SmallString<32> b;
                x->getValue().toString(b);
                s = b.str().str();
            }
            return "[\"flt\"," + q(s) + "]";
        }
        if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e))
            return std::string("[\"bool\",") + (x->getValue() ? "1" : "0") + "]";
        if (auto* x = dyn_cast<clang::StringLiteral>(e))
            return "[\"str\"," + q(x->getCharByteWidth() == 1 ? x->getString() : StringRef("?")) + "]";
        if (auto* x = dyn_cast<CharacterLiteral>(e))
            return "[\"int\"," + std::to_string(x->getValue()) + "]";
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e))
            return "[\"null\"]";
        if (isa<CXXThisExpr>(e))
            return "[\"this\"," + ty(e->getType()->getPointeeType()) + "]";
        if (auto* x = dyn_cast<CastExpr>(e))
        {
            switch (x->getCastKind())
            {
                case CK_FloatingToIntegral:
                    return "[\"cast\",\"toint\"," + ty(x->getType()) + "," + ex(x->getSubExpr()) + "]";
                case CK_FloatingToBoolean:
                case CK_IntegralToBoolean:
                case CK_PointerToBoolean:
                    return "[\"cast\",\"tobool\"," + ty(x->getType()) + "," + ex(x->getSubExpr()) + "]";
                case CK_NullToPointer:
                    return "[\"null\"]";
                case CK_IntegralCast:
                    if (isa<ExplicitCastExpr>(x) || x->getType()->isBooleanType() ||
                        C.getTypeSize(x->getType()) < C.getTypeSize(x->getSubExpr()->getType()))
                        return "[\"cast\",\"icast\"," + ty(x->getType()) + "," + ex(x->getSubExpr()) + "]";
                    if (x->getType()->isUnsignedIntegerType() != x->getSubExpr()->getType()->isUnsignedIntegerOrEnumerationType())
                        return "[\"cast\",\"icast\"," + ty(x->getType()) + "," + ex(x->getSubExpr()) + "]";
                    return ex(x->getSubExpr());
                case CK_Dynamic:
                    return "[\"cast\",\"dyn\"," + ty(x->getType()) + "," + ex(x->getSubExpr()) + "]";
                case CK_BaseToDerived:
                    return "[\"cast\",\"down\"," + ty(x->getType()) + "," + ex(x->getSubExpr()) + "]";
                case CK_ToVoid:
                    return "[\"cast\",\"void\",0," + ex(x->getSubExpr()) + "]";
                default:
                    return ex(x->getSubExpr());
            }
        }
        if (auto* x = dyn_cast<DeclRefExpr>(e))
        {
            auto* d = x->getDecl();
            if (auto* f = dyn_cast<FunctionDecl>(d))
                return "[\"fn\"," + q(fnKey(f)) + "," + q(f->getQualifiedNameAsString()) + "]";
            if (auto* ec = dyn_cast<EnumConstantDecl>(d))
                return "[\"enum\"," + toString(ec->getInitVal(), 10) + "," + ty(x->getType()) + "]";
            if (auto* v = dyn_cast<VarDecl>(d))
            {
                if (v->hasGlobalStorage() && !v->isStaticLocal())
                    return "[\"gvar\"," + q(v->getQualifiedNameAsString()) + "," + ty(v->getType()) + "," +
                           loc(x->getBeginLoc()) + "]";
                std::string fl = v->isStaticLocal() ? ",1" : "";
                return "[\"var\"," + std::to_string(did(v)) + "," + q(v->getName()) + "," + ty(v->getType()) + fl + "]";
            }
            return "[\"unk\"," + q(std::string("decl:") + d->getDeclKindName()) + "]";
        }
        if (auto* x = dyn_cast<MemberExpr>(e))
        {
            if (auto* f = dyn_cast<FieldDecl>(x->getMemberDecl()))
                return "[\"mem\"," + ex(x->getBase()) + "," + q(f->getName()) + "," +
                       q(f->getParent()->getQualifiedNameAsString()) + "," + ty(f->getType()) + "," +
                       (x->isArrow() ? "1" : "0") + "," + loc(x->getMemberLoc()) + "]";
            if (auto* v = dyn_cast<VarDecl>(x->getMemberDecl()))
                return "[\"gvar\"," + q(v->getQualifiedNameAsString()) + "," + ty(v->getType()) + "," +
                       loc(x->getMemberLoc()) + "]";
            if (auto* f = dyn_cast<FunctionDecl>(x->getMemberDecl()))
                return "[\"bfn\"," + q(fnKey(f)) + "," + q(f->getDeclName().getAsString()) + "," + ex(x->getBase()) + "]";
            return "[\"unk\",\"member\"]";
        }
        if (auto* x = dyn_cast<CXXOperatorCallExpr>(e))
        {
            auto* f = x->getDirectCallee();
            std::vector<const Expr*> a(x->arg_begin(), x->arg_end());
            if (f && isa<CXXMethodDecl>(f))
            {
                const Expr* o = a[0];
                a.erase(a.begin());
                return callNode(f, o, false, a, x->getType(), false, x->getOperatorLoc());
            }
            if (!f)
                return "[\"unk\",\"opcall\"]";
            return callNode(f, nullptr, false, a, x->getType(), false, x->getOperatorLoc());
        }
        if (auto* x = dyn_cast<CXXMemberCallExpr>(e))
        {
            std::vector<const Expr*> a(x->arg_begin(), x->arg_end());
            auto* me = dyn_cast<MemberExpr>(strip(x->getCallee()));
            if (!me || !x->getMethodDecl())
                return "[\"unk\",\"memptrcall\"]";
            bool nonvirt = me->hasQualifier();
            return callNode(x->getMethodDecl(), me->getBase(), me->isArrow(), a, x->getType(), nonvirt, me->getMemberLoc());
        }
        if (auto* x = dyn_cast<CallExpr>(e))
        {
            std::vector<const Expr*> a(x->arg_begin(), x->arg_end());
            auto* f = x->getDirectCallee();
            if (!f)
                return "[\"icall\"," + ex(x->getCallee()) + "," + exprs(a) + "," + ty(x->getType()) + "," +
                       loc(x->getBeginLoc()) + "]";
            std::string mk = makeNode(f, a, x->getBeginLoc());
            if (!mk.empty())
                return mk;
            return callNode(f, nullptr, false, a, x->getType(), false, x->getBeginLoc());
        }
        if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e))
            return "[\"unk\",\"inhctor\"]";
        if (auto* x = dyn_cast<CXXConstructExpr>(e))
        {
            auto* c = x->getConstructor();
            std::vector<const Expr*> a(x->arg_begin(), x->arg_end());
            std::string fl = "{";
            fl += c->isCopyConstructor() ? "\"copy\":1" : c->isMoveConstructor() ? "\"move\":1" : "\"o\":0";
            if (c->isDefaultConstructor())
                fl += ",\"def\":1";
            if (x->isElidable())
                fl += ",\"elide\":1";
            if (x->isListInitialization())
                fl += ",\"list\":1";
            if (inRoots(c->getLocation()))
                fl += ",\"own\":1";
            fl += ",\"cls\":" + q(c->getParent()->getQualifiedNameAsString());
            fl += "}";
            return "[\"ctor\"," + q(fnKey(c)) + "," + exprs(a) + "," + ty(x->getType()) + "," + fl + "," +
                   loc(x->getBeginLoc()) + "]";
        }
        if (auto* x = dyn_cast<UnaryOperator>(e))
            return "[\"un\"," + q(std::string(UnaryOperator::getOpcodeStr(x->getOpcode())) + (x->isPostfix() ? "p" : "")) +
                   "," + ex(x->getSubExpr()) + "," + ty(x->getType()) + "," + loc(x->getOperatorLoc()) + "]";
        if (auto* x = dyn_cast<BinaryOperator>(e))
        {
            const char* tag = x->isAssignmentOp() ? "asg" : "bin";
            return std::string("[\"") + tag + "\"," + q(BinaryOperator::getOpcodeStr(x->getOpcode())) + "," +
                   ex(x->getLHS()) + "," + ex(x->getRHS()) + "," + ty(x->getType()) + "," + loc(x->getOperatorLoc()) + "]";
        }
        if (auto* x = dyn_cast<ConditionalOperator>(e))
            return "[\"cond\"," + ex(x->getCond()) + "," + ex(x->getTrueExpr()) + "," + ex(x->getFalseExpr()) + "," +
                   ty(x->getType()) + "]";
        if (auto* x = dyn_cast<ArraySubscriptExpr>(e))
            return "[\"idx\"," + ex(x->getBase()) + "," + ex(x->getIdx()) + "," + ty(x->getType()) + "," +
                   loc(x->getBeginLoc()) + "]";
        if (auto* x = dyn_cast<InitListExpr>(e))
        {
            if (x->isSemanticForm() || !x->getSemanticForm())
                ;
            else
                x = x->getSemanticForm();
            std::vector<const Expr*> a(x->inits().begin(), x->inits().end());
            return "[\"init\"," + exprs(a) + "," + ty(x->getType()) + "]";
        }
        if (auto* x = dyn_cast<CXXNewExpr>(e))
            return "[\"new\"," + ty(x->getAllocatedType()) + "," + (x->getInitializer() ? ex(x->getInitializer()) : "null") +
                   "," + loc(x->getBeginLoc()) + (x->isArray() ? ",1" : "") + "]";
        if (auto* x = dyn_cast<CXXDeleteExpr>(e))
            return "[\"delete\"," + ex(x->getArgument()) + "," + loc(x->getBeginLoc()) + "]";
        if (auto* x = dyn_cast<CXXThrowExpr>(e))
            return "[\"throw\"," + (x->getSubExpr() ? ex(x->getSubExpr()) : std::string("null")) + "," +
                   loc(x->getBeginLoc()) + "]";
        if (auto* x = dyn_cast<LambdaExpr>(e))
        {
            std::string caps = "[";
            bool f = true;
            for (auto& c : x->captures())
            {
                if (!f)
                    caps += ",";
                f = false;
                if (c.capturesThis())
                    caps += "[\"this\"]";
                else if (c.capturesVariable())
                    caps += std::string("[\"") + (c.getCaptureKind() == LCK_ByRef ? "ref" : "val") + "\"," +
                            std::to_string(did(c.getCapturedVar())) + "," + q(c.getCapturedVar()->getName()) + "]";
                else
                    caps += "[\"other\"]";
            }
            caps += "]";
            auto* m = x->getCallOperator();
            want(m);
            return "[\"lambda\"," + q(fnKey(m)) + "," + caps + "," + fnObj(m) + "," + loc(x->getBeginLoc()) + "]";
        }
        if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e))
            return "[\"zero\"," + ty(e->getType()) + "]";
        if (auto* x = dyn_cast<CXXPseudoDestructorExpr>(e))
            return "[\"unk\",\"pdtor\"]";
        if (auto* x = dyn_cast<ArrayInitLoopExpr>(e))
            return ex(x->getCommonExpr());
        if (auto* x = dyn_cast<OpaqueValueExpr>(e))
            return x->getSourceExpr() ? ex(x->getSourceExpr()) : std::string("[\"unk\",\"opaque\"]");
        if (auto* x = dyn_cast<CXXDependentScopeMemberExpr>(e))
            return "[\"unk\",\"dep\"]";
        return "[\"unk\"," + q(e->getStmtClassName()) + "]";
    }

    std::string var(const VarDecl* v)
    {
        std::string o = "[" + std::to_string(did(v)) + "," + q(v->getName()) + "," + ty(v->getType()) + ",";
        o += v->getInit() ? ex(v->getInit()) : "null";
        o += "," + loc(v->getLocation());
        if (v->isStaticLocal())
            o += ",1";
        return o + "]";
    }

    std::string st(const Stmt* s)
    {
        if (!s)
            return "null";
        if (auto* x = dyn_cast<CompoundStmt>(s))
        {
            std::string o = "[\"{\",[";
            bool f = true;
            for (auto* c : x->body())
            {
                if (!f)
                    o += ",";
                f = false;
                o += st(c);
            }
            return o + "]]";
        }
        if (auto* x = dyn_cast<DeclStmt>(s))
        {
            std::string o = "[\"decl\",[";
            bool f = true;
            for (auto* d : x->decls())
                if (auto* v = dyn_cast<VarDecl>(d))
                {
                    if (!f)
                        o += ",";
                    f = false;
                    o += var(v);
                }
            return o + "]," + loc(s->getBeginLoc()) + "]";
        }
        if (auto* x = dyn_cast<IfStmt>(s))
        {
            std::string o = "[\"if\"," + ex(x->getCond()) + "," + st(x->getThen()) + "," + st(x->getElse()) + "," +
                            loc(s->getBeginLoc()) + "]";
            if (x->getConditionVariableDeclStmt())
                o = "[\"{\",[" + st(x->getConditionVariableDeclStmt()) + "," + o + "]]";
            if (x->getInit())
                o = "[\"{\",[" + st(x->getInit()) + "," + o + "]]";
            return o;
        }
        if (auto* x = dyn_cast<ForStmt>(s))
            return "[\"for\"," + st(x->getInit()) + "," + (x->getCond() ? ex(x->getCond()) : "null") + "," +
                   (x->getInc() ? ex(x->getInc()) : "null") + "," + st(x->getBody()) + "," + loc(s->getBeginLoc()) + "]";
        if (auto* x = dyn_cast<WhileStmt>(s))
            return "[\"while\"," + ex(x->getCond()) + "," + st(x->getBody()) + "," + loc(s->getBeginLoc()) + "]";
        if (auto* x = dyn_cast<DoStmt>(s))
            return "[\"do\"," + ex(x->getCond()) + "," + st(x->getBody()) + "," + loc(s->getBeginLoc()) + "]";
        if (auto* x = dyn_cast<CXXForRangeStmt>(s))
            return "[\"rfor\"," + var(x->getLoopVariable()) + "," + ex(x->getRangeInit()) + "," + st(x->getBody()) + "," +
                   loc(s->getBeginLoc()) + "]";
        if (auto* x = dyn_cast<ReturnStmt>(s))
            return "[\"ret\"," + (x->getRetValue() ? ex(x->getRetValue()) : std::string("null")) + "," +
                   loc(s->getBeginLoc()) + "]";
        if (isa<BreakStmt>(s))
            return "[\"break\"," + loc(s->getBeginLoc()) + "]";
        if (isa<ContinueStmt>(s))
            return "[\"cont\"," + loc(s->getBeginLoc()) + "]";
        if (isa<NullStmt>(s))
            return "[\"nop\"]";
        if (auto* x = dyn_cast<SwitchStmt>(s))
            return "[\"switch\"," + ex(x->getCond()) + "," + st(x->getBody()) + "," + loc(s->getBeginLoc()) + "," +
                   ty(strip(x->getCond())->IgnoreImpCasts()->getType()) + "]";
        if (auto* x = dyn_cast<CaseStmt>(s))
            return "[\"case\"," + ex(x->getLHS()) + "," + st(x->getSubStmt()) + "," + loc(s->getBeginLoc()) + "]";
        if (auto* x = dyn_cast<DefaultStmt>(s))
            return "[\"default\"," + st(x->getSubStmt()) + "," + loc(s->getBeginLoc()) + "]";
        if (auto* x = dyn_cast<CXXTryStmt>(s))
        {
            std::string o = "[\"try\"," + st(x->getTryBlock()) + ",[";
            for (unsigned i = 0; i < x->getNumHandlers(); ++i)
            {
                auto* h = x->getHandler(i);
                o += (i ? "," : "") + std::string("[") + (h->getExceptionDecl() ? var(h->getExceptionDecl()) : "null") + "," +
                     st(h->getHandlerBlock()) + "]";
            }
            return o + "]," + loc(s->getBeginLoc()) + "]";
        }
        if (auto* x = dyn_cast<OMPExecutableDirective>(s))
            return "[\"omp\"," + q(s->getStmtClassName()) + "," +
                   (x->hasAssociatedStmt() ? st(x->getRawStmt()) : "null") + "," + loc(s->getBeginLoc()) + "]";
        if (auto* x = dyn_cast<CapturedStmt>(s))
            return st(x->getCapturedStmt());
        if (auto* x = dyn_cast<LabelStmt>(s))
            return st(x->getSubStmt());
        if (auto* x = dyn_cast<AttributedStmt>(s))
            return st(x->getSubStmt());
        if (auto* x = dyn_cast<Expr>(s))
            return "[\"expr\"," + ex(x) + "," + loc(s->getBeginLoc()) + "]";
        return "[\"unkst\"," + q(s->getStmtClassName()) + "]";
    }

    std::string fnObj(const FunctionDecl* f)
    {
        std::string o = "{\"key\":" + q(fnKey(f)) + ",\"name\":" + q(f->getDeclName().getAsString()) + ",\"qn\":" +
                        q(f->getQualifiedNameAsString()) + ",\"loc\":" + loc(f->getLocation()) + ",\"end\":" +
                        loc(f->getBody() ? f->getBody()->getEndLoc() : f->getEndLoc());
        o += ",\"ret\":" + ty(f->getReturnType()) + ",\"params\":[";
        for (unsigned i = 0; i < f->getNumParams(); ++i)
        {
            auto* p = f->getParamDecl(i);
            o += (i ? "," : "") + std::string("[") + std::to_string(did(p)) + "," + q(p->getName()) + "," + ty(p->getType()) + "]";
        }
        o += "]";
        if (auto* m = dyn_cast<CXXMethodDecl>(f))
        {
            if (!m->getParent()->isLambda())
                o += ",\"cls\":" + q(m->getParent()->getQualifiedNameAsString()) + ",\"clskey\":" +
                     q(tstr(C.getRecordType(m->getParent())));
            if (m->isConst())
                o += ",\"const\":1";
            if (m->isVirtual())
                o += ",\"virt\":1";
            if (m->isStatic())
                o += ",\"static\":1";
        }
        if (f->isImplicit())
            o += ",\"implicit\":1";
        if (f->isDefaulted())
            o += ",\"defaulted\":1";
        if (auto* c = dyn_cast<CXXConstructorDecl>(f))
        {
            o += std::string(",\"ctor\":\"") +
                 (c->isCopyConstructor() ? "copy" : c->isMoveConstructor() ? "move" : c->isDefaultConstructor() ? "def" : "o") + "\"";
            o += ",\"inits\":[";
            bool first = true;
            for (auto* i : c->inits())
            {
                if (!first)
                    o += ",";
                first = false;
                if (i->isBaseInitializer())
                {
                    auto* rd = i->getBaseClass()->getAsCXXRecordDecl();
                    o += "[\"base\"," + q(tstr(QualType(i->getBaseClass(), 0))) + ",";
                }
                else if (i->isDelegatingInitializer())
                    o += "[\"deleg\",\"\",";
                else
                    o += "[\"field\"," + q(i->getAnyMember()->getName()) + ",";
                o += (i->getInit() ? ex(i->getInit()) : "null");
                o += std::string(",") + (i->isWritten() ? "1" : "0") + "," + loc(i->getSourceLocation()) + "]";
            }
            o += "]";
        }
        o += ",\"body\":" + st(f->getBody()) + "}";
        return o;
    }

    void fn(const FunctionDecl* f)
    {
        if (!f->doesThisDeclarationHaveABody() || f->isDependentContext())
            return;
        if (auto* m = dyn_cast<CXXMethodDecl>(f))
            if (m->getParent()->isDependentContext() || m->getParent()->isLambda())
                return;
        if (!inRoots(f->getLocation()))
            return;
        if (!doneFns.insert(f).second)
            return;
        std::string o = fnObj(f);
        OS << (firstFn ? "" : ",\n") << o;
        firstFn = false;
    }

    void rec(const CXXRecordDecl* r)
    {
        if (!r->isThisDeclarationADefinition() || r->isDependentContext() || r->isLambda())
            return;
        if (!inRoots(r->getLocation()))
            return;
        if (!doneRecs.insert(r).second)
            return;
        std::string o = "{\"key\":" + q(tstr(C.getRecordType(r))) + ",\"qn\":" + q(r->getQualifiedNameAsString()) +
                        ",\"loc\":" + loc(r->getLocation()) + ",\"targs\":" + tmplArgs(r);
        if (r->isPolymorphic())
            o += ",\"poly\":1";
        if (r->isAbstract())
            o += ",\"abstract\":1";
        o += ",\"bases\":[";
        bool f = true;
        for (auto& b : r->bases())
        {
            if (!f)
                o += ",";
            f = false;
            o += "[" + q(tstr(b.getType())) + "," + ty(b.getType()) + "," + (b.isVirtual() ? "1" : "0") + "]";
        }
        o += "],\"fields\":[";
        f = true;
        for (auto* fd : r->fields())
        {
            if (!f)
                o += ",";
            f = false;
            o += "[" + q(fd->getName()) + "," + ty(fd->getType()) + "," + loc(fd->getLocation()) + "," +
                 (fd->isMutable() ? "1" : "0") + "," +
                 (fd->hasInClassInitializer() && fd->getInClassInitializer() ? ex(fd->getInClassInitializer()) : "null") + "]";
        }
        o += "],\"methods\":[";
        f = true;
        for (auto* m : r->methods())
        {
            if (!f)
                o += ",";
            f = false;
            o += "{\"name\":" + q(m->getDeclName().getAsString()) + ",\"key\":" + q(fnKey(m)) + ",\"ret\":" +
                 ty(m->getReturnType());
            if (m->isVirtual())
                o += ",\"virt\":1";
            if (m->isPureVirtual())
                o += ",\"pure\":1";
            if (m->isConst())
                o += ",\"const\":1";
            if (m->isStatic())
                o += ",\"static\":1";
            if (m->isDeleted())
                o += ",\"deleted\":1";
            if (m->isImplicit())
                o += ",\"implicit\":1";
            if (m->isDefaulted())
                o += ",\"defaulted\":1";
            if (m->isUserProvided())
                o += ",\"user\":1";
            if (auto* c = dyn_cast<CXXConstructorDecl>(m))
                o += std::string(",\"ctor\":\"") +
                     (c->isCopyConstructor() ? "copy" : c->isMoveConstructor() ? "move" : c->isDefaultConstructor() ? "def" : "o") + "\"";
            if (m->isCopyAssignmentOperator())
                o += ",\"casg\":1";
            o += ",\"access\":" + std::to_string(m->getAccess());
            o += ",\"overrides\":[";
            bool g = true;
            for (auto* ov : m->overridden_methods())
            {
                if (!g)
                    o += ",";
                g = false;
                o += q(fnKey(ov));
            }
            o += "],\"loc\":" + loc(m->getLocation()) + "}";
        }
        o += "]}";
        recOut += (firstRec ? "" : ",\n") + o;
        firstRec = false;
    }
};

struct V : RecursiveASTVisitor<V>
{
    Dumper& D;
    V(Dumper& d) : D(d) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl* f)
    {
        D.fn(f);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* r)
    {
        D.rec(r);
        return true;
    }
};

struct Cons : ASTConsumer
{
    void HandleTranslationUnit(ASTContext& C) override
    {
        if (C.getDiagnostics().hasFatalErrorOccurred())
            return;
        std::error_code ec;
        raw_fd_ostream OS(Out + ".part", ec);
        Dumper D(C, OS);
        OS << "{\"functions\":[\n";
        V v(D);
        v.TraverseDecl(C.getTranslationUnitDecl());
        OS << "],\n\"records\":[\n" << D.recOut << "],\n\"types\":[\n";
        for (size_t i = 0; i < D.typeDescs.size(); ++i)
            OS << (i ? ",\n" : "") << D.typeDescs[i];
        OS << "],\n\"files\":[";
        for (size_t i = 0; i < D.files.size(); ++i)
            OS << (i ? "," : "") << q(D.files[i]);
        OS << "]}\n";
        OS.close();
        rename((Out + ".part").c_str(), Out.c_str());
    }
};
struct Act : ASTFrontendAction
{
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override
    {
        return std::make_unique<Cons>();
    }
};
}  // namespace

int main(int argc, const char** argv)
{
    auto P = tooling::CommonOptionsParser::create(argc, argv, Cat);
    if (!P)
    {
        errs() << toString(P.takeError());
        return 2;
    }
    tooling::ClangTool T(P->getCompilations(), P->getSourcePathList());
    std::vector<std::unique_ptr<llvm::MemoryBuffer>> bufs;
    std::vector<std::string> names;
    for (auto& m : Maps)
    {
        auto k = m.find('=');
        auto b = llvm::MemoryBuffer::getFile(m.substr(k + 1));
        if (k == std::string::npos || !b)
            continue;
        bufs.push_back(std::move(*b));
        names.push_back(m.substr(0, k));
    }
    for (size_t i = 0; i < bufs.size(); i++)
        T.mapVirtualFile(names[i], bufs[i]->getBuffer());
    return T.run(tooling::newFrontendActionFactory<Act>().get());
}
