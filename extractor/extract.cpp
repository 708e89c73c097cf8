// Dumps the type-checked bodies of all functions defined below the given root directories as JSON.
//
// usage: rrj-extract OUT.json ROOT[:ROOT...] FILE -- CLANG-ARGS...
//
// Only facts established by the compiler's front end are written: resolved callees, template instantiations, implicit
// conversions, constant values. Nothing is executed.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>

#include <deque>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> g_roots;
static std::string g_out;
static bool g_ok = false;

class Dumper {
public:
    Dumper(ASTContext &ctx)
        : ctx(ctx)
        , sm(ctx.getSourceManager())
        , pol(ctx.getLangOpts())
    {
        pol.FullyQualifiedName = true;
        pol.SuppressUnwrittenScope = true;
        pol.SuppressInlineNamespace = true;
        pol.PrintCanonicalTypes = true;
        pol.Bool = true;
        pol.TerseOutput = true;
    }

    std::string str(StringRef s)
    {
        return json::isUTF8(s) ? s.str() : json::fixUTF8(s);
    }

    std::string qname(const NamedDecl *d)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        PrintingPolicy p(pol);
        d->printQualifiedName(os, p);
        return str(os.str());
    }

    bool inRoots(SourceLocation loc, std::string *file = nullptr)
    {
        if (loc.isInvalid())
            return false;
        loc = sm.getExpansionLoc(loc);
        const auto fe = sm.getFileEntryRefForID(sm.getFileID(loc));
        if (!fe)
            return false;
        SmallString<256> real;
        auto rp = fe->getFileEntry().tryGetRealPathName();
        std::string p = rp.empty() ? fe->getName().str() : rp.str();
        for (const auto &r : g_roots) {
            if (p.compare(0, r.size(), r) == 0) {
                if (file)
                    *file = p;
                return true;
            }
        }
        return false;
    }

    unsigned line(SourceLocation loc)
    {
        return loc.isValid() ? sm.getExpansionLineNumber(loc) : 0;
    }

    // --- types -------------------------------------------------------------------------------------------------
    json::Array types;
    std::map<std::pair<const void *, unsigned>, int> typeIds;

    json::Array templateArgs(llvm::ArrayRef<TemplateArgument> args)
    {
        json::Array a;
        for (const auto &arg : args) {
            switch (arg.getKind()) {
            case TemplateArgument::Type:
                a.push_back(json::Object{ { "t", type(arg.getAsType()) } });
                break;
            case TemplateArgument::Integral: {
                llvm::SmallString<32> s;
                arg.getAsIntegral().toString(s, 10);
                a.push_back(json::Object{ { "i", std::string(s.str()) } });
                break;
            }
            case TemplateArgument::Pack:
                for (auto &v : templateArgs(arg.getPackAsArray()))
                    a.push_back(std::move(v));
                break;
            case TemplateArgument::Template:
                a.push_back(json::Object{ { "tmpl", qname(arg.getAsTemplate().getAsTemplateDecl()) } });
                break;
            default:
                a.push_back(json::Object{});
            }
        }
        return a;
    }

    int type(QualType qt)
    {
        qt = qt.getCanonicalType();
        const auto key = std::make_pair(static_cast<const void *>(qt.getTypePtrOrNull()), qt.getCVRQualifiers());
        if (const auto i = typeIds.find(key); i != typeIds.end())
            return i->second;
        const int id = static_cast<int>(types.size());
        typeIds[key] = id;
        types.push_back(nullptr);
        json::Object o;
        o["s"] = str(qt.getAsString(pol));
        if (qt.isConstQualified())
            o["const"] = true;
        const Type *t = qt.getTypePtr();
        if (t->isDependentType()) {
            o["c"] = "dep";
        } else if (t->isVoidType()) {
            o["c"] = "void";
        } else if (t->isBooleanType()) {
            o["c"] = "bool";
        } else if (const auto *et = t->getAs<EnumType>()) {
            o["c"] = "enum";
            o["n"] = qname(et->getDecl());
            json::Array ev;
            if (et->getDecl()->isComplete())
                for (const auto *ec : et->getDecl()->enumerators())
                    ev.push_back(json::Array{ ec->getNameAsString(), llvm::toString(ec->getInitVal(), 10) });
            if (!ev.empty() && ev.size() <= 64)
                o["ev"] = std::move(ev);
            const auto u = et->getDecl()->getIntegerType();
            if (!u.isNull()) {
                o["w"] = static_cast<int>(ctx.getIntWidth(u));
                o["sg"] = u->isSignedIntegerType();
                o["u"] = type(u);
            }
        } else if (t->isIntegerType()) {
            o["c"] = "int";
            o["w"] = static_cast<int>(ctx.getIntWidth(qt));
            o["sg"] = t->isSignedIntegerType();
        } else if (t->isRealFloatingType()) {
            o["c"] = "float";
            o["w"] = static_cast<int>(ctx.getTypeSize(qt));
        } else if (t->isNullPtrType()) {
            o["c"] = "nullptr";
        } else if (t->isPointerType()) {
            o["c"] = "ptr";
            o["to"] = type(t->getPointeeType());
        } else if (t->isReferenceType()) {
            o["c"] = t->isLValueReferenceType() ? "lref" : "rref";
            o["to"] = type(t->getPointeeType());
        } else if (const auto *rd = t->getAsCXXRecordDecl()) {
            o["c"] = "rec";
            o["n"] = recname(rd);
            if (rd->isLambda())
                o["lambda"] = true;
            if (const auto *sp = dyn_cast<ClassTemplateSpecializationDecl>(rd))
                o["args"] = templateArgs(sp->getTemplateArgs().asArray());
            if (rd->hasDefinition()) {
                json::Array bases;
                for (const auto &b : rd->bases())
                    bases.push_back(type(b.getType()));
                if (!bases.empty())
                    o["bases"] = std::move(bases);
                if (const auto *dt = rd->getDestructor())
                    if (dt->isUserProvided() && !dt->isDependentContext())
                        o["dtor"] = fn(dt);
                if (inRoots(rd->getLocation())) {
                    o["repo"] = true;
                    json::Array fields;
                    for (const auto *f : rd->fields())
                        fields.push_back(json::Object{ { "n", f->getNameAsString() }, { "t", type(f->getType()) } });
                    o["fields"] = std::move(fields);
                }
            }
        } else if (t->isArrayType()) {
            o["c"] = "arr";
            o["to"] = type(QualType(t->getArrayElementTypeNoTypeQual(), 0));
        } else if (t->isFunctionType()) {
            o["c"] = "fn";
        } else {
            o["c"] = "other";
        }
        types[id] = std::move(o);
        return id;
    }

    std::string recname(const CXXRecordDecl *rd)
    {
        if (const auto *sp = dyn_cast<ClassTemplateSpecializationDecl>(rd))
            return qname(sp->getSpecializedTemplate());
        return qname(rd);
    }

    // --- declarations ------------------------------------------------------------------------------------------
    json::Array fns;
    std::unordered_map<const FunctionDecl *, int> fnIds;
    std::deque<const FunctionDecl *> work;
    std::unordered_map<const Decl *, int> declIds;

    int declId(const Decl *d)
    {
        d = d->getCanonicalDecl();
        return declIds.emplace(d, static_cast<int>(declIds.size())).first->second;
    }

    int fn(const FunctionDecl *f)
    {
        f = f->getCanonicalDecl();
        if (const auto i = fnIds.find(f); i != fnIds.end())
            return i->second;
        const int id = static_cast<int>(fns.size());
        fnIds[f] = id;
        fns.push_back(nullptr);
        json::Object o;
        o["q"] = qname(f);
        o["n"] = f->getNameAsString();
        o["ret"] = type(f->getReturnType());
        json::Array params;
        for (const auto *p : f->parameters())
            params.push_back(json::Object{ { "d", declId(p) }, { "n", p->getNameAsString() }, { "t", type(p->getType()) } });
        o["params"] = std::move(params);
        if (const auto *ta = f->getTemplateSpecializationArgs())
            o["targs"] = templateArgs(ta->asArray());
        if (const auto *m = dyn_cast<CXXMethodDecl>(f)) {
            o["cls"] = type(ctx.getRecordType(m->getParent()));
            if (m->isStatic())
                o["static"] = true;
            if (m->isConst())
                o["const"] = true;
            if (m->isVirtual()) {
                o["virt"] = true;
                json::Array ov;
                for (const auto *b : m->overridden_methods())
                    ov.push_back(fn(b));
                if (!ov.empty())
                    o["overrides"] = std::move(ov);
            }
            if (m->isPureVirtual())
                o["pure"] = true;
            o["access"] = static_cast<int>(m->getAccess());
        }
        if (isa<CXXConstructorDecl>(f)) {
            o["kind"] = "ctor";
            const auto *c = cast<CXXConstructorDecl>(f);
            if (c->isCopyOrMoveConstructor())
                o["copy"] = true;
        } else if (isa<CXXDestructorDecl>(f)) {
            o["kind"] = "dtor";
        } else if (isa<CXXConversionDecl>(f)) {
            o["kind"] = "conv";
        }
        if (f->isOverloadedOperator())
            o["op"] = getOperatorSpelling(f->getOverloadedOperator());
        if (const auto *fpt = f->getType()->getAs<FunctionProtoType>())
            if (!isUnresolvedExceptionSpec(fpt->getExceptionSpecType()) && fpt->isNothrow())
                o["noexcept"] = true;
        if (f->isConstexpr())
            o["constexpr"] = true;
        if (f->hasAttr<ConstAttr>() || f->hasAttr<PureAttr>())
            o["pureattr"] = true;
        fns[id] = std::move(o);
        work.push_back(f);
        return id;
    }

    void drain()
    {
        while (!work.empty()) {
            const FunctionDecl *f = work.front();
            work.pop_front();
            dumpBody(f);
        }
    }

    // functions of the standard library which are analysed like functions of the program
    bool simpleStd(const FunctionDecl *f)
    {
        static const std::set<std::string> names{ "std::exchange", "std::__exchange", "std::apply", "std::__apply_impl", "std::__invoke",
            "std::__invoke_impl", "std::invoke", "std::for_each", "std::for_each_n", "std::accumulate", "std::transform", "std::swap", "std::as_const" };
        return f->isTemplateInstantiation() && names.count(qname(f));
    }

    // whether the code contains something which could not be compiled
    static bool hasErrors(const Stmt *s)
    {
        if (!s)
            return false;
        if (const auto *e = dyn_cast<Expr>(s); e && e->containsErrors())
            return true;
        if (const auto *ds = dyn_cast<DeclStmt>(s))
            for (const auto *d : ds->decls())
                if (d->isInvalidDecl())
                    return true;
        for (const auto *c : s->children())
            if (hasErrors(c))
                return true;
        return false;
    }

    void dumpBody(const FunctionDecl *f)
    {
        const FunctionDecl *def = nullptr;
        const Stmt *body = f->getBody(def);
        for (const auto *r : f->redecls()) {
            if (r->isInvalidDecl()) {
                (*fns[fn(f)].getAsObject())["broken"] = true;
                return;
            }
        }
        if (!body || !def || def->isDependentContext())
            return;
        if (def->isInvalidDecl() || hasErrors(body)) {
            (*fns[fn(f)].getAsObject())["broken"] = true;
            return;
        }
        std::string file;
        if (!inRoots(def->getLocation(), &file)) {
            if (!simpleStd(def))
                return;
            file = "<std>";
        }
        if (def->isDefaulted() || def->isImplicit()) {
            const auto *c = dyn_cast<CXXConstructorDecl>(def);
            if (!(isa<CXXMethodDecl>(def) && cast<CXXMethodDecl>(def)->getParent()->isLambda()) && !(c && c->isDefaultConstructor()))
                return;
        }
        const int id = fn(f);
        auto bodyJson = S(body);
        json::Array inits;
        if (const auto *c = dyn_cast<CXXConstructorDecl>(def)) {
            for (const auto *i : c->inits()) {
                json::Object io;
                if (i->isMemberInitializer() || i->isIndirectMemberInitializer()) {
                    io["f"] = i->getAnyMember()->getNameAsString();
                    io["t"] = type(i->getAnyMember()->getType());
                } else if (i->isBaseInitializer()) {
                    io["base"] = type(QualType(i->getBaseClass(), 0));
                } else {
                    io["deleg"] = true;
                }
                if (i->getInit())
                    io["e"] = E(i->getInit());
                inits.push_back(std::move(io));
            }
        }
        json::Array params;
        for (const auto *p : def->parameters())
            params.push_back(json::Object{ { "d", declId(p) }, { "n", p->getNameAsString() }, { "t", type(p->getType()) } });
        auto *o = fns[id].getAsObject();
        (*o)["file"] = file;
        (*o)["l"] = line(def->getLocation());
        (*o)["params"] = std::move(params);
        (*o)["body"] = std::move(bodyJson);
        (*o)["ret"] = type(def->getReturnType());
        if (!inits.empty())
            (*o)["inits"] = std::move(inits);
    }

    // --- statements --------------------------------------------------------------------------------------------
    json::Value S(const Stmt *s)
    {
        if (!s)
            return nullptr;
        if (const auto *e = dyn_cast<Expr>(s))
            return json::Object{ { "k", "expr" }, { "l", line(s->getBeginLoc()) }, { "e", E(e) } };
        json::Object o;
        o["l"] = line(s->getBeginLoc());
        switch (s->getStmtClass()) {
        case Stmt::CompoundStmtClass: {
            json::Array a;
            for (const auto *c : cast<CompoundStmt>(s)->body())
                a.push_back(S(c));
            o["k"] = "block";
            o["b"] = std::move(a);
            break;
        }
        case Stmt::NullStmtClass:
            o["k"] = "null";
            break;
        case Stmt::DeclStmtClass: {
            json::Array a;
            for (const auto *d : cast<DeclStmt>(s)->decls())
                a.push_back(D(d));
            o["k"] = "decl";
            o["d"] = std::move(a);
            break;
        }
        case Stmt::IfStmtClass: {
            const auto *i = cast<IfStmt>(s);
            o["k"] = "if";
            if (i->getInit())
                o["init"] = S(i->getInit());
            if (i->getConditionVariableDeclStmt())
                o["var"] = S(i->getConditionVariableDeclStmt());
            if (i->isConstexpr()) {
                o["cx"] = true;
                if (!i->getCond()->isValueDependent()) {
                    Expr::EvalResult r;
                    if (i->getCond()->EvaluateAsRValue(r, ctx) && r.Val.isInt()) {
                        const bool v = r.Val.getInt().getBoolValue();
                        o["cxv"] = v;
                        if (v)
                            o["then"] = S(i->getThen());
                        else if (i->getElse())
                            o["else"] = S(i->getElse());
                        break;
                    }
                }
            }
            o["c"] = E(i->getCond());
            o["then"] = S(i->getThen());
            if (i->getElse())
                o["else"] = S(i->getElse());
            break;
        }
        case Stmt::WhileStmtClass: {
            const auto *w = cast<WhileStmt>(s);
            o["k"] = "while";
            if (w->getConditionVariableDeclStmt())
                o["var"] = S(w->getConditionVariableDeclStmt());
            o["c"] = E(w->getCond());
            o["b"] = S(w->getBody());
            break;
        }
        case Stmt::DoStmtClass: {
            const auto *w = cast<DoStmt>(s);
            o["k"] = "do";
            o["c"] = E(w->getCond());
            o["b"] = S(w->getBody());
            break;
        }
        case Stmt::ForStmtClass: {
            const auto *w = cast<ForStmt>(s);
            o["k"] = "for";
            if (w->getInit())
                o["init"] = S(w->getInit());
            if (w->getConditionVariableDeclStmt())
                o["var"] = S(w->getConditionVariableDeclStmt());
            if (w->getCond())
                o["c"] = E(w->getCond());
            if (w->getInc())
                o["inc"] = E(w->getInc());
            o["b"] = S(w->getBody());
            break;
        }
        case Stmt::CXXForRangeStmtClass: {
            const auto *w = cast<CXXForRangeStmt>(s);
            o["k"] = "range";
            if (w->getInit())
                o["init"] = S(w->getInit());
            o["r"] = E(w->getRangeInit());
            const VarDecl *v = w->getLoopVariable();
            o["v"] = json::Object{ { "d", declId(v) }, { "n", v->getNameAsString() }, { "t", type(v->getType()) } };
            if (v->getInit()) // *__begin possibly followed by conversions
                o["vi"] = E(v->getInit());
            if (const auto *dd = dyn_cast<DecompositionDecl>(v))
                o["binds"] = bindings(dd);
            if (w->getBeginStmt())
                if (const auto *bd = dyn_cast<VarDecl>(w->getBeginStmt()->getSingleDecl()))
                    o["bd"] = declId(bd);
            o["b"] = S(w->getBody());
            break;
        }
        case Stmt::SwitchStmtClass: {
            const auto *w = cast<SwitchStmt>(s);
            o["k"] = "switch";
            if (w->getInit())
                o["init"] = S(w->getInit());
            if (w->getConditionVariableDeclStmt())
                o["var"] = S(w->getConditionVariableDeclStmt());
            o["c"] = E(w->getCond());
            o["b"] = S(w->getBody());
            break;
        }
        case Stmt::CaseStmtClass: {
            const auto *c = cast<CaseStmt>(s);
            o["k"] = "case";
            o["v"] = E(c->getLHS());
            if (c->getRHS())
                o["hi"] = E(c->getRHS());
            o["b"] = S(c->getSubStmt());
            break;
        }
        case Stmt::DefaultStmtClass:
            o["k"] = "default";
            o["b"] = S(cast<DefaultStmt>(s)->getSubStmt());
            break;
        case Stmt::BreakStmtClass:
            o["k"] = "break";
            break;
        case Stmt::ContinueStmtClass:
            o["k"] = "continue";
            break;
        case Stmt::ReturnStmtClass:
            o["k"] = "return";
            if (const auto *v = cast<ReturnStmt>(s)->getRetValue())
                o["e"] = E(v);
            break;
        case Stmt::CXXTryStmtClass: {
            const auto *t = cast<CXXTryStmt>(s);
            o["k"] = "try";
            o["b"] = S(t->getTryBlock());
            json::Array hs;
            for (unsigned i = 0; i < t->getNumHandlers(); ++i) {
                const auto *h = t->getHandler(i);
                json::Object ho;
                if (!h->getCaughtType().isNull())
                    ho["t"] = type(h->getCaughtType().getNonReferenceType().getUnqualifiedType());
                if (const auto *v = h->getExceptionDecl())
                    ho["d"] = declId(v);
                ho["b"] = S(h->getHandlerBlock());
                hs.push_back(std::move(ho));
            }
            o["h"] = std::move(hs);
            break;
        }
        case Stmt::AttributedStmtClass:
            return S(cast<AttributedStmt>(s)->getSubStmt());
        case Stmt::LabelStmtClass:
            o["k"] = "label";
            o["b"] = S(cast<LabelStmt>(s)->getSubStmt());
            break;
        default:
            o["k"] = "unsup";
            o["what"] = s->getStmtClassName();
        }
        return o;
    }

    json::Array bindings(const DecompositionDecl *dd)
    {
        json::Array a;
        for (const auto *b : dd->bindings()) {
            json::Object o{ { "d", declId(b) }, { "n", b->getNameAsString() }, { "t", type(b->getType()) } };
            if (b->getBinding())
                o["e"] = E(b->getBinding());
            if (const auto *hv = b->getHoldingVar()) {
                o["hv"] = declId(hv);
                if (hv->getInit())
                    o["hvi"] = E(hv->getInit());
            }
            a.push_back(std::move(o));
        }
        return a;
    }

    json::Value D(const Decl *d)
    {
        json::Object o;
        if (const auto *v = dyn_cast<VarDecl>(d)) {
            o["k"] = "var";
            o["d"] = declId(v);
            o["n"] = v->getNameAsString();
            o["t"] = type(v->getType());
            o["l"] = line(v->getLocation());
            if (v->isStaticLocal())
                o["static"] = true;
            if (v->getInit())
                o["init"] = E(v->getInit());
            if (const auto *dd = dyn_cast<DecompositionDecl>(v))
                o["binds"] = bindings(dd);
        } else {
            o["k"] = "other";
        }
        return o;
    }

    // --- expressions -------------------------------------------------------------------------------------------
    void constant(json::Object &o, const Expr *e)
    {
        if (e->isValueDependent() || e->isTypeDependent())
            return;
        const auto qt = e->getType();
        if (!(qt->isIntegralOrEnumerationType() || qt->isRealFloatingType()))
            return;
        Expr::EvalResult r;
        if (!e->EvaluateAsRValue(r, ctx) || r.HasSideEffects)
            return;
        if (r.Val.isInt()) {
            llvm::SmallString<32> s;
            r.Val.getInt().toString(s, 10);
            o["c"] = std::string(s.str());
        } else if (r.Val.isFloat()) {
            llvm::SmallString<32> s;
            r.Val.getFloat().toString(s);
            o["cf"] = std::string(s.str());
        }
    }

    json::Array Es(llvm::iterator_range<CallExpr::const_arg_iterator> args)
    {
        json::Array a;
        for (const auto *x : args)
            a.push_back(E(x));
        return a;
    }

    json::Value E(const Expr *e)
    {
        if (!e)
            return nullptr;
        // transparent wrappers
        switch (e->getStmtClass()) {
        case Stmt::ParenExprClass:
            return E(cast<ParenExpr>(e)->getSubExpr());
        case Stmt::ExprWithCleanupsClass:
        case Stmt::ConstantExprClass:
            return E(cast<FullExpr>(e)->getSubExpr());
        case Stmt::CXXBindTemporaryExprClass:
            return E(cast<CXXBindTemporaryExpr>(e)->getSubExpr());
        case Stmt::SubstNonTypeTemplateParmExprClass:
            return E(cast<SubstNonTypeTemplateParmExpr>(e)->getReplacement());
        case Stmt::CXXDefaultArgExprClass:
            return E(cast<CXXDefaultArgExpr>(e)->getExpr());
        case Stmt::CXXDefaultInitExprClass:
            return E(cast<CXXDefaultInitExpr>(e)->getExpr());
        case Stmt::ImplicitCastExprClass: {
            const auto *c = cast<ImplicitCastExpr>(e);
            switch (c->getCastKind()) {
            case CK_NoOp:
            case CK_FunctionToPointerDecay:
            case CK_ConstructorConversion:
            case CK_UserDefinedConversion:
            case CK_BuiltinFnToFnPtr:
                return E(c->getSubExpr());
            default:;
            }
            break;
        }
        case Stmt::CXXFunctionalCastExprClass:
        case Stmt::CStyleCastExprClass:
        case Stmt::CXXStaticCastExprClass: {
            const auto *c = cast<ExplicitCastExpr>(e);
            switch (c->getCastKind()) {
            case CK_NoOp:
            case CK_ConstructorConversion:
            case CK_UserDefinedConversion:
                return E(c->getSubExpr());
            default:;
            }
            break;
        }
        default:;
        }

        json::Object o;
        o["t"] = type(e->getType());
        if (e->isGLValue())
            o["gl"] = true;
        constant(o, e);
        switch (e->getStmtClass()) {
        case Stmt::IntegerLiteralClass:
        case Stmt::CharacterLiteralClass:
        case Stmt::CXXBoolLiteralExprClass:
        case Stmt::FloatingLiteralClass:
        case Stmt::UnaryExprOrTypeTraitExprClass:
        case Stmt::TypeTraitExprClass:
        case Stmt::SizeOfPackExprClass:
        case Stmt::CXXNoexceptExprClass:
        case Stmt::GNUNullExprClass:
            o["k"] = "lit";
            break;
        case Stmt::ImplicitValueInitExprClass:
        case Stmt::CXXScalarValueInitExprClass:
            o["k"] = "zero";
            break;
        case Stmt::CXXNullPtrLiteralExprClass:
            o["k"] = "nullp";
            break;
        case Stmt::StringLiteralClass: {
            const auto *s = cast<StringLiteral>(e);
            o["k"] = "str";
            o["v"] = s->getCharByteWidth() == 1 ? str(s->getBytes()) : std::string();
            break;
        }
        case Stmt::PredefinedExprClass:
            o["k"] = "str";
            o["v"] = "";
            break;
        case Stmt::MaterializeTemporaryExprClass:
            o["k"] = "mat";
            o["e"] = E(cast<MaterializeTemporaryExpr>(e)->getSubExpr());
            break;
        case Stmt::DeclRefExprClass: {
            const auto *d = cast<DeclRefExpr>(e)->getDecl();
            o["d"] = declId(d);
            o["n"] = d->getNameAsString();
            if (isa<EnumConstantDecl>(d)) {
                o["k"] = "enumc";
                o["q"] = qname(d);
            } else if (const auto *f = dyn_cast<FunctionDecl>(d)) {
                o["k"] = "fnref";
                o["fn"] = fn(f);
            } else if (const auto *v = dyn_cast<VarDecl>(d)) {
                o["k"] = v->isLocalVarDeclOrParm() ? "var" : "gvar";
                if (!v->isLocalVarDeclOrParm() || v->isStaticLocal())
                    o["q"] = qname(v);
                if (v->isStaticLocal())
                    o["static"] = true;
                if (const auto *cxt = dyn_cast_or_null<FunctionDecl>(v->getDeclContext()))
                    (void)cxt;
                if (v->getType()->isReferenceType())
                    o["ref"] = true;
            } else if (isa<BindingDecl>(d)) {
                o["k"] = "var";
                o["binding"] = true;
            } else {
                o["k"] = "unsup";
                o["what"] = d->getDeclKindName();
            }
            break;
        }
        case Stmt::CXXThisExprClass:
            o["k"] = "this";
            break;
        case Stmt::MemberExprClass: {
            const auto *m = cast<MemberExpr>(e);
            const auto *d = m->getMemberDecl();
            if (const auto *f = dyn_cast<FunctionDecl>(d)) {
                o["k"] = "fnref";
                o["fn"] = fn(f);
                break;
            }
            if (const auto *v = dyn_cast<VarDecl>(d)) {
                o["k"] = "gvar";
                o["d"] = declId(v);
                o["n"] = v->getNameAsString();
                o["q"] = qname(v);
                break;
            }
            if (isa<EnumConstantDecl>(d)) {
                o["k"] = "enumc";
                o["q"] = qname(d);
                break;
            }
            o["k"] = "mem";
            o["f"] = d->getNameAsString();
            o["q"] = qname(d);
            if (m->isArrow())
                o["arrow"] = true;
            if (const auto *fd = dyn_cast<FieldDecl>(d))
                if (fd->getType()->isReferenceType())
                    o["ref"] = true;
            o["b"] = E(m->getBase());
            break;
        }
        case Stmt::CXXOperatorCallExprClass: {
            const auto *c = cast<CXXOperatorCallExpr>(e);
            o["k"] = "call";
            o["l"] = line(c->getBeginLoc());
            if (const auto *f = c->getDirectCallee()) {
                o["fn"] = fn(f);
                unsigned skip = 0;
                if (const auto *m = dyn_cast<CXXMethodDecl>(f); m && !m->isStatic()) {
                    o["obj"] = E(c->getArg(0));
                    skip = 1;
                }
                json::Array a;
                for (unsigned i = skip; i < c->getNumArgs(); ++i)
                    a.push_back(E(c->getArg(i)));
                o["a"] = std::move(a);
                o["op"] = getOperatorSpelling(c->getOperator());
            } else {
                o["k"] = "unsup";
                o["what"] = "indirect operator call";
            }
            break;
        }
        case Stmt::CXXMemberCallExprClass: {
            const auto *c = cast<CXXMemberCallExpr>(e);
            o["k"] = "call";
            o["l"] = line(c->getExprLoc());
            if (const auto *f = c->getMethodDecl()) {
                o["fn"] = fn(f);
                o["obj"] = E(c->getImplicitObjectArgument());
                if (c->getImplicitObjectArgument()->getType()->isPointerType())
                    o["arrow"] = true;
                if (const auto *me = dyn_cast<MemberExpr>(c->getCallee()->IgnoreParens()))
                    if (me->hasQualifier())
                        o["qualified"] = true;
                o["a"] = Es(c->arguments());
            } else {
                o["ce"] = E(c->getCallee());
                o["a"] = Es(c->arguments());
            }
            break;
        }
        case Stmt::UserDefinedLiteralClass:
        case Stmt::CallExprClass: {
            const auto *c = cast<CallExpr>(e);
            o["k"] = "call";
            o["l"] = line(c->getExprLoc());
            if (const auto *f = c->getDirectCallee())
                o["fn"] = fn(f);
            else
                o["ce"] = E(c->getCallee());
            o["a"] = Es(c->arguments());
            break;
        }
        case Stmt::CXXRewrittenBinaryOperatorClass:
            return E(cast<CXXRewrittenBinaryOperator>(e)->getSemanticForm());
        case Stmt::CXXTemporaryObjectExprClass:
        case Stmt::CXXConstructExprClass: {
            const auto *c = cast<CXXConstructExpr>(e);
            o["k"] = "ctor";
            o["l"] = line(c->getBeginLoc());
            o["fn"] = fn(c->getConstructor());
            json::Array a;
            for (const auto *x : c->arguments())
                a.push_back(E(x));
            o["a"] = std::move(a);
            if (c->requiresZeroInitialization())
                o["zi"] = true;
            break;
        }
        case Stmt::CXXInheritedCtorInitExprClass:
            o["k"] = "unsup";
            o["what"] = "inherited ctor";
            break;
        case Stmt::InitListExprClass: {
            const auto *i = cast<InitListExpr>(e);
            if (i->isTransparent() && i->getNumInits() == 1)
                return E(i->getInit(0));
            o["k"] = "ilist";
            json::Array a;
            for (const auto *x : i->inits())
                a.push_back(E(x));
            o["a"] = std::move(a);
            if (const auto *rd = e->getType()->getAsCXXRecordDecl()) {
                json::Array f;
                for (const auto *fd : rd->fields())
                    f.push_back(fd->getNameAsString());
                o["fields"] = std::move(f);
                o["nb"] = static_cast<int>(rd->hasDefinition() ? rd->getNumBases() : 0);
            }
            break;
        }
        case Stmt::CXXStdInitializerListExprClass:
            o["k"] = "silist";
            o["e"] = E(cast<CXXStdInitializerListExpr>(e)->getSubExpr());
            break;
        case Stmt::UnaryOperatorClass: {
            const auto *u = cast<UnaryOperator>(e);
            o["k"] = "un";
            o["op"] = UnaryOperator::getOpcodeStr(u->getOpcode()).str();
            if (u->isPostfix())
                o["post"] = true;
            o["e"] = E(u->getSubExpr());
            break;
        }
        case Stmt::BinaryOperatorClass: {
            const auto *b = cast<BinaryOperator>(e);
            o["k"] = b->isAssignmentOp() ? "assign" : "bin";
            o["op"] = b->getOpcodeStr().str();
            o["l"] = line(b->getOperatorLoc());
            o["a"] = E(b->getLHS());
            o["b"] = E(b->getRHS());
            break;
        }
        case Stmt::CompoundAssignOperatorClass: {
            const auto *b = cast<CompoundAssignOperator>(e);
            o["k"] = "cassign";
            o["op"] = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(b->getOpcode())).str();
            o["a"] = E(b->getLHS());
            o["b"] = E(b->getRHS());
            break;
        }
        case Stmt::ConditionalOperatorClass: {
            const auto *c = cast<ConditionalOperator>(e);
            o["k"] = "cond";
            o["c_"] = E(c->getCond());
            o["a"] = E(c->getTrueExpr());
            o["b"] = E(c->getFalseExpr());
            break;
        }
        case Stmt::ArraySubscriptExprClass: {
            const auto *a = cast<ArraySubscriptExpr>(e);
            o["k"] = "sub";
            o["a"] = E(a->getBase());
            o["b"] = E(a->getIdx());
            break;
        }
        case Stmt::ImplicitCastExprClass:
        case Stmt::CStyleCastExprClass:
        case Stmt::CXXStaticCastExprClass:
        case Stmt::CXXFunctionalCastExprClass:
        case Stmt::CXXConstCastExprClass:
        case Stmt::CXXReinterpretCastExprClass:
        case Stmt::CXXDynamicCastExprClass: {
            const auto *c = cast<CastExpr>(e);
            if (c->getCastKind() == CK_LValueToRValue) {
                o["k"] = "load";
                o["e"] = E(c->getSubExpr());
                break;
            }
            if (c->getCastKind() == CK_NullToPointer) {
                o["k"] = "nullp";
                break;
            }
            o["k"] = "cast";
            o["ck"] = c->getCastKindName();
            if (isa<ExplicitCastExpr>(e))
                o["ex"] = true;
            o["e"] = E(c->getSubExpr());
            break;
        }
        case Stmt::LambdaExprClass: {
            const auto *l = cast<LambdaExpr>(e);
            o["k"] = "lambda";
            json::Array caps;
            auto init = l->capture_init_begin();
            for (const auto &c : l->captures()) {
                json::Object co;
                if (c.capturesVariable()) {
                    co["d"] = declId(c.getCapturedVar());
                    co["n"] = c.getCapturedVar()->getNameAsString();
                    co["ref"] = c.getCaptureKind() == LCK_ByRef;
                    if (const auto *v = dyn_cast<VarDecl>(c.getCapturedVar()); v && v->isInitCapture())
                        co["initcap"] = true;
                } else if (c.capturesThis()) {
                    co["this"] = true;
                }
                if (init != l->capture_init_end() && *init)
                    co["e"] = E(*init);
                ++init;
                caps.push_back(std::move(co));
            }
            o["caps"] = std::move(caps);
            json::Array ops;
            if (const auto *tpl = l->getLambdaClass()->getDependentLambdaCallOperator()) {
                for (const auto *sp : tpl->specializations())
                    ops.push_back(fn(sp));
                o["generic"] = true;
            } else {
                ops.push_back(fn(l->getCallOperator()));
            }
            o["ops"] = std::move(ops);
            break;
        }
        case Stmt::CXXThrowExprClass:
            o["k"] = "throw";
            o["l"] = line(e->getBeginLoc());
            if (const auto *s = cast<CXXThrowExpr>(e)->getSubExpr()) {
                o["e"] = E(s);
                o["tt"] = type(s->getType());
            }
            break;
        case Stmt::CXXNewExprClass: {
            const auto *n = cast<CXXNewExpr>(e);
            o["k"] = "new";
            o["at"] = type(n->getAllocatedType());
            if (n->getInitializer())
                o["e"] = E(n->getInitializer());
            break;
        }
        case Stmt::CXXDeleteExprClass:
            o["k"] = "delete";
            o["e"] = E(cast<CXXDeleteExpr>(e)->getArgument());
            break;
        case Stmt::OpaqueValueExprClass:
            return E(cast<OpaqueValueExpr>(e)->getSourceExpr());
        case Stmt::CXXUuidofExprClass:
        default:
            o["k"] = "unsup";
            o["what"] = e->getStmtClassName();
        }
        return o;
    }

    void write()
    {
        drain();
        std::error_code ec;
        llvm::raw_fd_ostream os(g_out, ec);
        if (ec) {
            llvm::errs() << "unable to write " << g_out << '\n';
            g_ok = false;
            return;
        }
        json::Object root;
        root["fns"] = std::move(fns);
        root["types"] = std::move(types);
        os << json::Value(std::move(root));
    }

    ASTContext &ctx;
    SourceManager &sm;
    PrintingPolicy pol;
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
    explicit Visitor(Dumper &d)
        : d(d)
    {
    }
    bool shouldVisitTemplateInstantiations() const
    {
        return true;
    }
    bool VisitFunctionDecl(FunctionDecl *f)
    {
        if (f->isThisDeclarationADefinition() && !f->isDependentContext() && d.inRoots(f->getLocation()))
            d.fn(f);
        return true;
    }
    Dumper &d;
};

class Consumer : public ASTConsumer {
public:
    explicit Consumer(CompilerInstance &ci)
        : ci(ci)
    {
    }
    void HandleTranslationUnit(ASTContext &ctx) override
    {
        // what can not be compiled (e.g. a template for a certain type) is left out
        if (ci.getDiagnostics().hasFatalErrorOccurred()) {
            g_ok = false;
            return;
        }
        g_ok = true;
        Dumper d(ctx);
        Visitor v(d);
        v.TraverseDecl(ctx.getTranslationUnitDecl());
        d.write();
    }
    CompilerInstance &ci;
};

class Action : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &ci, StringRef) override
    {
        return std::make_unique<Consumer>(ci);
    }
};

int main(int argc, const char **argv)
{
    if (argc < 5) {
        llvm::errs() << "usage: rrj-extract OUT.json ROOT[:ROOT...] FILE -- ARGS...\n";
        return 2;
    }
    g_out = argv[1];
    std::string roots = argv[2];
    for (size_t pos = 0; pos <= roots.size();) {
        auto e = roots.find(':', pos);
        if (e == std::string::npos)
            e = roots.size();
        if (e > pos)
            g_roots.push_back(roots.substr(pos, e - pos));
        pos = e + 1;
    }
    std::vector<std::string> args;
    for (int i = 5; i < argc; ++i)
        args.emplace_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", args);
    tooling::ClangTool tool(db, { argv[3] });
    tool.clearArgumentsAdjusters();
    tool.appendArgumentsAdjuster(tooling::getClangSyntaxOnlyAdjuster());
    const int rc = tool.run(tooling::newFrontendActionFactory<Action>().get());
    return !g_ok ? 2 : rc ? 3 : 0;
}
