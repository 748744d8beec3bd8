// astfacts: parses one translation unit with the clang front end and prints, as
// JSON, the facts that LLVM IR no longer carries: which method every member
// call names (keyed by file:line:col, the position the IR call keeps as debug
// location), the type of every throw expression, and the special members,
// fields, bases and overriders of every record defined in the repository.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/CXXInheritance.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/RecordLayout.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendActions.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <set>
#include <string>
#include <vector>
using namespace clang;
namespace json = llvm::json;
static std::vector<std::string> Roots;
static json::Array Calls, Throws, Records, Functions, Decls, Tmpl;

struct V : RecursiveASTVisitor<V> {
    ASTContext &C; SourceManager &SM;
    std::vector<const FunctionDecl *> Stack;
    std::set<std::string> Seen;
    V(ASTContext &c) : C(c), SM(c.getSourceManager()) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    std::string file(SourceLocation L) {
        auto P = SM.getPresumedLoc(SM.getExpansionLoc(L));
        if (P.isInvalid()) return "";
        std::string f = P.getFilename();
        return f;
    }
    bool repo(SourceLocation L) { auto f = file(L); for (auto &r : Roots) if (f.rfind(r, 0) == 0) return true; return false; }
    json::Array loc(SourceLocation L) {
        auto P = SM.getPresumedLoc(SM.getExpansionLoc(L));
        if (P.isInvalid()) return json::Array{"", 0, 0};
        return json::Array{P.getFilename(), (int64_t)P.getLine(), (int64_t)P.getColumn()};
    }
    bool TraverseFunctionLike(FunctionDecl *F, bool (V::*k)(FunctionDecl *)) { return true; }
    const FunctionDecl *enclosing() { return Stack.empty() ? nullptr : Stack.back(); }
    bool TraverseDecl(Decl *D) {
        bool push = D && isa<FunctionDecl>(D);
        if (push) Stack.push_back(cast<FunctionDecl>(D));
        bool r = RecursiveASTVisitor::TraverseDecl(D);
        if (push) Stack.pop_back();
        return r;
    }
    std::string fname(const FunctionDecl *F) { return F ? F->getQualifiedNameAsString() : ""; }
    bool VisitCXXMemberCallExpr(CXXMemberCallExpr *E) {
        if (!repo(E->getExprLoc())) return true;
        auto *M = E->getMethodDecl(); if (!M) return true;
        auto *ME = dyn_cast<MemberExpr>(E->getCallee()->IgnoreParens());
        bool virt = M->isVirtual() && !(ME && ME->hasQualifier());
        Calls.push_back(json::Object{{"loc", loc(E->getExprLoc())}, {"m", M->getNameAsString()}, {"cls", M->getParent()->getQualifiedNameAsString()},
            {"virt", virt}, {"np", (int64_t)M->getNumParams()}, {"const", M->isConst()}, {"fn", fname(enclosing())}});
        return true;
    }
    void addCall(SourceLocation L, const CXXMethodDecl *M) {
        Calls.push_back(json::Object{{"loc", loc(L)}, {"m", M->getNameAsString()}, {"cls", M->getParent()->getQualifiedNameAsString()},
            {"virt", M->isVirtual()}, {"np", (int64_t)M->getNumParams()}, {"const", M->isConst()}, {"fn", fname(enclosing())}});
    }
    bool VisitCXXOperatorCallExpr(CXXOperatorCallExpr *E) {
        if (!repo(E->getExprLoc())) return true;
        if (auto *M = dyn_cast_or_null<CXXMethodDecl>(E->getDirectCallee())) {
            if (!M->isVirtual()) return true;
            addCall(E->getBeginLoc(), M);
            if (E->getBeginLoc() != E->getExprLoc()) addCall(E->getExprLoc(), M);
        }
        return true;
    }
    bool VisitCXXDeleteExpr(CXXDeleteExpr *E) {
        if (!repo(E->getBeginLoc()) || E->getArgument()->isTypeDependent() || E->getDestroyedType().isNull()) return true;
        if (auto *R = E->getDestroyedType()->getAsCXXRecordDecl()) if (R->hasDefinition()) if (auto *D = R->getDestructor()) addCall(E->getBeginLoc(), D);
        return true;
    }
    bool VisitCXXThrowExpr(CXXThrowExpr *E) {
        if (!repo(E->getThrowLoc())) return true;
        json::Object o{{"loc", loc(E->getThrowLoc())}, {"fn", fname(enclosing())}};
        if (auto *S = E->getSubExpr()) {
            QualType T = S->getType().getCanonicalType();
            o["type"] = T.getAsString(); o["ptr"] = T->isPointerType() || T->isArrayType();
            bool ex = false;
            if (auto *R = T->getAsCXXRecordDecl()) if (R->hasDefinition()) {
                if (R->getQualifiedNameAsString() == "std::exception") ex = true;
                R->forallBases([&](const CXXRecordDecl *B) { if (B->getQualifiedNameAsString() == "std::exception") ex = true; return true; });
            }
            o["exc"] = ex;
            o["dep"] = T->isDependentType();
        } else o["rethrow"] = true;
        Throws.push_back(std::move(o));
        return true;
    }
    static const char *special(bool user, bool deleted, bool implicitExists) { return deleted ? "deleted" : user ? "user" : implicitExists ? "implicit" : "none"; }
    bool VisitCXXRecordDecl(CXXRecordDecl *R) {
        if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda() || !repo(R->getLocation())) return true;
        json::Object o{{"name", R->getQualifiedNameAsString()}, {"loc", loc(R->getLocation())}, {"type", C.getRecordType(R).getAsString()}};
        json::Array fs, bs, ms;
        for (auto *F : R->fields()) fs.push_back(json::Object{{"name", F->getNameAsString()}, {"type", F->getType().getCanonicalType().getAsString()}, {"ptr", F->getType()->isPointerType()}, {"init", F->hasInClassInitializer()},
            {"scalar", C.getBaseElementType(F->getType())->isScalarType()}, {"loc", loc(F->getLocation())}, {"mut", F->isMutable()}});
        for (auto &B : R->bases()) if (auto *BD = B.getType()->getAsCXXRecordDecl()) bs.push_back(json::Object{{"name", BD->getQualifiedNameAsString()}, {"virtual", B.isVirtual()}});
        bool cc = false, ca = false, dt = false, ccDel = false, caDel = false, ccPriv = false, caPriv = false; int nctor = 0;
        for (auto *M : R->methods()) {
            if (M->isImplicit()) { if (auto *K = dyn_cast<CXXConstructorDecl>(M)) { if (K->isCopyConstructor() && K->isDeleted()) ccDel = true; } else if (M->isCopyAssignmentOperator() && M->isDeleted()) caDel = true; }
            else {
                if (auto *K = dyn_cast<CXXConstructorDecl>(M)) { nctor++; if (K->isCopyConstructor()) { cc = !K->isDefaulted(); ccDel = K->isDeleted(); ccPriv = K->getAccess() == AS_private; } }
                else if (isa<CXXDestructorDecl>(M)) dt = true;
                else if (M->isCopyAssignmentOperator()) { ca = !M->isDefaulted(); caDel = M->isDeleted(); caPriv = M->getAccess() == AS_private; }
            }
            json::Array ov;
            for (auto *x : M->overridden_methods()) ov.push_back(x->getQualifiedNameAsString());
            ms.push_back(json::Object{{"name", M->getNameAsString()}, {"q", M->getQualifiedNameAsString()}, {"virtual", M->isVirtual()}, {"pure", M->isPureVirtual()}, {"const", M->isConst()}, {"static", M->isStatic()},
                {"access", (int64_t)M->getAccess()}, {"implicit", M->isImplicit()}, {"np", (int64_t)M->getNumParams()}, {"ret", M->getReturnType().getCanonicalType().getAsString()}, {"ov", std::move(ov)}, {"loc", loc(M->getLocation())}});
        }
        o["fields"] = std::move(fs); o["bases"] = std::move(bs); o["methods"] = std::move(ms); o["nctor"] = nctor;
        o["userCopyCtor"] = cc; o["userCopyAssign"] = ca; o["userDtor"] = dt; o["copyCtorDeleted"] = ccDel || ccPriv; o["copyAssignDeleted"] = caDel || caPriv;
        o["implicitCopyCtor"] = R->needsImplicitCopyConstructor() || (!cc && !ccDel); o["abstract"] = R->isAbstract();
        // overload resolution facts for needed-but-undeclared implicit members
        o["copyCtorUsable"] = !ccDel && !ccPriv && !R->defaultedCopyConstructorIsDeleted();
        Records.push_back(std::move(o));
        return true;
    }
    std::string ident(const FunctionDecl *F) {
        std::string s = F->getQualifiedNameAsString();
        if (F->isExternC()) return s;
        s += "(";
        for (unsigned k = 0; k < F->getNumParams(); k++) s += (k ? ", " : "") + F->getParamDecl(k)->getType().getCanonicalType().getAsString();
        s += ")";
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->isConst()) s += " const";
        return s;
    }
    void addDecl(std::string id, SourceLocation L, bool defined, bool pure, bool deleted, bool priv, bool used) {
        if (!Seen.insert(id + (defined ? "+" : "-")).second) return;
        Decls.push_back(json::Object{{"id", id}, {"loc", loc(L)}, {"defined", defined}, {"pure", pure}, {"deleted", deleted}, {"private", priv}, {"used", used}});
    }
    bool VisitClassTemplateDecl(ClassTemplateDecl *T) {
        if (repo(T->getLocation())) Tmpl.push_back(json::Object{{"name", T->getQualifiedNameAsString()}, {"loc", loc(T->getLocation())}});
        return true;
    }
    bool VisitVarDecl(VarDecl *D) {
        if (!repo(D->getLocation()) || !(D->isFileVarDecl() || D->isStaticDataMember()) || isa<VarTemplateSpecializationDecl>(D)) return true;
        if (D->isStaticDataMember() && D->getInstantiatedFromStaticDataMember()) return true;
        std::string id = D->getQualifiedNameAsString();
        bool def = D->hasDefinition() != VarDecl::DeclarationOnly || D->isInline();
        addDecl(id, D->getLocation(), def, false, false, D->getAccess() == AS_private, D->isReferenced());
        return true;
    }
    bool VisitFunctionDecl(FunctionDecl *F) {
        if (repo(F->getLocation()) && !F->isImplicit() && !F->getTemplateInstantiationPattern() && !(isa<FunctionDecl>(F->getDeclContext())))
            addDecl(ident(F), F->getLocation(), F->isDefined() || F->isDefaulted(), F->isPureVirtual(), F->isDeleted(), F->getAccess() == AS_private, F->isReferenced());
        if (!F->isThisDeclarationADefinition() || !repo(F->getLocation())) return true;
        Functions.push_back(json::Object{{"name", F->getQualifiedNameAsString()}, {"loc", loc(F->getLocation())}, {"implicit", F->isImplicit()}, {"dep", F->isDependentContext()}});
        return true;
    }
};
struct Cons : ASTConsumer { void HandleTranslationUnit(ASTContext &C) override { V v(C); v.TraverseDecl(C.getTranslationUnitDecl()); } };
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); } };

int main(int argc, char **argv) {
    std::vector<std::string> args; std::string src;
    int i = 1;
    for (; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--root") Roots.push_back(argv[++i]);
        else if (a == "--") { i++; break; }
        else src = a;
    }
    for (; i < argc; i++) args.push_back(argv[i]);
    tooling::FixedCompilationDatabase DB(".", args);
    tooling::ClangTool T(DB, {src});
    int r = T.run(tooling::newFrontendActionFactory<Act>().get());
    json::Object o{{"calls", std::move(Calls)}, {"throws", std::move(Throws)}, {"records", std::move(Records)}, {"functions", std::move(Functions)}, {"decls", std::move(Decls)}, {"tmpl", std::move(Tmpl)}};
    llvm::outs() << json::Value(std::move(o)) << "\n";
    return r;
}
