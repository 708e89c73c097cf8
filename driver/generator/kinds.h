// lets the analysis know the kinds of declarations matched when casting dynamically
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclFriend.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/Stmt.h>
#include <clang/Basic/DiagnosticCategories.h>

namespace RrjvKinds {
#define RRJV_KIND(name)                                                                                                                              \
    inline int kind##name##Decl()                                                                                                                    \
    {                                                                                                                                                \
        return static_cast<int>(clang::Decl::Kind::name);                                                                                            \
    }
RRJV_KIND(Field)
RRJV_KIND(Var)
RRJV_KIND(CXXRecord)
RRJV_KIND(ClassTemplateSpecialization)
RRJV_KIND(ClassTemplatePartialSpecialization)
RRJV_KIND(Function)
RRJV_KIND(Enum)
RRJV_KIND(Namespace)
#undef RRJV_KIND
inline int accessPublic()
{
    return static_cast<int>(clang::AS_public);
}
inline int accessProtected()
{
    return static_cast<int>(clang::AS_protected);
}
inline int accessPrivate()
{
    return static_cast<int>(clang::AS_private);
}
inline int accessNone()
{
    return static_cast<int>(clang::AS_none);
}
inline int argumentType()
{
    return static_cast<int>(clang::TemplateArgument::Type);
}
inline int stmtIntegerLiteral()
{
    return static_cast<int>(clang::Stmt::IntegerLiteralClass);
}
inline int categorySemantic()
{
    return static_cast<int>(clang::diag::DiagCat_Semantic_Issue);
}
inline int levelWarning()
{
    return static_cast<int>(clang::DiagnosticsEngine::Warning);
}
inline int levelError()
{
    return static_cast<int>(clang::DiagnosticsEngine::Error);
}
inline int levelFatal()
{
    return static_cast<int>(clang::DiagnosticsEngine::Fatal);
}
} // namespace RrjvKinds
