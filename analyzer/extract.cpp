// factorama fact extractor: type-checks one translation unit and writes the resolved program
// (records, functions, bodies, enums, globals) restricted to files below the given roots as JSON.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;
static std::string OutFile;

namespace
{
class Dumper
{
  public:
    ASTContext &C;
    SourceManager &SM;
    json::Array Records, Functions, Enums, Globals, StaticAsserts;
    std::set<std::string> SeenRec, SeenFn, SeenEnum, SeenGlob;
    std::map<const Decl *, int> LocalIds;
    int NextLocal = 0;
    PrintingPolicy PP;

    explicit Dumper(ASTContext &Ctx) : C(Ctx), SM(Ctx.getSourceManager()), PP(Ctx.getPrintingPolicy())
    {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.Bool = true;
        PP.SuppressInlineNamespace = true;
        PP.PrintCanonicalTypes = true;
    }

    std::string fileOf(SourceLocation L)
    {
        if (L.isInvalid())
            return "";
        PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L));
        if (P.isInvalid())
            return "";
        std::string F = P.getFilename();
        // normalise a/../b
        llvm::SmallString<256> S(F);
        if (auto FE = SM.getFileEntryRefForID(SM.getFileID(SM.getExpansionLoc(L)))) {
            StringRef R = FE->getFileEntry().tryGetRealPathName();
            if (!R.empty())
                return R.str();
        }
        return F;
    }
    int lineOf(SourceLocation L)
    {
        if (L.isInvalid())
            return 0;
        return SM.getExpansionLineNumber(L);
    }
    bool inRoots(SourceLocation L)
    {
        std::string F = fileOf(L);
        for (auto &R : Roots)
            if (F.compare(0, R.size(), R) == 0)
                return true;
        return false;
    }
    static std::string usr(const Decl *D)
    {
        llvm::SmallString<128> S;
        if (index::generateUSRForDecl(D, S))
            return "";
        return S.str().str();
    }
    std::string qname(const NamedDecl *D)
    {
        std::string S;
        llvm::raw_string_ostream OS(S);
        D->printQualifiedName(OS, PP);
        return OS.str();
    }
    std::string tstr(QualType T) { return T.isNull() ? std::string("") : T.getCanonicalType().getAsString(PP); }

    // compact description of a type
    json::Value type(QualType T)
    {
        json::Object O;
        if (T.isNull())
            return O;
        QualType Cn = T.getCanonicalType();
        bool Ref = false, RRef = false;
        if (Cn->isLValueReferenceType())
            Ref = true;
        if (Cn->isRValueReferenceType())
            RRef = true;
        QualType B = Cn.getNonReferenceType();
        if (Ref)
            O["ref"] = 1;
        if (RRef)
            O["rref"] = 1;
        if (B.isConstQualified())
            O["const"] = 1;
        if (B->isPointerType()) {
            O["ptr"] = 1;
            QualType P = B->getPointeeType();
            if (P.isConstQualified())
                O["pconst"] = 1;
            O["pointee"] = shortName(P.getUnqualifiedType());
        }
        O["n"] = shortName(B.getUnqualifiedType());
        if (const auto *RT = B->getAs<RecordType>()) {
            if (const auto *S = dyn_cast<ClassTemplateSpecializationDecl>(RT->getDecl())) {
                json::Array A;
                targs(S->getTemplateArgs().asArray(), A);
                O["targs"] = std::move(A);
            }
        }
        if (B->isIntegerType() && !B->isBooleanType() && !B->isEnumeralType())
            O["int"] = 1;
        else if (B->isBooleanType())
            O["bool"] = 1;
        else if (B->isFloatingType())
            O["fp"] = 1;
        else if (B->isEnumeralType())
            O["enum"] = 1;
        return O;
    }
    void targs(llvm::ArrayRef<TemplateArgument> Args, json::Array &A)
    {
        for (const auto &X : Args) {
            switch (X.getKind()) {
            case TemplateArgument::Type:
                A.push_back(shortName(X.getAsType().getCanonicalType()));
                break;
            case TemplateArgument::Integral: {
                A.push_back((int64_t)X.getAsIntegral().getExtValue());
                break;
            }
            case TemplateArgument::Pack:
                targs(X.pack_elements(), A);
                break;
            default:
                A.push_back("?");
            }
        }
    }
    // the name of a class of this repository: template arguments included, local and file-local classes told apart
    std::string recname(const TagDecl *D)
    {
        if (!inRoots(D->getLocation()))
            return qname(D);
        if (const auto *S = dyn_cast<ClassTemplateSpecializationDecl>(D))
            return shortName(S->getASTContext().getRecordType(S));
        std::string Q = qname(D);
        bool Local = D->getParentFunctionOrMethod() != nullptr;
        if (isa<CXXRecordDecl>(D) && (Local || D->isInAnonymousNamespace())) {
            std::string F = fileOf(D->getLocation());
            Q += "@" + F.substr(F.find_last_of('/') + 1);
            if (Local)
                Q += ":" + std::to_string(lineOf(D->getLocation()));
        }
        return Q;
    }

    std::string shortName(QualType T)
    {
        // Eigen::Matrix<...> -> Eigen::Matrix<double,3,1>; others printed canonically, cut if huge
        QualType B = T.getCanonicalType();
        std::string Pre;
        if (B.isConstQualified() && !B->isReferenceType())
            Pre = "const ";
        if (const auto *RT = B->getAs<RecordType>()) {
            if (const auto *S = dyn_cast<ClassTemplateSpecializationDecl>(RT->getDecl())) {
                std::string Q = qname(S);
                std::string Out = Q + "<";
                const auto &TA = S->getTemplateArgs();
                unsigned N = TA.size();
                if (Q == "Eigen::Matrix" || Q == "Eigen::Array")
                    N = 3;
                if (Q == "std::vector" || Q == "std::shared_ptr" || Q == "std::unique_ptr")
                    N = 1;
                if (Q == "std::unordered_map" || Q == "std::map")
                    N = 2;
                if (Q == "std::basic_string")
                    return Pre + "std::string";
                for (unsigned I = 0; I < N && I < TA.size(); ++I) {
                    if (I)
                        Out += ",";
                    const auto &X = TA[I];
                    if (X.getKind() == TemplateArgument::Type)
                        Out += shortName(X.getAsType());
                    else if (X.getKind() == TemplateArgument::Integral)
                        Out += std::to_string(X.getAsIntegral().getExtValue());
                    else if (X.getKind() == TemplateArgument::Pack) {
                        bool First = true;
                        for (const auto &Y : X.pack_elements()) {
                            if (!First)
                                Out += ",";
                            First = false;
                            Out += Y.getKind() == TemplateArgument::Type ? shortName(Y.getAsType()) : std::string("?");
                        }
                    }
                    else
                        Out += "?";
                    if (Out.size() > 400)
                        break;
                }
                Out += ">";
                return Pre + Out;
            }
            return Pre + recname(RT->getDecl());
        }
        if (B->isPointerType())
            return shortName(B->getPointeeType()) + "*";
        if (B->isReferenceType())
            return shortName(B->getPointeeType()) + "&";
        std::string S = B.getAsString(PP);
        if (S.size() > 400)
            S.resize(400);
        return S;
    }

    int localId(const Decl *D)
    {
        D = D->getCanonicalDecl();
        auto It = LocalIds.find(D);
        if (It != LocalIds.end())
            return It->second;
        return LocalIds[D] = ++NextLocal;
    }

    std::string fnId(const FunctionDecl *F)
    {
        std::string U = usr(F->getCanonicalDecl());
        if (const auto *Pat = F->getTemplateSpecializationArgs()) {
            json::Array A;
            targs(Pat->asArray(), A);
            std::string S;
            llvm::raw_string_ostream OS(S);
            OS << json::Value(std::move(A));
            U += "#T" + OS.str();
        }
        return U;
    }

    json::Value calleeInfo(const FunctionDecl *F)
    {
        json::Object O;
        O["name"] = F->getNameAsString();
        O["q"] = qname(F);
        if (inRoots(F->getLocation()) || (F->getTemplateInstantiationPattern() && inRoots(F->getTemplateInstantiationPattern()->getLocation())))
            O["id"] = fnId(F);
        if (const auto *M = dyn_cast<CXXMethodDecl>(F)) {
            O["rec"] = recname(M->getParent());
            if (M->isVirtual())
                O["virt"] = 1;
            if (M->isConst())
                O["const"] = 1;
            if (M->isStatic())
                O["static"] = 1;
        }
        if (const auto *TA = F->getTemplateSpecializationArgs()) {
            json::Array A;
            targs(TA->asArray(), A);
            O["targs"] = std::move(A);
        }
        O["ret"] = type(F->getReturnType());
        json::Array PT;
        for (const auto *P : F->parameters())
            PT.push_back(type(P->getType()));
        O["pt"] = std::move(PT);
        return O;
    }

    static const Expr *strip(const Expr *E)
    {
        while (true) {
            if (const auto *P = dyn_cast<ParenExpr>(E))
                E = P->getSubExpr();
            else if (const auto *W = dyn_cast<ExprWithCleanups>(E))
                E = W->getSubExpr();
            else if (const auto *M = dyn_cast<MaterializeTemporaryExpr>(E))
                E = M->getSubExpr();
            else if (const auto *B = dyn_cast<CXXBindTemporaryExpr>(E))
                E = B->getSubExpr();
            else if (const auto *S = dyn_cast<SubstNonTypeTemplateParmExpr>(E))
                E = S->getReplacement();
            else if (const auto *CE = dyn_cast<ConstantExpr>(E))
                E = CE->getSubExpr();
            else
                return E;
        }
    }

    template <class It> json::Array exprArr(It B, It E)
    {
        json::Array A;
        for (; B != E; ++B) {
            const Expr *X = *B;
            if (isa<CXXDefaultArgExpr>(X)) {
                json::Object D;
                D["k"] = "defarg";
                D["e"] = expr(cast<CXXDefaultArgExpr>(X)->getExpr());
                A.push_back(std::move(D));
                continue;
            }
            A.push_back(expr(X));
        }
        return A;
    }

    json::Value expr(const Expr *E0)
    {
        json::Object O;
        if (!E0) {
            O["k"] = "null";
            return O;
        }
        const Expr *E = strip(E0);
        if (const auto *I = dyn_cast<ImplicitCastExpr>(E)) {
            switch (I->getCastKind()) {
            case CK_FloatingToIntegral:
            case CK_IntegralToFloating:
            case CK_IntegralToBoolean:
            case CK_FloatingToBoolean:
            case CK_PointerToBoolean:
            case CK_IntegralCast: {
                O["k"] = "icast";
                O["ck"] = I->getCastKindName();
                O["t"] = type(I->getType());
                O["e"] = expr(I->getSubExpr());
                O["l"] = lineOf(E->getBeginLoc());
                return O;
            }
            default:
                return expr(I->getSubExpr());
            }
        }
        if (const auto *D = dyn_cast<CXXDefaultArgExpr>(E))
            return expr(D->getExpr());
        if (const auto *D = dyn_cast<CXXDefaultInitExpr>(E))
            return expr(D->getExpr());
        if (const auto *R = dyn_cast<CXXRewrittenBinaryOperator>(E))
            return expr(R->getSemanticForm());
        O["l"] = lineOf(E->getExprLoc());
        O["t"] = type(E->getType());
        if (E->isLValue())
            O["lv"] = 1;
        if (const auto *IL = dyn_cast<IntegerLiteral>(E)) {
            O["k"] = "int";
            O["v"] = (int64_t)IL->getValue().getLimitedValue();
        } else if (const auto *FL = dyn_cast<FloatingLiteral>(E)) {
            O["k"] = "float";
            llvm::SmallString<32> S;
            FL->getValue().toString(S, 0, 0);
            O["v"] = FL->getValue().convertToDouble();
            O["s"] = S.str().str();
            // spelled source
            StringRef Sp = Lexer::getSourceText(CharSourceRange::getTokenRange(FL->getSourceRange()), SM, C.getLangOpts());
            O["sp"] = Sp.str();
        } else if (const auto *BL = dyn_cast<CXXBoolLiteralExpr>(E)) {
            O["k"] = "boollit";
            O["v"] = BL->getValue();
        } else if (const auto *SL = dyn_cast<StringLiteral>(E)) {
            O["k"] = "str";
            O["v"] = SL->getCharByteWidth() == 1 ? json::fixUTF8(SL->getString()) : std::string("");
        } else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
            O["k"] = "nullptr";
        } else if (isa<CXXThisExpr>(E)) {
            O["k"] = "this";
        } else if (const auto *CL = dyn_cast<CharacterLiteral>(E)) {
            O["k"] = "char";
            O["v"] = (int64_t)CL->getValue();
        } else if (const auto *DR = dyn_cast<DeclRefExpr>(E)) {
            O["k"] = "ref";
            const ValueDecl *D = DR->getDecl();
            O["name"] = D->getNameAsString();
            if (const auto *EC = dyn_cast<EnumConstantDecl>(D)) {
                O["dk"] = "enum";
                O["q"] = qname(EC);
                O["v"] = (int64_t)EC->getInitVal().getExtValue();
                O["enum"] = qname(cast<EnumDecl>(EC->getDeclContext()));
            } else if (const auto *FD = dyn_cast<FunctionDecl>(D)) {
                O["dk"] = "fn";
                O["callee"] = calleeInfo(FD);
            } else if (const auto *VD = dyn_cast<VarDecl>(D)) {
                if (VD->hasGlobalStorage()) {
                    O["dk"] = "global";
                    O["q"] = qname(VD);
                    O["const"] = VD->getType().isConstQualified() || VD->isConstexpr();
                    if (VD->isStaticLocal())
                        O["slocal"] = 1;
                    O["id"] = usr(VD);
                    if (VD->getType().isConstQualified() && VD->getAnyInitializer() && inRoots(VD->getLocation()) && !VD->getAnyInitializer()->isValueDependent()) {
                        const VarDecl *Def = nullptr;
                        const Expr *Init = VD->getAnyInitializer(Def);
                        if (Init && (Init->getType()->isArithmeticType() || Init->getType()->isEnumeralType()))
                            O["init"] = expr(Init);
                    }
                } else {
                    O["dk"] = isa<ParmVarDecl>(VD) ? "param" : "local";
                    O["id"] = localId(VD);
                }
            } else if (isa<BindingDecl>(D)) {
                O["dk"] = "binding";
                O["id"] = localId(D);
            } else {
                O["dk"] = "other";
            }
        } else if (const auto *ME = dyn_cast<MemberExpr>(E)) {
            O["k"] = "member";
            O["name"] = ME->getMemberDecl()->getNameAsString();
            O["base"] = expr(ME->getBase());
            if (ME->isArrow())
                O["arrow"] = 1;
            if (const auto *FD = dyn_cast<FieldDecl>(ME->getMemberDecl())) {
                O["rec"] = recname(FD->getParent());
                O["field"] = 1;
            } else if (const auto *M = dyn_cast<CXXMethodDecl>(ME->getMemberDecl())) {
                O["callee"] = calleeInfo(M);
            } else if (const auto *VD = dyn_cast<VarDecl>(ME->getMemberDecl())) {
                O["k"] = "ref";
                O["dk"] = "global";
                O["q"] = qname(VD);
                O["const"] = VD->getType().isConstQualified() || VD->isConstexpr();
                O["id"] = usr(VD);
                if (VD->getAnyInitializer() && VD->getType().isConstQualified())
                    O["init"] = expr(VD->getAnyInitializer());
            }
        } else if (const auto *OC = dyn_cast<CXXOperatorCallExpr>(E)) {
            O["k"] = "opcall";
            O["op"] = getOperatorSpelling(OC->getOperator());
            if (const auto *F = OC->getDirectCallee())
                O["callee"] = calleeInfo(F);
            O["args"] = exprArr(OC->arg_begin(), OC->arg_end());
        } else if (const auto *MC = dyn_cast<CXXMemberCallExpr>(E)) {
            O["k"] = "mcall";
            if (const auto *M = MC->getMethodDecl()) {
                O["callee"] = calleeInfo(M);
                O["name"] = M->getNameAsString();
                O["rec"] = recname(M->getParent());
            }
            if (const Expr *Ob = MC->getImplicitObjectArgument())
                O["obj"] = expr(Ob);
            if (const auto *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParens())) {
                if (ME->isArrow())
                    O["arrow"] = 1;
                if (ME->hasQualifier())
                    O["qual"] = 1;
            }
            O["args"] = exprArr(MC->arg_begin(), MC->arg_end());
        } else if (const auto *CE = dyn_cast<CallExpr>(E)) {
            O["k"] = "call";
            if (const auto *F = CE->getDirectCallee()) {
                O["callee"] = calleeInfo(F);
                O["name"] = F->getNameAsString();
            } else {
                O["fn"] = expr(CE->getCallee());
            }
            O["args"] = exprArr(CE->arg_begin(), CE->arg_end());
        } else if (const auto *CC = dyn_cast<CXXConstructExpr>(E)) {
            const CXXConstructorDecl *D = CC->getConstructor();
            if (D->isCopyOrMoveConstructor() && CC->getNumArgs() >= 1 && !isa<CXXTemporaryObjectExpr>(CC)) {
                // copies/moves: keep a marker (by-value semantics matter), operand inside
                O["k"] = "copy";
                O["rec"] = recname(D->getParent());
                if (D->isMoveConstructor())
                    O["move"] = 1;
                if (CC->isElidable())
                    O["elide"] = 1;
                O["e"] = expr(CC->getArg(0));
            } else {
                O["k"] = "construct";
                O["rec"] = recname(D->getParent());
                O["callee"] = calleeInfo(D);
                if (CC->isListInitialization())
                    O["list"] = 1;
                O["args"] = exprArr(CC->arg_begin(), CC->arg_end());
            }
        } else if (const auto *CA = dyn_cast<ExplicitCastExpr>(E)) {
            O["k"] = "cast";
            O["ck"] = CA->getCastKindName();
            O["to"] = type(CA->getTypeAsWritten());
            O["style"] = CA->getStmtClassName();
            O["e"] = expr(CA->getSubExpr());
        } else if (const auto *UO = dyn_cast<UnaryOperator>(E)) {
            O["k"] = "unary";
            O["op"] = UnaryOperator::getOpcodeStr(UO->getOpcode()).str();
            if (UO->isPostfix())
                O["post"] = 1;
            O["e"] = expr(UO->getSubExpr());
        } else if (const auto *BO = dyn_cast<BinaryOperator>(E)) {
            O["k"] = BO->isCompoundAssignmentOp() ? "cassign" : BO->isAssignmentOp() ? "assign" : "binary";
            O["op"] = BO->getOpcodeStr().str();
            O["a"] = expr(BO->getLHS());
            O["b"] = expr(BO->getRHS());
        } else if (const auto *CO = dyn_cast<ConditionalOperator>(E)) {
            O["k"] = "cond";
            O["c"] = expr(CO->getCond());
            O["a"] = expr(CO->getTrueExpr());
            O["b"] = expr(CO->getFalseExpr());
        } else if (const auto *AS = dyn_cast<ArraySubscriptExpr>(E)) {
            O["k"] = "index";
            O["a"] = expr(AS->getBase());
            O["b"] = expr(AS->getIdx());
        } else if (const auto *IL = dyn_cast<InitListExpr>(E)) {
            O["k"] = "initlist";
            json::Array A;
            for (const Expr *X : IL->inits())
                A.push_back(expr(X));
            O["args"] = std::move(A);
        } else if (const auto *SI = dyn_cast<CXXStdInitializerListExpr>(E)) {
            return expr(SI->getSubExpr());
        } else if (const auto *TE = dyn_cast<CXXThrowExpr>(E)) {
            O["k"] = "throw";
            if (TE->getSubExpr())
                O["e"] = expr(TE->getSubExpr());
        } else if (const auto *NE = dyn_cast<CXXNewExpr>(E)) {
            O["k"] = "new";
            O["nt"] = type(NE->getAllocatedType());
            if (NE->getInitializer())
                O["e"] = expr(NE->getInitializer());
        } else if (const auto *DE = dyn_cast<CXXDeleteExpr>(E)) {
            O["k"] = "delete";
            O["e"] = expr(DE->getArgument());
        } else if (const auto *LE = dyn_cast<LambdaExpr>(E)) {
            O["k"] = "lambda";
            json::Array Ps;
            for (const auto *P : LE->getCallOperator()->parameters()) {
                json::Object Q;
                Q["name"] = P->getNameAsString();
                Q["id"] = localId(P);
                Q["t"] = type(P->getType());
                Ps.push_back(std::move(Q));
            }
            O["params"] = std::move(Ps);
            O["fnid"] = usr(LE->getCallOperator());
            json::Array Caps;
            for (const auto &Cp : LE->captures()) {
                json::Object Q;
                if (Cp.capturesThis())
                    Q["this"] = 1;
                if (Cp.capturesVariable()) {
                    Q["id"] = localId(Cp.getCapturedVar());
                    Q["name"] = Cp.getCapturedVar()->getNameAsString();
                    if (const auto *CV = dyn_cast<VarDecl>(Cp.getCapturedVar()))
                        if (CV->isInitCapture() && CV->getInit()) {
                            Q["init"] = expr(CV->getInit());
                            Q["t"] = type(CV->getType());
                        }
                }
                Q["byref"] = Cp.getCaptureKind() == LCK_ByRef;
                Caps.push_back(std::move(Q));
            }
            O["caps"] = std::move(Caps);
            if (LE->isGenericLambda()) {
                O["generic"] = 1;
                // use the first instantiation if there is one, plus the pattern
                if (auto *FT = LE->getCallOperator()->getDescribedFunctionTemplate()) {
                    for (auto *Sp : FT->specializations()) {
                        json::Array Ps2;
                        for (const auto *P : Sp->parameters()) {
                            json::Object Q;
                            Q["name"] = P->getNameAsString();
                            Q["id"] = localId(P);
                            Q["t"] = type(P->getType());
                            Ps2.push_back(std::move(Q));
                        }
                        O["params"] = std::move(Ps2);
                        O["body"] = stmt(Sp->getBody());
                        break;
                    }
                }
                if (!O.get("body"))
                    O["body"] = stmt(LE->getBody());
            } else {
                O["body"] = stmt(LE->getBody());
            }
            O["ret"] = type(LE->getCallOperator()->getReturnType());
        } else if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) {
            O["k"] = "zeroinit";
        } else if (const auto *UE = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
            O["k"] = "sizeof";
            Expr::EvalResult R;
            if (!UE->isValueDependent() && !UE->isTypeDependent() && UE->EvaluateAsInt(R, C))
                O["v"] = (int64_t)R.Val.getInt().getExtValue();
        } else if (const auto *ID = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
            O["k"] = "construct";
            O["rec"] = recname(ID->getConstructor()->getParent());
            O["callee"] = calleeInfo(ID->getConstructor());
            O["args"] = json::Array();
        } else if (const auto *PE = dyn_cast<PredefinedExpr>(E)) {
            O["k"] = "str";
            (void)PE;
        } else {
            O["k"] = "unknown";
            O["cls"] = E->getStmtClassName();
            json::Array A;
            for (const Stmt *Ch : E->children())
                if (const auto *CE2 = dyn_cast_or_null<Expr>(Ch))
                    A.push_back(expr(CE2));
            O["args"] = std::move(A);
        }
        return O;
    }

    json::Value varDecl(const VarDecl *V)
    {
        json::Object O;
        O["name"] = V->getNameAsString();
        O["id"] = localId(V);
        O["t"] = type(V->getType());
        O["l"] = lineOf(V->getLocation());
        if (V->isStaticLocal()) {
            O["static"] = 1;
            O["const"] = V->getType().isConstQualified();
            addGlobal(V);
        }
        if (V->getInit()) {
            O["init"] = expr(V->getInit());
            O["istyle"] = (int)V->getInitStyle();
        }
        if (const auto *DD = dyn_cast<DecompositionDecl>(V)) {
            json::Array B;
            for (const auto *X : DD->bindings()) {
                json::Object Q;
                Q["id"] = localId(X);
                Q["name"] = X->getNameAsString();
                if (X->getBinding())
                    Q["e"] = expr(X->getBinding());
                B.push_back(std::move(Q));
            }
            O["bindings"] = std::move(B);
        }
        return O;
    }

    json::Value stmt(const Stmt *S)
    {
        json::Object O;
        if (!S) {
            O["k"] = "empty";
            return O;
        }
        O["l"] = lineOf(S->getBeginLoc());
        if (const auto *CS = dyn_cast<CompoundStmt>(S)) {
            O["k"] = "block";
            json::Array A;
            for (const Stmt *X : CS->body())
                A.push_back(stmt(X));
            O["b"] = std::move(A);
            O["le"] = lineOf(CS->getRBracLoc());
        } else if (const auto *DS = dyn_cast<DeclStmt>(S)) {
            O["k"] = "decl";
            json::Array A;
            for (const Decl *D : DS->decls())
                if (const auto *V = dyn_cast<VarDecl>(D))
                    A.push_back(varDecl(V));
            O["d"] = std::move(A);
        } else if (const auto *IS = dyn_cast<IfStmt>(S)) {
            O["k"] = "if";
            if (IS->isConstexpr())
                O["cx"] = 1;
            if (IS->getInit())
                O["init"] = stmt(IS->getInit());
            if (IS->getConditionVariable())
                O["cv"] = varDecl(IS->getConditionVariable());
            O["c"] = expr(IS->getCond());
            O["then"] = stmt(IS->getThen());
            if (IS->getElse())
                O["else"] = stmt(IS->getElse());
        } else if (const auto *FS = dyn_cast<ForStmt>(S)) {
            O["k"] = "for";
            if (FS->getInit())
                O["init"] = stmt(FS->getInit());
            if (FS->getCond())
                O["c"] = expr(FS->getCond());
            if (FS->getInc())
                O["inc"] = expr(FS->getInc());
            O["body"] = stmt(FS->getBody());
        } else if (const auto *RF = dyn_cast<CXXForRangeStmt>(S)) {
            O["k"] = "rangefor";
            O["var"] = varDecl(RF->getLoopVariable());
            O["range"] = expr(RF->getRangeInit());
            O["body"] = stmt(RF->getBody());
        } else if (const auto *WS = dyn_cast<WhileStmt>(S)) {
            O["k"] = "while";
            if (WS->getConditionVariable())
                O["cv"] = varDecl(WS->getConditionVariable());
            O["c"] = expr(WS->getCond());
            O["body"] = stmt(WS->getBody());
        } else if (const auto *DW = dyn_cast<DoStmt>(S)) {
            O["k"] = "do";
            O["c"] = expr(DW->getCond());
            O["body"] = stmt(DW->getBody());
        } else if (const auto *SS = dyn_cast<SwitchStmt>(S)) {
            O["k"] = "switch";
            O["c"] = expr(SS->getCond());
            O["body"] = stmt(SS->getBody());
        } else if (const auto *Ca = dyn_cast<CaseStmt>(S)) {
            O["k"] = "case";
            O["v"] = expr(Ca->getLHS());
            O["s"] = stmt(Ca->getSubStmt());
        } else if (const auto *De = dyn_cast<DefaultStmt>(S)) {
            O["k"] = "default";
            O["s"] = stmt(De->getSubStmt());
        } else if (const auto *RS = dyn_cast<ReturnStmt>(S)) {
            O["k"] = "return";
            if (RS->getRetValue())
                O["e"] = expr(RS->getRetValue());
        } else if (isa<BreakStmt>(S)) {
            O["k"] = "break";
        } else if (isa<ContinueStmt>(S)) {
            O["k"] = "continue";
        } else if (const auto *TS = dyn_cast<CXXTryStmt>(S)) {
            O["k"] = "try";
            O["body"] = stmt(TS->getTryBlock());
            json::Array H;
            for (unsigned I = 0; I < TS->getNumHandlers(); ++I) {
                const CXXCatchStmt *Cs = TS->getHandler(I);
                json::Object Q;
                if (Cs->getExceptionDecl()) {
                    Q["t"] = type(Cs->getExceptionDecl()->getType());
                    Q["id"] = localId(Cs->getExceptionDecl());
                } else
                    Q["all"] = 1;
                Q["body"] = stmt(Cs->getHandlerBlock());
                H.push_back(std::move(Q));
            }
            O["h"] = std::move(H);
        } else if (isa<NullStmt>(S)) {
            O["k"] = "empty";
        } else if (const auto *AS = dyn_cast<AttributedStmt>(S)) {
            return stmt(AS->getSubStmt());
        } else if (const auto *LS = dyn_cast<LabelStmt>(S)) {
            O["k"] = "label";
            O["name"] = LS->getName();
            O["s"] = stmt(LS->getSubStmt());
        } else if (const auto *GS = dyn_cast<GotoStmt>(S)) {
            O["k"] = "goto";
            O["name"] = GS->getLabel()->getNameAsString();
        } else if (const auto *E = dyn_cast<Expr>(S)) {
            O["k"] = "expr";
            O["e"] = expr(E);
        } else {
            O["k"] = "unknownstmt";
            O["cls"] = S->getStmtClassName();
        }
        return O;
    }

    const char *acc(AccessSpecifier A)
    {
        switch (A) {
        case AS_public:
            return "public";
        case AS_protected:
            return "protected";
        case AS_private:
            return "private";
        default:
            return "none";
        }
    }

    void addFunction(const FunctionDecl *F)
    {
        if (F->isDependentContext() || F->isTemplated())
            return;
        if (!inRoots(F->getLocation()))
            return;
        if (const auto *M = dyn_cast<CXXMethodDecl>(F))
            if (M->getParent()->isLambda())
                return;
        std::string Id = fnId(F);
        bool HasBody = F->doesThisDeclarationHaveABody() || F->isDefaulted();
        if (!HasBody && F->getDefinition() && F->getDefinition() != F)
            return;
        if (!SeenFn.insert(Id).second)
            return;
        json::Object O;
        O["id"] = Id;
        O["name"] = F->getNameAsString();
        O["q"] = qname(F);
        O["file"] = fileOf(F->getLocation());
        O["line"] = lineOf(F->getLocation());
        O["ret"] = type(F->getReturnType());
        O["implicit"] = F->isImplicit();
        O["defaulted"] = F->isDefaulted();
        O["deleted"] = F->isDeleted();
        O["intern"] = F->getFormalLinkage() == Linkage::Internal || F->isInAnonymousNamespace();
        if (const auto *TA = F->getTemplateSpecializationArgs()) {
            json::Array A;
            targs(TA->asArray(), A);
            O["targs"] = std::move(A);
        }
        if (const auto *M = dyn_cast<CXXMethodDecl>(F)) {
            O["rec"] = recname(M->getParent());
            O["const"] = M->isConst();
            O["static"] = M->isStatic();
            O["virt"] = M->isVirtual();
            O["pure"] = M->isPureVirtual();
            O["access"] = acc(M->getAccess());
            json::Array Ov;
            for (const auto *B : M->overridden_methods())
                Ov.push_back(fnId(B));
            O["overrides"] = std::move(Ov);
            if (isa<CXXConstructorDecl>(F)) {
                O["ctor"] = 1;
                const auto *CD = cast<CXXConstructorDecl>(F);
                if (CD->isCopyConstructor())
                    O["copyctor"] = 1;
                if (CD->isMoveConstructor())
                    O["movector"] = 1;
            }
            if (isa<CXXDestructorDecl>(F))
                O["dtor"] = 1;
        }
        if (const auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
            json::Array In;
            for (const auto *I : CD->inits()) {
                json::Object Q;
                if (I->isMemberInitializer())
                    Q["field"] = I->getMember()->getNameAsString();
                else if (I->isBaseInitializer())
                    Q["base"] = shortName(QualType(I->getBaseClass(), 0));
                else if (I->isDelegatingInitializer())
                    Q["delegating"] = 1;
                Q["written"] = I->isWritten();
                Q["l"] = lineOf(I->getSourceLocation());
                Q["e"] = expr(I->getInit());
                In.push_back(std::move(Q));
            }
            O["inits"] = std::move(In);
        }
        json::Array Ps;
        for (const auto *P : F->parameters()) {
            json::Object Q;
            Q["name"] = P->getNameAsString();
            Q["id"] = localId(P);
            Q["t"] = type(P->getType());
            if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg())
                Q["def"] = expr(P->getDefaultArg());
            Ps.push_back(std::move(Q));
        }
        // redeclarations use distinct ParmVarDecls; defaults may sit on the first declaration
        const FunctionDecl *First = F->getFirstDecl();
        if (First != F) {
            for (unsigned I = 0; I < First->getNumParams(); ++I) {
                const auto *P = First->getParamDecl(I);
                auto &Q = *Ps[I].getAsObject();
                if (P->hasDefaultArg() && !Q.get("def") && !P->hasUninstantiatedDefaultArg())
                    Q["def"] = expr(P->getDefaultArg());
                if (P->getNameAsString() != F->getParamDecl(I)->getNameAsString())
                    Q["dname"] = P->getNameAsString();
            }
        }
        O["params"] = std::move(Ps);
        if (F->doesThisDeclarationHaveABody() && F->getBody())
            O["body"] = stmt(F->getBody());
        Functions.push_back(std::move(O));
    }

    // the elements of a constant array of strings (possibly wrapped in a record such as std::array)
    bool strings(const APValue &A, json::Array &S)
    {
        if (A.isStruct())
            return A.getStructNumBases() == 0 && A.getStructNumFields() == 1 && strings(A.getStructField(0), S);
        if (!A.isArray())
            return false;
        unsigned N = A.getArraySize(), I = A.getArrayInitializedElts();
        for (unsigned K = 0; K < N; ++K) {
            if (K >= I && !A.hasArrayFiller()) {
                S.push_back(nullptr);
                continue;
            }
            const APValue &X = K < I ? A.getArrayInitializedElt(K) : A.getArrayFiller();
            if (!X.isLValue())
                return false;
            if (X.isNullPointer()) {
                S.push_back(nullptr);
                continue;
            }
            const auto *B = X.getLValueBase().dyn_cast<const Expr *>();
            const auto *L = B ? dyn_cast<StringLiteral>(B->IgnoreParenImpCasts()) : nullptr;
            if (!L || !L->isOrdinary())
                return false;
            std::string T = L->getString().str();
            uint64_t Off = X.getLValueOffset().getQuantity();
            S.push_back(Off <= T.size() ? T.substr(Off) : std::string());
        }
        return true;
    }

    // whether a value of the type has parts that can change although it is const
    bool hasMutable(QualType T, int Depth = 0)
    {
        T = T.getNonReferenceType();
        if (const auto *AT = T->getAsArrayTypeUnsafe())
            return hasMutable(AT->getElementType(), Depth);
        const CXXRecordDecl *R = T->getAsCXXRecordDecl();
        if (!R || !R->hasDefinition() || Depth > 12)
            return false;
        R = R->getDefinition();
        for (const FieldDecl *F : R->fields())
            if (F->isMutable() || hasMutable(F->getType(), Depth + 1))
                return true;
        for (const auto &B : R->bases())
            if (hasMutable(B.getType(), Depth + 1))
                return true;
        return false;
    }

    void addGlobal(const VarDecl *V)
    {
        std::string Id = usr(V);
        if (!SeenGlob.insert(Id).second)
            return;
        json::Object O;
        O["name"] = V->getNameAsString();
        O["q"] = qname(V);
        O["file"] = fileOf(V->getLocation());
        O["line"] = lineOf(V->getLocation());
        O["t"] = type(V->getType());
        O["tstr"] = tstr(V->getType()).substr(0, 200);
        O["const"] = V->getType().isConstQualified() || V->isConstexpr();
        O["constexpr"] = V->isConstexpr();
        O["slocal"] = V->isStaticLocal();
        O["tls"] = V->getTLSKind() != VarDecl::TLS_None;
        O["staticmember"] = V->isStaticDataMember();
        O["extern"] = V->hasExternalStorage();
        O["mutbl"] = hasMutable(V->getType());
        if (const auto *P = V->getType()->getPointeeType().getTypePtrOrNull())
            O["pointeeconst"] = QualType(V->getType()->getPointeeType()).isConstQualified() || P->isFunctionType();
        if (V->getAnyInitializer() && !V->getType()->isDependentType() && (V->isConstexpr() || V->getType().isConstQualified())) {
            if (const APValue *A = V->evaluateValue()) {
                json::Array S;
                if (strings(*A, S))
                    O["strs"] = std::move(S);
            }
        }
        Globals.push_back(std::move(O));
    }

    void addEnum(const EnumDecl *E)
    {
        std::string Id = usr(E);
        if (!SeenEnum.insert(Id).second)
            return;
        json::Object O;
        O["q"] = qname(E);
        O["file"] = fileOf(E->getLocation());
        O["line"] = lineOf(E->getLocation());
        O["scoped"] = E->isScoped();
        json::Array A;
        for (const auto *X : E->enumerators()) {
            json::Object Q;
            Q["name"] = X->getNameAsString();
            Q["q"] = qname(X);
            Q["v"] = (int64_t)X->getInitVal().getExtValue();
            A.push_back(std::move(Q));
        }
        O["e"] = std::move(A);
        Enums.push_back(std::move(O));
    }

    void addRecord(const CXXRecordDecl *R)
    {
        if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda())
            return;
        std::string Id = usr(R);
        if (!SeenRec.insert(Id).second)
            return;
        json::Object O;
        O["id"] = Id;
        O["q"] = recname(R);
        O["file"] = fileOf(R->getLocation());
        O["line"] = lineOf(R->getLocation());
        O["abstract"] = R->isAbstract();
        O["final"] = R->isEffectivelyFinal();
        json::Array Bs;
        for (const auto &B : R->bases())
            Bs.push_back(shortName(B.getType()));
        O["bases"] = std::move(Bs);
        json::Array Fs;
        for (const auto *F : R->fields()) {
            json::Object Q;
            Q["name"] = F->getNameAsString();
            Q["t"] = type(F->getType());
            Q["mutable"] = F->isMutable();
            Q["access"] = acc(F->getAccess());
            Q["line"] = lineOf(F->getLocation());
            if (F->hasInClassInitializer() && F->getInClassInitializer())
                Q["init"] = expr(F->getInClassInitializer());
            Fs.push_back(std::move(Q));
        }
        O["fields"] = std::move(Fs);
        json::Array Ms;
        for (const auto *M : R->methods()) {
            json::Object Q;
            Q["id"] = fnId(M);
            Q["name"] = M->getNameAsString();
            Q["const"] = M->isConst();
            Q["static"] = M->isStatic();
            Q["virt"] = M->isVirtual();
            Q["pure"] = M->isPureVirtual();
            Q["implicit"] = M->isImplicit();
            Q["defaulted"] = M->isDefaulted();
            Q["deleted"] = M->isDeleted();
            Q["access"] = acc(M->getAccess());
            Q["ret"] = type(M->getReturnType());
            Q["rets"] = tstr(M->getReturnType()).substr(0, 300);
            Q["line"] = lineOf(M->getLocation());
            if (isa<CXXConstructorDecl>(M))
                Q["ctor"] = 1;
            json::Array Ov;
            for (const auto *B : M->overridden_methods())
                Ov.push_back(fnId(B));
            Q["overrides"] = std::move(Ov);
            json::Array Ps;
            for (const auto *P : M->parameters()) {
                json::Object PQ;
                PQ["name"] = P->getNameAsString();
                PQ["t"] = type(P->getType());
                PQ["def"] = P->hasDefaultArg();
                Ps.push_back(std::move(PQ));
            }
            Q["params"] = std::move(Ps);
            Ms.push_back(std::move(Q));
        }
        O["methods"] = std::move(Ms);
        json::Array Fr;
        for (const auto *F : R->friends()) {
            (void)F;
            Fr.push_back(1);
        }
        O["friends"] = std::move(Fr);
        Records.push_back(std::move(O));
    }
};

class Visitor : public RecursiveASTVisitor<Visitor>
{
  public:
    Dumper &D;
    explicit Visitor(Dumper &Dd) : D(Dd) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl *F)
    {
        D.addFunction(F);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *R)
    {
        if (D.inRoots(R->getLocation()))
            D.addRecord(R);
        return true;
    }
    bool VisitEnumDecl(EnumDecl *E)
    {
        if (D.inRoots(E->getLocation()))
            D.addEnum(E);
        return true;
    }
    bool VisitVarDecl(VarDecl *V)
    {
        if (V->hasGlobalStorage() && !V->isTemplated() && D.inRoots(V->getLocation()))
            D.addGlobal(V);
        return true;
    }
    bool TraverseDecl(Decl *Dc)
    {
        // skip everything declared at file scope outside of the roots (system headers, Eigen, pybind11)
        if (Dc && !isa<TranslationUnitDecl>(Dc)) {
            const DeclContext *DC = Dc->getDeclContext();
            if (DC && DC->isTranslationUnit() && !D.inRoots(Dc->getLocation()))
                return true;
        }
        return RecursiveASTVisitor<Visitor>::TraverseDecl(Dc);
    }
};

class Consumer : public ASTConsumer
{
  public:
    void HandleTranslationUnit(ASTContext &Ctx) override
    {
        if (Ctx.getDiagnostics().hasErrorOccurred() || Ctx.getDiagnostics().hasUncompilableErrorOccurred())
            return;
        Dumper D(Ctx);
        Visitor V(D);
        V.TraverseDecl(Ctx.getTranslationUnitDecl());
        json::Object O;
        O["records"] = std::move(D.Records);
        O["functions"] = std::move(D.Functions);
        O["enums"] = std::move(D.Enums);
        O["globals"] = std::move(D.Globals);
        std::error_code EC;
        llvm::raw_fd_ostream OS(OutFile, EC);
        OS << json::Value(std::move(O));
    }
};
class Action : public ASTFrontendAction
{
  public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override
    {
        return std::make_unique<Consumer>();
    }
};
} // namespace

int main(int argc, const char **argv)
{
    // extract OUT ROOT[,ROOT...] FILE -- flags...
    if (argc < 5)
        return 2;
    OutFile = argv[1];
    std::string R = argv[2];
    size_t P = 0;
    while (P <= R.size()) {
        size_t Q = R.find(',', P);
        if (Q == std::string::npos)
            Q = R.size();
        if (Q > P)
            Roots.push_back(R.substr(P, Q - P));
        P = Q + 1;
    }
    std::string File = argv[3];
    std::vector<std::string> Flags;
    for (int I = 5; I < argc; ++I)
        Flags.push_back(argv[I]);
    tooling::FixedCompilationDatabase DB(".", Flags);
    tooling::ClangTool Tool(DB, {File});
    return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
