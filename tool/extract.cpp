// Dumps the resolved (type-checked, template-instantiated) syntax tree of the functions, records, globals and enums
// of one translation unit as JSON.  Nothing is executed: the tool only runs the compiler's front end.
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
#include <sstream>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> Roots;  // path prefixes whose functions are dumped
static std::string OutFile;

struct Dumper {
    ASTContext& C;
    PrintingPolicy PP;
    Object Functions, Records, Globals, Enums;
    std::map<const void*, int> Ids;
    int unsupported = 0;

    explicit Dumper(ASTContext& C)
    : C(C)
    , PP(C.getPrintingPolicy()) {
        PP.SuppressInlineNamespace = true;
        PP.SuppressUnwrittenScope = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
        PP.SuppressTagKeyword = true;
        PP.Bool = true;
        PP.AnonymousTagLocations = true;
        PP.SuppressDefaultTemplateArgs = true;
    }

    int id(const void* p) {
        auto it = Ids.find(p);
        if (it != Ids.end()) return it->second;
        int n = Ids.size() + 1;
        Ids[p] = n;
        return n;
    }

    // drops default template arguments of library containers, for readability
    static std::string simplify(std::string S) {
        static const char* Drop[] = { ", std::allocator<", ", std::default_delete<", ", std::hash<", ", std::equal_to<",
            ", std::less<", ", std::char_traits<" };
        for (auto* d : Drop) {
            size_t p;
            while ((p = S.find(d)) != std::string::npos) {
                size_t q = p + strlen(d);
                int depth = 1;
                while (q < S.size() && depth) {
                    if (S[q] == '<') depth++;
                    else if (S[q] == '>' && S[q - 1] != '-') depth--;
                    q++;
                }
                if (S.compare(q, 2, "{}") == 0) {  // an object of the class is a template argument of its own
                    S.replace(p + 2, 5, "STD::");
                    continue;
                }
                S.erase(p, q - p);
            }
        }
        size_t p;
        while ((p = S.find("STD::")) != std::string::npos) S.replace(p, 5, "std::");
        while ((p = S.find("std::basic_string<char>")) != std::string::npos) S.replace(p, 23, "std::string");
        return S;
    }
    std::string lambdaName(const CXXRecordDecl* R) {
        auto& SM = C.getSourceManager();
        PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(R->getBeginLoc()));
        std::string f = P.isValid() ? P.getFilename() : "?";
        return "lambda@" + f + ":" + std::to_string(P.isValid() ? P.getLine() : 0) + ":" +
               std::to_string(P.isValid() ? P.getColumn() : 0);
    }
    std::string type(QualType T) {
        if (T.isNull()) return "?";
        if (auto* R = T->getAsCXXRecordDecl(); R && R->isLambda()) return lambdaName(R);
        return simplify(T.getCanonicalType().getAsString(PP));
    }

    std::string file(SourceLocation L) {
        auto& SM = C.getSourceManager();
        PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L));
        return P.isValid() ? P.getFilename() : "";
    }
    int line(SourceLocation L) {
        auto& SM = C.getSourceManager();
        PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L));
        return P.isValid() ? P.getLine() : 0;
    }

    std::string qname(const NamedDecl* D) {
        std::string S;
        llvm::raw_string_ostream OS(S);
        D->printQualifiedName(OS, PP);
        return simplify(OS.str());
    }
    std::string key(const FunctionDecl* F) {
        F = F->getCanonicalDecl();
        if (auto* M = dyn_cast<CXXMethodDecl>(F); M && M->getParent()->isLambda()) {
            std::string S = lambdaName(M->getParent());
            for (auto& t : targs(F))
                if (auto s = t.getAsString()) S += " <" + s->str() + ">";
            // the instantiation of the enclosing template tells copies of one lambda apart
            if (auto* PF = dyn_cast_or_null<FunctionDecl>(M->getParent()->getParentFunctionOrMethod()))
                if (PF->isTemplateInstantiation()) S += " in " + key(PF);
            return S + " " + type(F->getType());
        }
        std::string S;
        llvm::raw_string_ostream OS(S);
        F->getNameForDiagnostic(OS, PP, true);
        OS << " " << type(F->getType());
        return simplify(OS.str());
    }
    Array targs(const FunctionDecl* F) {
        Array A;
        if (auto* L = F->getTemplateSpecializationArgs()) {
            for (auto& X : L->asArray()) {
                if (X.getKind() == TemplateArgument::Type) A.push_back(type(X.getAsType()));
                else if (X.getKind() == TemplateArgument::Pack) {
                    for (auto& Y : X.pack_elements())
                        if (Y.getKind() == TemplateArgument::Type) A.push_back(type(Y.getAsType()));
                } else {
                    std::string S;
                    llvm::raw_string_ostream OS(S);
                    X.print(PP, OS, true);
                    A.push_back(OS.str());
                }
            }
        }
        return A;
    }
    bool inRoots(SourceLocation L) {
        auto f = file(L);
        for (auto& r : Roots)
            if (f.rfind(r, 0) == 0) return true;
        return false;
    }

    Object node(const char* k, SourceLocation L) {
        Object o{ { "k", k } };
        if (L.isValid()) o["l"] = line(L);
        return o;
    }

    Object calleeInfo(const FunctionDecl* F) {
        Object o;
        o["key"] = key(F);
        o["n"] = qname(F);
        auto T = targs(F);
        if (!T.empty()) o["ta"] = std::move(T);
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            o["cls"] = type(C.getRecordType(M->getParent()));
            if (M->isVirtual()) o["virt"] = true;
            if (M->isStatic()) o["st"] = true;
            if (M->getParent()->isLambda()) o["lam"] = true;
        }
        if (F->isDefaulted()) o["dflt"] = true;
        if (F->isNoReturn()) o["noret"] = true;
        // functions whose body is synthesised on first use
        return o;
    }

    Value args(ArrayRef<const Expr*> A) {
        Array R;
        for (auto* a : A) R.push_back(expr(a));
        return R;
    }

    template <class It>
    Value argsR(It b, It e) {
        Array R;
        for (; b != e; ++b) R.push_back(expr(*b));
        return R;
    }

    Value expr(const Expr* E) {
        if (!E) return nullptr;
        SourceLocation L = E->getExprLoc();
        if (auto* X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
        if (auto* X = dyn_cast<FullExpr>(E)) return expr(X->getSubExpr());
        if (auto* X = dyn_cast<MaterializeTemporaryExpr>(E)) return expr(X->getSubExpr());
        if (auto* X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
        if (auto* X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
        if (auto* X = dyn_cast<CXXDefaultArgExpr>(E)) return expr(X->getExpr());
        if (auto* X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
        if (auto* X = dyn_cast<CXXRewrittenBinaryOperator>(E)) return expr(X->getSemanticForm());
        if (auto* X = dyn_cast<CXXStdInitializerListExpr>(E)) return expr(X->getSubExpr());
        if (auto* X = dyn_cast<OpaqueValueExpr>(E)) return expr(X->getSourceExpr());
        if (auto* X = dyn_cast<GenericSelectionExpr>(E)) return expr(X->getResultExpr());
        if (auto* X = dyn_cast<ChooseExpr>(E)) return expr(X->getChosenSubExpr());
        if (auto* X = dyn_cast<IntegerLiteral>(E)) {
            auto o = node("int", L);
            llvm::SmallString<32> S;
            X->getValue().toString(S, 10, X->getType()->isSignedIntegerType());
            o["v"] = std::string(S.str());
            o["t"] = type(X->getType());
            return o;
        }
        if (auto* X = dyn_cast<CharacterLiteral>(E)) {
            auto o = node("int", L);
            o["v"] = std::to_string((int)X->getValue());
            o["t"] = type(X->getType());
            return o;
        }
        if (auto* X = dyn_cast<CXXBoolLiteralExpr>(E)) {
            auto o = node("bool", L);
            o["v"] = X->getValue();
            return o;
        }
        if (auto* X = dyn_cast<FloatingLiteral>(E)) {
            auto o = node("flt", L);
            o["v"] = X->getValueAsApproximateDouble();
            return o;
        }
        if (auto* X = dyn_cast<clang::StringLiteral>(E)) {
            auto o = node("str", L);
            Array B;
            if (X->getCharByteWidth() == 1)
                for (unsigned char c : X->getBytes()) B.push_back((int)c);
            o["v"] = std::move(B);
            return o;
        }
        if (auto* X = dyn_cast<PredefinedExpr>(E)) return X->getFunctionName() ? expr(X->getFunctionName()) : Value(nullptr);
        if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return node("null", L);
        if (isa<CXXThisExpr>(E)) return node("this", L);
        if (auto* X = dyn_cast<DeclRefExpr>(E)) {
            auto* D = X->getDecl();
            if (auto* F = dyn_cast<FunctionDecl>(D)) {
                auto o = node("fn", L);
                o["f"] = calleeInfo(F);
                return o;
            }
            if (auto* EC = dyn_cast<EnumConstantDecl>(D)) {
                auto o = node("int", L);
                llvm::SmallString<32> S;
                EC->getInitVal().toString(S, 10);
                o["v"] = std::string(S.str());
                o["en"] = qname(EC);
                o["t"] = type(X->getType());
                return o;
            }
            if (auto* B = dyn_cast<BindingDecl>(D)) {
                auto o = node("var", L);
                o["id"] = id(B->getCanonicalDecl());
                o["n"] = B->getNameAsString();
                return o;
            }
            if (auto* V = dyn_cast<VarDecl>(D)) {
                auto o = node("var", L);
                o["n"] = V->getNameAsString();
                if (V->isLocalVarDeclOrParm() || V->isInitCapture() || (V->getDeclContext()->isFunctionOrMethod() && !V->isStaticLocal())) {
                    o["id"] = id(V->getCanonicalDecl());
                    if (V->isStaticLocal()) o["static"] = true;
                } else {
                    o["g"] = qname(V);
                    global(V);
                }
                o["t"] = type(V->getType());
                return o;
            }
            if (auto* NT = dyn_cast<TemplateParamObjectDecl>(D)) {
                auto o = node("tpo", L);
                o["t"] = type(NT->getType());
                return o;
            }
            if (auto* FD = dyn_cast<FieldDecl>(D)) {
                auto o = node("memptr", L);
                o["n"] = FD->getNameAsString();
                return o;
            }
            auto o = node("unk", L);
            o["d"] = std::string("declref ") + D->getDeclKindName();
            return o;
        }
        if (auto* X = dyn_cast<MemberExpr>(E)) {
            auto* D = X->getMemberDecl();
            if (auto* V = dyn_cast<VarDecl>(D)) {
                auto o = node("var", L);
                o["n"] = V->getNameAsString();
                o["g"] = qname(V);
                o["t"] = type(V->getType());
                global(V);
                return o;
            }
            auto o = node("mem", L);
            o["b"] = expr(X->getBase());
            o["n"] = D->getNameAsString();
            o["cls"] = isa<FieldDecl>(D) ? type(C.getRecordType(cast<FieldDecl>(D)->getParent())) : "";
            if (X->isArrow()) o["arrow"] = true;
            o["t"] = type(X->getType());
            return o;
        }
        if (auto* X = dyn_cast<CXXMemberCallExpr>(E)) {
            auto o = node("call", L);
            if (auto* M = X->getMethodDecl()) {
                for (auto& kv : calleeInfo(M)) o[kv.first] = std::move(kv.second);
                o["obj"] = expr(X->getImplicitObjectArgument());
                if (X->getImplicitObjectArgument()->getType()->isPointerType()) o["arrow"] = true;
                if (auto* ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens()))
                    if (ME->hasQualifier()) o["nonvirt"] = true;
            } else {
                o["n"] = "?memptr";
            }
            o["a"] = argsR(X->arg_begin(), X->arg_end());
            o["t"] = type(X->getType());
            return o;
        }
        if (auto* X = dyn_cast<CXXOperatorCallExpr>(E)) {
            auto o = node("call", L);
            o["op"] = getOperatorSpelling(X->getOperator());
            if (auto* F = X->getDirectCallee()) {
                for (auto& kv : calleeInfo(F)) o[kv.first] = std::move(kv.second);
                auto* M = dyn_cast<CXXMethodDecl>(F);
                if (M && !M->isStatic()) {
                    o["obj"] = expr(X->getArg(0));
                    o["a"] = argsR(X->arg_begin() + 1, X->arg_end());
                } else {
                    o["a"] = argsR(X->arg_begin(), X->arg_end());
                }
            } else {
                o["n"] = "?op";
                o["a"] = argsR(X->arg_begin(), X->arg_end());
            }
            o["t"] = type(X->getType());
            return o;
        }
        if (auto* X = dyn_cast<CallExpr>(E)) {
            auto o = node("call", L);
            if (auto* F = X->getDirectCallee()) {
                for (auto& kv : calleeInfo(F)) o[kv.first] = std::move(kv.second);
            } else {
                o["n"] = "?indirect";
                o["fn"] = expr(X->getCallee());
            }
            o["a"] = argsR(X->arg_begin(), X->arg_end());
            o["t"] = type(X->getType());
            return o;
        }
        if (auto* X = dyn_cast<CXXConstructExpr>(E)) {
            auto o = node("ctor", L);
            auto* K = X->getConstructor();
            for (auto& kv : calleeInfo(K)) o[kv.first] = std::move(kv.second);
            o["a"] = argsR(X->arg_begin(), X->arg_end());
            o["t"] = type(X->getType());
            if (K->isCopyConstructor()) o["copy"] = true;
            if (K->isMoveConstructor()) o["move"] = true;
            if (X->isStdInitListInitialization()) o["sil"] = true;
            if (X->isListInitialization()) o["list"] = true;
            noteSpecial(K);
            return o;
        }
        if (auto* X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
            auto o = node("inhctor", L);
            for (auto& kv : calleeInfo(X->getConstructor())) o[kv.first] = std::move(kv.second);
            o["t"] = type(X->getType());
            return o;
        }
        if (auto* X = dyn_cast<InitListExpr>(E)) {
            if (X->isSemanticForm() == false && X->getSemanticForm()) X = X->getSemanticForm();
            if (X->isTransparent()) return expr(X->getInit(0));
            auto o = node("ilist", L);
            Array A;
            for (unsigned i = 0; i < X->getNumInits(); i++) A.push_back(expr(X->getInit(i)));
            o["a"] = std::move(A);
            o["t"] = type(X->getType());
            if (auto* F = X->getArrayFiller()) {
                o["fill"] = expr(F);
                if (auto* AT = C.getAsConstantArrayType(X->getType())) o["sz"] = (int64_t)AT->getSize().getZExtValue();
            }
            return o;
        }
        if (auto* X = dyn_cast<LambdaExpr>(E)) {
            auto o = node("lam", L);
            o["t"] = type(X->getType());
            Array Caps;
            auto* Cls = X->getLambdaClass();
            auto ci = X->capture_init_begin();
            for (auto& Cap : X->captures()) {
                Object c;
                if (Cap.capturesThis()) {
                    c["this"] = true;
                    c["byref"] = Cap.getCaptureKind() == LCK_This;
                } else if (Cap.capturesVariable()) {
                    auto* V = Cap.getCapturedVar();
                    c["id"] = id(V->getCanonicalDecl());
                    c["n"] = V->getNameAsString();
                    c["byref"] = Cap.getCaptureKind() == LCK_ByRef;
                    c["init"] = expr(*ci);
                }
                Caps.push_back(std::move(c));
                ++ci;
            }
            o["caps"] = std::move(Caps);
            if (X->isMutable()) o["mut"] = true;
            auto* Op = Cls->getLambdaCallOperator();
            if (!Cls->isGenericLambda()) {
                o["key"] = key(Op);
                function(Op);
            } else {
                o["generic"] = true;
                if (auto* T = Op->getDescribedFunctionTemplate())
                    for (auto* S : T->specializations()) function(S);
            }
            return o;
        }
        if (auto* X = dyn_cast<UnaryOperator>(E)) {
            auto o = node("un", L);
            o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str() + (X->isPostfix() ? "post" : "");
            o["e"] = expr(X->getSubExpr());
            o["t"] = type(X->getType());
            return o;
        }
        if (auto* X = dyn_cast<CompoundAssignOperator>(E)) {
            auto o = node("casg", L);
            o["op"] = X->getOpcodeStr().drop_back().str();
            o["a"] = expr(X->getLHS());
            o["b"] = expr(X->getRHS());
            o["t"] = type(X->getType());
            o["ct"] = type(X->getComputationLHSType());
            return o;
        }
        if (auto* X = dyn_cast<BinaryOperator>(E)) {
            auto o = node(X->getOpcode() == BO_Assign ? "asg" : "bin", L);
            o["op"] = X->getOpcodeStr().str();
            o["a"] = expr(X->getLHS());
            o["b"] = expr(X->getRHS());
            o["t"] = type(X->getType());
            return o;
        }
        if (auto* X = dyn_cast<AbstractConditionalOperator>(E)) {
            auto o = node("cond", L);
            o["c"] = expr(X->getCond());
            o["a"] = expr(X->getTrueExpr());
            o["b"] = expr(X->getFalseExpr());
            o["t"] = type(X->getType());
            return o;
        }
        if (auto* X = dyn_cast<CastExpr>(E)) {
            if (isa<CXXConstCastExpr>(X) && inRoots(X->getBeginLoc()))
                ConstCasts.push_back(Object{ { "file", file(X->getBeginLoc()) }, { "line", line(X->getBeginLoc()) }, { "t", type(X->getType()) },
                    { "ft", type(X->getSubExpr()->getType()) } });
            auto K = X->getCastKind();
            switch (K) {
                case CK_NoOp:
                case CK_ArrayToPointerDecay:
                case CK_FunctionToPointerDecay:
                case CK_ConstructorConversion:
                case CK_UserDefinedConversion:
                case CK_BuiltinFnToFnPtr:
                    return expr(X->getSubExpr());
                default: break;
            }
            if (K == CK_LValueToRValue) {
                auto o = node("load", L);
                o["e"] = expr(X->getSubExpr());
                o["t"] = type(X->getType());
                return o;
            }
            auto o = node("cast", L);
            o["ck"] = X->getCastKindName();
            o["e"] = expr(X->getSubExpr());
            o["t"] = type(X->getType());
            o["ft"] = type(X->getSubExpr()->getType());
            return o;
        }
        if (auto* X = dyn_cast<ArraySubscriptExpr>(E)) {
            auto o = node("idx", L);
            o["a"] = expr(X->getBase());
            o["b"] = expr(X->getIdx());
            o["t"] = type(X->getType());
            return o;
        }
        if (auto* X = dyn_cast<CXXThrowExpr>(E)) {
            auto o = node("throw", L);
            if (X->getSubExpr()) {
                o["e"] = expr(X->getSubExpr());
                o["t"] = type(X->getSubExpr()->getType());
            }
            return o;
        }
        if (auto* X = dyn_cast<CXXNewExpr>(E)) {
            auto o = node("new", L);
            o["e"] = X->getInitializer() ? expr(X->getInitializer()) : Value(nullptr);
            o["t"] = type(X->getAllocatedType());
            return o;
        }
        if (auto* X = dyn_cast<CXXDeleteExpr>(E)) {
            auto o = node("delete", L);
            o["e"] = expr(X->getArgument());
            return o;
        }
        if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) {
            auto o = node("zero", L);
            o["t"] = type(E->getType());
            return o;
        }
        if (auto* X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
            Expr::EvalResult R;
            if (!E->isValueDependent() && X->EvaluateAsInt(R, C)) {
                auto o = node("int", L);
                llvm::SmallString<32> S;
                R.Val.getInt().toString(S, 10);
                o["v"] = std::string(S.str());
                o["t"] = type(E->getType());
                return o;
            }
        }
        if (isa<TypeTraitExpr>(E) || isa<RequiresExpr>(E) || isa<ConceptSpecializationExpr>(E) || isa<CXXNoexceptExpr>(E)) {
            bool R;
            if (!E->isValueDependent() && E->EvaluateAsBooleanCondition(R, C)) {
                auto o = node("bool", L);
                o["v"] = R;
                return o;
            }
        }
        if (auto* X = dyn_cast<CXXTypeidExpr>(E)) {
            auto o = node("typeid", L);
            if (X->isTypeOperand()) o["ty"] = type(X->getTypeOperand(C));
            else o["e"] = expr(X->getExprOperand());
            return o;
        }
        if (auto* X = dyn_cast<SourceLocExpr>(E)) {
            auto o = node("srcloc", L);
            return o;
        }
        unsupported++;
        auto o = node("unk", L);
        o["d"] = E->getStmtClassName();
        o["t"] = type(E->getType());
        Array A;
        for (auto* c : E->children())
            if (auto* ce = dyn_cast_or_null<Expr>(c)) A.push_back(expr(ce));
        o["a"] = std::move(A);
        return o;
    }

    Value varDecl(const VarDecl* V) {
        Object o = node("vd", V->getLocation());
        o["id"] = id(V->getCanonicalDecl());
        o["n"] = V->getNameAsString();
        o["t"] = type(V->getType());
        if (V->isStaticLocal()) o["static"] = true;
        if (V->getInit()) o["init"] = expr(V->getInit());
        if (auto* D = dyn_cast<DecompositionDecl>(V)) {
            Array B;
            for (auto* b : D->bindings()) {
                Object x{ { "id", id(b->getCanonicalDecl()) }, { "n", b->getNameAsString() } };
                B.push_back(std::move(x));
            }
            o["binds"] = std::move(B);
        }
        return o;
    }

    Value stmt(const Stmt* S) {
        if (!S) return nullptr;
        SourceLocation L = S->getBeginLoc();
        if (auto* X = dyn_cast<CompoundStmt>(S)) {
            auto o = node("blk", L);
            Array A;
            for (auto* c : X->body()) A.push_back(stmt(c));
            o["s"] = std::move(A);
            return o;
        }
        if (auto* X = dyn_cast<DeclStmt>(S)) {
            auto o = node("decl", L);
            Array A;
            for (auto* d : X->decls()) {
                if (auto* V = dyn_cast<VarDecl>(d)) A.push_back(varDecl(V));
            }
            o["v"] = std::move(A);
            return o;
        }
        if (auto* X = dyn_cast<IfStmt>(S)) {
            if (X->isConstexpr()) {
                if (auto R = X->getNondiscardedCase(C)) {
                    return *R ? stmt(*R) : Value(node("nop", L));
                }
            }
            auto o = node("if", L);
            if (X->getInit()) o["init"] = stmt(X->getInit());
            if (X->getConditionVariable()) o["cv"] = varDecl(X->getConditionVariable());
            o["c"] = expr(X->getCond());
            o["a"] = stmt(X->getThen());
            if (X->getElse()) o["b"] = stmt(X->getElse());
            return o;
        }
        if (auto* X = dyn_cast<ForStmt>(S)) {
            auto o = node("for", L);
            if (X->getInit()) o["init"] = stmt(X->getInit());
            if (X->getCond()) o["c"] = expr(X->getCond());
            if (X->getInc()) o["inc"] = expr(X->getInc());
            o["b"] = stmt(X->getBody());
            return o;
        }
        if (auto* X = dyn_cast<CXXForRangeStmt>(S)) {
            auto o = node("rfor", L);
            if (X->getInit()) o["init"] = stmt(X->getInit());
            o["r"] = expr(X->getRangeInit());
            o["rt"] = type(X->getRangeInit()->getType());
            Object v = node("vd", L);
            auto* V = X->getLoopVariable();
            v["id"] = id(V->getCanonicalDecl());
            v["n"] = V->getNameAsString();
            v["t"] = type(V->getType());
            if (auto* D = dyn_cast<DecompositionDecl>(V)) {
                Array B;
                for (auto* b : D->bindings()) {
                    Object x{ { "id", id(b->getCanonicalDecl()) }, { "n", b->getNameAsString() } };
                    B.push_back(std::move(x));
                }
                v["binds"] = std::move(B);
            }
            o["v"] = std::move(v);
            o["b"] = stmt(X->getBody());
            return o;
        }
        if (auto* X = dyn_cast<WhileStmt>(S)) {
            auto o = node("while", L);
            if (X->getConditionVariable()) o["cv"] = varDecl(X->getConditionVariable());
            o["c"] = expr(X->getCond());
            o["b"] = stmt(X->getBody());
            return o;
        }
        if (auto* X = dyn_cast<DoStmt>(S)) {
            auto o = node("do", L);
            o["c"] = expr(X->getCond());
            o["b"] = stmt(X->getBody());
            return o;
        }
        if (auto* X = dyn_cast<SwitchStmt>(S)) {
            auto o = node("switch", L);
            if (X->getInit()) o["init"] = stmt(X->getInit());
            if (X->getConditionVariable()) o["cv"] = varDecl(X->getConditionVariable());
            o["c"] = expr(X->getCond());
            Array A;
            if (auto* B = dyn_cast<CompoundStmt>(X->getBody()))
                for (auto* c : B->body()) flatCase(c, A);
            else flatCase(X->getBody(), A);
            o["s"] = std::move(A);
            return o;
        }
        if (auto* X = dyn_cast<ReturnStmt>(S)) {
            auto o = node("ret", L);
            if (X->getRetValue()) {
                o["e"] = expr(X->getRetValue());
            }
            return o;
        }
        if (isa<BreakStmt>(S)) return node("break", L);
        if (isa<ContinueStmt>(S)) return node("cont", L);
        if (isa<NullStmt>(S)) return node("nop", L);
        if (auto* X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
        if (auto* X = dyn_cast<CXXTryStmt>(S)) {
            auto o = node("try", L);
            o["b"] = stmt(X->getTryBlock());
            Array A;
            for (unsigned i = 0; i < X->getNumHandlers(); i++) {
                auto* H = X->getHandler(i);
                Object h = node("catch", H->getBeginLoc());
                if (auto* V = H->getExceptionDecl()) {
                    h["t"] = type(V->getType().getNonReferenceType().getUnqualifiedType());
                    h["ref"] = V->getType()->isReferenceType();
                    h["id"] = id(V->getCanonicalDecl());
                    h["n"] = V->getNameAsString();
                }
                h["b"] = stmt(H->getHandlerBlock());
                A.push_back(std::move(h));
            }
            o["h"] = std::move(A);
            return o;
        }
        if (auto* X = dyn_cast<Expr>(S)) {
            auto o = node("x", L);
            o["e"] = expr(X);
            return o;
        }
        unsupported++;
        auto o = node("unk", L);
        o["d"] = S->getStmtClassName();
        return o;
    }
    void flatCase(const Stmt* S, Array& A) {
        if (auto* X = dyn_cast<CaseStmt>(S)) {
            Object o = node("case", S->getBeginLoc());
            Expr::EvalResult R;
            if (X->getLHS()->EvaluateAsInt(R, C)) {
                llvm::SmallString<32> T;
                R.Val.getInt().toString(T, 10);
                o["v"] = std::string(T.str());
            }
            if (X->getRHS()) {
                Expr::EvalResult R2;
                if (X->getRHS()->EvaluateAsInt(R2, C)) {
                    llvm::SmallString<32> T;
                    R2.Val.getInt().toString(T, 10);
                    o["v2"] = std::string(T.str());
                }
            }
            A.push_back(std::move(o));
            flatCase(X->getSubStmt(), A);
        } else if (auto* X = dyn_cast<DefaultStmt>(S)) {
            A.push_back(node("default", S->getBeginLoc()));
            flatCase(X->getSubStmt(), A);
        } else {
            A.push_back(stmt(S));
        }
    }

    void noteSpecial(const CXXConstructorDecl* K) {
        if (K->isImplicit() || K->isDefaulted()) {
            const FunctionDecl* D = nullptr;
            if (K->hasBody(D) && D) function(D);
        }
    }

    std::set<const FunctionDecl*> Seen;
    void function(const FunctionDecl* F) {
        const FunctionDecl* D = nullptr;
        if (!F->hasBody(D) || !D) return;
        if (D->isDependentContext()) return;
        if (D->isInvalidDecl()) return;
        if (!inRoots(D->getLocation())) return;
        if (!Seen.insert(D).second) return;
        Object o;
        o["n"] = qname(D);
        o["file"] = file(D->getLocation());
        o["line"] = line(D->getLocation());
        o["end"] = line(D->getEndLoc());
        auto T = targs(D);
        if (!T.empty()) o["ta"] = std::move(T);
        o["ret"] = type(D->getReturnType());
        Array P;
        for (auto* p : D->parameters()) {
            Object x{ { "id", id(p->getCanonicalDecl()) }, { "n", p->getNameAsString() }, { "t", type(p->getType()) } };
            if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) x["d"] = expr(p->getDefaultArg());
            P.push_back(std::move(x));
        }
        o["params"] = std::move(P);
        if (D->isDefaulted()) o["dflt"] = true;
        if (D->isImplicit()) o["impl"] = true;
        if (auto* FT = D->getType()->getAs<FunctionProtoType>())
            if (isNoexceptExceptionSpec(FT->getExceptionSpecType()) && FT->canThrow() == CT_Cannot) o["noexcept"] = true;
        if (auto* M = dyn_cast<CXXMethodDecl>(D)) {
            o["cls"] = type(C.getRecordType(M->getParent()));
            record(M->getParent());
            if (M->isStatic()) o["st"] = true;
            if (M->isConst()) o["const"] = true;
            if (M->isVirtual()) o["virt"] = true;
            if (M->getAccess() == AS_public) o["pub"] = true;
            if (M->getParent()->isLambda()) {
                o["lam"] = true;
                if (auto* PF = dyn_cast_or_null<FunctionDecl>(M->getParent()->getParentFunctionOrMethod())) o["encl"] = key(PF);
            }
            Array O;
            for (auto* x : M->overridden_methods()) O.push_back(key(x));
            if (!O.empty()) o["over"] = std::move(O);
        }
        if (auto* K = dyn_cast<CXXConstructorDecl>(D)) {
            Array I;
            for (auto* i : K->inits()) {
                Object x;
                if (i->isAnyMemberInitializer()) {
                    x["f"] = i->getAnyMember()->getNameAsString();
                    x["ft"] = type(i->getAnyMember()->getType());
                }
                else if (i->isDelegatingInitializer()) x["deleg"] = true;
                else if (i->isBaseInitializer()) x["base"] = type(QualType(i->getBaseClass(), 0));
                x["e"] = expr(i->getInit());
                I.push_back(std::move(x));
            }
            o["inits"] = std::move(I);
        }
        if (isa<CXXDestructorDecl>(D)) o["dtor"] = true;
        o["body"] = stmt(D->getBody());
        Functions[key(D)] = std::move(o);
    }

    std::set<const CXXRecordDecl*> SeenR;
    void record(const CXXRecordDecl* R) {
        R = R->getDefinition();
        if (!R || R->isDependentContext() || R->isLambda() || R->isInvalidDecl()) return;
        if (!SeenR.insert(R).second) return;
        if (!inRoots(R->getLocation())) {
            // bases of repo classes may be library classes: only their base list is kept
            Object o;
            Array B;
            for (auto& b : R->bases()) B.push_back(type(b.getType()));
            o["bases"] = std::move(B);
            o["ext"] = true;
            Records[type(C.getRecordType(R))] = std::move(o);
            for (auto& b : R->bases())
                if (auto* BR = b.getType()->getAsCXXRecordDecl()) record(BR);
            return;
        }
        Object o;
        o["file"] = file(R->getLocation());
        o["line"] = line(R->getLocation());
        Array B;
        for (auto& b : R->bases()) {
            B.push_back(type(b.getType()));
            if (auto* BR = b.getType()->getAsCXXRecordDecl()) record(BR);
        }
        o["bases"] = std::move(B);
        Array Fs;
        for (auto* f : R->fields()) {
            Object x{ { "n", f->getNameAsString() }, { "t", type(f->getType()) } };
            if (f->isMutable()) x["mutable"] = true;
            if (f->hasInClassInitializer() && f->getInClassInitializer()) x["init"] = expr(f->getInClassInitializer());
            Fs.push_back(std::move(x));
        }
        o["fields"] = std::move(Fs);
        Array Ms;
        for (auto* m : R->methods()) {
            if (m->isImplicit() && !isa<CXXDestructorDecl>(m)) continue;
            Object x{ { "key", key(m) }, { "n", m->getNameAsString() } };
            if (m->isVirtual()) x["virt"] = true;
            if (m->isPureVirtual()) x["pure"] = true;
            if (m->isDeleted()) x["del"] = true;
            if (m->isDefaulted()) x["dflt"] = true;
            x["acc"] = (int)m->getAccess();
            Array O;
            for (auto* y : m->overridden_methods()) O.push_back(key(y));
            if (!O.empty()) x["over"] = std::move(O);
            Ms.push_back(std::move(x));
        }
        o["methods"] = std::move(Ms);
        Records[type(C.getRecordType(R))] = std::move(o);
        for (auto* m : R->methods())
            if (m->isDefaulted() && !m->isDeleted() && m->isUserProvided() == false) {
                const FunctionDecl* D = nullptr;
                if (m->hasBody(D) && D) function(D);
            }
    }

    Array ConstCasts;
    std::set<const VarDecl*> SeenG;
    void global(const VarDecl* V) {
        V = V->getCanonicalDecl();
        if (!SeenG.insert(V).second) return;
        const VarDecl* I = nullptr;
        const Expr* E = V->getAnyInitializer(I);
        Object o;
        o["file"] = file(V->getLocation());
        o["line"] = line(V->getLocation());
        o["t"] = type(V->getType());
        o["inroot"] = inRoots(V->getLocation());
        if (V->isConstexpr()) o["constexpr"] = true;
        if (V->getType().isConstQualified()) o["const"] = true;
        if (V->isStaticLocal()) o["slocal"] = true;
        if (E && !E->isValueDependent()) {
            if (inRoots(V->getLocation())) o["init"] = expr(E);
            else {
                Expr::EvalResult R;
                if (V->getType()->isIntegralOrEnumerationType() && E->EvaluateAsInt(R, C)) {
                    llvm::SmallString<32> T;
                    R.Val.getInt().toString(T, 10);
                    o["val"] = std::string(T.str());
                }
            }
        }
        auto name = qname(V);
        if (V->isStaticLocal()) name = file(V->getLocation()) + ":" + std::to_string(line(V->getLocation())) + ":" + name;
        if (V->isStaticLocal()) o["id"] = id(V);
        if (V->getTLSKind()) o["tls"] = true;
        if (!Globals.get(name)) Globals[name] = std::move(o);
    }

    void enumeration(const EnumDecl* D) {
        if (!inRoots(D->getLocation())) return;
        Object o;
        for (auto* e : D->enumerators()) {
            llvm::SmallString<32> T;
            e->getInitVal().toString(T, 10);
            o[e->getNameAsString()] = std::string(T.str());
        }
        Enums[qname(D)] = std::move(o);
    }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
    Dumper& D;
    explicit Visitor(Dumper& D)
    : D(D) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl* F) {
        if (F->isThisDeclarationADefinition()) {
            if (auto* M = dyn_cast<CXXMethodDecl>(F); M && M->getParent()->isLambda()) return true;  // via LambdaExpr
            D.function(F);
        }
        return true;
    }
    bool VisitLambdaExpr(LambdaExpr* X) {
        auto* Cls = X->getLambdaClass();
        auto* Op = Cls->getLambdaCallOperator();
        if (!Cls->isGenericLambda()) D.function(Op);
        else if (auto* T = Op->getDescribedFunctionTemplate())
            for (auto* S : T->specializations()) D.function(S);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* R) {
        if (R->isThisDeclarationADefinition() && D.inRoots(R->getLocation())) D.record(R);
        return true;
    }
    bool VisitVarDecl(VarDecl* V) {
        if ((V->hasGlobalStorage() || V->isStaticLocal()) && !isa<ParmVarDecl>(V) && D.inRoots(V->getLocation())
            && !V->getDeclContext()->isDependentContext())
            D.global(V);
        return true;
    }
    bool VisitEnumDecl(EnumDecl* E) {
        D.enumeration(E);
        return true;
    }
};

struct Consumer : ASTConsumer {
    CompilerInstance& CI;
    explicit Consumer(CompilerInstance& CI)
    : CI(CI) {}
    void HandleTranslationUnit(ASTContext& C) override {
        Dumper D(C);
        Visitor V(D);
        // force bodies of used defaulted members to exist is the front end's job; only existing ones are dumped
        V.TraverseDecl(C.getTranslationUnitDecl());
        Object o;
        o["functions"] = std::move(D.Functions);
        o["records"] = std::move(D.Records);
        o["globals"] = std::move(D.Globals);
        o["constcasts"] = std::move(D.ConstCasts);
        o["enums"] = std::move(D.Enums);
        o["errors"] = (int)CI.getDiagnostics().getClient()->getNumErrors();
        o["unsupported"] = D.unsupported;
        std::error_code EC;
        llvm::raw_fd_ostream OS(OutFile, EC);
        OS << Value(std::move(o));
    }
};

struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, StringRef) override {
        return std::make_unique<Consumer>(CI);
    }
};
struct Factory : tooling::FrontendActionFactory {
    std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
};

// usage: extract OUT ROOT1:ROOT2 SOURCE -- compiler arguments
int main(int argc, char** argv) {
    OutFile = argv[1];
    std::stringstream ss(argv[2]);
    std::string r;
    while (std::getline(ss, r, ':')) Roots.push_back(r);
    std::vector<std::string> Args{ "clang++" };
    for (int i = 5; i < argc; i++) Args.push_back(argv[i]);
    Args.push_back("-fsyntax-only");
    Args.push_back("-w");
    Args.push_back(argv[3]);
    llvm::IntrusiveRefCntPtr<FileManager> FM(new FileManager(FileSystemOptions()));
    Factory F;
    tooling::ToolInvocation Inv(Args, F.create(), FM.get());
    return Inv.run() ? 0 : 1;
}
