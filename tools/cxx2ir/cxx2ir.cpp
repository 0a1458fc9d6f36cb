// cxx2ir: mechanical extraction of the functions of /repo (as compiled) into a
// JSON intermediate representation, using clang's own parser and semantic
// analysis.  Nothing is rewritten by hand: every statement and expression of the
// source is emitted, template instantiations included.  Dropped on purpose:
// parentheses, cleanups, temporaries' materialisation, value-preserving (no-op)
// casts, attributes.
//
// usage: cxx2ir OUT.json ROOT[,ROOT...] FILE.cpp -- clang flags
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;
using json::Array;
using json::Object;
using json::Value;

static std::vector<std::string> Roots;
static std::string OutFile;

static const Expr *strip(const Expr *E) {
  for (;;) {
    if (auto *X = dyn_cast<ParenExpr>(E)) { E = X->getSubExpr(); continue; }
    if (auto *X = dyn_cast<ExprWithCleanups>(E)) { E = X->getSubExpr(); continue; }
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
    if (auto *X = dyn_cast<ConstantExpr>(E)) { E = X->getSubExpr(); continue; }
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = X->getReplacement(); continue; }
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) { E = X->getExpr(); continue; }
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) { E = X->getExpr(); continue; }
    if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
      switch (X->getCastKind()) {
      case CK_NoOp: case CK_ConstructorConversion: case CK_UserDefinedConversion:
      case CK_FunctionToPointerDecay: case CK_BuiltinFnToFnPtr:
      case CK_UncheckedDerivedToBase: case CK_DerivedToBase: case CK_ArrayToPointerDecay:
        E = X->getSubExpr(); continue;
      default: break;
      }
    }
    if (auto *X = dyn_cast<CXXFunctionalCastExpr>(E)) {
      if (X->getCastKind() == CK_ConstructorConversion || X->getCastKind() == CK_NoOp) {
        E = X->getSubExpr(); continue;
      }
    }
    if (auto *X = dyn_cast<CXXStaticCastExpr>(E)) {
      if (X->getCastKind() == CK_ConstructorConversion || X->getCastKind() == CK_NoOp) {
        E = X->getSubExpr(); continue;
      }
    }
    if (auto *X = dyn_cast<CStyleCastExpr>(E)) {
      if (X->getCastKind() == CK_ConstructorConversion || X->getCastKind() == CK_NoOp) {
        E = X->getSubExpr(); continue;
      }
    }
    return E;
  }
}

struct JV { Value v = nullptr; JV &operator=(Value x) { v = std::move(x); return *this; } };

class Emitter {
public:
  ASTContext &C;
  SourceManager &SM;
  std::unique_ptr<MangleContext> MC;
  PrintingPolicy PP;
  std::map<const Type *, int> TypeIds;
  std::vector<Value> Types;
  std::map<std::string, JV> Functions, Records, Globals;
  std::set<const RecordDecl *> RecordsDone, RecordsPending;
  std::map<const ValueDecl *, int> VarIds;
  std::map<std::string, int> KeyFix;

  Emitter(ASTContext &C)
      : C(C), SM(C.getSourceManager()), MC(C.createMangleContext()), PP(C.getLangOpts()) {
    PP.adjustForCPlusPlus();
    PP.FullyQualifiedName = true;
    PP.SuppressTagKeyword = true;
    PP.PrintCanonicalTypes = true;
  }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L);
    return F.str();
  }
  bool inRoots(SourceLocation L) {
    std::string F = fileOf(L);
    for (auto &R : Roots)
      if (F.compare(0, R.size(), R) == 0) return true;
    return false;
  }
  int lineOf(SourceLocation L) { return SM.getExpansionLineNumber(L); }

  int varId(const ValueDecl *D) {
    D = cast<ValueDecl>(D->getCanonicalDecl());
    auto It = VarIds.find(D);
    if (It != VarIds.end()) return It->second;
    int N = VarIds.size() + 1;
    VarIds[D] = N;
    return N;
  }

  int ty(QualType Q) {
    bool isConst = false;
    QualType Can = Q.getCanonicalType();
    isConst = Can.isConstQualified();
    (void)isConst;
    const Type *T = Can.getUnqualifiedType().getTypePtr();
    auto It = TypeIds.find(T);
    if (It != TypeIds.end()) return It->second;
    int Id = Types.size();
    TypeIds[T] = Id;
    Types.push_back(nullptr);
    Object O;
    if (auto *B = dyn_cast<BuiltinType>(T)) {
      if (B->getKind() == BuiltinType::Bool) O["k"] = "bool";
      else if (B->isInteger()) {
        O["k"] = "int";
        O["w"] = (int)C.getTypeSize(T);
        O["s"] = B->isSignedInteger();
        if (B->isAnyCharacterType()) O["c"] = true;
      } else if (B->isFloatingPoint()) { O["k"] = "float"; O["w"] = (int)C.getTypeSize(T); }
      else if (B->isVoidType()) O["k"] = "void";
      else if (B->isNullPtrType()) O["k"] = "nullptr";
      else O["k"] = "other";
    } else if (auto *E = dyn_cast<EnumType>(T)) {
      O["k"] = "enum"; O["n"] = E->getDecl()->getQualifiedNameAsString();
      O["s"] = E->getDecl()->getIntegerType()->isSignedIntegerType();
      O["w"] = (int)C.getTypeSize(T);
    } else if (auto *P = dyn_cast<PointerType>(T)) {
      O["k"] = "ptr"; O["t"] = ty(P->getPointeeType());
      O["const"] = P->getPointeeType().isConstQualified();
    } else if (auto *R = dyn_cast<ReferenceType>(T)) {
      O["k"] = "ref"; O["t"] = ty(R->getPointeeType());
      O["const"] = R->getPointeeType().isConstQualified();
      O["rv"] = isa<RValueReferenceType>(R);
    } else if (auto *A = dyn_cast<ConstantArrayType>(T)) {
      O["k"] = "arr"; O["t"] = ty(A->getElementType());
      O["n"] = (int64_t)A->getSize().getZExtValue();
    } else if (auto *Rec = dyn_cast<RecordType>(T)) {
      auto *RD = Rec->getDecl();
      O["k"] = "rec";
      std::string Q2; llvm::raw_string_ostream OS(Q2);
      Can.getUnqualifiedType().print(OS, PP);
      O["n"] = OS.str();
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
        O["tn"] = S->getSpecializedTemplate()->getQualifiedNameAsString();
        Array Args;
        std::function<void(const TemplateArgument &)> add = [&](const TemplateArgument &TA) {
          if (TA.getKind() == TemplateArgument::Type) Args.push_back(ty(TA.getAsType()));
          else if (TA.getKind() == TemplateArgument::Integral)
            Args.push_back(Object{{"v", TA.getAsIntegral().getExtValue()}});
          else if (TA.getKind() == TemplateArgument::Pack)
            for (auto &P : TA.pack_elements()) add(P);
          else Args.push_back(nullptr);
        };
        for (auto &TA : S->getTemplateArgs().asArray()) add(TA);
        O["a"] = std::move(Args);
      }
      if (auto *CR = dyn_cast<CXXRecordDecl>(RD)) {
        if (CR->isLambda()) { O["lambda"] = true; }
        RecordsPending.insert(CR);
      }
    } else if (auto *F = dyn_cast<FunctionProtoType>(T)) {
      O["k"] = "fn"; O["r"] = ty(F->getReturnType());
    } else O["k"] = "other";
    {
      std::string Q2; llvm::raw_string_ostream OS(Q2);
      Can.getUnqualifiedType().print(OS, PP);
      O["p"] = OS.str();
    }
    Types[Id] = std::move(O);
    return Id;
  }

  std::string fkey(const FunctionDecl *F) {
    std::string S; llvm::raw_string_ostream OS(S);
    GlobalDecl GD;
    if (auto *Ct = dyn_cast<CXXConstructorDecl>(F)) GD = GlobalDecl(Ct, Ctor_Complete);
    else if (auto *D = dyn_cast<CXXDestructorDecl>(F)) GD = GlobalDecl(D, Dtor_Complete);
    else GD = GlobalDecl(F);
    if (F->getType()->isDependentType() || F->isDependentContext()) return "dependent:" + F->getQualifiedNameAsString();
    if (MC->shouldMangleDeclName(F)) MC->mangleName(GD, OS);
    else OS << F->getQualifiedNameAsString();
    return OS.str();
  }

  std::string qname(const NamedDecl *F) {
    std::string S; llvm::raw_string_ostream OS(S);
    F->printQualifiedName(OS);
    return OS.str();
  }

  void collectRecord(const CXXRecordDecl *RD) {
    RD = RD->getDefinition();
    if (!RD || RecordsDone.count(RD)) return;
    RecordsDone.insert(RD);
    if (RD->isDependentContext()) return;
    QualType QT = C.getRecordType(RD);
    std::string N; { llvm::raw_string_ostream OS(N); QT.getCanonicalType().print(OS, PP); }
    bool mine = inRoots(RD->getLocation());
    if (auto *Pat = RD->getTemplateInstantiationPattern())
      mine = mine || inRoots(Pat->getLocation());
    Object O;
    O["mine"] = mine;
    O["q"] = qname(RD);
    O["file"] = fileOf(RD->getLocation());
    O["line"] = lineOf(RD->getLocation());
    if (mine || RD->isLambda()) {
      Array Fs, Bs;
      for (auto &B : RD->bases()) Bs.push_back(ty(B.getType()));
      for (auto *F : RD->fields()) {
        Object FO{{"n", F->getNameAsString()}, {"t", ty(F->getType())}};
        if (F->isMutable()) FO["mutable"] = true;
        if (auto *I = F->getInClassInitializer()) FO["init"] = expr(I);
        Fs.push_back(std::move(FO));
      }
      for (auto *D : RD->decls())
        if (auto *V = dyn_cast<VarDecl>(D)) global(V);
      O["fields"] = std::move(Fs);
      O["bases"] = std::move(Bs);
    } else {
      Array Bs;
      for (auto &B : RD->bases()) Bs.push_back(ty(B.getType()));
      O["bases"] = std::move(Bs);
    }
    Records[N] = std::move(O);
  }

  void global(const VarDecl *V) {
    if (!V->hasGlobalStorage() || V->isLocalVarDecl()) return;
    std::string K = qname(V);
    const VarDecl *Def = nullptr;
    const Expr *Init = V->getAnyInitializer(Def);
    if (Globals.count(K) && !Init) return;
    Object O{{"t", ty(V->getType())}};
    if (Init && !Init->isValueDependent()) O["init"] = expr(Init);
    O["const"] = V->getType().isConstQualified() || V->isConstexpr();
    Globals[K] = std::move(O);
  }

  Value fltStr(const llvm::APFloat &F) {
    if (F.isNaN()) return "nan";
    if (F.isInfinity()) return F.isNegative() ? "-inf" : "inf";
    llvm::SmallString<64> S;
    llvm::APFloat G = F;
    bool LI;
    G.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &LI);
    double d = G.convertToDouble();
    char buf[64];
    for (int p = 1; p <= 17; p++) { snprintf(buf, 64, "%.*g", p, d); if (strtod(buf, nullptr) == d) break; }
    return std::string(buf);
  }

  Object mk(const char *K, const Expr *E) {
    Object O;
    O["e"] = K;
    O["t"] = ty(E->getType());
    O["l"] = lineOf(E->getExprLoc());
    if (E->isLValue()) O["lv"] = true;
    return O;
  }

  Array args(llvm::iterator_range<CallExpr::const_arg_iterator> R) {
    Array A;
    for (auto *X : R) A.push_back(expr(X));
    return A;
  }

  Value calleeInfo(const FunctionDecl *F) {
    Object O{{"q", qname(F)}, {"key", fkey(F)}};
    Array Ps;
    for (auto *P : F->parameters()) Ps.push_back(ty(P->getType()));
    O["ps"] = std::move(Ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["virt"] = M->isVirtual();
      O["cls"] = ty(C.getRecordType(M->getParent()));
      O["static"] = M->isStatic();
      O["const"] = M->isConst();
    }
    if (F->isDefaulted() || F->isImplicit()) O["implicit"] = true;
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      Array A;
      for (auto &T : TA->asArray()) {
        if (T.getKind() == TemplateArgument::Type) A.push_back(ty(T.getAsType()));
        else if (T.getKind() == TemplateArgument::Integral) A.push_back(Object{{"v", T.getAsIntegral().getExtValue()}});
      }
      O["ta"] = std::move(A);
    }
    return std::move(O);
  }

  Value expr(const Expr *E0) {
    if (!E0) return nullptr;
    const Expr *E = strip(E0);
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      auto O = mk("int", E); llvm::SmallString<32> S; X->getValue().toString(S, 10, false);
      O["v"] = S.str().str(); return std::move(O);
    }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) { auto O = mk("int", E); O["v"] = std::to_string(X->getValue()); return std::move(O); }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) { auto O = mk("float", E); O["v"] = fltStr(X->getValue()); return std::move(O); }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { auto O = mk("bool", E); O["v"] = X->getValue(); return std::move(O); }
    if (auto *X = dyn_cast<StringLiteral>(E)) { auto O = mk("str", E); O["v"] = X->isOrdinary() || X->isUTF8() ? json::fixUTF8(X->getString()) : std::string("?"); return std::move(O); }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return mk("nullptr", E);
    if (isa<CXXThisExpr>(E)) return mk("this", E);
    if (auto *X = dyn_cast<PredefinedExpr>(E)) { auto O = mk("str", E); O["v"] = "__func__"; return std::move(O); }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      auto *D = X->getDecl();
      auto O = mk("ref", E);
      O["n"] = D->getNameAsString();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        O["e"] = "int"; llvm::SmallString<32> S; EC->getInitVal().toString(S, 10);
        O["v"] = S.str().str(); O["en"] = qname(EC); return std::move(O);
      }
      if (auto *F = dyn_cast<FunctionDecl>(D)) { O["e"] = "fref"; O["f"] = calleeInfo(F); return std::move(O); }
      if (auto *B = dyn_cast<BindingDecl>(D)) { O["id"] = varId(B); O["k"] = "binding"; return std::move(O); }
      if (auto *V = dyn_cast<VarDecl>(D)) {
        if (V->hasGlobalStorage() && !V->isStaticLocal()) {
          O["k"] = "global"; O["n"] = qname(V); global(V);
        } else { O["k"] = isa<ParmVarDecl>(V) ? "param" : "local"; O["id"] = varId(V);
          if (X->refersToEnclosingVariableOrCapture()) O["cap"] = true; }
        return std::move(O);
      }
      O["k"] = "other"; return std::move(O);
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      auto O = mk("member", E);
      if (auto *V = dyn_cast<VarDecl>(X->getMemberDecl())) { // static member
        O["e"] = "ref"; O["k"] = "global"; O["n"] = qname(V); global(V); return std::move(O);
      }
      O["n"] = X->getMemberDecl()->getNameAsString();
      O["arrow"] = X->isArrow();
      O["b"] = expr(X->getBase());
      return std::move(O);
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      auto O = mk("opcall", E);
      O["op"] = getOperatorSpelling(X->getOperator());
      if (auto *F = X->getDirectCallee()) O["f"] = calleeInfo(F);
      O["a"] = args(X->arguments());
      return std::move(O);
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      auto O = mk("mcall", E);
      if (auto *F = X->getMethodDecl()) {
        O["f"] = calleeInfo(F);
        O["obj"] = expr(X->getImplicitObjectArgument());
        if (auto *ME = dyn_cast<MemberExpr>(strip(X->getCallee()))) { O["arrow"] = ME->isArrow(); O["qual"] = ME->hasQualifier(); }
      } else O["callee"] = expr(X->getCallee());
      O["a"] = args(X->arguments());
      return std::move(O);
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      if (E->getType()->isFloatingType() && X->getBuiltinCallee()) {
        Expr::EvalResult R;
        if (!E->isValueDependent() && E->EvaluateAsRValue(R, C) && R.Val.isFloat()) {
          auto O = mk("float", E); O["v"] = fltStr(R.Val.getFloat()); return std::move(O);
        }
      }
      auto O = mk("call", E);
      if (auto *F = X->getDirectCallee()) O["f"] = calleeInfo(F);
      else O["callee"] = expr(X->getCallee());
      O["a"] = args(X->arguments());
      return std::move(O);
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      auto O = mk("construct", E);
      O["f"] = calleeInfo(X->getConstructor());
      Array A; for (auto *Y : X->arguments()) A.push_back(expr(Y));
      O["a"] = std::move(A);
      O["copy"] = X->getConstructor()->isCopyConstructor();
      O["move"] = X->getConstructor()->isMoveConstructor();
      O["zero"] = X->requiresZeroInitialization();
      O["ilist"] = X->isStdInitListInitialization() || X->isListInitialization();
      return std::move(O);
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      auto O = mk("inhctor", E); O["f"] = calleeInfo(X->getConstructor()); return std::move(O);
    }
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) { auto O = mk("stdilist", E); O["x"] = expr(X->getSubExpr()); return std::move(O); }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      if (X->isTransparent()) return expr(X->getInit(0));
      auto O = mk("initlist", E);
      Array A; for (auto *Y : X->inits()) A.push_back(expr(Y));
      O["a"] = std::move(A); return std::move(O);
    }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) return mk("valueinit", E);
    if (auto *X = dyn_cast<CastExpr>(E)) {
      auto O = mk("cast", E);
      O["ck"] = X->getCastKindName();
      O["x"] = expr(X->getSubExpr());
      return std::move(O);
    }
    if (auto *X = dyn_cast<CompoundAssignOperator>(E)) {
      auto O = mk("cassign", E);
      O["op"] = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(X->getOpcode())).str();
      O["ct"] = ty(X->getComputationResultType()); O["clt"] = ty(X->getComputationLHSType());
      O["a"] = expr(X->getLHS()); O["b"] = expr(X->getRHS());
      return std::move(O);
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      auto O = mk("bin", E);
      O["op"] = X->getOpcodeStr().str();
      O["a"] = expr(X->getLHS()); O["b"] = expr(X->getRHS());
      return std::move(O);
    }
    if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) return expr(X->getSemanticForm());
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      auto O = mk("un", E);
      O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      O["post"] = X->isPostfix();
      O["x"] = expr(X->getSubExpr());
      return std::move(O);
    }
    if (auto *X = dyn_cast<AbstractConditionalOperator>(E)) {
      auto O = mk("cond", E);
      O["c"] = expr(X->getCond()); O["a"] = expr(X->getTrueExpr()); O["b"] = expr(X->getFalseExpr());
      return std::move(O);
    }
    if (auto *X = dyn_cast<OpaqueValueExpr>(E)) return expr(X->getSourceExpr());
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      auto O = mk("sub", E); O["a"] = expr(X->getBase()); O["b"] = expr(X->getIdx()); return std::move(O);
    }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      auto O = mk("lambda", E);
      Array Cs;
      auto CI = X->capture_init_begin();
      for (auto &Cp : X->captures()) {
        Object CO;
        if (Cp.capturesThis()) CO["k"] = Cp.getCaptureKind() == LCK_StarThis ? "starthis" : "this";
        else if (Cp.capturesVariable()) {
          CO["k"] = Cp.getCaptureKind() == LCK_ByRef ? "ref" : "copy";
          CO["id"] = varId(Cp.getCapturedVar());
          CO["n"] = Cp.getCapturedVar()->getNameAsString();
          if (auto *V = dyn_cast<VarDecl>(Cp.getCapturedVar())) if (V->isInitCapture()) CO["init"] = expr(V->getInit());
        }
        ++CI;
        Cs.push_back(std::move(CO));
      }
      O["caps"] = std::move(Cs);
      const CXXMethodDecl *Op = X->getCallOperator();
      if (auto *FT = X->getLambdaClass()->getDependentLambdaCallOperator()) {
        Array Specs;
        for (auto *S : FT->specializations()) if (S->hasBody()) Specs.push_back(fnBody(S));
        O["specs"] = std::move(Specs);
      } else O["fn"] = fnBody(Op);
      return std::move(O);
    }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) { auto O = mk("throw", E); O["x"] = expr(X->getSubExpr()); return std::move(O); }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      auto O = mk("new", E); O["init"] = expr(X->getInitializer() ? X->getInitializer() : (Expr *)X->getConstructExpr());
      O["at"] = ty(X->getAllocatedType());
      if (X->isArray() && X->getArraySize()) O["n"] = expr(*X->getArraySize());
      return std::move(O);
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { auto O = mk("delete", E); O["x"] = expr(X->getArgument()); return std::move(O); }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      Expr::EvalResult R;
      if (E->EvaluateAsInt(R, C)) { auto O = mk("int", E); O["v"] = std::to_string(R.Val.getInt().getExtValue()); return std::move(O); }
    }
    {
      Expr::EvalResult R;
      if (!E->isValueDependent() && E->getType()->isIntegralOrEnumerationType() && E->EvaluateAsInt(R, C)) {
        auto O = mk("int", E); llvm::SmallString<32> S; R.Val.getInt().toString(S, 10); O["v"] = S.str().str(); return std::move(O);
      }
    }
    auto O = mk("unsupported", E);
    O["cls"] = E->getStmtClassName();
    return std::move(O);
  }

  Object smk(const char *K, const Stmt *S) {
    return Object{{"s", K}, {"l", lineOf(S->getBeginLoc())}, {"f", nullptr}};
  }

  Value varDecl(const VarDecl *V) {
    Object O{{"id", varId(V)}, {"n", V->getNameAsString()}, {"t", ty(V->getType())},
             {"const", V->getType().getNonReferenceType().isConstQualified()}};
    if (V->isStaticLocal()) O["static"] = true;
    if (V->getInit()) { O["init"] = expr(V->getInit()); }
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      Array Bs;
      for (auto *B : DD->bindings()) {
        Object BO{{"id", varId(B)}, {"n", B->getNameAsString()}, {"t", ty(B->getType())}};
        if (auto *HV = B->getHoldingVar()) BO["tuple"] = true;
        else if (B->getBinding()) if (auto *ME = dyn_cast<MemberExpr>(strip(B->getBinding()))) BO["field"] = ME->getMemberDecl()->getNameAsString();
        Bs.push_back(std::move(BO));
      }
      O["bindings"] = std::move(Bs);
    }
    return std::move(O);
  }

  Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      auto O = smk("block", S); Array A; for (auto *Y : X->body()) A.push_back(stmt(Y));
      O["b"] = std::move(A); return std::move(O);
    }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      auto O = smk("decl", S); Array A;
      for (auto *D : X->decls()) if (auto *V = dyn_cast<VarDecl>(D)) A.push_back(varDecl(V));
      O["v"] = std::move(A); return std::move(O);
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      auto O = smk("if", S);
      if (X->getInit()) O["init"] = stmt(X->getInit());
      if (X->getConditionVariableDeclStmt()) O["cv"] = stmt(X->getConditionVariableDeclStmt());
      if (X->isConstexpr()) {
        Expr::EvalResult R;
        if (!X->getCond()->isValueDependent() && X->getCond()->EvaluateAsRValue(R, C) && R.Val.isInt())
          O["constexpr"] = R.Val.getInt().getBoolValue();
      }
      O["c"] = expr(X->getCond()); O["th"] = stmt(X->getThen()); O["el"] = stmt(X->getElse());
      return std::move(O);
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) { auto O = smk("while", S); O["c"] = expr(X->getCond()); O["b"] = stmt(X->getBody());
      if (X->getConditionVariableDeclStmt()) O["cv"] = stmt(X->getConditionVariableDeclStmt()); return std::move(O); }
    if (auto *X = dyn_cast<DoStmt>(S)) { auto O = smk("do", S); O["c"] = expr(X->getCond()); O["b"] = stmt(X->getBody()); return std::move(O); }
    if (auto *X = dyn_cast<ForStmt>(S)) {
      auto O = smk("for", S); O["init"] = stmt(X->getInit()); O["c"] = expr(X->getCond());
      O["inc"] = expr(X->getInc()); O["b"] = stmt(X->getBody()); return std::move(O);
    }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      auto O = smk("rfor", S); O["r"] = expr(X->getRangeInit()); O["var"] = varDecl(X->getLoopVariable());
      O["b"] = stmt(X->getBody()); return std::move(O);
    }
    if (auto *X = dyn_cast<ReturnStmt>(S)) { auto O = smk("return", S); O["x"] = expr(X->getRetValue()); return std::move(O); }
    if (isa<BreakStmt>(S)) return smk("break", S);
    if (isa<ContinueStmt>(S)) return smk("continue", S);
    if (isa<NullStmt>(S)) return smk("null", S);
    if (auto *X = dyn_cast<SwitchStmt>(S)) { auto O = smk("switch", S); O["c"] = expr(X->getCond()); O["b"] = stmt(X->getBody()); return std::move(O); }
    if (auto *X = dyn_cast<CaseStmt>(S)) { auto O = smk("case", S); O["v"] = expr(X->getLHS()); O["b"] = stmt(X->getSubStmt()); return std::move(O); }
    if (auto *X = dyn_cast<DefaultStmt>(S)) { auto O = smk("default", S); O["b"] = stmt(X->getSubStmt()); return std::move(O); }
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      auto O = smk("try", S); O["b"] = stmt(X->getTryBlock()); Array H;
      for (unsigned i = 0; i < X->getNumHandlers(); i++) {
        auto *Hd = X->getHandler(i);
        Object HO; HO["b"] = stmt(Hd->getHandlerBlock());
        if (Hd->getExceptionDecl()) HO["v"] = varDecl(Hd->getExceptionDecl());
        H.push_back(std::move(HO));
      }
      O["h"] = std::move(H); return std::move(O);
    }
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<Expr>(S)) { auto O = smk("expr", S); O["x"] = expr(X); return std::move(O); }
    auto O = smk("unsupported", S); O["cls"] = S->getStmtClassName(); return std::move(O);
  }

  Value fnBody(const FunctionDecl *F) {
    Object O{{"q", qname(F)}, {"key", fkey(F)}, {"ret", ty(F->getReturnType())},
             {"file", fileOf(F->getLocation())}, {"line", lineOf(F->getLocation())}};
    Array Ps;
    for (auto *P : F->parameters())
      Ps.push_back(Object{{"id", varId(P)}, {"n", P->getNameAsString()}, {"t", ty(P->getType())},
        {"cref", P->getType()->isReferenceType() && P->getType().getNonReferenceType().isConstQualified()}});
    O["params"] = std::move(Ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = ty(C.getRecordType(M->getParent()));
      O["static"] = M->isStatic(); O["const"] = M->isConst(); O["virt"] = M->isVirtual();
      Array Ov; for (auto *OM : M->overridden_methods()) Ov.push_back(fkey(OM));
      O["over"] = std::move(Ov);
    }
    if (auto *Ct = dyn_cast<CXXConstructorDecl>(F)) {
      O["ctor"] = true;
      Array Is;
      for (auto *I : Ct->inits()) {
        Object IO;
        if (I->isAnyMemberInitializer()) { IO["m"] = I->getAnyMember()->getNameAsString(); }
        else if (I->isBaseInitializer()) IO["base"] = ty(QualType(I->getBaseClass(), 0));
        else if (I->isDelegatingInitializer()) IO["deleg"] = true;
        IO["x"] = expr(I->getInit());
        IO["written"] = I->isWritten();
        Is.push_back(std::move(IO));
      }
      O["inits"] = std::move(Is);
    }
    if (F->getBody()) O["body"] = stmt(F->getBody());
    return std::move(O);
  }

  void function(const FunctionDecl *F) {
    const FunctionDecl *Def = nullptr;
    if (!F->hasBody(Def) || !Def) return;
    if (Def->isDependentContext() || Def->getType()->isDependentType()) return;
    if (!inRoots(Def->getLocation())) return;
    if (Def->isImplicit() && !isa<CXXConstructorDecl>(Def)) return;
    std::string K = fkey(Def);
    if (Functions.count(K)) return;
    Functions[K] = nullptr;
    Functions[K] = fnBody(Def);
  }

  // pure virtual: signature only, so that a contract can be attached to it
  void pureVirtual(const CXXMethodDecl *M) {
    if (M->getParent()->isDependentContext()) return;
    std::string K = fkey(M);
    if (Functions.count(K)) return;
    Functions[K] = nullptr;
    Functions[K] = fnBody(M);
  }

  void finish() {
    while (!RecordsPending.empty()) {
      auto *R = *RecordsPending.begin();
      RecordsPending.erase(RecordsPending.begin());
      if (auto *CR = dyn_cast<CXXRecordDecl>(R)) collectRecord(CR);
    }
  }
};

class V : public RecursiveASTVisitor<V> {
public:
  Emitter &E;
  V(Emitter &E) : E(E) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isThisDeclarationADefinition() && E.inRoots(F->getLocation())) {
      if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
      E.function(F);
    } else if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->isPureVirtual() && E.inRoots(M->getLocation())) E.pureVirtual(M);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (R->isThisDeclarationADefinition() && E.inRoots(R->getLocation()) && !R->isDependentContext() && !R->isLambda())
      E.RecordsPending.insert(R);
    return true;
  }
  bool VisitVarDecl(VarDecl *D) {
    if (D->hasGlobalStorage() && !D->isStaticLocal() && E.inRoots(D->getLocation()) && !D->getDeclContext()->isDependentContext() && !D->getType()->isDependentType()) E.global(D);
    return true;
  }
};

class Cons : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) { llvm::errs() << "cxx2ir: parse errors\n"; return; }
    Emitter E(C);
    V Vis(E);
    Vis.TraverseDecl(C.getTranslationUnitDecl());
    E.finish();
    Object O;
    Object F, R, G;
    for (auto &[K, Val] : E.Functions) F[K] = std::move(Val.v);
    for (auto &[K, Val] : E.Records) R[K] = std::move(Val.v);
    for (auto &[K, Val] : E.Globals) G[K] = std::move(Val.v);
    O["functions"] = std::move(F); O["records"] = std::move(R); O["globals"] = std::move(G);
    Array T; for (auto &X : E.Types) T.push_back(std::move(X));
    O["types"] = std::move(T);
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutFile + ".tmp", EC);
    OS << Value(std::move(O));
    OS.close();
    rename((OutFile + ".tmp").c_str(), OutFile.c_str());
  }
};
class Act : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); }
};

int main(int argc, const char **argv) {
  if (argc < 4) return 2;
  OutFile = argv[1];
  { std::string s = argv[2]; size_t p = 0; while (p <= s.size()) { auto q = s.find(',', p); if (q == std::string::npos) q = s.size(); Roots.push_back(s.substr(p, q - p)); p = q + 1; } }
  std::string File = argv[3];
  std::vector<std::string> Args;
  for (int i = 4; i < argc; i++) if (std::string(argv[i]) != "--") Args.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", Args);
  tooling::ClangTool Tool(DB, {File});
  return Tool.run(tooling::newFrontendActionFactory<Act>().get());
}
