// Fact extractor: parses one translation unit with clang and writes, as JSON, the type-resolved
// program below a given source root: for each function its control flow graph over flattened
// expression nodes, and the declarations (records, enums, global variables).
//
// usage: extract <source-root> <out.json> -- <clang args incl. the source file>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Basic/SourceManager.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::string gRoot, gOut;
static bool gHadOutput = false;

namespace {

class Extractor : public RecursiveASTVisitor<Extractor> {
 public:
  explicit Extractor(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.SuppressUnwrittenScope = true;
    PP.Bool = true;
    PP.PrintCanonicalTypes = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }

  ASTContext& C;
  SourceManager& SM;
  PrintingPolicy PP;
  json::Array Functions, Records, Enums, Globals;
  std::set<const Decl*> Seen;
  std::map<const Decl*, int> DeclIds;

  // ---- per function state
  std::map<const Expr*, int> NodeIds;
  json::Object Nodes;
  int NextNode = 0;

  std::string fileOf(SourceLocation L) {
    if (L.isInvalid()) return "";
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L);
    return F.str();
  }
  unsigned lineOf(SourceLocation L) {
    if (L.isInvalid()) return 0;
    return SM.getExpansionLineNumber(L);
  }
  bool inRoot(SourceLocation L) {
    std::string F = fileOf(L);
    return F.rfind(gRoot, 0) == 0;
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "";
    return T.getCanonicalType().getAsString(PP);
  }
  // Instantiations of the library's loops over a lambda of the repository are read like its own
  // functions: the lambda, or null.
  const CXXRecordDecl* loopBody(const Decl* D) {
    auto* FD = dyn_cast<FunctionDecl>(D);
    if (!FD || !FD->getIdentifier() || !FD->isInStdNamespace()) return nullptr;
    unsigned N = FD->getName() == "for_each" ? 3 : FD->getName() == "accumulate" ? 4 : 0;
    auto* A = FD->getTemplateSpecializationArgs();
    if (!A || !N || FD->getNumParams() != N) return nullptr;
    for (auto& X : A->asArray())
      if (X.getKind() == TemplateArgument::Type)
        if (auto* R = X.getAsType()->getAsCXXRecordDecl())
          if (R->isLambda() && inRoot(R->getLocation())) return R;
    return nullptr;
  }
  std::string usr(const Decl* D) {
    llvm::SmallString<256> B;
    if (clang::index::generateUSRForDecl(D, B)) return "";
    if (auto* R = loopBody(D)) return (B.str() + "|" + usr(R->getLambdaCallOperator())).str();
    return B.str().str();
  }
  int declId(const Decl* D) {
    D = D->getCanonicalDecl();
    auto it = DeclIds.find(D);
    if (it != DeclIds.end()) return it->second;
    int id = DeclIds.size() + 1;
    DeclIds[D] = id;
    return id;
  }

  static const Expr* strip(const Expr* E) {
    while (E) {
      if (auto* X = dyn_cast<ParenExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto* X = dyn_cast<ImplicitCastExpr>(E)) {
        if (X->getCastKind() == CK_UserDefinedConversion ||
            X->getCastKind() == CK_ConstructorConversion) {
          E = X->getSubExpr(); continue;
        }
        E = X->getSubExpr(); continue;
      }
      if (auto* X = dyn_cast<ExprWithCleanups>(E)) { E = X->getSubExpr(); continue; }
      if (auto* X = dyn_cast<MaterializeTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto* X = dyn_cast<CXXBindTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto* X = dyn_cast<ConstantExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto* X = dyn_cast<CXXDefaultArgExpr>(E)) { E = X->getExpr(); continue; }
      if (auto* X = dyn_cast<CXXDefaultInitExpr>(E)) { E = X->getExpr(); continue; }
      if (auto* X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = X->getReplacement(); continue; }
      if (auto* X = dyn_cast<OpaqueValueExpr>(E)) {
        if (X->getSourceExpr()) { E = X->getSourceExpr(); continue; }
        return E;
      }
      if (auto* X = dyn_cast<CXXRewrittenBinaryOperator>(E)) { E = X->getSemanticForm(); continue; }
      if (auto* X = dyn_cast<CXXStdInitializerListExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto* X = dyn_cast<CXXConstructExpr>(E)) {
        if (X->isElidable() && X->getNumArgs() >= 1) { E = X->getArg(0); continue; }
        return E;
      }
      if (auto* X = dyn_cast<CXXFunctionalCastExpr>(E)) {
        if (X->getCastKind() == CK_ConstructorConversion || X->getCastKind() == CK_NoOp) {
          E = X->getSubExpr(); continue;
        }
        return E;
      }
      return E;
    }
    return E;
  }

  void typeAttrs(json::Object& O, QualType T) {
    if (T.isNull()) return;
    QualType K = T.getNonReferenceType().getCanonicalType();
    O["t"] = ty(T);
    if (K->isPointerType()) O["ptr"] = true;
    if (K->isBooleanType()) O["ki"] = "bool";
    else if (K->isFloatingType()) O["ki"] = "fp";
    else if (K->isUnsignedIntegerOrEnumerationType()) O["ki"] = "uint";
    else if (K->isSignedIntegerOrEnumerationType()) O["ki"] = "int";
    if (K->isIntegerType() && !K->isDependentType() && !K->isIncompleteType())
      O["bits"] = (int64_t)C.getTypeSize(K);
  }

  int node(const Expr* E0) {
    const Expr* E = strip(E0);
    if (!E) return -1;
    bool narrow = false;
    for (const Expr* W = E0; W && W != E;) {
      if (auto* IC = dyn_cast<ImplicitCastExpr>(W)) {
        if (IC->getCastKind() == CK_FloatingToIntegral) narrow = true;
        W = IC->getSubExpr();
      } else if (auto* P = dyn_cast<ParenExpr>(W)) W = P->getSubExpr();
      else if (auto* P = dyn_cast<ExprWithCleanups>(W)) W = P->getSubExpr();
      else if (auto* P = dyn_cast<MaterializeTemporaryExpr>(W)) W = P->getSubExpr();
      else break;
    }
    auto it = NodeIds.find(E);
    if (it != NodeIds.end()) {
      if (narrow)
        if (auto* NO = Nodes.getObject(std::to_string(it->second))) (*NO)["narrow"] = true;
      return it->second;
    }
    int id = NextNode++;
    NodeIds[E] = id;
    json::Object O;
    O["l"] = (int64_t)lineOf(E->getExprLoc());
    std::string F = fileOf(E->getExprLoc());
    if (F != CurFile) O["f"] = F;
    typeAttrs(O, E->getType());
    if (E->isGLValue()) O["lv"] = true;
    fill(O, E);
    if (!E->isValueDependent() && !E->isTypeDependent() && E->getType()->isIntegralOrEnumerationType()) {
      if (!O.get("v")) {
        Expr::EvalResult R;
        if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
          llvm::SmallString<32> S;
          R.Val.getInt().toString(S, 10);
          O["cv"] = S.str().str();
        }
      }
    } else if (!E->isValueDependent() && !E->isTypeDependent() && E->getType()->isFloatingType()) {
      Expr::EvalResult R;
      if (!O.get("v") && E->EvaluateAsRValue(R, C) && !R.HasSideEffects && R.Val.isFloat()) {
        llvm::SmallString<32> S;
        R.Val.getFloat().toString(S);
        O["cv"] = S.str().str();
      }
    }
    if (narrow) O["narrow"] = true;
    Nodes[std::to_string(id)] = std::move(O);
    return id;
  }

  void calleeAttrs(json::Object& O, const FunctionDecl* FD) {
    O["fn"] = FD->getQualifiedNameAsString();
    O["u"] = usr(FD);
    if (inRoot(FD->getLocation())) O["own"] = true;
    if (auto* M = dyn_cast<CXXMethodDecl>(FD)) {
      O["cls"] = M->getParent()->getQualifiedNameAsString();
      if (M->isConst()) O["const"] = true;
      if (M->isVirtual()) O["virt"] = true;
      if (M->isStatic()) O["static"] = true;
    }
    if (FD->isNoReturn()) O["noret"] = true;
    // how each parameter is passed: v = value, c = const reference/pointer, m = mutable
    std::string modes;
    for (auto* P : FD->parameters()) {
      QualType T = P->getType();
      if (T->isReferenceType()) modes += T->getPointeeType().isConstQualified() ? 'c' : 'm';
      else if (T->isPointerType()) modes += T->getPointeeType().isConstQualified() ? 'k' : 'p';
      else modes += 'v';
    }
    O["pm"] = modes;
  }

  json::Array args(llvm::ArrayRef<const Expr*> A) {
    json::Array R;
    for (auto* X : A) R.push_back(node(X));
    return R;
  }

  void fill(json::Object& O, const Expr* E) {
    if (auto* X = dyn_cast<IntegerLiteral>(E)) {
      O["k"] = "int";
      llvm::SmallString<32> S;
      X->getValue().toString(S, 10, X->getType()->isSignedIntegerType());
      O["v"] = S.str().str();
    } else if (auto* X = dyn_cast<CharacterLiteral>(E)) {
      O["k"] = "int"; O["v"] = std::to_string(X->getValue());
    } else if (auto* X = dyn_cast<FloatingLiteral>(E)) {
      O["k"] = "fp"; llvm::SmallString<32> S; X->getValue().toString(S); O["v"] = S.str().str();
    } else if (auto* X = dyn_cast<StringLiteral>(E)) {
      O["k"] = "str";
      if (X->getCharByteWidth() == 1) O["v"] = json::fixUTF8(X->getBytes());
      else O["v"] = "<wide>";
      O["len"] = (int64_t)X->getLength();
    } else if (isa<PredefinedExpr>(E)) {
      O["k"] = "str"; O["v"] = "<predefined>";
    } else if (auto* X = dyn_cast<CXXBoolLiteralExpr>(E)) {
      O["k"] = "bool"; O["v"] = X->getValue() ? "1" : "0";
    } else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
      O["k"] = "null";
    } else if (isa<CXXThisExpr>(E)) {
      O["k"] = "this";
    } else if (auto* X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl* D = X->getDecl();
      if (auto* EC = dyn_cast<EnumConstantDecl>(D)) {
        O["k"] = "enum";
        llvm::SmallString<32> S; EC->getInitVal().toString(S, 10); O["v"] = S.str().str();
        O["name"] = EC->getNameAsString();
        O["enum"] = cast<NamedDecl>(EC->getDeclContext())->getQualifiedNameAsString();
      } else if (auto* FD = dyn_cast<FunctionDecl>(D)) {
        O["k"] = "fnref"; calleeAttrs(O, FD);
      } else if (auto* VD = dyn_cast<VarDecl>(D)) {
        O["k"] = "var"; O["name"] = VD->getNameAsString();
        if (VD->isLocalVarDeclOrParm()) {
          O["vk"] = isa<ParmVarDecl>(VD) ? "param" : (VD->isStaticLocal() ? "slocal" : "local");
          O["d"] = declId(VD);
        } else {
          O["vk"] = VD->isStaticDataMember() ? "smember" : "global";
          O["qn"] = VD->getQualifiedNameAsString();
          if (inRoot(VD->getLocation())) O["own"] = true;
        }
      } else if (auto* BD = dyn_cast<BindingDecl>(D)) {
        O["k"] = "binding"; O["name"] = BD->getNameAsString(); O["d"] = declId(BD);
        if (BD->getBinding()) O["e"] = node(BD->getBinding());
      } else {
        O["k"] = "declref"; O["name"] = D->getNameAsString();
      }
    } else if (auto* X = dyn_cast<MemberExpr>(E)) {
      if (auto* FD = dyn_cast<FieldDecl>(X->getMemberDecl())) {
        O["k"] = "member"; O["name"] = FD->getNameAsString();
        O["cls"] = FD->getParent()->getQualifiedNameAsString();
        O["b"] = node(X->getBase());
        if (X->isArrow()) O["arrow"] = true;
      } else if (auto* VD = dyn_cast<VarDecl>(X->getMemberDecl())) {
        O["k"] = "var"; O["name"] = VD->getNameAsString(); O["vk"] = "smember";
        O["qn"] = VD->getQualifiedNameAsString();
      } else if (auto* MD = dyn_cast<CXXMethodDecl>(X->getMemberDecl())) {
        O["k"] = "memfn"; O["name"] = MD->getNameAsString();
        O["b"] = node(X->getBase());
        if (X->isArrow()) O["arrow"] = true;
      } else {
        O["k"] = "other"; O["ck"] = "MemberExpr";
      }
    } else if (auto* X = dyn_cast<CXXOperatorCallExpr>(E)) {
      O["k"] = "call"; O["op"] = getOperatorSpelling(X->getOperator());
      if (auto* FD = X->getDirectCallee()) {
        calleeAttrs(O, FD);
        bool member = isa<CXXMethodDecl>(FD) && !cast<CXXMethodDecl>(FD)->isStatic();
        llvm::ArrayRef<const Expr*> A(X->getArgs(), X->getNumArgs());
        if (member) { O["o"] = node(A[0]); A = A.drop_front(); }
        O["a"] = args(A);
      } else {
        O["a"] = args(llvm::ArrayRef<const Expr*>(X->getArgs(), X->getNumArgs()));
      }
    } else if (auto* X = dyn_cast<CXXMemberCallExpr>(E)) {
      O["k"] = "call";
      if (auto* FD = X->getDirectCallee()) calleeAttrs(O, FD);
      const Expr* Obj = X->getImplicitObjectArgument();
      if (Obj) {
        O["o"] = node(Obj);
        if (auto* ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) {
          if (ME->isArrow()) O["arrow"] = true;
          if (ME->hasQualifier()) O["qual"] = true;
        }
      }
      O["a"] = args(llvm::ArrayRef<const Expr*>(X->getArgs(), X->getNumArgs()));
    } else if (auto* X = dyn_cast<CallExpr>(E)) {
      O["k"] = "call";
      if (auto* FD = X->getDirectCallee()) calleeAttrs(O, FD);
      else O["ce"] = node(X->getCallee());
      O["a"] = args(llvm::ArrayRef<const Expr*>(X->getArgs(), X->getNumArgs()));
    } else if (auto* X = dyn_cast<CXXConstructExpr>(E)) {
      O["k"] = "construct";
      calleeAttrs(O, X->getConstructor());
      if (X->getConstructor()->isCopyConstructor()) O["copy"] = true;
      if (X->getConstructor()->isMoveConstructor()) O["move"] = true;
      if (X->getConstructor()->isImplicit()) O["impl"] = true;
      O["a"] = args(llvm::ArrayRef<const Expr*>(X->getArgs(), X->getNumArgs()));
    } else if (auto* X = dyn_cast<CXXNewExpr>(E)) {
      O["k"] = "new"; O["at"] = ty(X->getAllocatedType());
      if (X->isArray() && X->getArraySize()) O["n"] = node(*X->getArraySize());
      if (X->getInitializer()) O["e"] = node(X->getInitializer());
    } else if (auto* X = dyn_cast<CXXDeleteExpr>(E)) {
      O["k"] = "delete"; O["e"] = node(X->getArgument());
      if (X->isArrayForm()) O["arr"] = true;
    } else if (auto* X = dyn_cast<UnaryOperator>(E)) {
      O["k"] = "un"; O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) O["post"] = true;
      O["e"] = node(X->getSubExpr());
    } else if (auto* X = dyn_cast<BinaryOperator>(E)) {
      O["k"] = X->isAssignmentOp() ? "assign" : "bin";
      O["op"] = BinaryOperator::getOpcodeStr(X->getOpcode()).str();
      O["x"] = node(X->getLHS()); O["y"] = node(X->getRHS());
      // the type the operands were converted to
      if (X->getLHS()->getType()->isArithmeticType()) O["ot"] = ty(X->getLHS()->getType());
      if (X->isComparisonOp() || X->isAdditiveOp() || X->isMultiplicativeOp())
        if (X->getLHS()->getType()->isUnsignedIntegerType()) O["ou"] = true;
    } else if (auto* X = dyn_cast<AbstractConditionalOperator>(E)) {
      O["k"] = "cond"; O["c"] = node(X->getCond());
      O["x"] = node(X->getTrueExpr()); O["y"] = node(X->getFalseExpr());
    } else if (auto* X = dyn_cast<ArraySubscriptExpr>(E)) {
      O["k"] = "sub"; O["b"] = node(X->getBase()); O["i"] = node(X->getIdx());
      QualType BT = strip(X->getBase())->getType();
      if (auto* CA = C.getAsConstantArrayType(BT))
        O["n"] = (int64_t)CA->getSize().getZExtValue();
    } else if (auto* X = dyn_cast<ExplicitCastExpr>(E)) {
      O["k"] = "cast"; O["e"] = node(X->getSubExpr());
      O["cast"] = isa<CXXDynamicCastExpr>(E) ? "dynamic" : isa<CXXConstCastExpr>(E) ? "const"
          : isa<CXXReinterpretCastExpr>(E) ? "reinterpret" : "static";
    } else if (auto* X = dyn_cast<LambdaExpr>(E)) {
      O["k"] = "lambda"; O["u"] = usr(X->getCallOperator());
      O["lam"] = declId(X->getCallOperator());
      json::Array caps;
      auto init = X->capture_init_begin();
      for (auto& c : X->captures()) {
        json::Object co;
        if (c.capturesThis()) co["this"] = true;
        else if (c.capturesVariable()) {
          co["d"] = declId(c.getCapturedVar());
          co["name"] = c.getCapturedVar()->getNameAsString();
        }
        co["ref"] = c.getCaptureKind() == LCK_ByRef;
        if (init != X->capture_init_end()) { if (*init) co["e"] = node(*init); ++init; }
        caps.push_back(std::move(co));
      }
      O["caps"] = std::move(caps);
    } else if (auto* X = dyn_cast<InitListExpr>(E)) {
      O["k"] = "initlist";
      json::Array A;
      for (auto* I : X->inits()) A.push_back(node(I));
      O["a"] = std::move(A);
    } else if (auto* X = dyn_cast<CXXThrowExpr>(E)) {
      O["k"] = "throw"; if (X->getSubExpr()) O["e"] = node(X->getSubExpr());
    } else if (auto* X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      O["k"] = "sizeof";
    } else if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) {
      O["k"] = "zero";
    } else if (auto* X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      O["k"] = "construct"; calleeAttrs(O, X->getConstructor()); O["a"] = json::Array();
    } else {
      O["k"] = "other"; O["ck"] = E->getStmtClassName();
      json::Array A;
      for (auto* S : E->children())
        if (auto* SE = dyn_cast_or_null<Expr>(S)) A.push_back(node(SE));
      O["a"] = std::move(A);
    }
  }

  std::string CurFile;

  json::Object varInfo(const VarDecl* D) {
    json::Object O;
    O["d"] = declId(D); O["name"] = D->getNameAsString();
    typeAttrs(O, D->getType());
    if (D->getType()->isReferenceType()) O["ref"] = true;
    if (D->getType().isConstQualified()) O["isconst"] = true;
    if (D->isStaticLocal()) O["slocal"] = true;
    if (auto* CA = C.getAsConstantArrayType(D->getType()))
      O["arr"] = (int64_t)CA->getSize().getZExtValue();
    return O;
  }

  void emitFunction(const FunctionDecl* FD) {
    if (!FD->doesThisDeclarationHaveABody() && !FD->isDefaulted()) return;
    if (FD->isDependentContext()) return;
    const Stmt* Body = FD->getBody();
    if (!Body) return;
    if (!inRoot(FD->getLocation()) && !loopBody(FD)) return;
    if (!Seen.insert(FD).second) return;
    // nothing nested is emitted while we are in the middle of a function; save state
    auto SavedNodes = std::move(Nodes); auto SavedIds = std::move(NodeIds);
    int SavedNext = NextNode; std::string SavedFile = CurFile;
    Nodes = json::Object(); NodeIds.clear(); NextNode = 0;
    CurFile = fileOf(FD->getLocation());

    CFG::BuildOptions BO;
    BO.setAllAlwaysAdd();
    BO.AddImplicitDtors = true;
    BO.AddInitializers = true;
    BO.AddCXXDefaultInitExprInCtors = true;
    BO.PruneTriviallyFalseEdges = true;
    auto cfg = CFG::buildCFG(FD, const_cast<Stmt*>(Body), &C, BO);
    json::Object O;
    O["name"] = FD->getQualifiedNameAsString();
    O["u"] = usr(FD);
    O["lam"] = declId(FD);
    O["file"] = CurFile;
    O["line"] = (int64_t)lineOf(FD->getLocation());
    O["ret"] = ty(FD->getReturnType());
    json::Array ps;
    for (auto* P : FD->parameters()) ps.push_back(varInfo(P));
    O["params"] = std::move(ps);
    if (FD->isDefaulted() || FD->isImplicit()) O["implicit"] = true;
    if (auto* M = dyn_cast<CXXMethodDecl>(FD)) {
      O["cls"] = M->getParent()->getQualifiedNameAsString();
      if (M->isStatic()) O["static"] = true;
      if (M->isConst()) O["const"] = true;
      if (M->getParent()->isLambda()) O["lambda"] = true;
      json::Array ov;
      for (auto* OM : M->overridden_methods()) ov.push_back(OM->getQualifiedNameAsString());
      O["overrides"] = std::move(ov);
      if (isa<CXXConstructorDecl>(M)) O["ctor"] = true;
      if (isa<CXXDestructorDecl>(M)) O["dtor"] = true;
      if (auto* CD = dyn_cast<CXXConstructorDecl>(M)) {
        if (CD->isCopyConstructor()) O["copyctor"] = true;
      }
    }
    O["noret"] = FD->isNoReturn();
    if (!cfg) {
      O["nocfg"] = true;
    } else {
      json::Array blocks;
      for (const CFGBlock* B : *cfg) {
        json::Object bo;
        bo["id"] = (int64_t)B->getBlockID();
        json::Array el;
        for (const CFGElement& E : *B) emitElement(E, el);
        bo["e"] = std::move(el);
        const Stmt* T = B->getTerminatorStmt();
        if (T) {
          bo["tk"] = T->getStmtClassName();
          bo["tl"] = (int64_t)lineOf(T->getBeginLoc());
          if (auto* BOp = dyn_cast<BinaryOperator>(T)) bo["top"] = BOp->getOpcodeStr().str();
          if (const Stmt* Cnd = B->getTerminatorCondition())
            if (auto* CE = dyn_cast<Expr>(Cnd)) bo["c"] = node(CE);
        }
        if (const Stmt* L = B->getLabel()) {
          if (auto* CS = dyn_cast<CaseStmt>(L)) {
            bo["label"] = "case";
            bo["cx"] = node(CS->getLHS());
            Expr::EvalResult R;
            if (CS->getLHS()->EvaluateAsInt(R, C)) {
              llvm::SmallString<32> S; R.Val.getInt().toString(S, 10); bo["cv"] = S.str().str();
            }
          } else if (isa<DefaultStmt>(L)) bo["label"] = "default";
          else if (auto* CT = dyn_cast<CXXCatchStmt>(L)) {
            bo["label"] = "catch";
            bo["ct"] = CT->getCaughtType().isNull() ? "..." : ty(CT->getCaughtType());
          } else bo["label"] = L->getStmtClassName();
        }
        json::Array su;
        for (auto S : B->succs()) {
          const CFGBlock* SB = S.getReachableBlock();
          if (SB) su.push_back((int64_t)SB->getBlockID()); else su.push_back(nullptr);
        }
        bo["s"] = std::move(su);
        if (B->hasNoReturnElement()) bo["nr"] = true;
        if (B->getLoopTarget()) bo["loop"] = true;
        blocks.push_back(std::move(bo));
      }
      O["entry"] = (int64_t)cfg->getEntry().getBlockID();
      O["exit"] = (int64_t)cfg->getExit().getBlockID();
      O["blocks"] = std::move(blocks);
    }
    // try statements: which nodes lie inside, and which handlers cover them
    json::Array tries;
    collectTries(Body, tries);
    if (!tries.empty()) O["tries"] = std::move(tries);
    O["nodes"] = std::move(Nodes);
    Functions.push_back(std::move(O));
    Nodes = std::move(SavedNodes); NodeIds = std::move(SavedIds);
    NextNode = SavedNext; CurFile = SavedFile;
  }

  void nodesIn(const Stmt* S, json::Array& A) {
    if (!S) return;
    if (auto* E = dyn_cast<Expr>(S)) {
      auto it = NodeIds.find(strip(E));
      if (it != NodeIds.end()) A.push_back(it->second);
    }
    for (auto* Ch : S->children()) nodesIn(Ch, A);
  }
  void collectTries(const Stmt* S, json::Array& Out) {
    if (!S) return;
    if (auto* T = dyn_cast<CXXTryStmt>(S)) {
      json::Object O;
      O["line"] = (int64_t)lineOf(T->getBeginLoc());
      json::Array A; nodesIn(T->getTryBlock(), A); O["nodes"] = std::move(A);
      json::Array H;
      for (unsigned i = 0; i < T->getNumHandlers(); i++) {
        auto* Ct = T->getHandler(i);
        json::Object ho;
        ho["type"] = Ct->getCaughtType().isNull() ? std::string("...") : ty(Ct->getCaughtType().getNonReferenceType().getUnqualifiedType());
        json::Array HN; nodesIn(Ct->getHandlerBlock(), HN); ho["nodes"] = std::move(HN);
        H.push_back(std::move(ho));
      }
      O["handlers"] = std::move(H);
      Out.push_back(std::move(O));
    }
    for (auto* Ch : S->children()) collectTries(Ch, Out);
  }

  void emitElement(const CFGElement& E, json::Array& el) {
    if (auto CS = E.getAs<CFGStmt>()) {
      const Stmt* S = CS->getStmt();
      if (auto* X = dyn_cast<Expr>(S)) {
        const Expr* St = strip(X);
        int id = node(X);
        if (St != X && !el.empty()) {
          // a wrapper of an expression: already listed unless it never was
        }
        json::Object o; o["n"] = id;
        if (St != X) o["w"] = true;
        el.push_back(std::move(o));
      } else if (auto* DS = dyn_cast<DeclStmt>(S)) {
        for (auto* D : DS->decls()) {
          if (auto* VD = dyn_cast<VarDecl>(D)) {
            json::Object o = varInfo(VD);
            o["decl"] = true;
            o["l"] = (int64_t)lineOf(VD->getLocation());
            if (VD->hasInit()) o["i"] = node(VD->getInit());
            if (auto* DD = dyn_cast<DecompositionDecl>(VD)) {
              json::Array bs;
              for (auto* B : DD->bindings()) {
                json::Object b; b["d"] = declId(B); b["name"] = B->getNameAsString();
                if (B->getBinding()) b["e"] = node(B->getBinding());
                bs.push_back(std::move(b));
              }
              o["bindings"] = std::move(bs);
            }
            el.push_back(std::move(o));
          }
        }
      } else if (auto* RS = dyn_cast<ReturnStmt>(S)) {
        json::Object o; o["ret"] = true; o["l"] = (int64_t)lineOf(RS->getReturnLoc());
        if (RS->getRetValue()) o["v"] = node(RS->getRetValue());
        el.push_back(std::move(o));
      }
    } else if (auto CI = E.getAs<CFGInitializer>()) {
      const CXXCtorInitializer* I = CI->getInitializer();
      json::Object o; o["init"] = true;
      o["l"] = (int64_t)lineOf(I->getSourceLocation());
      if (I->isAnyMemberInitializer()) {
        o["field"] = I->getAnyMember()->getNameAsString();
        if (I->isInClassMemberInitializer()) o["dflt"] = true;
        if (I->isWritten()) o["written"] = true;
      }
      else if (I->isBaseInitializer()) o["base"] = ty(QualType(I->getBaseClass(), 0));
      else if (I->isDelegatingInitializer()) o["deleg"] = true;
      if (I->getInit()) o["v"] = node(I->getInit());
      el.push_back(std::move(o));
    } else if (auto AD = E.getAs<CFGAutomaticObjDtor>()) {
      json::Object o; o["adtor"] = declId(AD->getVarDecl());
      o["name"] = AD->getVarDecl()->getNameAsString();
      o["t"] = ty(AD->getVarDecl()->getType());
      el.push_back(std::move(o));
    } else if (auto MD = E.getAs<CFGMemberDtor>()) {
      json::Object o; o["mdtor"] = MD->getFieldDecl()->getNameAsString();
      el.push_back(std::move(o));
    } else if (auto BD = E.getAs<CFGBaseDtor>()) {
      json::Object o; o["bdtor"] = ty(BD->getBaseSpecifier()->getType());
      el.push_back(std::move(o));
    }
  }

  // ---- declarations
  bool VisitFunctionDecl(FunctionDecl* FD) { emitFunction(FD); return true; }
  bool VisitLambdaExpr(LambdaExpr* L) {
    if (L->getCallOperator()) emitFunction(L->getCallOperator());
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
    if (!inRoot(R->getLocation())) return true;
    if (!Seen.insert(R).second) return true;
    CurFile = fileOf(R->getLocation());
    json::Object O;
    O["name"] = R->getQualifiedNameAsString();
    O["file"] = CurFile; O["line"] = (int64_t)lineOf(R->getLocation());
    json::Array bs;
    for (auto& B : R->bases()) bs.push_back(ty(B.getType()));
    O["bases"] = std::move(bs);
    Nodes = json::Object(); NodeIds.clear(); NextNode = 0;
    json::Array fs;
    for (auto* F : R->fields()) {
      json::Object f; f["name"] = F->getNameAsString();
      f["l"] = (int64_t)lineOf(F->getLocation());
      typeAttrs(f, F->getType());
      f["scalar"] = F->getType()->isScalarType();
      if (F->getType()->isReferenceType()) f["ref"] = true;
      if (F->hasInClassInitializer() && F->getInClassInitializer()) f["i"] = node(F->getInClassInitializer());
      fs.push_back(std::move(f));
    }
    O["fields"] = std::move(fs);
    json::Array ms;
    for (auto* M : R->methods()) {
      json::Object m; m["name"] = M->getNameAsString(); m["u"] = usr(M);
      m["implicit"] = M->isImplicit();
      m["virt"] = M->isVirtual();
      m["pure"] = M->isPureVirtual();
      m["deleted"] = M->isDeleted();
      m["line"] = (int64_t)lineOf(M->getLocation());
      m["acc"] = (int64_t)M->getAccess();
      if (isa<CXXConstructorDecl>(M)) m["ctor"] = true;
      if (isa<CXXDestructorDecl>(M)) m["dtor"] = true;
      json::Array ov;
      for (auto* OM : M->overridden_methods()) ov.push_back(OM->getQualifiedNameAsString());
      m["overrides"] = std::move(ov);
      ms.push_back(std::move(m));
    }
    O["methods"] = std::move(ms);
    O["dtor_user"] = R->hasUserDeclaredDestructor();
    O["nodes"] = std::move(Nodes);
    Nodes = json::Object(); NodeIds.clear(); NextNode = 0;
    Records.push_back(std::move(O));
    return true;
  }
  bool VisitEnumDecl(EnumDecl* E) {
    if (!inRoot(E->getLocation()) || !E->isThisDeclarationADefinition()) return true;
    if (!Seen.insert(E).second) return true;
    json::Object O;
    O["name"] = E->getQualifiedNameAsString();
    O["file"] = fileOf(E->getLocation()); O["line"] = (int64_t)lineOf(E->getLocation());
    json::Array A;
    for (auto* K : E->enumerators()) {
      llvm::SmallString<32> S; K->getInitVal().toString(S, 10);
      A.push_back(json::Array{K->getNameAsString(), S.str().str()});
    }
    O["consts"] = std::move(A);
    Enums.push_back(std::move(O));
    return true;
  }
  bool VisitVarDecl(VarDecl* V) {
    bool fileScope = V->isFileVarDecl() || V->isStaticDataMember();
    if (!(fileScope || V->isStaticLocal())) return true;
    if (!inRoot(V->getLocation())) return true;
    if (!Seen.insert(V).second) return true;
    if (V->isInvalidDecl() || V->getType()->isDependentType()) return true;
    CurFile = fileOf(V->getLocation());
    json::Object O;
    O["name"] = V->getQualifiedNameAsString();
    O["file"] = CurFile; O["line"] = (int64_t)lineOf(V->getLocation());
    typeAttrs(O, V->getType());
    O["isconst"] = V->getType().isConstQualified() || V->isConstexpr() ||
        C.getBaseElementType(V->getType()).isConstQualified();
    O["slocal"] = V->isStaticLocal();
    auto SavedNodes = std::move(Nodes); auto SavedIds = std::move(NodeIds); int SavedNext = NextNode;
    Nodes = json::Object(); NodeIds.clear(); NextNode = 0;
    if (V->hasInit() && !V->getInit()->isValueDependent()) O["i"] = node(V->getInit());
    O["nodes"] = std::move(Nodes);
    Nodes = std::move(SavedNodes); NodeIds = std::move(SavedIds); NextNode = SavedNext;
    Globals.push_back(std::move(O));
    return true;
  }
};

class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext& C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Extractor X(C);
    X.TraverseDecl(C.getTranslationUnitDecl());
    json::Object O;
    O["functions"] = std::move(X.Functions);
    O["records"] = std::move(X.Records);
    O["enums"] = std::move(X.Enums);
    O["globals"] = std::move(X.Globals);
    std::error_code EC;
    llvm::raw_fd_ostream OS(gOut, EC);
    if (EC) return;
    OS << json::Value(std::move(O));
    gHadOutput = true;
  }
};

class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override {
    return std::make_unique<Consumer>();
  }
};

}  // namespace

int main(int argc, const char** argv) {
  if (argc < 5) { llvm::errs() << "usage: extract root out -- args file\n"; return 2; }
  gRoot = argv[1]; gOut = argv[2];
  std::vector<std::string> cmd = {"clang++"};
  for (int i = 4; i < argc - 1; i++) cmd.push_back(argv[i]);
  std::string file = argv[argc - 1];
  tooling::FixedCompilationDatabase DB(".", std::vector<std::string>(cmd.begin() + 1, cmd.end()));
  tooling::ClangTool T(DB, {file});
  int r = T.run(tooling::newFrontendActionFactory<Action>().get());
  if (r != 0 || !gHadOutput) { llvm::errs() << "extraction failed for " << file << "\n"; return 1; }
  return 0;
}
