// lmsfacts: exports the type-checked program (classes, enums, globals, per-function control-flow
// graphs in a flat, fully resolved instruction form) of one translation unit as JSON.
// Only declarations that live under the --root directory are exported.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static llvm::cl::OptionCategory Cat("lmsfacts");
static llvm::cl::opt<std::string> Root("root", llvm::cl::desc("source root"), llvm::cl::cat(Cat));
static llvm::cl::opt<std::string> Out("o", llvm::cl::desc("output"), llvm::cl::cat(Cat));

namespace {

struct Exporter {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  json::Array Funcs, Classes, Enums, Globals;
  std::set<std::string> doneF, doneC, doneE, doneG;

  Exporter(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.Bool = true;
    PP.SuppressInlineNamespace = true;
  }

  std::string usr(const Decl *D) {
    D = D->getCanonicalDecl();
    llvm::SmallString<128> B;
    if (index::generateUSRForDecl(D, B)) {
      return "anon:" + std::to_string((uintptr_t)D);
    }
    return std::string(B.str());
  }
  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L);
    if (P.isInvalid()) return "";
    llvm::SmallString<256> R;
    if (auto FE = SM.getFileEntryRefForID(SM.getFileID(L))) {
      auto RP = FE->getFileEntry().tryGetRealPathName();
      if (!RP.empty()) return RP.str();
    }
    return P.getFilename();
  }
  bool inRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    return llvm::StringRef(fileOf(L)).starts_with(Root);
  }
  std::string rel(SourceLocation L) {
    std::string F = fileOf(L);
    if (llvm::StringRef(F).starts_with(Root)) {
      F = F.substr(Root.size());
      while (!F.empty() && F[0] == '/') F = F.substr(1);
    }
    return F;
  }
  int line(SourceLocation L) { return L.isValid() ? (int)SM.getExpansionLineNumber(L) : 0; }
  std::string ty(QualType T) {
    if (T.isNull()) return "?";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string fname(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    PrintingPolicy Q(PP);
    D->printQualifiedName(OS, Q);
    return OS.str();
  }

  // ---------------------------------------------------------------- functions
  struct FnCtx {
    json::Array *Elems = nullptr;
    std::map<const Stmt *, int> Sid;     // stmt -> id
    std::set<const Stmt *> InCfg;        // stmts that are CFG elements
    std::set<const Stmt *> Emitted;
    std::map<const Stmt *, json::Array> TryOf; // call -> handler types
    int next = 1;
  } *F = nullptr;

  int sid(const Stmt *S) {
    auto It = F->Sid.find(S);
    if (It != F->Sid.end()) return It->second;
    return F->Sid[S] = F->next++;
  }

  static const Expr *strip(const Expr *E) {
    while (E) {
      if (auto *P = dyn_cast<ParenExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<FullExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = P->getReplacement(); continue; }
      if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<OpaqueValueExpr>(E)) { if (P->getSourceExpr()) { E = P->getSourceExpr(); continue; } }
      if (auto *K = dyn_cast<CastExpr>(E)) {
        switch (K->getCastKind()) {
        case CK_NoOp: case CK_UserDefinedConversion: case CK_ConstructorConversion:
        case CK_FunctionToPointerDecay: case CK_BuiltinFnToFnPtr: case CK_Dependent:
          E = K->getSubExpr(); continue;
        default: break;
        }
      }
      break;
    }
    return E;
  }

  int operand(const Expr *E) {
    if (!E) return 0;
    E = strip(E);
    if (!E) return 0;
    if (!F->InCfg.count(E) && !F->Emitted.count(E)) emit(E);
    return sid(E);
  }

  json::Array args(llvm::iterator_range<CallExpr::const_arg_iterator> R) {
    json::Array A;
    for (const Expr *E : R) A.push_back(operand(E));
    return A;
  }

  void addConst(json::Object &O, const Expr *E) {
    if (E->isValueDependent() || E->isTypeDependent()) return;
    QualType T = E->getType();
    if (!T->isIntegralOrEnumerationType() || E->isGLValue()) return;
    Expr::EvalResult R;
    if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
      llvm::APSInt V = R.Val.getInt();
      if (V.getSignificantBits() <= 64 || (V.isUnsigned() && V.getActiveBits() <= 64)) {
        if (V.isUnsigned() && V.getActiveBits() == 64)
          O["cv"] = llvm::toString(V, 10);
        else
          O["cv"] = V.getExtValue();
      }
    }
  }

  json::Object base(const Stmt *S, const char *op) {
    json::Object O;
    O["i"] = sid(S);
    O["op"] = op;
    O["l"] = line(S->getBeginLoc());
    if (auto *E = dyn_cast<Expr>(S)) { O["t"] = ty(E->getType()); if (E->isGLValue()) O["lv"] = true; }
    return O;
  }
  void out(json::Object O) { F->Elems->push_back(std::move(O)); }

  json::Value calleeInfo(const FunctionDecl *FD, json::Object &O) {
    O["callee"] = usr(FD);
    O["fn"] = fname(FD);
    if (FD->isNoReturn()) O["noreturn"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(FD)) {
      O["cls"] = fname(M->getParent());
      if (M->isConst()) O["const"] = true;
      if (M->isStatic()) O["static"] = true;
    }
    json::Array PT;
    for (auto *P : FD->parameters()) PT.push_back(ty(P->getType()));
    O["pt"] = std::move(PT);
    return nullptr;
  }

  void emit(const Stmt *S) {
    if (!S) return;
    if (F->Emitted.count(S)) return;
    if (auto *E = dyn_cast<Expr>(S)) {
      const Expr *X = strip(E);
      if (X != E) { if (X && !F->Emitted.count(X) && !F->InCfg.count(X)) emit(X); F->Emitted.insert(S); return; }
    }
    F->Emitted.insert(S);
    sid(S);
    if (auto *E = dyn_cast<Expr>(S)) { emitExpr(E); return; }
    if (auto *D = dyn_cast<DeclStmt>(S)) {
      for (auto *X : D->decls())
        if (auto *V = dyn_cast<VarDecl>(X)) {
          json::Object O = base(S, "decl");
          O["var"] = usr(V) ;
          O["vid"] = vid(V);
          O["name"] = V->getNameAsString();
          O["t"] = ty(V->getType());
          O["vl"] = line(V->getLocation());
          if (V->isStaticLocal()) O["staticlocal"] = true;
          if (V->hasInit()) O["init"] = operand(V->getInit());
          if (V->getType()->isReferenceType()) O["ref"] = true;
          out(std::move(O));
        }
      return;
    }
    if (auto *R = dyn_cast<ReturnStmt>(S)) {
      json::Object O = base(S, "return");
      if (R->getRetValue()) O["v"] = operand(R->getRetValue());
      out(std::move(O));
      return;
    }
    out(base(S, "stmt"));
  }

  std::map<const VarDecl *, int> Vids;
  int vid(const VarDecl *V) {
    V = V->getCanonicalDecl();
    auto It = Vids.find(V);
    if (It != Vids.end()) return It->second;
    int N = (int)Vids.size() + 1;
    return Vids[V] = N;
  }

  void emitExpr(const Expr *E) {
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      json::Object O = base(E, "int"); addConst(O, E); out(std::move(O)); return;
    }
    if (isa<CharacterLiteral>(E) || isa<CXXBoolLiteralExpr>(E) || isa<UnaryExprOrTypeTraitExpr>(E) || isa<OffsetOfExpr>(E)) {
      json::Object O = base(E, "int"); addConst(O, E); out(std::move(O)); return;
    }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      json::Object O = base(E, "float"); O["v"] = X->getValueAsApproximateDouble(); out(std::move(O)); return;
    }
    if (auto *X = dyn_cast<StringLiteral>(E)) {
      json::Object O = base(E, "str");
      std::string B = X->getCharByteWidth() == 1 ? X->getBytes().str() : "";
      O["v"] = json::isUTF8(B) ? B : json::fixUTF8(B);
      O["len"] = (int64_t)X->getByteLength();
      out(std::move(O)); return;
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { out(base(E, "null")); return; }
    if (isa<CXXThisExpr>(E)) { out(base(E, "this")); return; }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        json::Object O = base(E, "int"); O["cv"] = EC->getInitVal().getExtValue(); O["enum"] = EC->getNameAsString(); out(std::move(O)); return;
      }
      if (auto *FD = dyn_cast<FunctionDecl>(D)) {
        json::Object O = base(E, "fnaddr"); calleeInfo(FD, O); out(std::move(O)); return;
      }
      json::Object O = base(E, "var");
      O["name"] = D->getNameAsString();
      if (auto *V = dyn_cast<VarDecl>(D)) {
        O["vid"] = vid(V);
        if (V->hasGlobalStorage()) { O["global"] = usr(V); O["gname"] = fname(V); }
        if (isa<ParmVarDecl>(V)) O["parm"] = true;
        if (V->getType()->isReferenceType()) O["ref"] = true;
      } else {
        O["vid"] = 0;
      }
      if (X->refersToEnclosingVariableOrCapture()) O["captured"] = true;
      out(std::move(O)); return;
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      if (auto *FD = dyn_cast<FieldDecl>(X->getMemberDecl())) {
        int B = operand(X->getBase());
        json::Object O = base(E, "member");
        O["b"] = B; O["f"] = FD->getNameAsString();
        O["arrow"] = X->isArrow();
        O["cls"] = fname(FD->getParent());
        if (FD->getType()->isReferenceType()) O["ref"] = true;
        out(std::move(O)); return;
      }
      if (auto *V = dyn_cast<VarDecl>(X->getMemberDecl())) {
        json::Object O = base(E, "var");
        O["name"] = V->getNameAsString(); O["vid"] = vid(V); O["global"] = usr(V); O["gname"] = fname(V);
        out(std::move(O)); return;
      }
      if (auto *M = dyn_cast<CXXMethodDecl>(X->getMemberDecl())) {
        int B = operand(X->getBase());
        json::Object O = base(E, "method"); O["b"] = B; O["arrow"] = X->isArrow(); calleeInfo(M, O); out(std::move(O)); return;
      }
      if (auto *EC = dyn_cast<EnumConstantDecl>(X->getMemberDecl())) {
        json::Object O = base(E, "int"); O["cv"] = EC->getInitVal().getExtValue(); out(std::move(O)); return;
      }
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      int B = operand(X->getBase()), I = operand(X->getIdx());
      json::Object O = base(E, "index"); O["b"] = B; O["x"] = I;
      // constant array bound, if the base decays from an array
      const Expr *BB = X->getBase()->IgnoreParenImpCasts();
      if (auto *AT = C.getAsConstantArrayType(BB->getType())) O["bound"] = (int64_t)AT->getSize().getZExtValue();
      out(std::move(O)); return;
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      int A = operand(X->getSubExpr());
      const char *op = "unop";
      switch (X->getOpcode()) {
      case UO_Deref: op = "deref"; break;
      case UO_AddrOf: op = "addr"; break;
      case UO_PreInc: case UO_PreDec: case UO_PostInc: case UO_PostDec: op = "incdec"; break;
      case UO_Extension: op = "pass"; break;
      default: break;
      }
      json::Object O = base(E, op);
      O["a"] = A; O["o"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isIncrementDecrementOp()) O["prefix"] = X->isPrefix();
      if (X->getOpcode() == UO_AddrOf) {
        if (auto *DR = dyn_cast<DeclRefExpr>(X->getSubExpr()->IgnoreParens()))
          if (auto *FD = dyn_cast<FunctionDecl>(DR->getDecl())) { O["op"] = "fnaddr"; calleeInfo(FD, O); }
      }
      addConst(O, E);
      out(std::move(O)); return;
    }
    if (auto *X = dyn_cast<CompoundAssignOperator>(E)) {
      int L = operand(X->getLHS()), R = operand(X->getRHS());
      json::Object O = base(E, "cassign"); O["a"] = L; O["b"] = R;
      O["o"] = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(X->getOpcode())).str();
      O["ct"] = ty(X->getComputationResultType());
      out(std::move(O)); return;
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      int L = operand(X->getLHS()), R = operand(X->getRHS());
      const char *op = "binop";
      if (X->getOpcode() == BO_Assign) op = "assign";
      else if (X->getOpcode() == BO_LAnd || X->getOpcode() == BO_LOr) op = "logic";
      else if (X->getOpcode() == BO_Comma) op = "comma";
      json::Object O = base(E, op); O["a"] = L; O["b"] = R; O["o"] = X->getOpcodeStr().str();
      O["lt"] = ty(X->getLHS()->getType());
      addConst(O, E);
      out(std::move(O)); return;
    }
    if (auto *X = dyn_cast<AbstractConditionalOperator>(E)) {
      int Cc = operand(X->getCond()), L = operand(X->getTrueExpr()), R = operand(X->getFalseExpr());
      json::Object O = base(E, "cond"); O["c"] = Cc; O["a"] = L; O["b"] = R; addConst(O, E); out(std::move(O)); return;
    }
    if (auto *X = dyn_cast<CastExpr>(E)) {
      int A = operand(X->getSubExpr());
      CastKind K = X->getCastKind();
      const char *op = "cast";
      if (K == CK_LValueToRValue) op = "load";
      else if (K == CK_NullToPointer) op = "null";
      else if (K == CK_ArrayToPointerDecay) op = "decay";
      json::Object O = base(E, op); O["a"] = A; O["k"] = X->getCastKindName();
      O["ft"] = ty(X->getSubExpr()->getType());
      if (isa<CXXDynamicCastExpr>(X)) { O["dyn"] = true; O["refcast"] = X->getType()->isPointerType() ? false : true; }
      if (isa<ExplicitCastExpr>(X)) O["explicit"] = true;
      if (K == CK_ArrayToPointerDecay)
        if (auto *AT = C.getAsConstantArrayType(X->getSubExpr()->getType())) {
          O["n"] = (int64_t)AT->getSize().getZExtValue();
          O["bytes"] = (int64_t)C.getTypeSizeInChars(X->getSubExpr()->getType()).getQuantity();
        }
      addConst(O, E);
      out(std::move(O)); return;
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) { emitCall(X, "call"); return; }
    if (auto *X = dyn_cast<CallExpr>(E)) { emitCall(X, "call"); return; }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      json::Array A;
      for (auto *P : X->arguments()) A.push_back(operand(P));
      json::Object O = base(E, "ctor"); O["args"] = std::move(A);
      calleeInfo(X->getConstructor(), O);
      if (X->getConstructor()->isCopyConstructor()) O["copy"] = true;
      if (X->getConstructor()->isMoveConstructor()) O["move"] = true;
      addTry(E, O);
      out(std::move(O)); return;
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      int Sz = 0;
      if (X->isArray() && X->getArraySize()) Sz = operand(*X->getArraySize());
      int In = X->getInitializer() ? operand(X->getInitializer()) : 0;
      json::Object O = base(E, "new"); O["array"] = X->isArray(); O["nt"] = ty(X->getAllocatedType());
      if (!X->getAllocatedType()->isDependentType() && !X->getAllocatedType()->isIncompleteType())
        O["es"] = (int64_t)C.getTypeSizeInChars(X->getAllocatedType()).getQuantity();
      if (Sz) O["n"] = Sz;
      if (In) O["init"] = In;
      out(std::move(O)); return;
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      int A = operand(X->getArgument());
      json::Object O = base(E, "delete"); O["a"] = A; O["array"] = X->isArrayForm(); O["dt"] = ty(X->getDestroyedType());
      out(std::move(O)); return;
    }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      int A = X->getSubExpr() ? operand(X->getSubExpr()) : 0;
      json::Object O = base(E, "throw"); O["a"] = A; O["tt"] = X->getSubExpr() ? ty(X->getSubExpr()->getType()) : "";
      addTry(E, O);
      out(std::move(O)); return;
    }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      json::Array Caps;
      auto CI = X->capture_init_begin();
      for (auto &Cp : X->captures()) {
        json::Object K;
        if (Cp.capturesThis()) { K["this"] = true; if (Cp.getCaptureKind() == LCK_StarThis) K["copy"] = true; }
        else if (Cp.capturesVariable()) {
          if (auto *V = dyn_cast<VarDecl>(Cp.getCapturedVar())) { K["vid"] = vid(V); K["name"] = V->getNameAsString(); K["ty"] = ty(V->getType()); }
          K["byref"] = Cp.getCaptureKind() == LCK_ByRef;
        }
        if (*CI) K["v"] = operand(*CI);
        ++CI;
        Caps.push_back(std::move(K));
      }
      json::Object O = base(E, "lambda");
      O["callee"] = usr(X->getCallOperator());
      O["caps"] = std::move(Caps);
      Pending.push_back(X->getCallOperator());
      out(std::move(O)); return;
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      json::Array A;
      const InitListExpr *I = X->isSemanticForm() ? X : (X->getSemanticForm() ? X->getSemanticForm() : X);
      for (auto *P : I->inits()) A.push_back(operand(P));
      json::Object O = base(E, "initlist"); O["args"] = std::move(A);
      if (I->hasArrayFiller()) O["filler"] = true;
      out(std::move(O)); return;
    }
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) {
      int A = operand(X->getExpr());
      json::Object O = base(E, "pass"); O["a"] = A; addConst(O, E); out(std::move(O)); return;
    }
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) {
      int A = operand(X->getExpr());
      json::Object O = base(E, "pass"); O["a"] = A; addConst(O, E); out(std::move(O)); return;
    }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) {
      json::Object O = base(E, "zero"); out(std::move(O)); return;
    }
    if (auto *X = dyn_cast<StmtExpr>(E)) { out(base(E, "opaque")); return; }
    // fall back: opaque with operands
    json::Array A;
    for (const Stmt *K : E->children())
      if (auto *KE = dyn_cast_or_null<Expr>(K)) A.push_back(operand(KE));
    json::Object O = base(E, "opaque"); O["kind"] = E->getStmtClassName(); O["args"] = std::move(A); addConst(O, E);
    out(std::move(O));
  }

  void addTry(const Stmt *S, json::Object &O) {
    auto It = F->TryOf.find(S);
    if (It != F->TryOf.end()) { json::Array A; for (auto &V : It->second) A.push_back(V); O["try"] = std::move(A); }
  }

  void emitCall(const CallExpr *X, const char *op) {
    json::Array A;
    int Obj = 0; bool Virt = false, Arrow = false;
    const FunctionDecl *FD = X->getDirectCallee();
    if (auto *MC = dyn_cast<CXXMemberCallExpr>(X)) {
      const Expr *IO = MC->getImplicitObjectArgument();
      if (IO) Obj = operand(IO);
      if (auto *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParens())) {
        Arrow = ME->isArrow();
        if (auto *M = dyn_cast<CXXMethodDecl>(ME->getMemberDecl()))
          Virt = M->isVirtual() && ME->performsVirtualDispatch(C.getLangOpts());
      }
      A = args(X->arguments());
    } else if (isa<CXXOperatorCallExpr>(X) && FD && isa<CXXMethodDecl>(FD) && X->getNumArgs() > 0 &&
               !cast<CXXMethodDecl>(FD)->isStatic()) {
      Obj = operand(X->getArg(0));
      bool first = true;
      for (auto *E : X->arguments()) { if (first) { first = false; continue; } A.push_back(operand(E)); }
      Virt = cast<CXXMethodDecl>(FD)->isVirtual();
    } else {
      A = args(X->arguments());
    }
    int Ce = 0;
    if (!FD) Ce = operand(X->getCallee());
    json::Object O = base(X, op);
    O["args"] = std::move(A);
    if (Obj) O["obj"] = Obj;
    if (Arrow) O["arrow"] = true;
    if (Virt) O["virt"] = true;
    if (FD) calleeInfo(FD, O); else O["ind"] = Ce;
    addTry(X, O);
    addConst(O, X);
    out(std::move(O));
  }

  void markTry(const Stmt *S, std::vector<std::string> H) {
    if (!S) return;
    if (auto *T = dyn_cast<CXXTryStmt>(S)) {
      auto In = H;
      for (unsigned i = 0; i < T->getNumHandlers(); ++i) {
        auto *Ct = T->getHandler(i);
        QualType CtT = Ct->getCaughtType();
        In.push_back(CtT.isNull() ? std::string("...") : ty(CtT.getNonReferenceType().getUnqualifiedType()));
      }
      markTry(T->getTryBlock(), In);
      for (unsigned i = 0; i < T->getNumHandlers(); ++i) markTry(T->getHandler(i)->getHandlerBlock(), H);
      return;
    }
    if (isa<LambdaExpr>(S)) return;
    if (!H.empty() && (isa<CallExpr>(S) || isa<CXXConstructExpr>(S) || isa<CXXThrowExpr>(S))) {
      json::Array A; for (auto &X : H) A.push_back(X);
      F->TryOf[S] = std::move(A);
    }
    for (auto *K : S->children()) markTry(K, H);
  }

  std::vector<const FunctionDecl *> Pending;

  void function(const FunctionDecl *FD) {
    if (!FD->hasBody() && !FD->isDefaulted()) return;
    const FunctionDecl *Def = nullptr;
    if (!FD->hasBody(Def) || !Def) return;
    FD = Def;
    if (FD->isDependentContext() || FD->isTemplated()) return;
    if (!inRoot(FD->getLocation())) return;
    std::string U = usr(FD);
    if (!doneF.insert(U).second) return;
    FnCtx Ctx; FnCtx *Saved = F; F = &Ctx;
    json::Object O;
    O["id"] = U; O["name"] = fname(FD); O["file"] = rel(FD->getLocation());
    O["l"] = line(FD->getLocation()); O["e"] = line(FD->getEndLoc());
    O["ret"] = ty(FD->getReturnType());
    if (FD->isImplicit() || FD->isDefaulted()) O["implicit"] = true;
    std::string Kind = "function";
    if (auto *M = dyn_cast<CXXMethodDecl>(FD)) {
      Kind = isa<CXXConstructorDecl>(M) ? "ctor" : isa<CXXDestructorDecl>(M) ? "dtor" : "method";
      O["cls"] = fname(M->getParent());
      O["static"] = M->isStatic(); O["virt"] = M->isVirtual(); O["const"] = M->isConst();
      if (M->getParent()->isLambda()) Kind = "lambda";
      json::Array Ov; for (auto *B : M->overridden_methods()) Ov.push_back(usr(B));
      O["overrides"] = std::move(Ov);
      O["access"] = (int)M->getAccess();
    }
    O["kind"] = Kind;
    O["storage_static"] = FD->getStorageClass() == SC_Static;
    json::Array Ps;
    for (auto *P : FD->parameters()) {
      json::Object Q; Q["vid"] = vid(P); Q["name"] = P->getNameAsString(); Q["t"] = ty(P->getType());
      Q["ref"] = P->getType()->isReferenceType(); Ps.push_back(std::move(Q));
    }
    O["params"] = std::move(Ps);
    markTry(FD->getBody(), {});

    CFG::BuildOptions BO;
    BO.setAllAlwaysAdd();
    BO.AddImplicitDtors = true;
    BO.AddInitializers = true;
    BO.AddTemporaryDtors = false;
    BO.AddEHEdges = false;
    BO.PruneTriviallyFalseEdges = true;
    BO.AddCXXDefaultInitExprInCtors = true;
    std::unique_ptr<CFG> G = CFG::buildCFG(FD, FD->getBody(), &C, BO);
    if (!G) { O["nocfg"] = true; Funcs.push_back(std::move(O)); F = Saved; return; }
    for (auto *B : *G)
      for (auto &E : *B)
        if (auto S = E.getAs<CFGStmt>()) {
          Ctx.InCfg.insert(S->getStmt());
        }
    json::Array Blocks;
    for (auto *B : *G) {
      json::Object BJ; BJ["id"] = (int)B->getBlockID();
      json::Array El; Ctx.Elems = &El;
      for (auto &E : *B) {
        if (auto S = E.getAs<CFGStmt>()) { emit(S->getStmt()); continue; }
        if (auto I = E.getAs<CFGInitializer>()) {
          const CXXCtorInitializer *Ini = I->getInitializer();
          json::Object J; J["i"] = Ctx.next++; J["op"] = "init"; J["l"] = line(Ini->getSourceLocation());
          int V = Ini->getInit() ? operand(Ini->getInit()) : 0;
          if (V) J["v"] = V;
          J["written"] = Ini->isWritten();
          if (Ini->isAnyMemberInitializer()) {
            J["f"] = Ini->getAnyMember()->getNameAsString(); J["cls"] = fname(Ini->getAnyMember()->getParent());
            J["t"] = ty(Ini->getAnyMember()->getType());
          } else if (Ini->isBaseInitializer()) J["base"] = ty(QualType(Ini->getBaseClass(), 0));
          else J["deleg"] = true;
          El.push_back(std::move(J));
          continue;
        }
        if (auto D = E.getAs<CFGAutomaticObjDtor>()) {
          json::Object J; J["i"] = Ctx.next++; J["op"] = "autodtor"; J["l"] = line(D->getTriggerStmt() ? D->getTriggerStmt()->getEndLoc() : SourceLocation());
          const VarDecl *V = D->getVarDecl();
          J["vid"] = vid(V); J["name"] = V->getNameAsString(); J["t"] = ty(V->getType());
          if (auto *DD = D->getDestructorDecl(C)) { J["callee"] = usr(DD); J["fn"] = fname(DD); }
          El.push_back(std::move(J));
          continue;
        }
        if (auto D = E.getAs<CFGMemberDtor>()) {
          json::Object J; J["i"] = Ctx.next++; J["op"] = "memberdtor"; J["l"] = 0;
          J["f"] = D->getFieldDecl()->getNameAsString(); J["cls"] = fname(D->getFieldDecl()->getParent()); J["t"] = ty(D->getFieldDecl()->getType());
          El.push_back(std::move(J)); continue;
        }
        if (auto D = E.getAs<CFGBaseDtor>()) {
          json::Object J; J["i"] = Ctx.next++; J["op"] = "basedtor"; J["l"] = 0;
          J["base"] = ty(D->getBaseSpecifier()->getType());
          El.push_back(std::move(J)); continue;
        }
      }
      BJ["el"] = std::move(El);
      if (const Stmt *T = B->getTerminatorStmt()) {
        json::Object TJ; TJ["k"] = T->getStmtClassName(); TJ["l"] = line(T->getBeginLoc());
        if (auto *BO2 = dyn_cast<BinaryOperator>(T)) TJ["o"] = BO2->getOpcodeStr().str();
        const Expr *LC = B->getLastCondition();
        if (isa<SwitchStmt>(T) || !LC) LC = dyn_cast_or_null<Expr>(B->getTerminatorCondition());
        if (auto *CE = LC) {
          json::Array Ex; Ctx.Elems = &Ex;
          TJ["c"] = operand(CE);
          if (!Ex.empty()) TJ["ex"] = std::move(Ex);
          TJ["ct"] = ty(CE->getType());
        }
        BJ["term"] = std::move(TJ);
      }
      if (B->hasNoReturnElement()) BJ["noreturn"] = true;
      if (B->getLoopTarget()) BJ["backedge"] = true;
      if (const Stmt *L = B->getLabel()) {
        json::Object LJ;
        if (auto *CS = dyn_cast<CaseStmt>(L)) {
          Expr::EvalResult R;
          if (CS->getLHS()->EvaluateAsInt(R, C)) LJ["case"] = R.Val.getInt().getExtValue();
          if (CS->getRHS()) { Expr::EvalResult R2; if (CS->getRHS()->EvaluateAsInt(R2, C)) LJ["hi"] = R2.Val.getInt().getExtValue(); }
          if (auto *DR = dyn_cast<DeclRefExpr>(CS->getLHS()->IgnoreParenImpCasts())) LJ["name"] = DR->getDecl()->getNameAsString();
        } else if (isa<DefaultStmt>(L)) LJ["default"] = true;
        else if (auto *LS = dyn_cast<LabelStmt>(L)) LJ["label"] = LS->getName();
        else if (isa<CXXCatchStmt>(L)) LJ["catch"] = true;
        BJ["lab"] = std::move(LJ);
      }
      json::Array Su;
      for (auto I = B->succ_begin(); I != B->succ_end(); ++I) {
        const CFGBlock *Sx = I->getReachableBlock();
        if (Sx) Su.push_back((int)Sx->getBlockID()); else Su.push_back(nullptr);
      }
      BJ["s"] = std::move(Su);
      Blocks.push_back(std::move(BJ));
    }
    O["blocks"] = std::move(Blocks);
    O["entry"] = (int)G->getEntry().getBlockID();
    O["exit"] = (int)G->getExit().getBlockID();
    Funcs.push_back(std::move(O));
    F = Saved;
  }

  void record(const CXXRecordDecl *R) {
    if (!R->isCompleteDefinition() || R->isDependentContext()) return;
    if (!inRoot(R->getLocation())) return;
    std::string U = usr(R);
    if (!doneC.insert(U).second) return;
    json::Object O; O["id"] = U; O["name"] = fname(R); O["file"] = rel(R->getLocation()); O["l"] = line(R->getLocation());
    O["union"] = R->isUnion(); O["lambda"] = R->isLambda();
    O["abstract"] = R->isAbstract();
    json::Array Bs;
    for (auto &B : R->bases()) Bs.push_back(ty(B.getType()));
    O["bases"] = std::move(Bs);
    json::Array Fs;
    for (auto *Fd : R->fields()) fieldOf(Fd, Fs);
    O["fields"] = std::move(Fs);
    json::Array Ms;
    for (auto *M : R->methods()) {
      json::Object Q; Q["id"] = usr(M); Q["name"] = M->getNameAsString(); Q["virt"] = M->isVirtual(); Q["pure"] = M->isPureVirtual();
      Q["access"] = (int)M->getAccess(); Q["ret"] = ty(M->getReturnType()); Q["implicit"] = M->isImplicit(); Q["l"] = line(M->getLocation());
      Q["deleted"] = M->isDeleted(); Q["static"] = M->isStatic();
      Q["kind"] = isa<CXXConstructorDecl>(M) ? "ctor" : isa<CXXDestructorDecl>(M) ? "dtor" : "method";
      json::Array Ov; for (auto *B : M->overridden_methods()) Ov.push_back(usr(B));
      Q["overrides"] = std::move(Ov);
      json::Array Ps; for (auto *P : M->parameters()) Ps.push_back(ty(P->getType()));
      Q["params"] = std::move(Ps);
      Ms.push_back(std::move(Q));
    }
    O["methods"] = std::move(Ms);
    Classes.push_back(std::move(O));
  }
  void fieldOf(const FieldDecl *Fd, json::Array &Fs) {
    json::Object Q; Q["name"] = Fd->getNameAsString(); Q["t"] = ty(Fd->getType()); Q["l"] = line(Fd->getLocation());
    Q["init"] = Fd->hasInClassInitializer(); Q["access"] = (int)Fd->getAccess(); Q["mutable"] = Fd->isMutable();
    if (auto *AT = C.getAsConstantArrayType(Fd->getType())) {
      Q["n"] = (int64_t)AT->getSize().getZExtValue();
      Q["bytes"] = (int64_t)C.getTypeSizeInChars(Fd->getType()).getQuantity();
    }
    Fs.push_back(std::move(Q));
  }
  void crecord(const RecordDecl *R) {
    if (!R->isCompleteDefinition()) return;
    if (!inRoot(R->getLocation())) return;
    std::string U = usr(R);
    if (!doneC.insert(U).second) return;
    json::Object O; O["id"] = U; O["name"] = ty(C.getRecordType(R)); O["file"] = rel(R->getLocation()); O["l"] = line(R->getLocation());
    O["union"] = R->isUnion();
    json::Array Fs;
    for (auto *Fd : R->fields()) fieldOf(Fd, Fs);
    O["fields"] = std::move(Fs);
    O["bases"] = json::Array(); O["methods"] = json::Array();
    Classes.push_back(std::move(O));
  }
  void enumd(const EnumDecl *E) {
    if (!E->isCompleteDefinition() || !inRoot(E->getLocation())) return;
    std::string U = usr(E);
    if (!doneE.insert(U).second) return;
    json::Object O; O["id"] = U; O["name"] = fname(E); O["file"] = rel(E->getLocation());
    json::Array A;
    for (auto *K : E->enumerators()) { json::Array P; P.push_back(K->getNameAsString()); P.push_back(K->getInitVal().getExtValue()); A.push_back(std::move(P)); }
    O["values"] = std::move(A);
    Enums.push_back(std::move(O));
  }
  void global(const VarDecl *V) {
    if (!V->hasGlobalStorage() || !inRoot(V->getLocation()) || V->isStaticLocal()) return;
    if (V->getDeclContext()->isDependentContext()) return;
    std::string U = usr(V);
    bool Def = V->isThisDeclarationADefinition() != VarDecl::DeclarationOnly;
    if (!Def || !doneG.insert(U).second) return;
    json::Object O; O["id"] = U; O["name"] = fname(V); O["t"] = ty(V->getType()); O["file"] = rel(V->getLocation()); O["l"] = line(V->getLocation());
    if (auto *I = V->getInit()) {
      Expr::EvalResult R;
      if (!I->isValueDependent() && V->getType()->isIntegralOrEnumerationType() && I->EvaluateAsInt(R, C)) O["cv"] = R.Val.getInt().getExtValue();
    }
    if (auto *AT = C.getAsConstantArrayType(V->getType())) {
      O["n"] = (int64_t)AT->getSize().getZExtValue();
    }
    Globals.push_back(std::move(O));
  }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
  Exporter &X;
  Visitor(Exporter &X) : X(X) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *D) { if (D->isThisDeclarationADefinition() && X.inRoot(D->getLocation())) X.function(D); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *D) { X.record(D); return true; }
  bool VisitRecordDecl(RecordDecl *D) { if (!isa<CXXRecordDecl>(D)) X.crecord(D); return true; }
  bool VisitEnumDecl(EnumDecl *D) { X.enumd(D); return true; }
  bool VisitVarDecl(VarDecl *D) { X.global(D); return true; }
  bool VisitLambdaExpr(LambdaExpr *L) { if (X.inRoot(L->getBeginLoc())) X.function(L->getCallOperator()); return true; }
};

struct Consumer : ASTConsumer {
  CompilerInstance &CI;
  Consumer(CompilerInstance &CI) : CI(CI) {}
  void HandleTranslationUnit(ASTContext &C) override {
    Exporter X(C);
    Visitor V(X);
    for (Decl *D : C.getTranslationUnitDecl()->decls()) {
      if (!X.inRoot(D->getLocation())) {
        // namespaces re-opened in headers may still start in root only; skip foreign declarations
        continue;
      }
      V.TraverseDecl(D);
    }
    json::Object O;
    O["errors"] = (int)C.getDiagnostics().getClient()->getNumErrors();
    auto FE = C.getSourceManager().getFileEntryRefForID(C.getSourceManager().getMainFileID());
    O["main"] = FE ? X.rel(C.getSourceManager().getLocForStartOfFile(C.getSourceManager().getMainFileID())) : "";
    // all files of the root that took part
    json::Array Fl;
    std::set<std::string> Seen;
    for (auto It = C.getSourceManager().fileinfo_begin(); It != C.getSourceManager().fileinfo_end(); ++It) {
      auto P = It->first.getFileEntry().tryGetRealPathName();
      if (!P.empty() && !P.starts_with("/usr/") && Seen.insert(P.str()).second) Fl.push_back(P.str());
    }
    O["files"] = std::move(Fl);
    O["functions"] = std::move(X.Funcs); O["classes"] = std::move(X.Classes);
    O["enums"] = std::move(X.Enums); O["globals"] = std::move(X.Globals);
    std::error_code EC;
    llvm::raw_fd_ostream OS(Out, EC);
    OS << json::Value(std::move(O));
  }
};

struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override {
    return std::make_unique<Consumer>(CI);
  }
};
} // namespace

int main(int argc, const char **argv) {
  auto P = tooling::CommonOptionsParser::create(argc, argv, Cat);
  if (!P) { llvm::errs() << llvm::toString(P.takeError()); return 2; }
  tooling::ClangTool T(P->getCompilations(), P->getSourcePathList());
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
