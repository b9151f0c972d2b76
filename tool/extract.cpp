// wdt-extract: dumps the type-checked program of one translation unit as JSON:
// every function defined under the repository root, with its clang CFG in a
// three-address-like form, plus records, enums and global tables.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>

using namespace clang;
namespace js = llvm::json;

static std::string gRoot;  // real path of the repository, with trailing /
static std::string gOut;

struct Ctx {
  ASTContext& A;
  SourceManager& SM;
  PrintingPolicy PP;
  std::map<const FileEntry*, std::string> files;
  js::Object functions, records, enums, globals;
  std::vector<const FunctionDecl*> pendingLambdas;
  explicit Ctx(ASTContext& a)
      : A(a), SM(a.getSourceManager()), PP(a.getPrintingPolicy()) {
    PP.SuppressUnwrittenScope = true;
    PP.TerseOutput = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.AnonymousTagLocations = false;
    PP.SuppressInlineNamespace = true;
  }
  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    FileID id = SM.getFileID(L);
    const FileEntry* fe = SM.getFileEntryForID(id);
    if (!fe) return "";
    auto it = files.find(fe);
    if (it != files.end()) return it->second;
    llvm::SmallString<256> real;
    std::string r;
    if (!llvm::sys::fs::real_path(fe->tryGetRealPathName(), real)) {
      llvm::StringRef s(real);
      if (s.starts_with(gRoot)) r = s.substr(gRoot.size()).str();
    }
    files[fe] = r;
    return r;
  }
  unsigned lineOf(SourceLocation L) {
    return SM.getExpansionLineNumber(L);
  }
  unsigned colOf(SourceLocation L) { return SM.getExpansionColumnNumber(L); }
  std::string type(QualType T) {
    return T.getCanonicalType().getAsString(PP);
  }
  static const CXXRecordDecl* lambdaParent(const FunctionDecl* FD) {
    if (auto* M = dyn_cast<CXXMethodDecl>(FD))
      if (M->getParent()->isLambda()) return M->getParent();
    return nullptr;
  }
  std::string qn(const NamedDecl* D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    if (auto* FD = dyn_cast<FunctionDecl>(D)) {
      if (auto* R = lambdaParent(FD)) {
        os << "lambda@" << fileOf(R->getBeginLoc()) << ":"
           << lineOf(R->getBeginLoc()) << ":" << colOf(R->getBeginLoc());
        return os.str();
      }
    }
    D->printQualifiedName(os, PP);
    std::string r = os.str();
    const std::string ns = "facebook::wdt::";
    size_t p;
    while ((p = r.find(ns)) != std::string::npos) r.erase(p, ns.size());
    return r;
  }
  std::string key(const FunctionDecl* FD) {
    std::string s = qn(FD);
    if (lambdaParent(FD)) {
      // generic lambdas: add the parameter types
      return s;
    }
    s += "(";
    for (unsigned i = 0; i < FD->getNumParams(); ++i) {
      if (i) s += ",";
      s += type(FD->getParamDecl(i)->getType().getCanonicalType().getUnqualifiedType());
    }
    s += ")";
    if (auto* M = dyn_cast<CXXMethodDecl>(FD))
      if (M->isConst()) s += "c";
    if (auto* TA = FD->getTemplateSpecializationArgs()) {
      s += "<";
      for (unsigned i = 0; i < TA->size(); ++i) {
        llvm::raw_string_ostream os(s);
        TA->get(i).print(PP, os, true);
        os << ",";
      }
      s += ">";
    }
    return s;
  }
};

struct FnEmitter {
  Ctx& C;
  js::Object nodes;
  std::map<const Stmt*, int> ids;
  int next = 1;
  explicit FnEmitter(Ctx& c) : C(c) {}

  std::string varId(const ValueDecl* D) {
    if (auto* V = dyn_cast<VarDecl>(D)) {
      if (V->hasGlobalStorage() && !V->isStaticLocal()) return "::" + C.qn(V);
      if (V->isStaticLocal())
        return "::static@" + V->getNameAsString() + "#" +
               std::to_string(C.lineOf(V->getLocation())) + ":" +
               std::to_string(C.colOf(V->getLocation()));
    }
    std::string n = D->getNameAsString();
    return n + "#" + std::to_string(C.lineOf(D->getLocation())) + ":" +
           std::to_string(C.colOf(D->getLocation()));
  }

  static const Stmt* strip(const Stmt* S) {
    while (S) {
      if (auto* P = dyn_cast<ParenExpr>(S)) S = P->getSubExpr();
      else if (auto* E = dyn_cast<ExprWithCleanups>(S)) S = E->getSubExpr();
      else if (auto* E = dyn_cast<MaterializeTemporaryExpr>(S)) S = E->getSubExpr();
      else if (auto* E = dyn_cast<CXXBindTemporaryExpr>(S)) S = E->getSubExpr();
      else if (auto* E = dyn_cast<ConstantExpr>(S)) S = E->getSubExpr();
      else if (auto* E = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) S = E->getReplacement();
      else if (auto* E = dyn_cast<CXXDefaultArgExpr>(S)) S = E->getExpr();
      else if (auto* E = dyn_cast<CXXDefaultInitExpr>(S)) S = E->getExpr();
      else if (auto* E = dyn_cast<CXXStdInitializerListExpr>(S)) S = E->getSubExpr();
      else if (auto* E = dyn_cast<CXXRewrittenBinaryOperator>(S)) S = E->getSemanticForm();
      else if (auto* E = dyn_cast<OpaqueValueExpr>(S)) {
        if (!E->getSourceExpr()) return S;
        S = E->getSourceExpr();
      } else if (auto* E = dyn_cast<GenericSelectionExpr>(S)) S = E->getResultExpr();
      else if (auto* E = dyn_cast<AttributedStmt>(S)) S = E->getSubStmt();
      else if (auto* E = dyn_cast<UnaryOperator>(S)) {
        if (E->getOpcode() == UO_Plus || E->getOpcode() == UO_Extension) S = E->getSubExpr();
        else return S;
      }
      else if (auto* E = dyn_cast<CastExpr>(S)) {
        switch (E->getCastKind()) {
          case CK_NoOp:
          case CK_UserDefinedConversion:
          case CK_ConstructorConversion:
          case CK_FunctionToPointerDecay:
          case CK_BuiltinFnToFnPtr:
          case CK_DerivedToBase:
          case CK_UncheckedDerivedToBase:
          case CK_BaseToDerived:
          case CK_LValueBitCast:
          case CK_BitCast:
          case CK_AtomicToNonAtomic:
          case CK_NonAtomicToAtomic:
            S = E->getSubExpr();
            continue;
          default:
            return S;
        }
      } else
        return S;
    }
    return S;
  }

  js::Array args(const Expr* const* b, unsigned n) {
    js::Array a;
    for (unsigned i = 0; i < n; ++i) a.push_back(emit(b[i]));
    return a;
  }

  int emit(const Stmt* S0) {
    const Stmt* S = strip(S0);
    if (!S) return 0;
    auto it = ids.find(S);
    if (it != ids.end()) return it->second;
    int id = next++;
    ids[S] = id;
    js::Object o;
    build(S, o);
    unsigned line = C.lineOf(S->getBeginLoc());
    if (auto* CE = dyn_cast<CallExpr>(S)) line = C.lineOf(CE->getExprLoc());
    o["l"] = (int64_t)line;
    if (auto* E = dyn_cast<Expr>(S)) {
      if (!E->isValueDependent() && !E->isTypeDependent() &&
          E->getType()->isIntegralOrEnumerationType() && !E->isLValue()) {
        Expr::EvalResult R;
        if (E->EvaluateAsInt(R, C.A, Expr::SE_NoSideEffects)) {
          auto& v = R.Val.getInt();
          if (E->getType()->isBooleanType()) o["cv"] = (int64_t)(v.getBoolValue() ? 1 : 0);
          else if (v.isUnsigned()) o["cv"] = v.isIntN(63) ? js::Value((int64_t)v.getZExtValue()) : js::Value(std::to_string(v.getZExtValue()));
          else o["cv"] = (int64_t)v.getSExtValue();
        }
      }
    }
    nodes[std::to_string(id)] = std::move(o);
    return id;
  }

  void callee(const FunctionDecl* FD, js::Object& o) {
    if (!FD) return;
    o["f"] = C.qn(FD);
    o["fk"] = C.key(FD);
    if (FD->isNoReturn()) o["nr"] = 1;
    std::string f = C.fileOf(FD->getLocation());
    if (!f.empty()) o["repo"] = 1;
    if (auto* M = dyn_cast<CXXMethodDecl>(FD)) {
      if (M->isConst()) o["cm"] = 1;
      if (M->isStatic()) o["sm"] = 1;
    }
    if (FD->hasAttr<WarnUnusedResultAttr>()) o["wur"] = 1;
  }
  // which arguments are passed so that the callee may write through them
  void argModes(const FunctionDecl* FD, unsigned n, unsigned skip, js::Object& o) {
    js::Array m;
    if (!FD) return;
    for (unsigned i = skip; i < n; ++i) {
      int mode = 0;  // by value
      if (i - skip < FD->getNumParams()) {
        QualType T = FD->getParamDecl(i - skip)->getType().getCanonicalType();
        if (T->isReferenceType())
          mode = T->getPointeeType().isConstQualified() ? 1 : 2;
        else if (T->isPointerType())
          mode = T->getPointeeType().isConstQualified() ? 1 : 2;
        if (T->isRValueReferenceType()) mode = 3;
      } else
        mode = 2;  // variadic
      m.push_back(mode);
    }
    o["am"] = std::move(m);
  }

  void build(const Stmt* S, js::Object& o) {
    if (auto* E = dyn_cast<Expr>(S)) {
      if (!isa<CallExpr>(E) || true) {
        QualType T = E->getType();
        if (!T.isNull() && !T->isVoidType()) o["t"] = C.type(T);
      }
      if (E->isLValue()) o["lv"] = 1;
    }
    if (auto* L = dyn_cast<IntegerLiteral>(S)) {
      o["k"] = "c";
      if (L->getValue().getActiveBits() <= 63) o["v"] = (int64_t)L->getValue().getZExtValue();
      else o["v"] = std::to_string(L->getValue().getZExtValue());
    } else if (auto* L = dyn_cast<CharacterLiteral>(S)) {
      o["k"] = "c"; o["v"] = (int64_t)L->getValue();
    } else if (auto* L = dyn_cast<CXXBoolLiteralExpr>(S)) {
      o["k"] = "c"; o["v"] = (int64_t)L->getValue();
    } else if (isa<CXXNullPtrLiteralExpr>(S) || isa<GNUNullExpr>(S)) {
      o["k"] = "c"; o["v"] = 0; o["null"] = 1;
    } else if (auto* L = dyn_cast<FloatingLiteral>(S)) {
      o["k"] = "fl"; o["v"] = L->getValueAsApproximateDouble();
    } else if (auto* L = dyn_cast<StringLiteral>(S)) {
      o["k"] = "str";
      std::string v = L->isOrdinary() || L->isUTF8() ? L->getString().str() : "";
      if (!js::isUTF8(v)) v = js::fixUTF8(v);
      o["v"] = v;
    } else if (auto* D = dyn_cast<DeclRefExpr>(S)) {
      const ValueDecl* V = D->getDecl();
      if (auto* EC = dyn_cast<EnumConstantDecl>(V)) {
        o["k"] = "c";
        o["v"] = (int64_t)EC->getInitVal().getExtValue();
        o["en"] = C.qn(EC);
      } else if (auto* FD = dyn_cast<FunctionDecl>(V)) {
        o["k"] = "fn"; callee(FD, o);
      } else if (auto* BD = dyn_cast<BindingDecl>(V)) {
        o["k"] = "bind"; o["n"] = BD->getNameAsString();
        if (BD->getBinding()) o["e"] = emit(BD->getBinding());
      } else {
        o["k"] = "v"; o["d"] = varId(V); o["n"] = V->getNameAsString();
        if (V->getType()->isReferenceType()) o["ref"] = 1;
        if (auto* VD = dyn_cast<VarDecl>(V))
          if (VD->hasGlobalStorage()) o["g"] = 1;
        if (D->refersToEnclosingVariableOrCapture()) o["cap"] = 1;
      }
    } else if (isa<CXXThisExpr>(S)) {
      o["k"] = "this";
    } else if (auto* M = dyn_cast<MemberExpr>(S)) {
      if (auto* F = dyn_cast<FieldDecl>(M->getMemberDecl())) {
        o["k"] = "m"; o["b"] = emit(M->getBase()); o["f"] = C.qn(F);
        o["n"] = F->getNameAsString();
        if (M->isArrow()) o["ar"] = 1;
        if (F->getType()->isReferenceType()) o["ref"] = 1;
      } else if (auto* V = dyn_cast<VarDecl>(M->getMemberDecl())) {
        o["k"] = "v"; o["d"] = varId(V); o["n"] = V->getNameAsString(); o["g"] = 1;
      } else if (auto* FD = dyn_cast<FunctionDecl>(M->getMemberDecl())) {
        o["k"] = "mf"; o["b"] = emit(M->getBase()); callee(FD, o);
        if (M->isArrow()) o["ar"] = 1;
      } else o["k"] = "other";
    } else if (auto* I = dyn_cast<ArraySubscriptExpr>(S)) {
      o["k"] = "idx"; o["b"] = emit(I->getBase()); o["i"] = emit(I->getIdx());
    } else if (auto* U = dyn_cast<UnaryOperator>(S)) {
      if (U->isIncrementDecrementOp()) {
        o["k"] = "incdec"; o["e"] = emit(U->getSubExpr());
        o["d"] = U->isIncrementOp() ? 1 : -1; o["post"] = U->isPostfix() ? 1 : 0;
      } else if (U->getOpcode() == UO_Deref) {
        o["k"] = "deref"; o["e"] = emit(U->getSubExpr());
      } else if (U->getOpcode() == UO_AddrOf) {
        o["k"] = "addr"; o["e"] = emit(U->getSubExpr());
      } else {
        o["k"] = "un"; o["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
        o["e"] = emit(U->getSubExpr());
      }
    } else if (auto* B = dyn_cast<BinaryOperator>(S)) {
      std::string op = B->getOpcodeStr().str();
      o["a"] = emit(B->getLHS()); o["b"] = emit(B->getRHS());
      if (B->isCompoundAssignmentOp()) { o["k"] = "cassign"; op.pop_back(); }
      else if (B->isAssignmentOp()) o["k"] = "assign";
      else if (B->isLogicalOp()) o["k"] = "logic";
      else if (B->getOpcode() == BO_Comma) o["k"] = "comma";
      else o["k"] = "bin";
      o["op"] = op;
    } else if (auto* K = dyn_cast<AbstractConditionalOperator>(S)) {
      o["k"] = "cond"; o["c"] = emit(K->getCond());
      o["a"] = emit(K->getTrueExpr()); o["b"] = emit(K->getFalseExpr());
    } else if (auto* K = dyn_cast<CXXOperatorCallExpr>(S)) {
      o["k"] = "call"; o["oc"] = 1;
      const FunctionDecl* FD = K->getDirectCallee();
      callee(FD, o);
      unsigned skip = 0;
      if (FD && isa<CXXMethodDecl>(FD) && K->getNumArgs()) {
        o["o"] = emit(K->getArg(0)); skip = 1;
        if (auto* R = Ctx::lambdaParent(FD)) { (void)R; o["lamcall"] = 1; }
      }
      js::Array a;
      for (unsigned i = skip; i < K->getNumArgs(); ++i) a.push_back(emit(K->getArg(i)));
      o["a"] = std::move(a);
      argModes(FD, K->getNumArgs(), skip, o);
    } else if (auto* K = dyn_cast<CXXMemberCallExpr>(S)) {
      o["k"] = "call";
      const FunctionDecl* FD = K->getDirectCallee();
      callee(FD, o);
      if (auto* IO = K->getImplicitObjectArgument()) {
        o["o"] = emit(IO);
        QualType OT = IO->getType();
        if (OT->isPointerType()) { o["op"] = 1; OT = OT->getPointeeType(); }
        if (auto* R = OT->getAsCXXRecordDecl()) o["rec"] = C.qn(R);
      }
      if (auto* M = dyn_cast_or_null<CXXMethodDecl>(FD)) {
        bool virt = M->isVirtual();
        if (auto* ME = dyn_cast<MemberExpr>(strip(K->getCallee())))
          if (ME->hasQualifier()) virt = false;
        if (virt) o["virt"] = 1;
      }
      if (!FD) o["ce"] = emit(K->getCallee());
      o["a"] = args(K->getArgs(), K->getNumArgs());
      argModes(FD, K->getNumArgs(), 0, o);
    } else if (auto* K = dyn_cast<CallExpr>(S)) {
      o["k"] = "call";
      const FunctionDecl* FD = K->getDirectCallee();
      callee(FD, o);
      if (!FD) o["ce"] = emit(K->getCallee());
      o["a"] = args(K->getArgs(), K->getNumArgs());
      argModes(FD, K->getNumArgs(), 0, o);
    } else if (auto* K = dyn_cast<CXXConstructExpr>(S)) {
      o["k"] = "ctor"; callee(K->getConstructor(), o);
      o["rec"] = C.qn(K->getConstructor()->getParent());
      if (K->getConstructor()->isCopyOrMoveConstructor()) o["copy"] = 1;
      if (K->getConstructor()->isMoveConstructor()) o["move"] = 1;
      o["a"] = args(K->getArgs(), K->getNumArgs());
      argModes(K->getConstructor(), K->getNumArgs(), 0, o);
    } else if (auto* L = dyn_cast<LambdaExpr>(S)) {
      o["k"] = "lam";
      const CXXMethodDecl* M = L->getCallOperator();
      o["fk"] = C.key(M);
      js::Array caps;
      auto initIt = L->capture_init_begin();
      for (auto& cap : L->captures()) {
        js::Object co;
        if (cap.capturesVariable()) {
          co["d"] = varId(cast<ValueDecl>(cap.getCapturedVar()));
          co["n"] = cap.getCapturedVar()->getNameAsString();
          co["ref"] = cap.getCaptureKind() == LCK_ByRef ? 1 : 0;
          if (*initIt) co["e"] = emit(*initIt);
        } else if (cap.capturesThis()) co["this"] = 1;
        caps.push_back(std::move(co));
        ++initIt;
      }
      o["caps"] = std::move(caps);
    } else if (auto* N = dyn_cast<CXXNewExpr>(S)) {
      o["k"] = "new"; o["at"] = C.type(N->getAllocatedType());
      if (auto* R = N->getAllocatedType()->getAsCXXRecordDecl()) o["rec"] = C.qn(R);
      if (N->isArray() && N->getArraySize()) o["n"] = emit(*N->getArraySize());
      if (N->getInitializer()) o["e"] = emit(N->getInitializer());
    } else if (auto* D = dyn_cast<CXXDeleteExpr>(S)) {
      o["k"] = "delete"; o["e"] = emit(D->getArgument());
    } else if (auto* T = dyn_cast<CXXThrowExpr>(S)) {
      o["k"] = "throw"; if (T->getSubExpr()) o["e"] = emit(T->getSubExpr());
    } else if (auto* I = dyn_cast<InitListExpr>(S)) {
      o["k"] = "il"; js::Array a;
      const InitListExpr* SI = I->isSemanticForm() ? I : I->getSemanticForm() ? I->getSemanticForm() : I;
      for (unsigned i = 0; i < SI->getNumInits(); ++i) a.push_back(emit(SI->getInit(i)));
      o["a"] = std::move(a);
      if (auto* R = SI->getType()->getAsCXXRecordDecl()) o["rec"] = C.qn(R);
    } else if (auto* L = dyn_cast<CastExpr>(S)) {
      if (L->getCastKind() == CK_LValueToRValue) { o["k"] = "load"; }
      else { o["k"] = "cast"; o["ck"] = L->getCastKindName(); }
      o["e"] = emit(L->getSubExpr());
    } else if (auto* DS = dyn_cast<DeclStmt>(S)) {
      o["k"] = "decl"; js::Array ds;
      for (auto* D : DS->decls())
        if (auto* V = dyn_cast<VarDecl>(D)) {
          js::Object d; d["d"] = varId(V); d["n"] = V->getNameAsString();
          d["t"] = C.type(V->getType());
          if (V->isStaticLocal()) d["st"] = 1;
          if (V->getType()->isReferenceType()) d["ref"] = 1;
          if (auto* R = V->getType()->getAsCXXRecordDecl()) d["rec"] = C.qn(R);
          if (auto* AT = C.A.getAsConstantArrayType(V->getType()))
            d["arr"] = (int64_t)AT->getSize().getZExtValue();
          if (auto* VAT = C.A.getAsVariableArrayType(V->getType()))
            if (VAT->getSizeExpr()) d["vla"] = emit(VAT->getSizeExpr());
          if (V->getInit()) d["e"] = emit(V->getInit());
          ds.push_back(std::move(d));
        }
      o["ds"] = std::move(ds);
    } else if (auto* R = dyn_cast<ReturnStmt>(S)) {
      o["k"] = "ret"; if (R->getRetValue()) o["e"] = emit(R->getRetValue());
    } else if (auto* U = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
      o["k"] = "sizeof";
      if (U->isArgumentType()) o["at"] = C.type(U->getArgumentType());
      else o["at"] = C.type(U->getArgumentExpr()->getType());
    } else if (isa<CXXScalarValueInitExpr>(S) || isa<ImplicitValueInitExpr>(S)) {
      o["k"] = "zero";
    } else if (isa<CXXTypeidExpr>(S)) {
      o["k"] = "other";
    } else {
      o["k"] = "other"; o["cls"] = S->getStmtClassName();
      js::Array a;
      if (isa<Expr>(S))
        for (auto* c : S->children()) if (c) a.push_back(emit(c));
      o["a"] = std::move(a);
    }
  }

  // ---- CFG ----
  bool cfg(const FunctionDecl* FD, js::Object& out) {
    CFG::BuildOptions BO;
    BO.setAllAlwaysAdd();
    BO.PruneTriviallyFalseEdges = true;
    BO.AddEHEdges = false;
    BO.AddImplicitDtors = true;
    BO.AddInitializers = true;
    BO.AddCXXDefaultInitExprInCtors = true;
    std::unique_ptr<CFG> G = CFG::buildCFG(FD, FD->getBody(), &C.A, BO);
    if (!G) return false;
    std::set<const Stmt*> direct;
    for (auto* B : *G)
      for (auto& E : *B)
        if (auto S = E.getAs<CFGStmt>()) direct.insert(S->getStmt());
    js::Array blocks;
    std::vector<const CFGBlock*> order(G->getNumBlockIDs(), nullptr);
    for (auto* B : *G) order[B->getBlockID()] = B;
    for (auto* B : order) {
      if (!B) { blocks.push_back(nullptr); continue; }
      js::Object bo;
      js::Array el;
      for (auto& E : *B) {
        if (auto S = E.getAs<CFGStmt>()) {
          const Stmt* st = S->getStmt();
          const Stmt* inner = strip(st);
          if (inner != st && direct.count(inner)) continue;
          el.push_back(emit(st));
        } else if (auto D = E.getAs<CFGAutomaticObjDtor>()) {
          js::Object d; d["k"] = "dtor"; d["d"] = varId(D->getVarDecl());
          d["t"] = C.type(D->getVarDecl()->getType());
          d["l"] = (int64_t)C.lineOf(D->getTriggerStmt() ? D->getTriggerStmt()->getEndLoc() : D->getVarDecl()->getLocation());
          QualType T = D->getVarDecl()->getType();
          if (auto* R = T->getAsCXXRecordDecl()) {
            d["rec"] = C.qn(R);
            if (auto* DD = R->getDestructor()) callee(DD, d);
          }
          int id = next++;
          nodes[std::to_string(id)] = std::move(d);
          el.push_back(id);
        } else if (auto I = E.getAs<CFGInitializer>()) {
          js::Object d; const CXXCtorInitializer* ci = I->getInitializer();
          if (ci->isAnyMemberInitializer()) {
            d["k"] = "minit"; d["f"] = C.qn(ci->getAnyMember());
            if (ci->getAnyMember()->getType()->isReferenceType()) d["ref"] = 1;
            if (ci->isWritten()) d["w"] = 1;
          } else d["k"] = "binit";
          d["e"] = emit(ci->getInit()); d["l"] = (int64_t)C.lineOf(ci->getSourceLocation());
          int id = next++;
          nodes[std::to_string(id)] = std::move(d);
          el.push_back(id);
        }
      }
      bo["e"] = std::move(el);
      js::Array su;
      for (auto it = B->succ_begin(); it != B->succ_end(); ++it) {
        const CFGBlock* s = it->getReachableBlock();
        if (!s) {
          // keep the edge of an "all enum cases covered" switch default
          const CFGBlock* pu = it->getPossiblyUnreachableBlock();
          if (pu && B->getTerminatorStmt() && isa<SwitchStmt>(B->getTerminatorStmt())) su.push_back((int64_t)pu->getBlockID());
          else su.push_back(-1);
        } else su.push_back((int64_t)s->getBlockID());
      }
      bo["s"] = std::move(su);
      if (B->hasNoReturnElement()) bo["nr"] = 1;
      if (const Stmt* T = B->getTerminatorStmt()) {
        js::Object t;
        t["k"] = T->getStmtClassName();
        t["l"] = (int64_t)C.lineOf(T->getBeginLoc());
        if (auto* E = dyn_cast<Expr>(T)) t["n"] = emit(E);
        if (auto* SW = dyn_cast<SwitchStmt>(T)) t["c"] = emit(SW->getCond());
        else if (auto* LC = B->getLastCondition()) t["c"] = emit(LC);
        bo["t"] = std::move(t);
      }
      if (const Stmt* L = B->getLabel()) {
        if (auto* CS = dyn_cast<CaseStmt>(L)) {
          Expr::EvalResult R;
          if (!CS->getLHS()->isValueDependent() && CS->getLHS()->EvaluateAsInt(R, C.A)) {
            bo["case"] = (int64_t)R.Val.getInt().getExtValue();
            if (CS->getRHS()) {
              Expr::EvalResult R2;
              if (CS->getRHS()->EvaluateAsInt(R2, C.A)) bo["casehi"] = (int64_t)R2.Val.getInt().getExtValue();
            }
          }
        } else if (isa<DefaultStmt>(L)) bo["default"] = 1;
      }
      if (B->getLoopTarget()) bo["lt"] = 1;
      blocks.push_back(std::move(bo));
    }
    out["blocks"] = std::move(blocks);
    out["entry"] = (int64_t)G->getEntry().getBlockID();
    out["exit"] = (int64_t)G->getExit().getBlockID();
    return true;
  }
};

struct V : RecursiveASTVisitor<V> {
  Ctx& C;
  explicit V(Ctx& c) : C(c) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool shouldVisitLambdaBody() const { return true; }

  void fn(const FunctionDecl* FD) {
    if (!FD->doesThisDeclarationHaveABody() || FD->isDependentContext()) return;
    if (FD->isDefaulted()) return;
    std::string file = C.fileOf(FD->getLocation());
    if (file.empty()) return;
    std::string key = C.key(FD);
    if (C.functions.get(key)) return;
    js::Object o;
    FnEmitter E(C);
    o["qn"] = C.qn(FD);
    o["file"] = file;
    o["line"] = (int64_t)C.lineOf(FD->getLocation());
    o["end"] = (int64_t)C.lineOf(FD->getEndLoc());
    o["ret"] = C.type(FD->getReturnType());
    if (FD->isNoReturn()) o["nr"] = 1;
    js::Array ps;
    for (auto* P : FD->parameters()) {
      js::Object p;
      p["d"] = E.varId(P); p["n"] = P->getNameAsString(); p["t"] = C.type(P->getType());
      if (P->getType()->isReferenceType()) p["ref"] = 1;
      ps.push_back(std::move(p));
    }
    o["params"] = std::move(ps);
    if (auto* M = dyn_cast<CXXMethodDecl>(FD)) {
      o["cls"] = C.qn(M->getParent());
      if (M->isStatic()) o["static"] = 1;
      if (M->isVirtual()) o["virt"] = 1;
      if (M->isConst()) o["const"] = 1;
      if (isa<CXXConstructorDecl>(M)) o["ctor"] = 1;
      if (isa<CXXDestructorDecl>(M)) o["dtor"] = 1;
      o["access"] = (int64_t)M->getAccess();
      if (M->getParent()->isLambda()) {
        o["lambda"] = 1;
        // enclosing function
        const DeclContext* dc = M->getParent()->getParent();
        while (dc && !isa<FunctionDecl>(dc)) dc = dc->getParent();
        if (dc) o["encl"] = C.key(cast<FunctionDecl>(dc));
      }
      js::Array ov;
      for (auto* b : M->overridden_methods()) ov.push_back(C.key(b));
      if (!ov.empty()) o["over"] = std::move(ov);
    }
    if (FD->getTemplateInstantiationPattern()) o["inst"] = 1;
    if (!E.cfg(FD, o)) return;
    o["nodes"] = std::move(E.nodes);
    C.functions[key] = std::move(o);
  }
  bool VisitFunctionDecl(FunctionDecl* FD) { fn(FD); return true; }
  bool VisitLambdaExpr(LambdaExpr* L) {
    fn(L->getCallOperator());
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
    std::string file = C.fileOf(R->getLocation());
    if (file.empty()) return true;
    std::string n = C.qn(R);
    if (C.records.get(n)) return true;
    js::Object o;
    o["file"] = file; o["line"] = (int64_t)C.lineOf(R->getLocation());
    js::Array fs, bs, ms;
    for (auto* F : R->fields()) {
      js::Object f; f["n"] = F->getNameAsString(); f["q"] = C.qn(F); f["t"] = C.type(F->getType());
      f["l"] = (int64_t)C.lineOf(F->getLocation()); f["acc"] = (int64_t)F->getAccess();
      if (F->hasInClassInitializer() && F->getInClassInitializer()) f["init"] = 1;
      if (auto* AT = C.A.getAsConstantArrayType(F->getType())) f["arr"] = (int64_t)AT->getSize().getZExtValue();
      fs.push_back(std::move(f));
    }
    for (auto& B : R->bases()) if (auto* BR = B.getType()->getAsCXXRecordDecl()) bs.push_back(C.qn(BR));
    for (auto* M : R->methods()) {
      if (M->isImplicit()) continue;
      js::Object m; m["k"] = C.key(M); m["n"] = M->getNameAsString(); m["acc"] = (int64_t)M->getAccess();
      if (M->isVirtual()) m["virt"] = 1;
      if (M->isPureVirtual()) m["pure"] = 1;
      js::Array ov; for (auto* b : M->overridden_methods()) ov.push_back(C.key(b));
      m["over"] = std::move(ov);
      ms.push_back(std::move(m));
    }
    o["fields"] = std::move(fs); o["bases"] = std::move(bs); o["methods"] = std::move(ms);
    C.records[n] = std::move(o);
    return true;
  }
  bool VisitEnumDecl(EnumDecl* E) {
    if (!E->isThisDeclarationADefinition()) return true;
    std::string file = C.fileOf(E->getLocation());
    if (file.empty()) return true;
    js::Object o; js::Array vs;
    o["file"] = file; o["line"] = (int64_t)C.lineOf(E->getLocation());
    for (auto* k : E->enumerators()) {
      js::Object e; e["n"] = k->getNameAsString(); e["v"] = (int64_t)k->getInitVal().getExtValue(); e["l"] = (int64_t)C.lineOf(k->getLocation());
      vs.push_back(std::move(e));
    }
    o["v"] = std::move(vs);
    C.enums[C.qn(E)] = std::move(o);
    return true;
  }
  bool VisitVarDecl(VarDecl* D) {
    if (!D->hasGlobalStorage() || isa<ParmVarDecl>(D)) return true;
    if (D->getDeclContext()->isDependentContext()) return true;
    std::string file = C.fileOf(D->getLocation());
    if (file.empty()) return true;
    FnEmitter E(C);
    std::string n = E.varId(D);
    const VarDecl* Def = nullptr;
    const Expr* I = D->getAnyInitializer(Def);
    if (!I && C.globals.get(n)) return true;
    js::Object o;
    o["t"] = C.type(D->getType()); o["file"] = file; o["line"] = (int64_t)C.lineOf(D->getLocation());
    if (I) {
      o["e"] = E.emit(I);
      if (!I->isValueDependent() && D->getType()->isIntegralOrEnumerationType() && D->getType().isConstQualified()) {
        Expr::EvalResult R;
        if (I->EvaluateAsInt(R, C.A)) o["cv"] = (int64_t)R.Val.getInt().getExtValue();
      }
      o["nodes"] = std::move(E.nodes);
    }
    C.globals[n] = std::move(o);
    return true;
  }
};

struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext& A) override {
    if (A.getDiagnostics().hasErrorOccurred()) return;
    Ctx C(A);
    V v(C);
    v.TraverseDecl(A.getTranslationUnitDecl());
    js::Object top;
    top["functions"] = std::move(C.functions);
    top["records"] = std::move(C.records);
    top["enums"] = std::move(C.enums);
    top["globals"] = std::move(C.globals);
    std::error_code ec;
    llvm::raw_fd_ostream os(gOut, ec);
    os << js::Value(std::move(top));
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override {
    return std::make_unique<Cons>();
  }
};

int main(int argc, char** argv) {
  // extract ROOT OUT SOURCE -- flags...
  if (argc < 5) return 2;
  llvm::SmallString<256> real;
  if (llvm::sys::fs::real_path(argv[1], real)) return 2;
  gRoot = std::string(real) + "/";
  gOut = argv[2];
  std::string src = argv[3];
  std::vector<std::string> flags(argv + 5, argv + argc);
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool T(DB, {src});
  return T.run(tooling::newFrontendActionFactory<Act>().get()) ? 3 : 0;
}
