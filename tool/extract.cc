// Static extractor: parses one translation unit with the project's own flags
// and writes the type-resolved program (every non-dependent function whose
// source lies under the root directory, template instantiations included) as JSON.
// Nothing is executed or symbolically solved here.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/Expr.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/RecordLayout.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Index/USRGeneration.h>
#include <clang/Lex/Lexer.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>

#include <fstream>
#include <map>
#include <set>
#include <string>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string Root;   // "/repo/"
static std::string Extra;  // second root (instantiation unit)
static std::string OutPath;

namespace {

struct Dumper {
  ASTContext& C;
  SourceManager& SM;
  PrintingPolicy PP;
  std::map<std::string, int> typeIdx;
  Array types;
  std::map<const void*, int> typeCache;
  std::map<const Decl*, int> declIds;
  int nextDecl = 1;
  Object functions, records, globals, enums;
  std::set<std::string> doneFn, doneRec;

  explicit Dumper(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.SuppressUnwrittenScope = true;
    PP.Bool = true;
    PP.PrintCanonicalTypes = true;
  }

  std::string fileOf(SourceLocation L) {
    if (L.isInvalid()) return "";
    L = SM.getExpansionLoc(L);
    auto F = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!F) return "";
    std::string real = F->getFileEntry().tryGetRealPathName().str();
    if (real.empty()) real = F->getName().str();
    return real;
  }
  bool inRoot(SourceLocation L) {
    std::string f = fileOf(L);
    return f.rfind(Root, 0) == 0 || (!Extra.empty() && f.rfind(Extra, 0) == 0);
  }
  std::string loc(SourceLocation L) {
    if (L.isInvalid()) return "";
    SourceLocation E = SM.getExpansionLoc(L);
    std::string f = fileOf(E);
    if (f.rfind(Root, 0) == 0) f = f.substr(Root.size());
    else {
      auto p = f.rfind('/');
      if (p != std::string::npos) f = "<" + f.substr(p + 1) + ">";
    }
    return f + ":" + std::to_string(SM.getExpansionLineNumber(E)) + ":" +
           std::to_string(SM.getExpansionColumnNumber(E));
  }
  std::string macroOf(SourceLocation L) {
    if (L.isInvalid() || !L.isMacroID()) return "";
    // outermost macro
    SourceLocation cur = L;
    std::string name;
    while (cur.isMacroID()) {
      name = Lexer::getImmediateMacroName(cur, SM, C.getLangOpts()).str();
      cur = SM.getImmediateMacroCallerLoc(cur);
    }
    return name;
  }

  std::string qname(const NamedDecl* D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    D->printQualifiedName(os, PP);
    return os.str();
  }
  std::string usr(const Decl* D) {
    llvm::SmallString<256> buf;
    if (index::generateUSRForDecl(D, buf)) {
      // fall back on location
      return "noUSR@" + loc(D->getLocation());
    }
    return buf.str().str();
  }

  const RecordDecl* recOf(QualType T) {
    T = T.getNonReferenceType();
    while (T->isPointerType()) T = T->getPointeeType();
    if (auto* R = T->getAs<RecordType>()) return R->getDecl();
    return nullptr;
  }

  int type(QualType T0) {
    if (T0.isNull()) return -1;
    QualType T = T0.getCanonicalType();
    auto it = typeCache.find(T.getAsOpaquePtr());
    if (it != typeCache.end()) return it->second;
    std::string s = T.getAsString(PP);
    Object o;
    o["s"] = s;
    QualType N = T.getNonReferenceType();
    if (T->isLValueReferenceType()) o["ref"] = 1;
    if (T->isRValueReferenceType()) o["ref"] = 2;
    if (N.isConstQualified()) o["const"] = true;
    if (N->isPointerType()) {
      o["ptr"] = true;
      if (N->getPointeeType().isConstQualified()) o["pconst"] = true;
    }
    std::string kind = "other";
    if (N->isBooleanType()) kind = "bool";
    else if (N->isEnumeralType()) kind = "enum";
    else if (N->isIntegerType()) kind = N->isUnsignedIntegerType() ? "uint" : "int";
    else if (N->isFloatingType()) kind = "float";
    else if (N->isPointerType()) kind = "ptr";
    else if (N->isRecordType()) kind = "rec";
    else if (N->isVoidType()) kind = "void";
    else if (N->isArrayType()) kind = "arr";
    else if (N->isFunctionType()) kind = "fn";
    o["k"] = kind;
    if (auto* R = recOf(T)) {
      o["r"] = R->getQualifiedNameAsString();
      if (auto* CTS = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
        Array ta;
        for (auto& A : CTS->getTemplateArgs().asArray()) {
          if (A.getKind() == TemplateArgument::Integral)
            ta.push_back(A.getAsIntegral().getExtValue());
          else if (A.getKind() == TemplateArgument::Type)
            ta.push_back(type(A.getAsType()) );
          else ta.push_back(nullptr);
        }
        o["ta"] = std::move(ta);
      }
      o["ru"] = usr(R);
    }
    if (N->isPointerType()) o["pt"] = type(N->getPointeeType());
    // types may have been appended by recursion; assign index now
    int id = types.size();
    types.push_back(std::move(o));
    typeCache[T.getAsOpaquePtr()] = id;
    return id;
  }

  int did(const Decl* D) {
    D = D->getCanonicalDecl();
    auto it = declIds.find(D);
    if (it != declIds.end()) return it->second;
    return declIds[D] = nextDecl++;
  }

  Value intOrNull(const Expr* E) {
    if (E->isValueDependent() || E->isTypeDependent()) return nullptr;
    if (!E->getType()->isIntegralOrEnumerationType()) return nullptr;
    Expr::EvalResult R;
    if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
      auto v = R.Val.getInt();
      if (v.getSignificantBits() <= 63) return v.getExtValue();
    }
    return nullptr;
  }

  Object base(const char* k, const Expr* E) {
    Object o;
    o["k"] = k;
    o["t"] = type(E->getType());
    o["l"] = loc(E->getExprLoc());
    if (E->isGLValue()) o["lv"] = 1;
    std::string m = macroOf(E->getExprLoc());
    if (!m.empty()) o["m"] = m;
    return o;
  }

  void fnInfo(Object& o, const FunctionDecl* F) {
    o["n"] = F->getQualifiedNameAsString();
    o["fn"] = usr(F);
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isConst()) o["cm"] = true;
      if (M->isStatic()) o["sm"] = true;
      if (M->isVirtual()) o["virt"] = true;
      o["rec"] = M->getParent()->getQualifiedNameAsString();
    }
    Array pt;
    for (auto* P : F->parameters()) pt.push_back(type(P->getType()));
    o["pt"] = std::move(pt);
    if (inRoot(F->getLocation())) o["repo"] = true;
    if (auto* TA = F->getTemplateSpecializationArgs()) {
      Array a;
      for (auto& A : TA->asArray()) {
        if (A.getKind() == TemplateArgument::Integral)
          a.push_back(A.getAsIntegral().getExtValue());
        else if (A.getKind() == TemplateArgument::Type)
          a.push_back("T:" + A.getAsType().getAsString(PP));
        else a.push_back(nullptr);
      }
      o["fta"] = std::move(a);
    }
  }

  Array args(llvm::iterator_range<CallExpr::const_arg_iterator> r) {
    Array a;
    for (auto* x : r) a.push_back(expr(x));
    return a;
  }

  Value expr(const Expr* E) {
    if (!E) return nullptr;
    if (auto* P = dyn_cast<ParenExpr>(E)) return expr(P->getSubExpr());
    if (auto* X = dyn_cast<ExprWithCleanups>(E)) return expr(X->getSubExpr());
    if (auto* X = dyn_cast<ConstantExpr>(E)) return expr(X->getSubExpr());
    if (auto* X = dyn_cast<MaterializeTemporaryExpr>(E)) {
      Object o = base("tmp", E);
      o["e"] = expr(X->getSubExpr());
      return o;
    }
    if (auto* X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto* X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) {
      return expr(X->getReplacement());
    }
    if (auto* X = dyn_cast<CXXDefaultArgExpr>(E)) {
      Object o = base("defarg", E);
      o["e"] = expr(X->getExpr());
      return o;
    }
    if (auto* X = dyn_cast<CXXDefaultInitExpr>(E)) {
      Object o = base("definit", E);
      o["e"] = expr(X->getExpr());
      return o;
    }
    if (auto* X = dyn_cast<CastExpr>(E)) {
      switch (X->getCastKind()) {
        case CK_NoOp:
        case CK_FunctionToPointerDecay:
        case CK_ConstructorConversion:
        case CK_UserDefinedConversion:
          return expr(X->getSubExpr());
        case CK_LValueToRValue: {
          Object o = base("load", E);
          o["e"] = expr(X->getSubExpr());
          return o;
        }
        default: {
          Object o = base("cast", E);
          o["ck"] = X->getCastKindName();
          o["e"] = expr(X->getSubExpr());
          if (isa<ExplicitCastExpr>(X)) o["exp"] = true;
          Value v = intOrNull(E);
          if (v.kind() != Value::Null) o["cv"] = v;
          return o;
        }
      }
    }
    if (auto* X = dyn_cast<IntegerLiteral>(E)) {
      Object o = base("int", E);
      o["v"] = X->getValue().getSExtValue();
      return o;
    }
    if (auto* X = dyn_cast<CXXBoolLiteralExpr>(E)) {
      Object o = base("int", E);
      o["v"] = X->getValue() ? 1 : 0;
      return o;
    }
    if (auto* X = dyn_cast<CharacterLiteral>(E)) {
      Object o = base("int", E);
      o["v"] = (int64_t)X->getValue();
      return o;
    }
    if (auto* X = dyn_cast<FloatingLiteral>(E)) {
      Object o = base("flt", E);
      o["v"] = X->getValueAsApproximateDouble();
      return o;
    }
    if (auto* X = dyn_cast<StringLiteral>(E)) {
      Object o = base("str", E);
      if (X->getCharByteWidth() == 1) o["v"] = llvm::json::fixUTF8(X->getString());
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
      Object o = base("null", E);
      return o;
    }
    if (isa<CXXThisExpr>(E)) return base("this", E);
    if (auto* X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl* D = X->getDecl();
      Object o = base("ref", E);
      o["n"] = D->getNameAsString();
      if (auto* EC = dyn_cast<EnumConstantDecl>(D)) {
        o["vk"] = "enum";
        o["cv"] = EC->getInitVal().getExtValue();
        return o;
      }
      if (auto* F = dyn_cast<FunctionDecl>(D)) {
        o["vk"] = "func";
        fnInfo(o, F);
        return o;
      }
      o["d"] = did(D);
      if (auto* V = dyn_cast<VarDecl>(D)) {
        if (isa<ParmVarDecl>(V)) o["vk"] = "param";
        else if (V->hasGlobalStorage()) {
          o["vk"] = "global";
          o["n"] = V->getQualifiedNameAsString();
          globalVar(V);
        } else o["vk"] = "local";
      } else o["vk"] = "other";
      Value v = intOrNull(E);
      if (v.kind() != Value::Null) o["cv"] = v;
      return o;
    }
    if (auto* X = dyn_cast<MemberExpr>(E)) {
      if (auto* F = dyn_cast<FieldDecl>(X->getMemberDecl())) {
        Object o = base("mem", E);
        o["b"] = expr(X->getBase());
        if (X->isArrow()) o["arrow"] = true;
        o["f"] = F->getNameAsString();
        o["r"] = F->getParent()->getQualifiedNameAsString();
        o["ru"] = usr(F->getParent());
        o["ft"] = type(F->getType());
        return o;
      }
      if (auto* V = dyn_cast<VarDecl>(X->getMemberDecl())) {
        Object o = base("ref", E);
        o["n"] = V->getQualifiedNameAsString();
        o["vk"] = "global";
        o["d"] = did(V);
        globalVar(V);
        Value v = intOrNull(E);
        if (v.kind() != Value::Null) o["cv"] = v;
        return o;
      }
      Object o = base("memfn", E);
      o["b"] = expr(X->getBase());
      return o;
    }
    if (auto* X = dyn_cast<CXXOperatorCallExpr>(E)) {
      Object o = base("call", E);
      o["op"] = getOperatorSpelling(X->getOperator());
      const FunctionDecl* F = X->getDirectCallee();
      if (F) fnInfo(o, F);
      Array a;
      unsigned i = 0;
      if (F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) {
        o["o"] = expr(X->getArg(0));
        i = 1;
      }
      for (; i < X->getNumArgs(); i++) a.push_back(expr(X->getArg(i)));
      o["a"] = std::move(a);
      return o;
    }
    if (auto* X = dyn_cast<CXXMemberCallExpr>(E)) {
      Object o = base("call", E);
      if (auto* F = X->getMethodDecl()) fnInfo(o, F);
      o["o"] = expr(X->getImplicitObjectArgument());
      if (X->getImplicitObjectArgument() &&
          X->getImplicitObjectArgument()->getType()->isPointerType())
        o["arrow"] = true;
      o["a"] = args(X->arguments());
      if (auto* F = X->getMethodDecl())
        if (isa<CXXConversionDecl>(F)) o["conv"] = true;
      return o;
    }
    if (auto* X = dyn_cast<CallExpr>(E)) {
      Object o = base("call", E);
      if (auto* F = X->getDirectCallee()) fnInfo(o, F);
      else o["callee"] = expr(X->getCallee());
      o["a"] = args(X->arguments());
      Value v = intOrNull(E);
      if (v.kind() != Value::Null) o["cv"] = v;
      return o;
    }
    if (auto* X = dyn_cast<CXXConstructExpr>(E)) {
      Object o = base("ctor", E);
      fnInfo(o, X->getConstructor());
      auto* CD = X->getConstructor();
      if (CD->isCopyConstructor()) o["copy"] = true;
      if (CD->isMoveConstructor()) o["move"] = true;
      if (CD->isDefaultConstructor()) o["dflt"] = true;
      Array a;
      for (auto* x : X->arguments()) a.push_back(expr(x));
      o["a"] = std::move(a);
      return o;
    }
    if (auto* X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      Object o = base("ctor", E);
      fnInfo(o, X->getConstructor());
      o["a"] = Array();
      return o;
    }
    if (auto* X = dyn_cast<BinaryOperator>(E)) {
      Object o = base("bin", E);
      o["op"] = X->getOpcodeStr().str();
      o["x"] = expr(X->getLHS());
      o["y"] = expr(X->getRHS());
      if (auto* CA = dyn_cast<CompoundAssignOperator>(X)) {
        o["ct"] = type(CA->getComputationResultType());
      }
      Value v = intOrNull(E);
      if (v.kind() != Value::Null) o["cv"] = v;
      return o;
    }
    if (auto* X = dyn_cast<UnaryOperator>(E)) {
      Object o = base("un", E);
      std::string op = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) op = "post" + op;
      o["op"] = op;
      o["e"] = expr(X->getSubExpr());
      Value v = intOrNull(E);
      if (v.kind() != Value::Null) o["cv"] = v;
      return o;
    }
    if (auto* X = dyn_cast<ConditionalOperator>(E)) {
      Object o = base("cond", E);
      o["c"] = expr(X->getCond());
      o["x"] = expr(X->getTrueExpr());
      o["y"] = expr(X->getFalseExpr());
      return o;
    }
    if (auto* X = dyn_cast<ArraySubscriptExpr>(E)) {
      Object o = base("idx", E);
      o["b"] = expr(X->getBase());
      o["i"] = expr(X->getIdx());
      return o;
    }
    if (auto* X = dyn_cast<InitListExpr>(E)) {
      Object o = base("init", E);
      Array a;
      const InitListExpr* S = X->isSemanticForm() ? X : X->getSemanticForm();
      if (!S) S = X;
      for (auto* x : S->inits()) a.push_back(expr(x));
      o["a"] = std::move(a);
      return o;
    }
    if (auto* X = dyn_cast<CXXStdInitializerListExpr>(E)) {
      Object o = base("stdinit", E);
      o["e"] = expr(X->getSubExpr());
      return o;
    }
    if (auto* X = dyn_cast<CXXNewExpr>(E)) {
      Object o = base("new", E);
      o["at"] = type(X->getAllocatedType());
      o["init"] = expr(X->getInitializer());
      if (X->isArray() && X->getArraySize()) o["n"] = expr(*X->getArraySize());
      Array a;
      for (unsigned i = 0; i < X->getNumPlacementArgs(); i++)
        a.push_back(expr(X->getPlacementArg(i)));
      if (!a.empty()) o["pl"] = std::move(a);
      return o;
    }
    if (auto* X = dyn_cast<CXXDeleteExpr>(E)) {
      Object o = base("delete", E);
      o["e"] = expr(X->getArgument());
      return o;
    }
    if (auto* X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      Object o = base("sizeof", E);
      Value v = intOrNull(E);
      if (v.kind() != Value::Null) o["cv"] = v;
      if (X->isArgumentType()) o["at"] = type(X->getArgumentType());
      return o;
    }
    if (auto* X = dyn_cast<LambdaExpr>(E)) {
      Object o = base("lambda", E);
      o["fn"] = usr(X->getCallOperator());
      Array caps;
      auto ci = X->capture_init_begin();
      for (auto it = X->capture_begin(); it != X->capture_end(); ++it, ++ci) {
        Object c;
        if (it->capturesVariable()) {
          c["d"] = did(it->getCapturedVar());
          c["n"] = it->getCapturedVar()->getNameAsString();
        } else if (it->capturesThis()) c["this"] = true;
        c["by"] = it->getCaptureKind() == LCK_ByRef ? "ref" : "copy";
        if (*ci) c["e"] = expr(*ci);
        caps.push_back(std::move(c));
      }
      o["caps"] = std::move(caps);
      function(X->getCallOperator());
      return o;
    }
    if (auto* X = dyn_cast<CXXThrowExpr>(E)) {
      Object o = base("throw", E);
      o["e"] = expr(X->getSubExpr());
      return o;
    }
    if (auto* X = dyn_cast<CXXScalarValueInitExpr>(E)) {
      (void)X;
      return base("zero", E);
    }
    if (isa<ImplicitValueInitExpr>(E)) return base("zero", E);
    if (auto* X = dyn_cast<CXXTypeidExpr>(E)) {
      Object o = base("typeid", E);
      if (X->isTypeOperand()) o["at"] = type(X->getTypeOperand(C));
      return o;
    }
    if (auto* X = dyn_cast<TypeTraitExpr>(E)) {
      Object o = base("int", E);
      o["v"] = X->getValue() ? 1 : 0;
      return o;
    }
    if (auto* X = dyn_cast<OpaqueValueExpr>(E)) return expr(X->getSourceExpr());
    if (auto* X = dyn_cast<ArrayInitLoopExpr>(E)) {
      Object o = base("tmp", E);
      o["e"] = expr(X->getCommonExpr());
      return o;
    }
    // generic fallback: keep children
    Object o = base("unk", E);
    o["cls"] = E->getStmtClassName();
    Array ch;
    for (auto* S : E->children())
      if (auto* X = dyn_cast_or_null<Expr>(S)) ch.push_back(expr(X));
    o["a"] = std::move(ch);
    Value v = intOrNull(E);
    if (v.kind() != Value::Null) o["cv"] = v;
    return o;
  }

  Value varDecl(const VarDecl* V) {
    Object o;
    o["k"] = "var";
    o["d"] = did(V);
    o["n"] = V->getNameAsString();
    o["t"] = type(V->getType());
    o["l"] = loc(V->getLocation());
    if (V->isStaticLocal()) {
      o["static"] = true;
      globalVar(V);
    }
    if (V->getInit()) o["init"] = expr(V->getInit());
    // Is the default-constructed value indeterminate?
    return o;
  }

  Value stmt(const Stmt* S) {
    if (!S) return nullptr;
    if (auto* E = dyn_cast<Expr>(S)) {
      Object o;
      o["k"] = "expr";
      o["e"] = expr(E);
      o["l"] = loc(E->getExprLoc());
      return o;
    }
    Object o;
    o["l"] = loc(S->getBeginLoc());
    std::string m = macroOf(S->getBeginLoc());
    if (!m.empty()) o["m"] = m;
    if (auto* X = dyn_cast<CompoundStmt>(S)) {
      o["k"] = "block";
      Array a;
      for (auto* s : X->body()) a.push_back(stmt(s));
      o["s"] = std::move(a);
    } else if (auto* X = dyn_cast<DeclStmt>(S)) {
      o["k"] = "decl";
      Array a;
      for (auto* d : X->decls()) {
        if (auto* V = dyn_cast<VarDecl>(d)) a.push_back(varDecl(V));
      }
      o["v"] = std::move(a);
    } else if (auto* X = dyn_cast<IfStmt>(S)) {
      if (X->isConstexpr()) {
        if (auto nd = X->getNondiscardedCase(C)) {
          if (*nd) return stmt(*nd);
          o["k"] = "block";
          o["s"] = Array();
          return o;
        }
      }
      o["k"] = "if";
      if (X->getInit()) o["i"] = stmt(X->getInit());
      if (X->getConditionVariable()) o["cvd"] = varDecl(X->getConditionVariable());
      o["c"] = expr(X->getCond());
      o["x"] = stmt(X->getThen());
      if (X->getElse()) o["y"] = stmt(X->getElse());
    } else if (auto* X = dyn_cast<ForStmt>(S)) {
      o["k"] = "for";
      if (X->getInit()) o["i"] = stmt(X->getInit());
      if (X->getCond()) o["c"] = expr(X->getCond());
      if (X->getInc()) o["n"] = expr(X->getInc());
      o["b"] = stmt(X->getBody());
    } else if (auto* X = dyn_cast<CXXForRangeStmt>(S)) {
      o["k"] = "forr";
      o["v"] = varDecl(X->getLoopVariable());
      o["r"] = expr(X->getRangeInit());
      o["b"] = stmt(X->getBody());
    } else if (auto* X = dyn_cast<WhileStmt>(S)) {
      o["k"] = "while";
      if (X->getConditionVariable()) o["cvd"] = varDecl(X->getConditionVariable());
      o["c"] = expr(X->getCond());
      o["b"] = stmt(X->getBody());
    } else if (auto* X = dyn_cast<DoStmt>(S)) {
      o["k"] = "do";
      o["c"] = expr(X->getCond());
      o["b"] = stmt(X->getBody());
    } else if (auto* X = dyn_cast<SwitchStmt>(S)) {
      o["k"] = "switch";
      if (X->getInit()) o["i"] = stmt(X->getInit());
      if (X->getConditionVariable()) o["cvd"] = varDecl(X->getConditionVariable());
      o["c"] = expr(X->getCond());
      o["b"] = stmt(X->getBody());
    } else if (auto* X = dyn_cast<CaseStmt>(S)) {
      o["k"] = "case";
      o["v"] = intOrNull(X->getLHS());
      o["s"] = stmt(X->getSubStmt());
    } else if (auto* X = dyn_cast<DefaultStmt>(S)) {
      o["k"] = "default";
      o["s"] = stmt(X->getSubStmt());
    } else if (auto* X = dyn_cast<ReturnStmt>(S)) {
      o["k"] = "ret";
      if (X->getRetValue()) o["e"] = expr(X->getRetValue());
    } else if (isa<BreakStmt>(S)) o["k"] = "break";
    else if (isa<ContinueStmt>(S)) o["k"] = "continue";
    else if (isa<NullStmt>(S)) { o["k"] = "block"; o["s"] = Array(); }
    else if (auto* X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    else if (auto* X = dyn_cast<LabelStmt>(S)) return stmt(X->getSubStmt());
    else if (auto* X = dyn_cast<CXXTryStmt>(S)) {
      o["k"] = "try";
      o["b"] = stmt(X->getTryBlock());
      Array a;
      for (unsigned i = 0; i < X->getNumHandlers(); i++)
        a.push_back(stmt(X->getHandler(i)->getHandlerBlock()));
      o["h"] = std::move(a);
      bool all = false;
      for (unsigned i = 0; i < X->getNumHandlers(); i++)
        if (!X->getHandler(i)->getExceptionDecl()) all = true;
      o["all"] = all;
    } else {
      o["k"] = "unks";
      o["cls"] = S->getStmtClassName();
    }
    return o;
  }

  void globalVar(const VarDecl* V) {
    V = V->getCanonicalDecl();
    std::string k = usr(V);
    if (globals.find(k) != globals.end()) return;
    Object o;
    o["n"] = V->getQualifiedNameAsString();
    o["t"] = type(V->getType());
    o["l"] = loc(V->getLocation());
    o["repo"] = inRoot(V->getLocation());
    if (V->isConstexpr() || V->getType().isConstQualified()) o["const"] = true;
    if (V->getTSCSpec() != TSCS_unspecified) o["tls"] = true;
    if (V->isStaticLocal()) o["static"] = true;
    o["d"] = did(V);
    globals[k] = std::move(o);
  }

  void record(const CXXRecordDecl* R) {
    if (!R) return;
    R = R->getDefinition();
    if (!R || R->isDependentType()) return;
    if (!inRoot(R->getLocation())) return;
    std::string k = usr(R);
    if (!doneRec.insert(k).second) return;
    Object o;
    o["n"] = R->getQualifiedNameAsString();
    o["full"] = C.getTypeDeclType(R).getAsString(PP);
    o["l"] = loc(R->getLocation());
    if (R->isLambda()) o["lambda"] = true;
    if (R->isUnion()) o["union"] = true;
    if (R->isAggregate()) o["agg"] = true;
    if (R->isAbstract()) o["abs"] = true;
    Array bases;
    for (auto& B : R->bases()) {
      Object b;
      b["t"] = type(B.getType());
      if (auto* BR = B.getType()->getAsCXXRecordDecl()) b["ru"] = usr(BR), b["n"] = BR->getQualifiedNameAsString();
      bases.push_back(std::move(b));
    }
    o["bases"] = std::move(bases);
    Array fs;
    for (auto* F : R->fields()) {
      Object f;
      f["n"] = F->getNameAsString();
      f["t"] = type(F->getType());
      f["l"] = loc(F->getLocation());
      if (F->hasInClassInitializer()) {
        f["hasinit"] = true;
        if (F->getInClassInitializer()) f["init"] = expr(F->getInClassInitializer());
      }
      if (auto* RT = F->getType()->getAsCXXRecordDecl()) {
        if (RT->hasDefinition()) f["rtrivial"] = RT->hasTrivialDefaultConstructor();
      }
      fs.push_back(std::move(f));
    }
    o["fields"] = std::move(fs);
    Object sp;
    sp["hasUserCopyCtor"] = R->hasUserDeclaredCopyConstructor();
    sp["hasUserCopyAssign"] = R->hasUserDeclaredCopyAssignment();
    sp["hasUserMoveCtor"] = R->hasUserDeclaredMoveConstructor();
    sp["hasMoveCtor"] = R->hasMoveConstructor();
    sp["hasUserDtor"] = R->hasUserDeclaredDestructor();
    sp["simpleCopyCtor"] = R->hasSimpleCopyConstructor();
    sp["userDefaultCtor"] = R->hasUserProvidedDefaultConstructor();
    bool copyDel = false, moveDel = false;
    for (auto* CD : R->ctors()) {
      if (CD->isCopyConstructor() && CD->isDeleted()) copyDel = true;
      if (CD->isMoveConstructor() && CD->isDeleted()) moveDel = true;
    }
    sp["copyDeleted"] = copyDel || R->defaultedCopyConstructorIsDeleted();
    sp["moveDeleted"] = moveDel;
    o["special"] = std::move(sp);
    Array ms;
    for (auto* M : R->methods()) {
      Object m;
      m["n"] = M->getNameAsString();
      m["fn"] = usr(M);
      if (M->isVirtual()) {
        m["virt"] = true;
        Array ov;
        for (auto* B : M->overridden_methods()) ov.push_back(usr(B));
        m["ov"] = std::move(ov);
      }
      if (M->isPureVirtual()) m["pure"] = true;
      if (M->isImplicit()) m["implicit"] = true;
      if (M->isDeleted()) m["deleted"] = true;
      if (M->isConst()) m["cm"] = true;
      ms.push_back(std::move(m));
    }
    o["methods"] = std::move(ms);
    records[k] = std::move(o);
  }

  void function(const FunctionDecl* F) {
    if (!F->doesThisDeclarationHaveABody() && !F->isDefaulted()) return;
    if (F->isDependentContext()) return;
    if (F->isDefaulted() && !F->doesThisDeclarationHaveABody()) return;
    if (!inRoot(F->getLocation())) return;
    if (F->isDeleted()) return;
    std::string k = usr(F);
    if (!doneFn.insert(k).second) return;
    Object o;
    o["key"] = k;
    o["n"] = F->getQualifiedNameAsString();
    o["s"] = F->getNameAsString();
    o["l"] = loc(F->getLocation());
    o["rt"] = type(F->getReturnType());
    if (F->isExternC()) o["externc"] = true;
    if (F->isImplicit()) o["implicit"] = true;
    if (F->isDefaulted()) o["defaulted"] = true;
    if (F->isInAnonymousNamespace() || F->getStorageClass() == SC_Static) o["internal"] = true;
    if (auto* TA = F->getTemplateSpecializationArgs()) {
      Array a;
      for (auto& A : TA->asArray()) {
        if (A.getKind() == TemplateArgument::Integral) a.push_back(A.getAsIntegral().getExtValue());
        else if (A.getKind() == TemplateArgument::Type) a.push_back("T:" + A.getAsType().getAsString(PP));
        else a.push_back(nullptr);
      }
      o["fta"] = std::move(a);
    }
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
      o["rec"] = M->getParent()->getQualifiedNameAsString();
      o["recu"] = usr(M->getParent());
      o["rect"] = C.getTypeDeclType(M->getParent()).getAsString(PP);
      if (M->isConst()) o["cm"] = true;
      if (M->isStatic()) o["sm"] = true;
      if (M->isVirtual()) o["virt"] = true;
      if (isa<CXXDestructorDecl>(M)) o["dtor"] = true;
      record(M->getParent());
    }
    Array ps;
    for (auto* P : F->parameters()) {
      Object p;
      p["d"] = did(P);
      p["n"] = P->getNameAsString();
      p["t"] = type(P->getType());
      ps.push_back(std::move(p));
    }
    o["params"] = std::move(ps);
    if (auto* CD = dyn_cast<CXXConstructorDecl>(F)) {
      o["ctor"] = true;
      if (CD->isCopyConstructor()) o["copy"] = true;
      if (CD->isMoveConstructor()) o["move"] = true;
      Array is;
      for (auto* I : CD->inits()) {
        Object i;
        if (I->isAnyMemberInitializer()) i["f"] = I->getAnyMember()->getNameAsString();
        else if (I->isBaseInitializer()) {
          i["base"] = type(QualType(I->getBaseClass(), 0));
        } else if (I->isDelegatingInitializer()) i["deleg"] = true;
        i["written"] = I->isWritten();
        i["e"] = expr(I->getInit());
        i["l"] = loc(I->getSourceLocation());
        is.push_back(std::move(i));
      }
      o["inits"] = std::move(is);
    }
    o["body"] = stmt(F->getBody());
    functions[k] = std::move(o);
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
 public:
  Dumper& D;
  explicit Visitor(Dumper& d) : D(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl* F) {
    D.function(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* R) {
    D.record(R);
    return true;
  }
  bool VisitVarDecl(VarDecl* V) {
    if (V->hasGlobalStorage() && D.inRoot(V->getLocation()) &&
        !V->getDeclContext()->isDependentContext() && !V->getType()->isDependentType())
      D.globalVar(V);
    return true;
  }
  bool VisitEnumDecl(EnumDecl* E) {
    if (!D.inRoot(E->getLocation())) return true;
    for (auto* c : E->enumerators()) D.enums[c->getQualifiedNameAsString()] = c->getInitVal().getExtValue();
    return true;
  }
};

class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext& Ctx) override {
    if (Ctx.getDiagnostics().hasErrorOccurred()) {
      llvm::errs() << "extract: parse errors\n";
      return;
    }
    Dumper D(Ctx);
    Visitor V(D);
    V.TraverseDecl(Ctx.getTranslationUnitDecl());
    Object top;
    top["types"] = std::move(D.types);
    top["functions"] = std::move(D.functions);
    top["records"] = std::move(D.records);
    top["globals"] = std::move(D.globals);
    top["enums"] = std::move(D.enums);
    std::error_code EC;
    llvm::raw_fd_ostream os(OutPath, EC);
    os << Value(std::move(top));
  }
};

class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override {
    return std::make_unique<Consumer>();
  }
};

struct Factory : tooling::FrontendActionFactory {
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
};

}  // namespace

// usage: extract ROOT EXTRA OUT FILE WORKDIR flags...
int main(int argc, char** argv) {
  if (argc < 6) return 2;
  Root = argv[1];
  Extra = argv[2];
  OutPath = argv[3];
  std::string file = argv[4], dir = argv[5];
  std::vector<std::string> flags;
  for (int i = 6; i < argc; i++) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(dir, flags);
  tooling::ClangTool tool(db, {file});
  tool.setPrintErrorMessage(true);
  Factory f;
  return tool.run(&f);
}
