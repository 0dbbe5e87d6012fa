// promx: exports the type-checked program (functions, classes, resolved calls)
// of one translation unit as JSON.  It never runs the program.
//
//   promx --root /repo --root <dir> --out out.json file.cc -- <compile flags>
//
// Only declarations that live below one of the --root directories are exported
// with bodies; everything else (libstdc++, libcurl, civetweb, zlib) appears as
// a resolved callee with its qualified name.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;
static std::string OutFile;

namespace {

class Exporter {
 public:
  explicit Exporter(ASTContext& C) : Ctx(C), SM(C.getSourceManager()) {
    PP = PrintingPolicy(C.getLangOpts());
    PP.SuppressTagKeyword = true;
    PP.SuppressInlineNamespace = true;
    PP.Bool = true;
    PP.SuppressUnwrittenScope = true;
    PP.PrintCanonicalTypes = true;
    PP.UsePreferredNames = false;
  }

  ASTContext& Ctx;
  SourceManager& SM;
  PrintingPolicy PP{LangOptions()};
  std::map<const void*, int> Ids;
  std::map<std::string, int> TypeIdx;
  json::Array Types;
  json::Array Functions;
  json::Array Classes;
  json::Array Globals;
  std::set<const void*> DoneFn, DoneRec, DoneGlobal;
  std::map<std::string, int> FileIdx;
  json::Array Files;
  std::vector<std::string> Problems;

  int id(const void* P) {
    auto It = Ids.find(P);
    if (It != Ids.end()) return It->second;
    int N = static_cast<int>(Ids.size()) + 1;
    Ids[P] = N;
    return N;
  }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L);
    llvm::SmallString<256> P(F);
    if (auto FE = SM.getFileEntryRefForID(SM.getFileID(L))) {
      auto R = FE->getFileEntry().tryGetRealPathName();
      if (!R.empty()) return R.str();
    }
    return std::string(P);
  }

  bool inRoots(SourceLocation L) {
    if (L.isInvalid()) return false;
    auto F = fileOf(L);
    for (auto& R : Roots)
      if (F.compare(0, R.size(), R) == 0) return true;
    return false;
  }

  int fileIdx(const std::string& F) {
    auto It = FileIdx.find(F);
    if (It != FileIdx.end()) return It->second;
    int N = static_cast<int>(Files.size());
    FileIdx[F] = N;
    Files.push_back(F);
    return N;
  }

  json::Value loc(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return nullptr;
    return json::Array{fileIdx(fileOf(L)),
                       static_cast<int>(SM.getExpansionLineNumber(L)),
                       static_cast<int>(SM.getExpansionColumnNumber(L))};
  }

  // Qualified name without template arguments and inline namespaces.
  std::string qname(const NamedDecl* D) {
    std::vector<std::string> Parts;
    auto Name = D->getNameAsString();
    if (auto* CD = dyn_cast<CXXConstructorDecl>(D))
      Name = CD->getParent()->getNameAsString();
    if (auto* DD = dyn_cast<CXXDestructorDecl>(D))
      Name = "~" + DD->getParent()->getNameAsString();
    if (auto* CV = dyn_cast<CXXConversionDecl>(D))
      Name = "operator " + CV->getConversionType().getAsString(PP);
    Parts.push_back(Name);
    const DeclContext* DC = D->getDeclContext();
    while (DC && !DC->isTranslationUnit()) {
      if (auto* NS = dyn_cast<NamespaceDecl>(DC)) {
        if (!NS->isInline() && !NS->isAnonymousNamespace())
          Parts.push_back(NS->getNameAsString());
      } else if (auto* R = dyn_cast<RecordDecl>(DC)) {
        if (auto* CR = dyn_cast<CXXRecordDecl>(R); CR && CR->isLambda())
          Parts.push_back("(lambda)");
        else
          Parts.push_back(R->getNameAsString());
      } else if (auto* F = dyn_cast<FunctionDecl>(DC)) {
        Parts.push_back(F->getNameAsString());
      } else if (auto* E = dyn_cast<EnumDecl>(DC)) {
        Parts.push_back(E->getNameAsString());
      }
      DC = DC->getParent();
    }
    std::string R;
    for (auto It = Parts.rbegin(); It != Parts.rend(); ++It) {
      if (!R.empty()) R += "::";
      R += *It;
    }
    return R;
  }

  std::string typeStr(QualType T) { return T.getCanonicalType().getAsString(PP); }

  int type(QualType T) {
    if (T.isNull()) return -1;
    T = T.getCanonicalType();
    std::string S = T.getAsString(PP);
    std::string Key = S;
    const CXXRecordDecl* LR = T->getAsCXXRecordDecl();
    if (LR && LR->isLambda()) Key += "#" + std::to_string(id(LR));
    auto It = TypeIdx.find(Key);
    if (It != TypeIdx.end()) return It->second;
    int N = static_cast<int>(Types.size());
    TypeIdx[Key] = N;
    Types.push_back(nullptr);
    json::Object O;
    O["s"] = S;
    if (T.isConstQualified()) O["const"] = 1;
    if (T->isReferenceType()) {
      O["k"] = T->isRValueReferenceType() ? "rref" : "ref";
      O["pt"] = type(T->getPointeeType());
    } else if (T->isPointerType()) {
      O["k"] = "ptr";
      O["pt"] = type(T->getPointeeType());
    } else if (T->isBooleanType()) {
      O["k"] = "bool";
    } else if (T->isEnumeralType()) {
      O["k"] = "enum";
      O["qn"] = qname(T->getAsTagDecl());
    } else if (T->isIntegerType()) {
      O["k"] = "int";
      O["w"] = static_cast<int>(Ctx.getTypeSize(T));
      O["sg"] = T->isSignedIntegerType() ? 1 : 0;
      if (T->isAnyCharacterType()) O["char"] = 1;
    } else if (T->isFloatingType()) {
      O["k"] = "float";
      O["w"] = static_cast<int>(Ctx.getTypeSize(T));
    } else if (T->isNullPtrType()) {
      O["k"] = "nullptr";
    } else if (T->isVoidType()) {
      O["k"] = "void";
    } else if (T->isArrayType()) {
      O["k"] = "array";
      O["pt"] = type(QualType(T->getArrayElementTypeNoTypeQual(), 0));
      if (auto* CA = Ctx.getAsConstantArrayType(T))
        O["n"] = static_cast<int64_t>(CA->getSize().getZExtValue());
    } else if (T->isMemberPointerType()) {
      O["k"] = "memptr";
    } else if (T->isFunctionType()) {
      O["k"] = "func";
    } else if (auto* RD = T->getAsCXXRecordDecl()) {
      O["k"] = "rec";
      O["qn"] = qname(RD);
      if (RD->isLambda()) {
        O["lambda"] = id(RD->getCanonicalDecl());
      }
      O["proj"] = inRoots(RD->getLocation()) ? 1 : 0;
      if (auto* TS = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
        json::Array A;
        for (auto& Arg : TS->getTemplateArgs().asArray()) pushArg(A, Arg);
        O["ta"] = std::move(A);
      }
      if (RD->hasDefinition() && RD->isCompleteDefinition() == false) {
      }
      if (RD->hasDefinition()) {
        O["trivdtor"] = RD->hasTrivialDestructor() ? 1 : 0;
        O["trivcopy"] = T.isTriviallyCopyableType(Ctx) ? 1 : 0;
      }
      noteRecord(RD);
    } else if (T->isRecordType()) {
      O["k"] = "rec";
      O["qn"] = qname(T->getAsTagDecl());
      O["proj"] = 0;
    } else {
      O["k"] = "other";
    }
    Types[N] = std::move(O);
    return N;
  }

  void pushArg(json::Array& A, const TemplateArgument& Arg) {
    switch (Arg.getKind()) {
      case TemplateArgument::Type:
        A.push_back(type(Arg.getAsType()));
        break;
      case TemplateArgument::Integral:
        A.push_back(json::Object{{"v", Arg.getAsIntegral().getExtValue()}});
        break;
      case TemplateArgument::Pack:
        for (auto& P : Arg.pack_elements()) pushArg(A, P);
        break;
      default:
        A.push_back(nullptr);
    }
  }

  std::string fnKey(const FunctionDecl* F) {
    F = F->getCanonicalDecl();
    if (const FunctionDecl* Def = F->getDefinition()) F = Def->getCanonicalDecl();
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->getParent()->isLambda()) {
        std::string K = "lambda#" + std::to_string(id(M->getParent()->getCanonicalDecl()));
        if (M->getOverloadedOperator() != OO_Call) K += "#" + std::to_string(id(M));
        return K;
      }
    }
    llvm::SmallString<128> Buf;
    index::generateUSRForDecl(F, Buf);
    std::string K(Buf);
    if (K.empty()) K = "anon#" + std::to_string(id(F));
    if (F->getDeclContext()->isFunctionOrMethod())
      K += "#" + std::to_string(id(F));
    return K;
  }

  std::string recKey(const CXXRecordDecl* R) {
    return typeStr(Ctx.getRecordType(R));
  }

  static const char* access(AccessSpecifier A) {
    switch (A) {
      case AS_public: return "public";
      case AS_protected: return "protected";
      case AS_private: return "private";
      default: return "none";
    }
  }

  std::vector<const CXXRecordDecl*> PendingRecs;
  void noteRecord(const CXXRecordDecl* R) {
    R = R->getDefinition();
    if (!R || R->isDependentContext()) return;
    if (!DoneRec.insert(R).second) return;
    PendingRecs.push_back(R);
  }
  void flushRecords() {
    while (!PendingRecs.empty()) {
      auto* R = PendingRecs.back();
      PendingRecs.pop_back();
      if (inRoots(R->getLocation())) exportRecord(R);
    }
  }

  void exportRecord(const CXXRecordDecl* R) {
    json::Object O;
    O["key"] = recKey(R);
    O["qn"] = qname(R);
    O["loc"] = loc(R->getLocation());
    if (R->isLambda()) O["lambda"] = id(R->getCanonicalDecl());
    json::Array Fs;
    for (auto* F : R->fields()) {
      json::Object FO;
      FO["name"] = F->getNameAsString();
      FO["t"] = type(F->getType());
      FO["acc"] = access(F->getAccess());
      FO["mutable"] = F->isMutable() ? 1 : 0;
      FO["loc"] = loc(F->getLocation());
      if (Expr* I = F->getInClassInitializer()) FO["init"] = expr(I);
      Fs.push_back(std::move(FO));
    }
    O["fields"] = std::move(Fs);
    json::Array Bs;
    for (auto& B : R->bases()) Bs.push_back(type(B.getType()));
    O["bases"] = std::move(Bs);
    json::Array Ms;
    for (auto* M : R->methods()) {
      json::Object MO;
      MO["name"] = M->getNameAsString();
      MO["key"] = fnKey(M);
      MO["acc"] = access(M->getAccess());
      MO["static"] = M->isStatic() ? 1 : 0;
      MO["const"] = M->isConst() ? 1 : 0;
      MO["virtual"] = M->isVirtual() ? 1 : 0;
      MO["deleted"] = M->isDeleted() ? 1 : 0;
      MO["implicit"] = M->isImplicit() ? 1 : 0;
      MO["defaulted"] = M->isDefaulted() ? 1 : 0;
      MO["kind"] = isa<CXXConstructorDecl>(M)  ? "ctor"
                   : isa<CXXDestructorDecl>(M) ? "dtor"
                                               : "method";
      MO["ret"] = type(M->getReturnType());
      json::Array Ps;
      for (auto* P : M->parameters()) Ps.push_back(type(P->getType()));
      MO["params"] = std::move(Ps);
      json::Array Ov;
      for (auto* OM : M->overridden_methods()) Ov.push_back(fnKey(OM));
      MO["overrides"] = std::move(Ov);
      Ms.push_back(std::move(MO));
    }
    for (auto* D : R->decls()) {
      if (auto* FT = dyn_cast<FunctionTemplateDecl>(D)) {
        for (auto* S : FT->specializations()) {
          json::Object MO;
          MO["name"] = S->getNameAsString();
          MO["key"] = fnKey(S);
          MO["acc"] = access(FT->getAccess());
          auto* M = dyn_cast<CXXMethodDecl>(S);
          MO["static"] = M && M->isStatic() ? 1 : 0;
          MO["const"] = M && M->isConst() ? 1 : 0;
          MO["virtual"] = 0;
          MO["deleted"] = S->isDeleted() ? 1 : 0;
          MO["implicit"] = 0;
          MO["defaulted"] = 0;
          MO["kind"] = isa<CXXConstructorDecl>(S) ? "ctor" : "method";
          MO["ret"] = type(S->getReturnType());
          json::Array Ps;
          for (auto* P : S->parameters()) Ps.push_back(type(P->getType()));
          MO["params"] = std::move(Ps);
          MO["overrides"] = json::Array{};
          MO["tmpl"] = 1;
          json::Array TA;
          if (auto* Args = S->getTemplateSpecializationArgs())
            for (auto& A : Args->asArray()) pushArg(TA, A);
          MO["ta"] = std::move(TA);
          Ms.push_back(std::move(MO));
        }
      }
    }
    O["methods"] = std::move(Ms);
    json::Array Fr;
    for (auto* F : R->friends()) {
      if (auto* T = F->getFriendType()) Fr.push_back(typeStr(T->getType()));
      else if (auto* D = F->getFriendDecl()) Fr.push_back(qname(D));
    }
    O["friends"] = std::move(Fr);
    Classes.push_back(std::move(O));
  }

  json::Value callee(const FunctionDecl* F) {
    json::Object O;
    O["key"] = fnKey(F);
    O["qn"] = qname(F);
    O["proj"] = inRoots(F->getLocation()) ? 1 : 0;
    if (F->isNoReturn()) O["noreturn"] = 1;
    if (auto* FPT = F->getType()->getAs<FunctionProtoType>()) {
      // isNothrow() on unevaluated specs may assert; guard.
      auto EST = FPT->getExceptionSpecType();
      if (EST == EST_Unevaluated || EST == EST_Uninstantiated) {
        O["nothrow"] = isa<CXXDestructorDecl>(F) ? 1 : 0;
      } else {
        O["nothrow"] = FPT->isNothrow() ? 1 : 0;
      }
      if (FPT->isVariadic()) O["variadic"] = 1;
    }
    if (F->isExternC()) O["externc"] = 1;
    json::Array Ps;
    for (auto* P : F->parameters()) Ps.push_back(type(P->getType()));
    O["params"] = std::move(Ps);
    O["ret"] = type(F->getReturnType());
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
      O["m"] = 1;
      if (M->isStatic()) O["static"] = 1;
      if (M->isConst()) O["const"] = 1;
      if (M->isVirtual()) O["virtual"] = 1;
      O["cls"] = type(Ctx.getRecordType(M->getParent()));
      if (auto* CD = dyn_cast<CXXConstructorDecl>(M)) {
        O["ctor"] = 1;
        if (CD->isCopyConstructor()) O["copy"] = 1;
        if (CD->isMoveConstructor()) O["move"] = 1;
        if (CD->isDefaultConstructor()) O["defctor"] = 1;
        if (CD->isImplicit() || CD->isDefaulted()) O["implicit"] = 1;
      }
      if (M->isCopyAssignmentOperator()) O["copyassign"] = 1;
      if (M->isMoveAssignmentOperator()) O["moveassign"] = 1;
      if (M->isDefaulted()) O["defaulted"] = 1;
      if (M->getParent()->isLambda())
        O["lambda"] = id(M->getParent()->getCanonicalDecl());
    }
    if (auto* Args = F->getTemplateSpecializationArgs()) {
      json::Array A;
      for (auto& Arg : Args->asArray()) pushArg(A, Arg);
      O["ta"] = std::move(A);
    }
    // Make sure instantiated bodies in the project are exported.
    noteFunction(F);
    return O;
  }

  std::vector<const FunctionDecl*> PendingFns;
  void noteFunction(const FunctionDecl* F) {
    const FunctionDecl* Def = nullptr;
    if (!F->hasBody(Def) || !Def) return;
    if (Def->isDependentContext()) return;
    if (!inRoots(Def->getLocation())) return;
    if (!DoneFn.insert(Def).second) return;
    PendingFns.push_back(Def);
  }

  void constVal(const Expr* E, json::Object& O) {
    if (E->isValueDependent() || E->isTypeDependent()) return;
    QualType T = E->getType();
    if (!E->isPRValue()) {
      // A DeclRef to a constant is still an lvalue: leave it.
      return;
    }
    if (isa<StringLiteral>(E)) return;
    if (!(T->isArithmeticType() || T->isEnumeralType())) return;
    Expr::EvalResult R;
    if (!E->EvaluateAsRValue(R, Ctx)) return;
    if (R.HasSideEffects) return;
    if (R.Val.isInt()) {
      O["cv"] = R.Val.getInt().isUnsigned()
                    ? static_cast<int64_t>(R.Val.getInt().getZExtValue())
                    : R.Val.getInt().getExtValue();
      if (R.Val.getInt().isUnsigned() && R.Val.getInt().getBitWidth() == 64 &&
          R.Val.getInt().isNegative()) {
      }
      if (R.Val.getInt().isUnsigned() && R.Val.getInt().getActiveBits() > 63)
        O["cvu"] = llvm::toString(R.Val.getInt(), 10);
    } else if (R.Val.isFloat()) {
      auto F = R.Val.getFloat();
      llvm::SmallString<32> S;
      if (F.isNaN()) O["cf"] = "nan";
      else if (F.isInfinity()) O["cf"] = F.isNegative() ? "-inf" : "inf";
      else {
        bool Loses;
        F.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &Loses);
        O["cf"] = F.convertToDouble();
        if (F.isNegZero()) O["cfnz"] = 1;
      }
    }
  }

  json::Value varRef(const ValueDecl* D) {
    json::Object O;
    O["id"] = id(D->getCanonicalDecl());
    O["name"] = D->getNameAsString();
    if (auto* V = dyn_cast<VarDecl>(D)) {
      if (V->isStaticLocal()) O["static"] = 1;
      if (V->hasGlobalStorage()) {
        O["glob"] = qname(V);
        noteGlobal(V);
      }
    }
    O["t"] = type(D->getType());
    return O;
  }

  void noteGlobal(const VarDecl* V) {
    const VarDecl* Def = V->getDefinition();
    if (!Def) Def = V->getInitializingDeclaration();
    if (!Def) Def = V;
    if (!inRoots(Def->getLocation())) return;
    if (Def->getDeclContext()->isDependentContext()) return;
    if (!DoneGlobal.insert(Def).second) return;
    json::Object O;
    O["id"] = id(Def->getCanonicalDecl());
    O["qn"] = qname(Def);
    O["t"] = type(Def->getType());
    O["loc"] = loc(Def->getLocation());
    O["const"] = Def->getType().isConstQualified() ? 1 : 0;
    if (Def->getTLSKind() != VarDecl::TLS_None) O["tls"] = 1;
    if (Def->isStaticLocal()) O["static"] = 1;
    const VarDecl* ID = nullptr;
    if (const Expr* I = Def->getAnyInitializer(ID)) O["init"] = expr(I);
    Globals.push_back(std::move(O));
  }

  json::Array exprs(llvm::ArrayRef<const Expr*> Es) {
    json::Array A;
    for (auto* E : Es) A.push_back(expr(E));
    return A;
  }

  template <class Range>
  json::Array exprRange(Range R) {
    json::Array A;
    for (const auto* E : R) A.push_back(expr(cast<Expr>(E)));
    return A;
  }

  json::Object base(const Expr* E, const char* K) {
    json::Object O;
    O["k"] = K;
    O["i"] = id(E);
    O["t"] = type(E->getType());
    if (E->isLValue()) O["vc"] = "l";
    else if (E->isXValue()) O["vc"] = "x";
    O["l"] = loc(E->getExprLoc());
    constVal(E, O);
    return O;
  }

  json::Value varDecl(const VarDecl* V) {
    json::Object O;
    O["id"] = id(V->getCanonicalDecl());
    O["name"] = V->getNameAsString();
    O["t"] = type(V->getType());
    O["l"] = loc(V->getLocation());
    if (V->isStaticLocal()) {
      O["static"] = 1;
      O["glob"] = qname(V);
    }
    if (V->getInit()) O["init"] = expr(V->getInit());
    return O;
  }

  json::Value expr(const Expr* E) {
    if (!E) return nullptr;
    // transparent wrappers
    while (true) {
      if (auto* P = dyn_cast<ParenExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto* P = dyn_cast<FullExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto* P = dyn_cast<MaterializeTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto* P = dyn_cast<CXXBindTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto* P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = P->getReplacement(); continue; }
      if (auto* P = dyn_cast<CXXDefaultArgExpr>(E)) { E = P->getExpr(); continue; }
      if (auto* P = dyn_cast<CXXDefaultInitExpr>(E)) { E = P->getExpr(); continue; }
      if (auto* P = dyn_cast<CXXStdInitializerListExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto* P = dyn_cast<CXXRewrittenBinaryOperator>(E)) {
        // a < b by way of the library's <=>: as the operator that is meant
        auto D = P->getDecomposedForm();
        auto* C = dyn_cast<CXXOperatorCallExpr>(D.InnerBinOp->IgnoreParenImpCasts());
        if (C && C->getOperator() == OO_Spaceship && C->getDirectCallee()) {
          auto V = callee(C->getDirectCallee());
          if (auto* F = V.getAsObject()) {
            auto Q = F->getString("qn");
            if (Q && (Q->starts_with("std::") || Q->starts_with("__gnu_cxx::"))) {
              auto Op = BinaryOperator::getOpcodeStr(D.Opcode).str();
              (*F)["qn"] = Q->substr(0, Q->rfind("operator")).str() + "operator" + Op;
              auto O = base(P, "call");
              O["op"] = Op;
              O["fn"] = std::move(V);
              json::Array A;
              A.push_back(expr(D.LHS));
              A.push_back(expr(D.RHS));
              O["a"] = std::move(A);
              return O;
            }
          }
        }
        E = P->getSemanticForm();
        continue;
      }
      if (auto* P = dyn_cast<CastExpr>(E)) {
        auto CK = P->getCastKind();
        if (CK == CK_NoOp || CK == CK_FunctionToPointerDecay ||
            CK == CK_ConstructorConversion || CK == CK_UserDefinedConversion ||
            CK == CK_BuiltinFnToFnPtr) {
          E = P->getSubExpr();
          continue;
        }
      }
      break;
    }

    if (auto* X = dyn_cast<DeclRefExpr>(E)) {
      auto* D = X->getDecl();
      if (auto* F = dyn_cast<FunctionDecl>(D)) {
        auto O = base(E, "fnref");
        O["fn"] = callee(F);
        return O;
      }
      if (auto* EC = dyn_cast<EnumConstantDecl>(D)) {
        auto O = base(E, "enum");
        O["name"] = EC->getNameAsString();
        O["v"] = EC->getInitVal().getExtValue();
        return O;
      }
      auto O = base(E, "var");
      O["d"] = varRef(D);
      return O;
    }
    if (auto* X = dyn_cast<MemberExpr>(E)) {
      if (auto* FD = dyn_cast<FieldDecl>(X->getMemberDecl())) {
        auto O = base(E, "mem");
        O["f"] = FD->getNameAsString();
        O["arrow"] = X->isArrow() ? 1 : 0;
        O["b"] = expr(X->getBase());
        O["cls"] = type(Ctx.getRecordType(FD->getParent()));
        if (FD->isAnonymousStructOrUnion()) O["anon"] = 1;
        return O;
      }
      if (auto* VD = dyn_cast<VarDecl>(X->getMemberDecl())) {
        auto O = base(E, "var");
        O["d"] = varRef(VD);
        return O;
      }
      if (auto* MD = dyn_cast<CXXMethodDecl>(X->getMemberDecl())) {
        auto O = base(E, "memfn");
        O["fn"] = callee(MD);
        O["b"] = expr(X->getBase());
        return O;
      }
      auto O = base(E, "unsupported");
      O["what"] = "member";
      return O;
    }
    if (isa<CXXThisExpr>(E)) return base(E, "this");
    if (auto* X = dyn_cast<IntegerLiteral>(E)) return base(X, "int");
    if (auto* X = dyn_cast<FloatingLiteral>(E)) return base(X, "float");
    if (auto* X = dyn_cast<CharacterLiteral>(E)) return base(X, "int");
    if (auto* X = dyn_cast<CXXBoolLiteralExpr>(E)) {
      auto O = base(X, "int");
      O["cv"] = X->getValue() ? 1 : 0;
      return O;
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return base(E, "null");
    if (auto* X = dyn_cast<StringLiteral>(E)) {
      auto O = base(E, "str");
      json::Array Bytes;
      if (X->getCharByteWidth() == 1) {
        for (unsigned char C : X->getBytes()) Bytes.push_back(static_cast<int>(C));
      }
      O["b"] = std::move(Bytes);
      return O;
    }
    if (isa<PredefinedExpr>(E)) {
      auto O = base(E, "str");
      O["b"] = json::Array{};
      return O;
    }
    if (auto* X = dyn_cast<CXXOperatorCallExpr>(E)) {
      auto O = base(E, "call");
      O["op"] = getOperatorSpelling(X->getOperator());
      if (auto* F = X->getDirectCallee()) O["fn"] = callee(F);
      else O["fnx"] = expr(X->getCallee());
      // for member operators the first argument is the object
      auto* M = dyn_cast_or_null<CXXMethodDecl>(X->getDirectCallee());
      json::Array A;
      unsigned I = 0;
      if (M && !M->isStatic()) {
        O["obj"] = expr(X->getArg(0));
        I = 1;
      }
      for (; I < X->getNumArgs(); ++I) A.push_back(expr(X->getArg(I)));
      O["a"] = std::move(A);
      return O;
    }
    if (auto* X = dyn_cast<CXXMemberCallExpr>(E)) {
      auto O = base(E, "call");
      if (auto* F = X->getMethodDecl()) {
        O["fn"] = callee(F);
        if (auto* ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) {
          if (ME->hasQualifier()) O["qualified"] = 1;
          O["objarrow"] = ME->isArrow() ? 1 : 0;
        }
      }
      O["obj"] = expr(X->getImplicitObjectArgument());
      O["a"] = exprRange(X->arguments());
      return O;
    }
    if (auto* X = dyn_cast<CallExpr>(E)) {
      auto O = base(E, "call");
      if (auto* F = X->getDirectCallee()) O["fn"] = callee(F);
      else O["fnx"] = expr(X->getCallee());
      O["a"] = exprRange(X->arguments());
      return O;
    }
    if (auto* X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      auto O = base(X, "unsupported");
      O["what"] = "inheritedctor";
      return O;
    }
    if (auto* X = dyn_cast<CXXConstructExpr>(E)) {
      auto O = base(E, "ctor");
      O["fn"] = callee(X->getConstructor());
      O["a"] = exprRange(X->arguments());
      if (X->isElidable()) O["elide"] = 1;
      if (X->isListInitialization()) O["list"] = 1;
      if (X->isStdInitListInitialization()) O["initlist"] = 1;
      if (X->requiresZeroInitialization()) O["zero"] = 1;
      return O;
    }
    if (auto* X = dyn_cast<InitListExpr>(E)) {
      if (X->isSyntacticForm() && X->getSemanticForm()) X = X->getSemanticForm();
      if (X->isTransparent() && X->getNumInits() == 1) return expr(X->getInit(0));
      auto O = base(X, "initlist");
      O["a"] = exprRange(X->inits());
      if (auto* F = X->getArrayFiller()) O["fill"] = expr(F);
      return O;
    }
    if (auto* X = dyn_cast<CXXNewExpr>(E)) {
      auto O = base(E, "new");
      O["of"] = type(X->getAllocatedType());
      O["init"] = expr(X->getConstructExpr() ? X->getConstructExpr() : X->getInitializer());
      if (X->isArray()) O["array"] = 1;
      return O;
    }
    if (auto* X = dyn_cast<CXXDeleteExpr>(E)) {
      auto O = base(E, "delete");
      O["e"] = expr(X->getArgument());
      return O;
    }
    if (auto* X = dyn_cast<LambdaExpr>(E)) {
      auto O = base(E, "lambda");
      O["rec"] = id(X->getLambdaClass()->getCanonicalDecl());
      O["fn"] = callee(X->getCallOperator());
      noteFunction(X->getCallOperator());
      json::Array Caps;
      auto InitIt = X->capture_init_begin();
      auto FieldIt = X->getLambdaClass()->field_begin();
      for (auto& C : X->captures()) {
        json::Object CO;
        if (C.capturesThis()) {
          CO["this"] = 1;
          if (C.getCaptureKind() == LCK_StarThis) CO["copy"] = 1;
        } else if (C.capturesVariable()) {
          CO["d"] = varRef(C.getCapturedVar());
          CO["ref"] = C.getCaptureKind() == LCK_ByRef ? 1 : 0;
        }
        CO["init"] = expr(*InitIt);
        Caps.push_back(std::move(CO));
        ++InitIt;
        ++FieldIt;
      }
      O["caps"] = std::move(Caps);
      return O;
    }
    if (auto* X = dyn_cast<CastExpr>(E)) {
      auto O = base(E, "cast");
      O["ck"] = X->getCastKindName();
      O["e"] = expr(X->getSubExpr());
      if (isa<ExplicitCastExpr>(E)) O["expl"] = 1;
      return O;
    }
    if (auto* X = dyn_cast<UnaryOperator>(E)) {
      auto O = base(E, "un");
      O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) O["post"] = 1;
      O["e"] = expr(X->getSubExpr());
      return O;
    }
    if (auto* X = dyn_cast<CompoundAssignOperator>(E)) {
      auto O = base(E, "casg");
      O["op"] = X->getOpcodeStr().str();
      O["a"] = expr(X->getLHS());
      O["b"] = expr(X->getRHS());
      O["ct"] = type(X->getComputationResultType());
      return O;
    }
    if (auto* X = dyn_cast<BinaryOperator>(E)) {
      auto O = base(E, "bin");
      O["op"] = X->getOpcodeStr().str();
      O["a"] = expr(X->getLHS());
      O["b"] = expr(X->getRHS());
      return O;
    }
    if (auto* X = dyn_cast<ConditionalOperator>(E)) {
      auto O = base(E, "cond");
      O["c"] = expr(X->getCond());
      O["a"] = expr(X->getTrueExpr());
      O["b"] = expr(X->getFalseExpr());
      return O;
    }
    if (auto* X = dyn_cast<ArraySubscriptExpr>(E)) {
      auto O = base(E, "idx");
      O["b"] = expr(X->getBase());
      O["x"] = expr(X->getIdx());
      return O;
    }
    if (auto* X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) return base(X, "int");
    if (auto* X = dyn_cast<CXXThrowExpr>(E)) {
      auto O = base(E, "throw");
      if (X->getSubExpr()) {
        O["e"] = expr(X->getSubExpr());
        O["et"] = type(X->getSubExpr()->getType());
      }
      return O;
    }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) return base(E, "zero");
    if (auto* X = dyn_cast<StmtExpr>(E)) {
      auto O = base(E, "stmtexpr");
      O["s"] = stmt(X->getSubStmt());
      return O;
    }
    if (auto* X = dyn_cast<CXXNoexceptExpr>(E)) return base(X, "int");
    if (auto* X = dyn_cast<TypeTraitExpr>(E)) return base(X, "int");
    if (auto* X = dyn_cast<ArrayInitLoopExpr>(E)) {
      auto O = base(E, "arrinit");
      O["e"] = expr(X->getCommonExpr()->getSourceExpr());
      return O;
    }
    if (auto* X = dyn_cast<OpaqueValueExpr>(E)) {
      if (X->getSourceExpr()) return expr(X->getSourceExpr());
    }
    auto O = base(E, "unsupported");
    O["what"] = E->getStmtClassName();
    return O;
  }

  json::Object sbase(const Stmt* S, const char* K) {
    json::Object O;
    O["k"] = K;
    O["i"] = id(S);
    O["l"] = loc(S->getBeginLoc());
    return O;
  }

  json::Value stmt(const Stmt* S) {
    if (!S) return nullptr;
    if (auto* X = dyn_cast<Expr>(S)) {
      auto O = sbase(S, "expr");
      O["e"] = expr(X);
      return O;
    }
    if (auto* X = dyn_cast<CompoundStmt>(S)) {
      auto O = sbase(S, "block");
      json::Array A;
      for (auto* C : X->body()) A.push_back(stmt(C));
      O["s"] = std::move(A);
      O["end"] = loc(X->getRBracLoc());
      return O;
    }
    if (auto* X = dyn_cast<DeclStmt>(S)) {
      auto O = sbase(S, "decl");
      json::Array A;
      for (auto* D : X->decls()) {
        if (auto* V = dyn_cast<VarDecl>(D)) {
          if (V->isStaticLocal()) noteGlobal(V);
          A.push_back(varDecl(V));
        }
      }
      O["v"] = std::move(A);
      return O;
    }
    if (auto* X = dyn_cast<IfStmt>(S)) {
      auto O = sbase(S, "if");
      if (X->getInit()) O["init"] = stmt(X->getInit());
      if (X->getConditionVariable()) O["cv"] = varDecl(X->getConditionVariable());
      O["c"] = expr(X->getCond());
      O["then"] = stmt(X->getThen());
      if (X->getElse()) O["else"] = stmt(X->getElse());
      return O;
    }
    if (auto* X = dyn_cast<ForStmt>(S)) {
      auto O = sbase(S, "for");
      if (X->getInit()) O["init"] = stmt(X->getInit());
      if (X->getConditionVariable()) O["cv"] = varDecl(X->getConditionVariable());
      if (X->getCond()) O["c"] = expr(X->getCond());
      if (X->getInc()) O["inc"] = expr(X->getInc());
      O["body"] = stmt(X->getBody());
      return O;
    }
    if (auto* X = dyn_cast<WhileStmt>(S)) {
      auto O = sbase(S, "while");
      if (X->getConditionVariable()) O["cv"] = varDecl(X->getConditionVariable());
      O["c"] = expr(X->getCond());
      O["body"] = stmt(X->getBody());
      return O;
    }
    if (auto* X = dyn_cast<DoStmt>(S)) {
      auto O = sbase(S, "do");
      O["c"] = expr(X->getCond());
      O["body"] = stmt(X->getBody());
      return O;
    }
    if (auto* X = dyn_cast<CXXForRangeStmt>(S)) {
      auto O = sbase(S, "rfor");
      O["range"] = expr(X->getRangeInit());
      O["var"] = varDecl(X->getLoopVariable());
      O["body"] = stmt(X->getBody());
      if (X->getInit()) O["init"] = stmt(X->getInit());
      return O;
    }
    if (auto* X = dyn_cast<SwitchStmt>(S)) {
      auto O = sbase(S, "switch");
      if (X->getInit()) O["init"] = stmt(X->getInit());
      O["c"] = expr(X->getCond());
      O["body"] = stmt(X->getBody());
      return O;
    }
    if (auto* X = dyn_cast<CaseStmt>(S)) {
      auto O = sbase(S, "case");
      O["v"] = expr(X->getLHS());
      if (X->getRHS()) O["v2"] = expr(X->getRHS());
      O["s"] = stmt(X->getSubStmt());
      return O;
    }
    if (auto* X = dyn_cast<DefaultStmt>(S)) {
      auto O = sbase(S, "default");
      O["s"] = stmt(X->getSubStmt());
      return O;
    }
    if (isa<BreakStmt>(S)) return sbase(S, "break");
    if (isa<ContinueStmt>(S)) return sbase(S, "continue");
    if (isa<NullStmt>(S)) return sbase(S, "null");
    if (auto* X = dyn_cast<ReturnStmt>(S)) {
      auto O = sbase(S, "return");
      if (X->getRetValue()) O["e"] = expr(X->getRetValue());
      return O;
    }
    if (auto* X = dyn_cast<CXXTryStmt>(S)) {
      auto O = sbase(S, "try");
      O["body"] = stmt(X->getTryBlock());
      json::Array H;
      for (unsigned I = 0; I < X->getNumHandlers(); ++I) {
        auto* C = X->getHandler(I);
        json::Object HO;
        HO["l"] = loc(C->getBeginLoc());
        if (C->getExceptionDecl()) {
          HO["var"] = varDecl(C->getExceptionDecl());
          HO["ct"] = type(C->getCaughtType().getNonReferenceType());
        }
        HO["body"] = stmt(C->getHandlerBlock());
        H.push_back(std::move(HO));
      }
      O["h"] = std::move(H);
      return O;
    }
    if (auto* X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    auto O = sbase(S, "unsupported");
    O["what"] = S->getStmtClassName();
    return O;
  }

  void exportFunction(const FunctionDecl* F) {
    json::Object O;
    O["key"] = fnKey(F);
    O["qn"] = qname(F);
    O["loc"] = loc(F->getLocation());
    O["ret"] = type(F->getReturnType());
    O["const"] = 0;
    std::string Kind = "func";
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
      Kind = "method";
      if (isa<CXXConstructorDecl>(M)) Kind = "ctor";
      if (isa<CXXDestructorDecl>(M)) Kind = "dtor";
      O["cls"] = recKey(M->getParent());
      O["clst"] = type(Ctx.getRecordType(M->getParent()));
      O["static"] = M->isStatic() ? 1 : 0;
      O["const"] = M->isConst() ? 1 : 0;
      O["virtual"] = M->isVirtual() ? 1 : 0;
      O["acc"] = access(M->getAccess());
      if (auto* FT = M->getPrimaryTemplate()) O["acc"] = access(FT->getAccess());
      if (M->getParent()->isLambda() && M->getOverloadedOperator() == OO_Call) {
        Kind = "lambda";
        O["lambda"] = id(M->getParent()->getCanonicalDecl());
      }
      noteRecord(M->getParent());
    }
    O["kind"] = Kind;
    O["internal"] = F->isExternallyVisible() ? 0 : 1;
    O["implicit"] = F->isImplicit() || F->isDefaulted() ? 1 : 0;
    if (auto* FPT = F->getType()->getAs<FunctionProtoType>()) {
      auto EST = FPT->getExceptionSpecType();
      if (EST != EST_Unevaluated && EST != EST_Uninstantiated)
        O["nothrow"] = FPT->isNothrow() ? 1 : 0;
      if (EST == EST_Unevaluated && isa<CXXDestructorDecl>(F)) O["nothrow"] = 1;
    }
    if (auto* Args = F->getTemplateSpecializationArgs()) {
      json::Array A;
      for (auto& Arg : Args->asArray()) pushArg(A, Arg);
      O["ta"] = std::move(A);
    }
    json::Array Ps;
    for (auto* P : F->parameters()) {
      json::Object PO;
      PO["id"] = id(P->getCanonicalDecl());
      PO["name"] = P->getNameAsString();
      PO["t"] = type(P->getType());
      if (P->hasDefaultArg() && !P->hasUnparsedDefaultArg()) {
        const ParmVarDecl* Q = P;
        if (!P->hasUninstantiatedDefaultArg()) PO["def"] = expr(Q->getDefaultArg());
      } else {
        // the default may be on another declaration
        for (auto* RD : F->redecls()) {
          unsigned I = P->getFunctionScopeIndex();
          if (I >= RD->getNumParams()) continue;
          auto* Q = RD->getParamDecl(I);
          if (Q->hasDefaultArg() && !Q->hasUnparsedDefaultArg() && !Q->hasUninstantiatedDefaultArg()) {
            PO["def"] = expr(Q->getDefaultArg());
            break;
          }
        }
      }
      Ps.push_back(std::move(PO));
    }
    O["params"] = std::move(Ps);
    if (auto* CD = dyn_cast<CXXConstructorDecl>(F)) {
      json::Array Is;
      for (auto* I : CD->inits()) {
        json::Object IO;
        IO["l"] = loc(I->getSourceLocation());
        if (I->isAnyMemberInitializer()) IO["f"] = I->getAnyMember()->getNameAsString();
        else if (I->isDelegatingInitializer()) IO["deleg"] = 1;
        else if (I->isBaseInitializer()) IO["base"] = type(QualType(I->getBaseClass(), 0));
        IO["written"] = I->isWritten() ? 1 : 0;
        IO["e"] = expr(I->getInit());
        Is.push_back(std::move(IO));
      }
      O["inits"] = std::move(Is);
    }
    O["body"] = stmt(F->getBody());
    Functions.push_back(std::move(O));
  }

  void flush() {
    while (!PendingFns.empty() || !PendingRecs.empty()) {
      while (!PendingFns.empty()) {
        auto* F = PendingFns.back();
        PendingFns.pop_back();
        exportFunction(F);
      }
      flushRecords();
    }
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
 public:
  explicit Visitor(Exporter& E) : X(E) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl* F) {
    if (F->isDependentContext()) return true;
    if (F->doesThisDeclarationHaveABody() && X.inRoots(F->getLocation()))
      X.noteFunction(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* R) {
    if (R->isThisDeclarationADefinition() && !R->isDependentContext() &&
        X.inRoots(R->getLocation()))
      X.noteRecord(R);
    return true;
  }
  bool VisitEnumDecl(EnumDecl* D) {
    if (!D->isThisDeclarationADefinition() || D->isDependentContext() ||
        !X.inRoots(D->getLocation()))
      return true;
    json::Object V;
    for (auto* C : D->enumerators())
      V[C->getNameAsString()] = C->getInitVal().getExtValue();
    Enums[X.qname(D)] = std::move(V);
    return true;
  }
  json::Object Enums;
  bool VisitVarDecl(VarDecl* V) {
    if (V->hasGlobalStorage() && X.inRoots(V->getLocation()) &&
        !V->getDeclContext()->isDependentContext() &&
        !V->getType()->isDependentType() && !isa<ParmVarDecl>(V) &&
        !V->isTemplated())
      X.noteGlobal(V);
    return true;
  }
  Exporter& X;
};

class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext& C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Exporter X(C);
    Visitor V(X);
    V.TraverseDecl(C.getTranslationUnitDecl());
    X.flush();
    json::Object O;
    O["types"] = std::move(X.Types);
    O["functions"] = std::move(X.Functions);
    O["classes"] = std::move(X.Classes);
    O["globals"] = std::move(X.Globals);
    O["enums"] = std::move(V.Enums);
    O["files"] = std::move(X.Files);
    O["std"] = C.getLangOpts().CPlusPlus20 ? "c++20" : C.getLangOpts().CPlusPlus17 ? "c++17" : "c++11";
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutFile, EC);
    OS << json::Value(std::move(O));
  }
};

class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override {
    return std::make_unique<Consumer>();
  }
};

class Factory : public tooling::FrontendActionFactory {
 public:
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
};

}  // namespace

int main(int argc, const char** argv) {
  std::string File;
  std::vector<std::string> Flags;
  int I = 1;
  for (; I < argc; ++I) {
    std::string A = argv[I];
    if (A == "--root") Roots.push_back(argv[++I]);
    else if (A == "--out") OutFile = argv[++I];
    else if (A == "--") { ++I; break; }
    else File = A;
  }
  for (; I < argc; ++I) Flags.push_back(argv[I]);
  tooling::FixedCompilationDatabase DB(".", Flags);
  tooling::ClangTool Tool(DB, {File});
  Factory F;
  return Tool.run(&F);
}
