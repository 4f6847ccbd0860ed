// Dumps the resolved program of one translation unit as JSON (see DESIGN.md, section 1).
// usage: eip-extract <source> <root> <out.json> -- <clang flags>
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
#include <sstream>

using namespace clang;

static std::string g_out;
static std::vector<std::string> g_roots;

static std::string esc(llvm::StringRef s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o + "\"";
}

class Dumper {
public:
  ASTContext &C; SourceManager &SM; PrintingPolicy PP;
  std::unique_ptr<MangleContext> MC;
  std::ostringstream O;
  std::map<std::string, int> TypeIdx; std::vector<std::string> TypeJson;
  std::map<std::string, int> FileIdx; std::vector<std::string> Files;
  std::map<const Decl*, std::string> FnIds;
  std::map<const Decl*, int> LocalIds; int NextLocal = 1;
  std::map<std::string, std::string> FnRefs;   // id -> json
  std::map<std::string, std::string> FnBodies; // id -> json
  std::map<std::string, std::string> Recs, Enums, Globals;
  std::vector<const FunctionDecl*> Pending; std::set<const FunctionDecl*> Seen;
  std::vector<const CXXRecordDecl*> PendingRecs; std::set<const CXXRecordDecl*> SeenRecs;
  std::set<const VarDecl*> SeenGlobals; std::vector<const VarDecl*> PendingGlobals;
  std::set<const EnumDecl*> SeenEnums;
  Sema *S = nullptr;

  Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()), MC(C.createMangleContext()) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true; PP.SuppressUnwrittenScope = false;
    PP.UsePreferredNames = false; PP.SuppressDefaultTemplateArgs = true;
  }

  std::string fileOf(SourceLocation L) {
    if (L.isInvalid()) return "";
    auto P = SM.getPresumedLoc(SM.getExpansionLoc(L));
    if (P.isInvalid()) return "";
    llvm::SmallString<256> R;
    if (auto FE = SM.getFileEntryRefForID(SM.getFileID(SM.getExpansionLoc(L)))) {
      return std::string(FE->getFileEntry().tryGetRealPathName());
    }
    return P.getFilename();
  }
  bool inRoot(SourceLocation L) {
    std::string F = fileOf(L);
    for (auto &R : g_roots) if (F.compare(0, R.size(), R) == 0) return true;
    return false;
  }
  int fileId(SourceLocation L) {
    std::string F = fileOf(L);
    auto it = FileIdx.find(F);
    if (it != FileIdx.end()) return it->second;
    int i = Files.size(); Files.push_back(F); FileIdx[F] = i; return i;
  }
  std::string loc(SourceLocation L) {
    if (L.isInvalid()) return "[-1,0]";
    auto E = SM.getExpansionLoc(L);
    return "[" + std::to_string(fileId(E)) + "," + std::to_string(SM.getSpellingLineNumber(E)) + "]";
  }
  unsigned line(SourceLocation L) { if (L.isInvalid()) return 0; return SM.getSpellingLineNumber(SM.getExpansionLoc(L)); }

  std::string recName(const RecordDecl *R) {
    if (auto *RD = dyn_cast<CXXRecordDecl>(R)) if (RD->isLambda()) {
      // unique per specialisation of the enclosing function: use location plus the pointer-free index
      static std::map<const Decl*, std::string> M; static std::map<std::string,int> N;
      auto it = M.find(RD->getCanonicalDecl());
      if (it != M.end()) return it->second;
      std::string base = "lambda@" + fileOf(RD->getLocation()) + ":" + std::to_string(line(RD->getLocation())) + ":" +
        std::to_string(SM.getSpellingColumnNumber(SM.getExpansionLoc(RD->getLocation())));
      int k = N[base]++;
      std::string n = base + "#" + std::to_string(k);
      M[RD->getCanonicalDecl()] = n; return n;
    }
    QualType T = C.getRecordType(R);
    return T.getCanonicalType().getAsString(PP);
  }

  int type(QualType Q) {
    if (Q.isNull()) return -1;
    QualType T = Q.getCanonicalType();
    bool cst = T.isConstQualified();
    std::string s = T.getAsString(PP);
    const RecordDecl *LR = nullptr;
    if (auto *RT = T->getAs<RecordType>()) { LR = RT->getDecl(); s = (cst ? "const " : "") + recName(LR); }
    if (auto *PT = T->getPointeeType().getTypePtrOrNull()) {
      if (auto *RT = PT->getAs<RecordType>()) if (auto *RD = dyn_cast<CXXRecordDecl>(RT->getDecl())) if (RD->isLambda())
        s = recName(RD) + (T->isReferenceType() ? " &" : " *");
    }
    auto it = TypeIdx.find(s);
    if (it != TypeIdx.end()) return it->second;
    int i = TypeJson.size(); TypeIdx[s] = i; TypeJson.push_back("");
    std::string j = "{\"s\":" + esc(s);
    if (cst) j += ",\"c\":1";
    const Type *P = T.getTypePtr();
    if (P->isBooleanType()) j += ",\"k\":\"bool\"";
    else if (P->isEnumeralType()) {
      auto *E = P->castAs<EnumType>()->getDecl(); enumDecl(E);
      QualType I = E->getIntegerType(); if (I.isNull()) I = C.IntTy;
      j += ",\"k\":\"enum\",\"w\":" + std::to_string(C.getIntWidth(I)) + ",\"sg\":" + (I->isSignedIntegerType() ? "1" : "0") + ",\"n\":" + esc(C.getTypeDeclType(E).getCanonicalType().getAsString(PP));
      if (E->isScoped()) j += ",\"sc\":1";
    }
    else if (P->isIntegerType()) j += ",\"k\":\"int\",\"w\":" + std::to_string(C.getIntWidth(T)) + ",\"sg\":" + (P->isSignedIntegerType() ? "1" : "0");
    else if (P->isRealFloatingType()) j += ",\"k\":\"float\",\"w\":" + std::to_string(C.getTypeSize(T));
    else if (P->isNullPtrType()) j += ",\"k\":\"nullptr\"";
    else if (P->isVoidType()) j += ",\"k\":\"void\"";
    else if (P->isLValueReferenceType()) { int t = type(P->getPointeeType()); j += ",\"k\":\"lref\",\"to\":" + std::to_string(t); }
    else if (P->isRValueReferenceType()) { int t = type(P->getPointeeType()); j += ",\"k\":\"rref\",\"to\":" + std::to_string(t); }
    else if (P->isPointerType()) { int t = type(P->getPointeeType()); j += ",\"k\":\"ptr\",\"to\":" + std::to_string(t); }
    else if (auto *A = C.getAsConstantArrayType(T)) { int t = type(A->getElementType()); j += ",\"k\":\"arr\",\"to\":" + std::to_string(t) + ",\"n\":" + std::to_string(A->getSize().getZExtValue()); }
    else if (LR) {
      j += ",\"k\":\"rec\",\"n\":" + esc(recName(LR));
      std::string qn = LR->getQualifiedNameAsString();
      j += ",\"q\":" + esc(qn);
      if (auto *CT = dyn_cast<ClassTemplateSpecializationDecl>(LR)) {
        j += ",\"ta\":["; bool f = true;
        std::function<void(const TemplateArgument&)> one = [&](const TemplateArgument &A) {
          if (A.getKind() == TemplateArgument::Pack) { for (auto &X : A.pack_elements()) one(X); return; }
          if (!f) j += ","; f = false;
          if (A.getKind() == TemplateArgument::Type) { j += "{\"t\":" + std::to_string(type(A.getAsType())) + "}"; }
          else if (A.getKind() == TemplateArgument::Integral) { llvm::SmallString<32> B; A.getAsIntegral().toString(B, 10); j += "{\"v\":" + std::string(B) + "}"; }
          else j += "{}";
        };
        for (auto &A : CT->getTemplateArgs().asArray()) one(A);
        j += "]";
      }
      if (auto *RD = dyn_cast<CXXRecordDecl>(LR)) { if (inRoot(RD->getLocation())) { j += ",\"own\":1"; wantRec(RD); }
        else wantSysRec(RD); }
      else if (!C.getLangOpts().CPlusPlus) {}
    }
    else if (P->isFunctionType()) { j += ",\"k\":\"func\""; if (auto *FP = P->getAs<FunctionProtoType>()) { int r = type(FP->getReturnType()); j += ",\"to\":" + std::to_string(r); j += ",\"ps\":["; bool f=true; for (auto A : FP->getParamTypes()) { if(!f) j += ","; f=false; j += std::to_string(type(A)); } j += "]"; } }
    else if (P->isMemberPointerType()) j += ",\"k\":\"mptr\"";
    else j += ",\"k\":\"other\"";
    if (!P->isIncompleteType() && !P->isFunctionType() && !P->isDependentType() && !P->isReferenceType() && !P->isVoidType())
      j += ",\"sz\":" + std::to_string(C.getTypeSizeInChars(T).getQuantity());
    j += "}";
    TypeJson[i] = j;
    return i;
  }

  std::set<const CXXRecordDecl*> SysRecs;
  void wantSysRec(const CXXRecordDecl *RD) {
    // plain C structs (sockaddr_in, timeval, fd_set ...) are modelled field by field
    if (!RD->hasDefinition()) return; RD = RD->getDefinition();
    if (isa<ClassTemplateSpecializationDecl>(RD)) return;
    if (RD->isInStdNamespace()) return;
    if (!RD->isAggregate() || RD->getNumBases()) return;
    if (!SysRecs.insert(RD).second) return;
    wantRec(RD);
  }
  void wantRec(const CXXRecordDecl *RD) {
    if (!RD->hasDefinition()) return;
    RD = RD->getDefinition();
    if (RD->isDependentType()) return;
    if (SeenRecs.insert(RD).second) PendingRecs.push_back(RD);
  }
  void enumDecl(const EnumDecl *E) {
    E = E->getDefinition() ? E->getDefinition() : E;
    if (!SeenEnums.insert(E).second) return;
    std::string n = C.getTypeDeclType(E).getCanonicalType().getAsString(PP);
    std::string j = "{";
    bool f = true;
    for (auto *K : E->enumerators()) {
      if (!f) j += ","; f = false;
      llvm::SmallString<32> B; K->getInitVal().toString(B, 10);
      j += esc(K->getName()) + ":" + std::string(B);
    }
    j += "}";
    if (inRoot(E->getLocation())) Enums[n] = j;
  }

  std::string fnId(const FunctionDecl *F) {
    F = F->getCanonicalDecl();
    auto it = FnIds.find(F);
    if (it != FnIds.end()) return it->second;
    std::string s;
    const CXXMethodDecl *M = dyn_cast<CXXMethodDecl>(F);
    if (M && M->getParent()->isLambda()) {
      s = recName(M->getParent()) + "::" + F->getNameAsString() + "(";
      for (auto *P : F->parameters()) s += P->getType().getCanonicalType().getAsString(PP) + ",";
      s += ")";
      if (M->isConst()) s += "c";
      std::string t; // lambda in parameter type: make unique
    } else if (F->isExternC() || (F->getIdentifier() && !C.getLangOpts().CPlusPlus)) {
      s = F->getNameAsString();
    } else {
      llvm::raw_string_ostream OS(s);
      if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) MC->mangleName(GlobalDecl(CD, Ctor_Complete), OS);
      else if (auto *DD = dyn_cast<CXXDestructorDecl>(F)) MC->mangleName(GlobalDecl(DD, Dtor_Complete), OS);
      else if (MC->shouldMangleDeclName(F)) MC->mangleName(GlobalDecl(F), OS);
      else OS << F->getNameAsString();
      OS.flush();
      if (!F->isExternallyVisible()) s += "@" + fileOf(F->getLocation());
    }
    FnIds[F] = s;
    FnRefs[s] = "";   // reserve (recursion)
    FnRefs[s] = fnRef(F);
    want(F);
    return s;
  }
  std::string qname(const NamedDecl *D) {
    std::string s; llvm::raw_string_ostream OS(s);
    // qualified name without template arguments and without inline namespaces
    PrintingPolicy P2(C.getLangOpts()); P2.SuppressUnwrittenScope = true; P2.SuppressInlineNamespace = true;
    D->printQualifiedName(OS, P2); OS.flush();
    // strip template args
    std::string r; int d = 0;
    bool op = false;
    for (size_t i = 0; i < s.size(); ++i) {
      if (s.compare(i, 8, "operator") == 0) { r += s.substr(i); op = true; break; }
      if (s[i] == '<') d++; else if (s[i] == '>') d--; else if (!d) r += s[i];
    }
    (void)op;
    return r;
  }
  std::string fnRef(const FunctionDecl *F) {
    std::string j = "{\"q\":" + esc(qname(F)) + ",\"n\":" + esc(F->getNameAsString());
    j += ",\"r\":" + std::to_string(type(F->getReturnType()));
    j += ",\"ps\":["; bool f = true;
    for (auto *P : F->parameters()) { if (!f) j += ","; f = false; j += std::to_string(type(P->getType())); }
    j += "]";
    if (F->isVariadic()) j += ",\"var\":1";
    if (auto *FP = F->getType()->getAs<FunctionProtoType>()) { if (FP->getExceptionSpecType() != EST_Unevaluated && FP->getExceptionSpecType() != EST_Uninstantiated && FP->isNothrow()) j += ",\"ne\":1"; }
    if (F->isNoReturn()) j += ",\"nr\":1";
    if (F->isDeleted()) j += ",\"del\":1";
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      j += ",\"rec\":" + std::to_string(type(C.getRecordType(M->getParent())));
      if (M->isVirtual()) j += ",\"virt\":1";
      if (M->isPureVirtual()) j += ",\"pure\":1";
      if (M->isStatic()) j += ",\"st\":1";
      if (M->isConst()) j += ",\"cm\":1";
      if (isa<CXXConstructorDecl>(M)) { auto *CD = cast<CXXConstructorDecl>(M); j += ",\"ct\":" + std::string(CD->isCopyConstructor() ? "\"copy\"" : CD->isMoveConstructor() ? "\"move\"" : CD->isDefaultConstructor() ? "\"default\"" : "\"other\""); }
      if (isa<CXXDestructorDecl>(M)) j += ",\"dt\":1";
      if (M->isCopyAssignmentOperator()) j += ",\"as\":\"copy\"";
      if (M->isMoveAssignmentOperator()) j += ",\"as\":\"move\"";
      if (isa<CXXConversionDecl>(M)) j += ",\"cv\":1";
      if (M->getParent()->isLambda()) j += ",\"lam\":1";
      if (M->size_overridden_methods()) {
        j += ",\"ov\":["; bool f2 = true;
        for (auto *B : M->overridden_methods()) { if (!f2) j += ","; f2 = false; j += esc(fnId(B)); }
        j += "]";
      }
      if (M->isDefaulted()) j += ",\"dfl\":1";
      if (M->isImplicit()) j += ",\"impl\":1";
    }
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      j += ",\"ta\":["; bool f3 = true;
      std::function<void(const TemplateArgument&)> one = [&](const TemplateArgument &A) {
        if (A.getKind() == TemplateArgument::Pack) { for (auto &X : A.pack_elements()) one(X); return; }
        if (!f3) j += ","; f3 = false;
        if (A.getKind() == TemplateArgument::Type) j += "{\"t\":" + std::to_string(type(A.getAsType())) + "}";
        else if (A.getKind() == TemplateArgument::Integral) { llvm::SmallString<32> B; A.getAsIntegral().toString(B, 10); j += "{\"v\":" + std::string(B) + "}"; }
        else j += "{}";
      };
      for (auto &A : TA->asArray()) one(A);
      j += "]";
    }
    if (inRoot(F->getLocation())) j += ",\"own\":1";
    j += ",\"l\":" + loc(F->getLocation());
    j += "}";
    return j;
  }
  void want(const FunctionDecl *F) {
    const FunctionDecl *D = nullptr;
    if (!F->hasBody(D)) return;
    if (D->isDependentContext()) return;
    if (!inRoot(D->getLocation())) return;
    if (D->isDefaulted() && !D->doesThisDeclarationHaveABody()) return;
    if (Seen.insert(D).second) Pending.push_back(D);
  }

  int local(const ValueDecl *D) {
    D = cast<ValueDecl>(D->getCanonicalDecl());
    auto it = LocalIds.find(D);
    if (it != LocalIds.end()) return it->second;
    return LocalIds[D] = NextLocal++;
  }
  std::string globalId(const VarDecl *V) {
    V = V->getCanonicalDecl();
    std::string s; llvm::raw_string_ostream OS(s);
    if (V->isStaticLocal()) {
      auto *F = dyn_cast<FunctionDecl>(V->getDeclContext());
      OS << "local:" << (F ? fnId(F) : std::string("?")) << ":" << V->getNameAsString() << ":" << line(V->getLocation());
    } else if (MC->shouldMangleDeclName(V)) MC->mangleName(GlobalDecl(V), OS); else OS << V->getNameAsString();
    OS.flush();
    if (!V->isExternallyVisible() && !V->isStaticLocal()) s += "@" + fileOf(V->getLocation());
    const VarDecl *Def = V->getDefinition() ? V->getDefinition() : V;
    if (inRoot(V->getLocation()) && SeenGlobals.insert(V).second) PendingGlobals.push_back(Def);
    return s;
  }

  // ---- statements and expressions
  std::string arr(std::vector<std::string> v) { std::string j = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) j += ","; j += v[i]; } return j + "]"; }

  std::string varDecl(const VarDecl *V) {
    std::string j = "{\"n\":" + esc(V->getName()) + ",\"t\":" + std::to_string(type(V->getType()));
    if (V->isStaticLocal()) j += ",\"g\":" + esc(globalId(V));
    else j += ",\"d\":" + std::to_string(local(V));
    j += ",\"l\":" + std::to_string(line(V->getLocation()));
    if (V->isStaticLocal()) j += ",\"static\":1";
    if (V->hasInit()) { j += ",\"i\":" + expr(V->getInit()); j += ",\"is\":" + std::to_string((int)V->getInitStyle()); }
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      j += ",\"bind\":["; bool f = true;
      for (auto *B : DD->bindings()) {
        if (!f) j += ","; f = false;
        j += "{\"n\":" + esc(B->getName()) + ",\"d\":" + std::to_string(local(B));
        if (auto *HV = B->getHoldingVar()) j += ",\"hv\":" + varDecl(HV);
        else if (B->getBinding()) j += ",\"e\":" + expr(B->getBinding());
        j += "}";
      }
      j += "]";
    }
    return j + "}";
  }

  std::string stmt(const Stmt *S) {
    if (!S) return "null";
    if (auto *E = dyn_cast<Expr>(S)) return "{\"k\":\"expr\",\"l\":" + std::to_string(line(E->getBeginLoc())) + ",\"e\":" + expr(E) + "}";
    std::string h = ",\"l\":" + std::to_string(line(S->getBeginLoc()));
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      std::vector<std::string> v; for (auto *B : X->body()) v.push_back(stmt(B));
      return "{\"k\":\"block\"" + h + ",\"b\":" + arr(v) + ",\"end\":" + std::to_string(line(X->getEndLoc())) + "}";
    }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      std::vector<std::string> v;
      for (auto *D : X->decls()) { if (auto *V = dyn_cast<VarDecl>(D)) v.push_back(varDecl(V)); }
      return "{\"k\":\"decl\"" + h + ",\"v\":" + arr(v) + "}";
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      std::string j = "{\"k\":\"if\"" + h;
      if (X->getInit()) j += ",\"init\":" + stmt(X->getInit());
      if (X->getConditionVariable()) j += ",\"cv\":" + varDecl(X->getConditionVariable());
      if (X->isConstexpr()) {
        if (auto ND = X->getNondiscardedCase(C)) { if (*ND) return stmt(*ND); return "{\"k\":\"null\"" + h + "}"; }
      }
      j += ",\"c\":" + expr(X->getCond()) + ",\"a\":" + stmt(X->getThen()) + ",\"e\":" + stmt(X->getElse()) + "}";
      return j;
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) {
      std::string j = "{\"k\":\"while\"" + h; if (X->getConditionVariable()) j += ",\"cv\":" + varDecl(X->getConditionVariable());
      return j + ",\"c\":" + expr(X->getCond()) + ",\"b\":" + stmt(X->getBody()) + "}";
    }
    if (auto *X = dyn_cast<DoStmt>(S)) return "{\"k\":\"do\"" + h + ",\"c\":" + expr(X->getCond()) + ",\"b\":" + stmt(X->getBody()) + "}";
    if (auto *X = dyn_cast<ForStmt>(S)) {
      std::string j = "{\"k\":\"for\"" + h + ",\"init\":" + stmt(X->getInit());
      if (X->getConditionVariable()) j += ",\"cv\":" + varDecl(X->getConditionVariable());
      j += ",\"c\":" + (X->getCond() ? expr(X->getCond()) : std::string("null")) + ",\"s\":" + (X->getInc() ? expr(X->getInc()) : std::string("null")) + ",\"b\":" + stmt(X->getBody()) + "}";
      return j;
    }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      std::string j = "{\"k\":\"rfor\"" + h;
      if (X->getInit()) j += ",\"init\":" + stmt(X->getInit());
      j += ",\"v\":" + varDecl(X->getLoopVariable()) + ",\"r\":" + expr(X->getRangeInit()) + ",\"b\":" + stmt(X->getBody());
      // the implicit range variables
      if (auto *R = dyn_cast_or_null<DeclStmt>(X->getRangeStmt())) j += ",\"rt\":" + std::to_string(type(cast<VarDecl>(R->getSingleDecl())->getType()));
      return j + "}";
    }
    if (auto *X = dyn_cast<ReturnStmt>(S)) return "{\"k\":\"return\"" + h + ",\"e\":" + (X->getRetValue() ? expr(X->getRetValue()) : std::string("null")) + "}";
    if (isa<BreakStmt>(S)) return "{\"k\":\"break\"" + h + "}";
    if (isa<ContinueStmt>(S)) return "{\"k\":\"continue\"" + h + "}";
    if (isa<NullStmt>(S)) return "{\"k\":\"null\"" + h + "}";
    if (auto *X = dyn_cast<SwitchStmt>(S)) {
      std::string j = "{\"k\":\"switch\"" + h; if (X->getInit()) j += ",\"init\":" + stmt(X->getInit());
      if (X->getConditionVariable()) j += ",\"cv\":" + varDecl(X->getConditionVariable());
      return j + ",\"c\":" + expr(X->getCond()) + ",\"b\":" + stmt(X->getBody()) + "}";
    }
    if (auto *X = dyn_cast<CaseStmt>(S)) {
      std::string j = "{\"k\":\"case\"" + h + ",\"v\":" + expr(X->getLHS());
      if (X->getRHS()) j += ",\"v2\":" + expr(X->getRHS());
      return j + ",\"b\":" + stmt(X->getSubStmt()) + "}";
    }
    if (auto *X = dyn_cast<DefaultStmt>(S)) return "{\"k\":\"default\"" + h + ",\"b\":" + stmt(X->getSubStmt()) + "}";
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      std::string j = "{\"k\":\"try\"" + h + ",\"b\":" + stmt(X->getTryBlock()) + ",\"h\":[";
      for (unsigned i = 0; i < X->getNumHandlers(); ++i) {
        auto *H = X->getHandler(i); if (i) j += ",";
        j += "{\"l\":" + std::to_string(line(H->getBeginLoc())) + ",\"v\":" + (H->getExceptionDecl() ? varDecl(H->getExceptionDecl()) : std::string("null")) + ",\"t\":" + (H->getExceptionDecl() ? std::to_string(type(H->getCaughtType())) : std::string("-1")) + ",\"b\":" + stmt(H->getHandlerBlock()) + "}";
      }
      return j + "]}";
    }
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<LabelStmt>(S)) return "{\"k\":\"label\"" + h + ",\"n\":" + esc(X->getName()) + ",\"b\":" + stmt(X->getSubStmt()) + "}";
    if (auto *X = dyn_cast<GotoStmt>(S)) return "{\"k\":\"goto\"" + h + ",\"n\":" + esc(X->getLabel()->getName()) + "}";
    return "{\"k\":\"unknown\"" + h + ",\"w\":" + esc(S->getStmtClassName()) + "}";
  }

  std::string args(llvm::ArrayRef<const Expr*> A) { std::vector<std::string> v; for (auto *E : A) v.push_back(expr(E)); return arr(v); }

  std::string expr(const Expr *E) {
    if (!E) return "null";
    // transparent wrappers
    while (true) {
      if (auto *P = dyn_cast<ParenExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = P->getReplacement(); continue; }
      if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<GenericSelectionExpr>(E)) { E = P->getResultExpr(); continue; }
      if (auto *P = dyn_cast<CXXRewrittenBinaryOperator>(E)) { E = P->getSemanticForm(); continue; }
      if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) { E = P->getExpr(); continue; }
      if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) { E = P->getExpr(); continue; }
      if (auto *P = dyn_cast<UnaryOperator>(E)) if (P->getOpcode() == UO_Extension) { E = P->getSubExpr(); continue; }
      break;
    }
    QualType T = E->getType();
    std::string h = ",\"l\":" + std::to_string(line(E->getExprLoc())) + ",\"t\":" + std::to_string(type(T));
    if (E->isGLValue()) h += ",\"lv\":1";
    // constant folding
    if (!E->isValueDependent() && !E->isGLValue() && (T->isIntegralOrEnumerationType()) && !isa<InitListExpr>(E)) {
      Expr::EvalResult R;
      if (E->EvaluateAsRValue(R, C) && !R.HasSideEffects && R.Val.isInt()) {
        llvm::SmallString<32> B; R.Val.getInt().toString(B, 10);
        return "{\"k\":\"const\"" + h + ",\"v\":" + std::string(B) + "}";
      }
    }
    if (auto *X = dyn_cast<ConstantExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<FloatingLiteral>(E)) { char b[64]; snprintf(b, sizeof b, "%.17g", X->getValueAsApproximateDouble()); std::string s = b; if (s.find_first_of(".en") == std::string::npos) s += ".0"; return "{\"k\":\"flit\"" + h + ",\"v\":" + s + "}"; }
    if (auto *X = dyn_cast<StringLiteral>(E)) return "{\"k\":\"str\"" + h + ",\"v\":" + (X->getCharByteWidth() == 1 ? esc(X->getString()) : std::string("\"\"")) + "}";
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return "{\"k\":\"nullptr\"" + h + "}";
    if (auto *X = dyn_cast<ExprWithCleanups>(E)) return "{\"k\":\"full\"" + h + ",\"e\":" + expr(X->getSubExpr()) + "}";
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) return "{\"k\":\"mat\"" + h + ",\"ext\":" + (X->getExtendingDecl() ? "1" : "0") + ",\"e\":" + expr(X->getSubExpr()) + "}";
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      auto *D = X->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) return "{\"k\":\"fref\"" + h + ",\"f\":" + esc(fnId(F)) + "}";
      if (auto *K = dyn_cast<EnumConstantDecl>(D)) { llvm::SmallString<32> B; K->getInitVal().toString(B, 10); return "{\"k\":\"const\"" + h + ",\"v\":" + std::string(B) + "}"; }
      if (auto *V = dyn_cast<VarDecl>(D)) {
        if (V->hasGlobalStorage()) {
          std::string g = globalId(V);
          std::string j = "{\"k\":\"gref\"" + h + ",\"g\":" + esc(g) + ",\"n\":" + esc(qname(V));
          return j + "}";
        }
        return "{\"k\":\"ref\"" + h + ",\"d\":" + std::to_string(local(V)) + ",\"n\":" + esc(V->getName()) + (X->refersToEnclosingVariableOrCapture() ? ",\"cap\":1" : "") + "}";
      }
      if (auto *B = dyn_cast<BindingDecl>(D)) return "{\"k\":\"ref\"" + h + ",\"d\":" + std::to_string(local(B)) + ",\"n\":" + esc(B->getName()) + ",\"bd\":1" + (X->refersToEnclosingVariableOrCapture() ? ",\"cap\":1" : "") + "}";
      return "{\"k\":\"unknown\"" + h + ",\"w\":\"declref\"}";
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      auto *D = X->getMemberDecl();
      if (auto *F = dyn_cast<FieldDecl>(D)) {
        std::string j = "{\"k\":\"mem\"" + h + ",\"f\":" + esc(fieldName(F)) + ",\"p\":" + esc(recName(F->getParent())) + ",\"b\":" + expr(X->getBase());
        if (X->isArrow()) j += ",\"arrow\":1";
        return j + "}";
      }
      if (auto *V = dyn_cast<VarDecl>(D)) return "{\"k\":\"gref\"" + h + ",\"g\":" + esc(globalId(V)) + ",\"n\":" + esc(qname(V)) + "}";
      if (auto *K = dyn_cast<EnumConstantDecl>(D)) { llvm::SmallString<32> B; K->getInitVal().toString(B, 10); return "{\"k\":\"const\"" + h + ",\"v\":" + std::string(B) + "}"; }
      if (auto *M = dyn_cast<CXXMethodDecl>(D)) return "{\"k\":\"mref\"" + h + ",\"f\":" + esc(fnId(M)) + ",\"b\":" + expr(X->getBase()) + (X->isArrow() ? ",\"arrow\":1" : "") + "}";
      return "{\"k\":\"unknown\"" + h + ",\"w\":\"member\"}";
    }
    if (isa<CXXThisExpr>(E)) return "{\"k\":\"this\"" + h + "}";
    if (auto *X = dyn_cast<CastExpr>(E)) {
      std::string j = "{\"k\":\"cast\"" + h + ",\"ck\":" + esc(X->getCastKindName());
      if (isa<ImplicitCastExpr>(X)) j += ",\"im\":1";
      if (isa<CXXReinterpretCastExpr>(X)) j += ",\"re\":1";
      if (isa<CXXDynamicCastExpr>(X)) j += ",\"dyn\":1";
      if (X->getCastKind() == CK_DerivedToBase || X->getCastKind() == CK_UncheckedDerivedToBase || X->getCastKind() == CK_BaseToDerived) {}
      if (auto *CF = X->getConversionFunction()) j += ",\"f\":" + esc(fnId(cast<FunctionDecl>(CF)));
      return j + ",\"e\":" + expr(X->getSubExpr()) + "}";
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      std::string j = "{\"k\":\"ocall\"" + h + ",\"op\":" + esc(getOperatorSpelling(X->getOperator()));
      if (auto *F = X->getDirectCallee()) j += ",\"f\":" + esc(fnId(F)); else j += ",\"fe\":" + expr(X->getCallee());
      std::vector<const Expr*> A(X->arg_begin(), X->arg_end());
      return j + ",\"a\":" + args(A) + "}";
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      std::string j = "{\"k\":\"mcall\"" + h;
      auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens());
      if (!ME || !X->getMethodDecl()) return "{\"k\":\"unknown\"" + h + ",\"w\":\"memptr call\"}";
      j += ",\"f\":" + esc(fnId(X->getMethodDecl())) + ",\"b\":" + expr(ME->getBase());
      if (ME->isArrow()) j += ",\"arrow\":1";
      if (X->getMethodDecl()->isVirtual() && !ME->hasQualifier()) j += ",\"virt\":1";
      std::vector<const Expr*> A(X->arg_begin(), X->arg_end());
      return j + ",\"a\":" + args(A) + "}";
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      std::string j = "{\"k\":\"call\"" + h;
      if (auto *PD = dyn_cast<CXXPseudoDestructorExpr>(X->getCallee()->IgnoreParens())) return "{\"k\":\"nop\"" + h + "}";
      if (auto *F = X->getDirectCallee()) j += ",\"f\":" + esc(fnId(F)); else j += ",\"fe\":" + expr(X->getCallee());
      std::vector<const Expr*> A(X->arg_begin(), X->arg_end());
      return j + ",\"a\":" + args(A) + "}";
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      std::string j = "{\"k\":\"ctor\"" + h + ",\"f\":" + esc(fnId(X->getConstructor()));
      if (X->isElidable()) j += ",\"el\":1";
      if (X->requiresZeroInitialization()) j += ",\"z\":1";
      if (X->isListInitialization()) j += ",\"li\":1";
      if (X->isStdInitListInitialization()) j += ",\"sil\":1";
      std::vector<const Expr*> A(X->arg_begin(), X->arg_end());
      return j + ",\"a\":" + args(A) + "}";
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) return "{\"k\":\"unknown\"" + h + ",\"w\":\"inherited ctor\"}";
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      if (X->isSyntacticForm() && X->getSemanticForm()) X = X->getSemanticForm();
      if (X->isTransparent() && X->getNumInits() == 1) return expr(X->getInit(0));
      std::string j = "{\"k\":\"init\"" + h;
      std::vector<std::string> v; for (auto *I : X->inits()) v.push_back(expr(I));
      if (X->hasArrayFiller()) j += ",\"fill\":" + expr(X->getArrayFiller());
      if (auto *FD = X->getInitializedFieldInUnion()) j += ",\"uf\":" + esc(fieldName(FD));
      return j + ",\"a\":" + arr(v) + "}";
    }
    if (auto *X = dyn_cast<CXXParenListInitExpr>(E)) { std::vector<std::string> v; for (auto *I : X->getInitExprs()) v.push_back(expr(I)); return "{\"k\":\"init\"" + h + ",\"a\":" + arr(v) + "}"; }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) return "{\"k\":\"zero\"" + h + "}";
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) return "{\"k\":\"stdinit\"" + h + ",\"e\":" + expr(X->getSubExpr()) + "}";
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      auto *R = X->getLambdaClass(); wantRec(R);
      std::string j = "{\"k\":\"lambda\"" + h + ",\"rec\":" + esc(recName(R)) + ",\"caps\":[";
      bool f = true; auto It = X->capture_init_begin();
      for (auto &Cp : X->captures()) {
        if (!f) j += ","; f = false;
        if (Cp.capturesThis()) j += std::string("{\"this\":1,\"star\":") + (Cp.getCaptureKind() == LCK_StarThis ? "1" : "0") + ",\"i\":" + expr(*It) + "}";
        else if (Cp.capturesVariable()) {
          auto *V = Cp.getCapturedVar();
          j += "{\"n\":" + esc(V->getName()) + ",\"d\":" + std::to_string(local(V)) + ",\"ref\":" + (Cp.getCaptureKind() == LCK_ByRef ? "1" : "0") + ",\"t\":" + std::to_string(type(V->getType())) + ",\"i\":" + expr(*It) + "}";
        } else j += "{}";
        ++It;
      }
      j += "],\"ops\":[";
      f = true;
      for (auto *F : lambdaOps(R)) { if (!f) j += ","; f = false; j += esc(fnId(F)); }
      return j + "]}";
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      std::string j = "{\"k\":\"un\"" + h + ",\"op\":" + esc(UnaryOperator::getOpcodeStr(X->getOpcode()));
      if (X->isPostfix()) j += ",\"post\":1";
      return j + ",\"e\":" + expr(X->getSubExpr()) + "}";
    }
    if (auto *X = dyn_cast<CompoundAssignOperator>(E)) return "{\"k\":\"cassign\"" + h + ",\"op\":" + esc(BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(X->getOpcode()))) + ",\"ct\":" + std::to_string(type(X->getComputationResultType())) + ",\"clt\":" + std::to_string(type(X->getComputationLHSType())) + ",\"a\":" + expr(X->getLHS()) + ",\"b\":" + expr(X->getRHS()) + "}";
    if (auto *X = dyn_cast<BinaryOperator>(E)) return "{\"k\":\"bin\"" + h + ",\"op\":" + esc(X->getOpcodeStr()) + ",\"a\":" + expr(X->getLHS()) + ",\"b\":" + expr(X->getRHS()) + "}";
    if (auto *X = dyn_cast<ConditionalOperator>(E)) return "{\"k\":\"cond\"" + h + ",\"c\":" + expr(X->getCond()) + ",\"a\":" + expr(X->getTrueExpr()) + ",\"b\":" + expr(X->getFalseExpr()) + "}";
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) return "{\"k\":\"idx\"" + h + ",\"a\":" + expr(X->getBase()) + ",\"b\":" + expr(X->getIdx()) + "}";
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) return "{\"k\":\"throw\"" + h + ",\"e\":" + (X->getSubExpr() ? expr(X->getSubExpr()) : std::string("null")) + "}";
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      std::string j = "{\"k\":\"new\"" + h + ",\"at\":" + std::to_string(type(X->getAllocatedType()));
      if (X->isArray() && X->getArraySize()) j += ",\"n\":" + expr(*X->getArraySize());
      if (X->getInitializer()) j += ",\"i\":" + expr(X->getInitializer());
      return j + "}";
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) return "{\"k\":\"delete\"" + h + ",\"e\":" + expr(X->getArgument()) + "}";
    if (auto *X = dyn_cast<CXXTypeidExpr>(E)) return "{\"k\":\"unknown\"" + h + ",\"w\":\"typeid\"}";
    if (auto *X = dyn_cast<StmtExpr>(E)) return "{\"k\":\"stmtexpr\"" + h + ",\"b\":" + stmt(X->getSubStmt()) + "}";
    if (auto *X = dyn_cast<ArrayInitLoopExpr>(E)) return "{\"k\":\"arrcopy\"" + h + ",\"e\":" + expr(X->getCommonExpr()->getSourceExpr()) + "}";
    if (auto *X = dyn_cast<OpaqueValueExpr>(E)) return X->getSourceExpr() ? expr(X->getSourceExpr()) : "{\"k\":\"unknown\"" + h + ",\"w\":\"opaque\"}";
    if (isa<SourceLocExpr>(E)) return "{\"k\":\"str\"" + h + ",\"v\":\"?\"}";
    if (auto *X = dyn_cast<PredefinedExpr>(E)) return "{\"k\":\"str\"" + h + ",\"v\":\"" "\"}";
    if (auto *X = dyn_cast<CompoundLiteralExpr>(E)) return "{\"k\":\"complit\"" + h + ",\"e\":" + expr(X->getInitializer()) + "}";
    return "{\"k\":\"unknown\"" + h + ",\"w\":" + esc(E->getStmtClassName()) + "}";
  }

  std::vector<const CXXMethodDecl*> lambdaOps(const CXXRecordDecl *R) {
    std::vector<const CXXMethodDecl*> v;
    if (auto *T = R->getDependentLambdaCallOperator()) { for (auto *F : T->specializations()) if (auto *M = dyn_cast<CXXMethodDecl>(F)) v.push_back(M); }
    else if (auto *M = R->getLambdaCallOperator()) v.push_back(M);
    return v;
  }
  std::string fieldName(const FieldDecl *F) {
    if (F->getName().empty()) return "#" + std::to_string(F->getFieldIndex());
    return F->getName().str();
  }

  void dumpFn(const FunctionDecl *D) {
    std::string id = fnId(D);
    if (FnBodies.count(id)) return;
    std::string j = "{\"q\":" + esc(qname(D)) + ",\"l\":" + loc(D->getLocation()) + ",\"end\":" + std::to_string(line(D->getEndLoc()));
    j += ",\"params\":["; bool f = true;
    for (auto *P : D->parameters()) {
      if (!f) j += ","; f = false;
      j += "{\"n\":" + esc(P->getName()) + ",\"d\":" + std::to_string(local(P)) + ",\"t\":" + std::to_string(type(P->getType()));
      if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg()) j += ",\"di\":" + expr(P->getDefaultArg());
      j += "}";
    }
    j += "]";
    if (auto *CD = dyn_cast<CXXConstructorDecl>(D)) {
      j += ",\"inits\":["; f = true;
      for (auto *I : CD->inits()) {
        if (!f) j += ","; f = false;
        j += "{\"l\":" + std::to_string(line(I->getSourceLocation()));
        if (I->isWritten()) j += ",\"w\":1";
        if (I->isAnyMemberInitializer()) j += ",\"m\":" + esc(fieldName(I->getAnyMember()));
        else if (I->isDelegatingInitializer()) j += ",\"dg\":1";
        else if (I->isBaseInitializer()) j += ",\"b\":" + std::to_string(type(QualType(I->getBaseClass(), 0)));
        j += ",\"i\":" + expr(I->getInit()) + "}";
      }
      j += "]";
    }
    if (D->isDefaulted()) j += ",\"dfl\":1";
    FnBodies[id] = ""; // recursion guard
    j += ",\"body\":" + stmt(D->getBody()) + "}";
    FnBodies[id] = j;
  }

  void dumpRec(const CXXRecordDecl *R) {
    std::string n = recName(R);
    if (Recs.count(n)) return;
    std::string j = "{\"l\":" + loc(R->getLocation());
    j += ",\"q\":" + esc(qname(R));
    if (R->isUnion()) j += ",\"union\":1";
    if (R->isPolymorphic()) j += ",\"poly\":1";
    if (R->isAbstract()) j += ",\"abs\":1";
    if (R->isLambda()) j += ",\"lambda\":1";
    if (R->isAggregate()) j += ",\"agg\":1";
    if (inRoot(R->getLocation())) j += ",\"own\":1";
    j += ",\"bases\":["; bool f = true;
    for (auto &B : R->bases()) { if (!f) j += ","; f = false; j += std::to_string(type(B.getType())); }
    j += "],\"fields\":["; f = true;
    for (auto *F : R->fields()) {
      if (!f) j += ","; f = false;
      j += "{\"n\":" + esc(fieldName(F)) + ",\"t\":" + std::to_string(type(F->getType()));
      if (F->hasInClassInitializer() && F->getInClassInitializer()) j += ",\"i\":" + expr(F->getInClassInitializer());
      if (F->isMutable()) j += ",\"mut\":1";
      j += "}";
    }
    j += "],\"meth\":["; f = true;
    bool cc = false;
    for (auto *M : R->methods()) {
      if (M->isInvalidDecl()) continue;
      if (!f) j += ","; f = false;
      j += "{\"f\":" + esc(fnId(M)) + ",\"acc\":" + std::to_string((int)M->getAccess()) + "}";
    }
    j += "]";
    // copyability
    auto st = [&](bool has, bool del) { return !has ? "\"none\"" : del ? "\"deleted\"" : "\"yes\""; };
    bool ccDel = false, ccHas = false, caDel = false, caHas = false;
    for (auto *K : R->ctors()) if (K->isCopyConstructor()) { ccHas = true; ccDel = K->isDeleted(); }
    for (auto *M : R->methods()) if (M->isCopyAssignmentOperator()) { caHas = true; caDel = M->isDeleted(); }
    bool copyable = ccHas ? !ccDel : (R->needsImplicitCopyConstructor() ? !R->defaultedCopyConstructorIsDeleted() && !R->needsOverloadResolutionForCopyConstructor() : false);
    j += ",\"cc\":" + std::string(st(ccHas, ccDel)) + ",\"ca\":" + st(caHas, caDel);
    j += ",\"ncc\":" + std::string(R->needsImplicitCopyConstructor() ? "1" : "0");
    j += ",\"dccd\":" + std::string(R->defaultedCopyConstructorIsDeleted() ? "1" : "0");
    j += ",\"umc\":" + std::string(R->hasUserDeclaredMoveConstructor() || R->hasUserDeclaredMoveAssignment() ? "1" : "0");
    (void)cc; (void)copyable;
    if (auto *D = R->getDestructor()) j += ",\"dtor\":" + esc(fnId(D)) + ",\"udt\":" + (R->hasUserDeclaredDestructor() ? "1" : "0");
    j += ",\"trivdt\":" + std::string(R->hasTrivialDestructor() ? "1" : "0");
    j += "}";
    Recs[n] = j;
  }
  void dumpGlobal(const VarDecl *V) {
    std::string id = globalId(V);
    if (Globals.count(id) && Globals[id].find("\"i\":") != std::string::npos) return;
    std::string j = "{\"n\":" + esc(qname(V)) + ",\"t\":" + std::to_string(type(V->getType())) + ",\"l\":" + loc(V->getLocation());
    const VarDecl *ID = nullptr;
    if (auto *I = V->getAnyInitializer(ID)) { if (!I->isValueDependent()) j += ",\"i\":" + expr(I); }
    if (V->isStaticLocal()) j += ",\"sl\":1";
    if (V->getType().isConstQualified()) j += ",\"c\":1";
    Globals[id] = j + "}";
  }

  void run() {
    struct Vis : RecursiveASTVisitor<Vis> {
      Dumper &D; Vis(Dumper &D) : D(D) {}
      bool shouldVisitTemplateInstantiations() const { return true; }
      bool shouldVisitImplicitCode() const { return true; }
      bool VisitFunctionDecl(FunctionDecl *F) {
        if (!F->isDependentContext() && D.inRoot(F->getLocation()) && F->doesThisDeclarationHaveABody()) D.fnId(F);
        return true;
      }
      bool VisitCXXRecordDecl(CXXRecordDecl *R) {
        if (R->isThisDeclarationADefinition() && !R->isDependentType() && D.inRoot(R->getLocation())) D.wantRec(R);
        return true;
      }
      bool VisitEnumDecl(EnumDecl *E) { if (E->isThisDeclarationADefinition() && !E->isDependentContext() && D.inRoot(E->getLocation())) D.enumDecl(E); return true; }
      bool VisitVarDecl(VarDecl *V) {
        if (V->hasGlobalStorage() && !V->isInvalidDecl() && D.inRoot(V->getLocation()) && !V->getDeclContext()->isDependentContext() && !V->getType()->isDependentType() && !isa<DecompositionDecl>(V) && !V->getDescribedVarTemplate()) D.globalId(V);
        return true;
      }
    } V(*this);
    V.TraverseDecl(C.getTranslationUnitDecl());
    while (!Pending.empty() || !PendingRecs.empty() || !PendingGlobals.empty()) {
      if (!Pending.empty()) { auto *F = Pending.back(); Pending.pop_back(); dumpFn(F); continue; }
      if (!PendingRecs.empty()) { auto *R = PendingRecs.back(); PendingRecs.pop_back(); dumpRec(R); continue; }
      auto *G = PendingGlobals.back(); PendingGlobals.pop_back(); dumpGlobal(G);
    }
    std::ofstream o(g_out);
    auto mapj = [&](std::map<std::string, std::string> &M) { std::string s = "{"; bool f = true; for (auto &k : M) { if (k.second.empty()) continue; if (!f) s += ",\n"; f = false; s += esc(k.first) + ":" + k.second; } return s + "}"; };
    o << "{\"files\":["; for (size_t i = 0; i < Files.size(); ++i) o << (i ? "," : "") << esc(Files[i]);
    o << "],\n\"types\":["; for (size_t i = 0; i < TypeJson.size(); ++i) o << (i ? ",\n" : "") << TypeJson[i];
    o << "],\n\"fn\":" << mapj(FnRefs) << ",\n\"body\":" << mapj(FnBodies) << ",\n\"rec\":" << mapj(Recs) << ",\n\"enum\":" << mapj(Enums) << ",\n\"glob\":" << mapj(Globals) << "}\n";
  }
};

class Consumer : public ASTConsumer {
public:
  CompilerInstance &CI; Consumer(CompilerInstance &CI) : CI(CI) {}
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Dumper D(C); D.S = &CI.getSema(); D.run();
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override { return std::make_unique<Consumer>(CI); }
};

int main(int argc, char **argv) {
  if (argc < 5) { llvm::errs() << "usage\n"; return 2; }
  std::string src = argv[1]; std::stringstream roots(argv[2]); std::string r;
  while (std::getline(roots, r, ':')) g_roots.push_back(r);
  g_out = argv[3];
  std::vector<std::string> flags;
  int i = 4; if (std::string(argv[i]) == "--") ++i;
  for (; i < argc; ++i) flags.push_back(argv[i]);
  clang::tooling::FixedCompilationDatabase DB("/", flags);
  clang::tooling::ClangTool T(DB, {src});
  return T.run(clang::tooling::newFrontendActionFactory<Action>().get());
}
