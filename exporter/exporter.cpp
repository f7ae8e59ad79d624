// AST exporter: prints, as JSON, every function with a body, every record and
// every global variable that is defined under a given source root, together
// with everything the verifier needs to give the bodies a meaning (types,
// resolved callees, implicit casts, constructor initialisers, default
// arguments, instantiated lambda bodies, constant values).  It makes no
// decision about semantics: a node kind that it does not know is exported as
// {"k":"Unknown:<kind>"} and the verifier refuses it.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;
static std::string gRoot;
static std::string gOut;

struct Exporter : public RecursiveASTVisitor<Exporter> {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::unique_ptr<MangleContext> MC;
  json::Array functions, records, globals;
  std::set<std::string> doneFn, doneRec;
  std::map<const Decl *, int> ids;
  explicit Exporter(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.Bool = true;
    MC.reset(C.createMangleContext());
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }

  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = ids.find(D);
    if (it != ids.end()) return it->second;
    int n = (int)ids.size() + 1;
    ids[D] = n;
    return n;
  }
  std::string str(QualType T) {
    if (T.isNull()) return "";
    return T.getCanonicalType().getAsString(PP);
  }
  static std::string utf8(llvm::StringRef S) {
    if (json::isUTF8(S)) return S.str();
    return json::fixUTF8(S);
  }
  std::string qname(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    D->printQualifiedName(os, PP);
    return os.str();
  }
  std::string key(const FunctionDecl *F) {
    std::string s;
    llvm::raw_string_ostream os(s);
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) MC->mangleName(GlobalDecl(CD, Ctor_Complete), os);
    else if (auto *DD = dyn_cast<CXXDestructorDecl>(F)) MC->mangleName(GlobalDecl(DD, Dtor_Complete), os);
    else if (MC->shouldMangleDeclName(F)) MC->mangleName(F, os);
    else os << F->getNameAsString();
    return os.str();
  }
  bool inRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    L = SM.getExpansionLoc(L);
    auto fn = SM.getFilename(L);
    return fn.starts_with(gRoot);
  }
  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto fn = SM.getFilename(L);
    if (fn.starts_with(gRoot)) fn = fn.drop_front(gRoot.size());
    while (fn.starts_with("/")) fn = fn.drop_front(1);
    return fn.str();
  }
  int line(SourceLocation L) { return L.isInvalid() ? 0 : (int)SM.getExpansionLineNumber(L); }

  json::Object fnRef(const FunctionDecl *F) {
    json::Object o;
    o["name"] = qname(F);
    o["key"] = key(F);
    o["ret"] = str(F->getReturnType());
    json::Array ps;
    for (auto *p : F->parameters()) ps.push_back(str(p->getType()));
    o["ptypes"] = std::move(ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = qname(M->getParent());
      o["static"] = M->isStatic();
      o["virtual"] = M->isVirtual();
      o["const"] = M->isConst();
      if (isa<CXXConstructorDecl>(M)) {
        auto *CD = cast<CXXConstructorDecl>(M);
        o["ctor"] = CD->isCopyConstructor() ? "copy" : CD->isMoveConstructor() ? "move" : CD->isDefaultConstructor() ? "default" : "other";
      }
      if (isa<CXXDestructorDecl>(M)) o["dtor"] = true;
      if (isa<CXXConversionDecl>(M)) o["conv"] = true;
    }
    if (F->isOverloadedOperator()) o["oper"] = getOperatorSpelling(F->getOverloadedOperator());
    o["variadic"] = F->isVariadic();
    o["user"] = inRoot(F->getLocation());
    o["defaulted"] = F->isDefaulted();
    o["implicit"] = F->isImplicit();
    o["lambdaCall"] = isa<CXXMethodDecl>(F) && cast<CXXMethodDecl>(F)->getParent()->isLambda();
    return o;
  }

  json::Value opt(const Stmt *S) { return S ? stmt(S) : json::Value(nullptr); }

  json::Object varDecl(const VarDecl *V) {
    json::Object o;
    o["id"] = id(V);
    o["name"] = V->getNameAsString();
    o["type"] = str(V->getType());
    o["line"] = line(V->getLocation());
    o["static"] = V->isStaticLocal();
    o["global"] = V->hasGlobalStorage() && !V->isStaticLocal();
    if (V->hasInit()) {
      o["init"] = stmt(V->getInit());
      o["initStyle"] = (int)V->getInitStyle();
    }
    return o;
  }

  json::Value stmt(const Stmt *S) {
    json::Object o;
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) {
      E = E->IgnoreParens();
      S = E;
      if (auto *CE = dyn_cast<ConstantExpr>(E)) return stmt(CE->getSubExpr());
      if (auto *SN = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return stmt(SN->getReplacement());
      o["t"] = str(E->getType());
      o["vk"] = E->isLValue() ? "l" : E->isXValue() ? "x" : "r";
      Expr::EvalResult R;
      if (!E->isValueDependent() && !E->isTypeDependent() && E->getType()->isIntegralOrEnumerationType() && E->isPRValue() &&
          E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects) && !R.HasSideEffects) {
        llvm::SmallString<32> b;
        R.Val.getInt().toString(b, 10);
        o["cv"] = std::string(b);
      }
    }
    o["line"] = line(S->getBeginLoc());
    std::string k = S->getStmtClassName();
    o["k"] = k;
    auto kids = [&](std::initializer_list<const Stmt *> l) {
      json::Array a;
      for (auto *s : l) a.push_back(opt(s));
      o["c"] = std::move(a);
    };
    switch (S->getStmtClass()) {
    case Stmt::CompoundStmtClass: {
      json::Array a;
      for (auto *s : cast<CompoundStmt>(S)->body()) a.push_back(stmt(s));
      o["c"] = std::move(a);
      break;
    }
    case Stmt::DeclStmtClass: {
      json::Array a;
      for (auto *d : cast<DeclStmt>(S)->decls())
        if (auto *V = dyn_cast<VarDecl>(d)) a.push_back(varDecl(V));
      o["vars"] = std::move(a);
      break;
    }
    case Stmt::IfStmtClass: {
      auto *I = cast<IfStmt>(S);
      if (I->isConstexpr()) o["constexpr"] = true;
      kids({I->getInit(), I->getConditionVariableDeclStmt(), I->getCond(), I->getThen(), I->getElse()});
      break;
    }
    case Stmt::WhileStmtClass: {
      auto *W = cast<WhileStmt>(S);
      kids({W->getConditionVariableDeclStmt(), W->getCond(), W->getBody()});
      break;
    }
    case Stmt::DoStmtClass: kids({cast<DoStmt>(S)->getBody(), cast<DoStmt>(S)->getCond()}); break;
    case Stmt::ForStmtClass: {
      auto *F = cast<ForStmt>(S);
      kids({F->getInit(), F->getConditionVariableDeclStmt(), F->getCond(), F->getInc(), F->getBody()});
      break;
    }
    case Stmt::CXXForRangeStmtClass: {
      auto *F = cast<CXXForRangeStmt>(S);
      o["var"] = varDecl(F->getLoopVariable());
      kids({F->getRangeInit(), F->getBody(), F->getInit()});
      o["rangeType"] = str(F->getRangeInit()->getType());
      break;
    }
    case Stmt::SwitchStmtClass: {
      auto *W = cast<SwitchStmt>(S);
      kids({W->getInit(), W->getConditionVariableDeclStmt(), W->getCond(), W->getBody()});
      break;
    }
    case Stmt::CaseStmtClass: {
      auto *K = cast<CaseStmt>(S);
      kids({K->getLHS(), K->getRHS(), K->getSubStmt()});
      break;
    }
    case Stmt::DefaultStmtClass: kids({cast<DefaultStmt>(S)->getSubStmt()}); break;
    case Stmt::ReturnStmtClass: kids({cast<ReturnStmt>(S)->getRetValue()}); break;
    case Stmt::BreakStmtClass: case Stmt::ContinueStmtClass: case Stmt::NullStmtClass: break;
    case Stmt::CXXTryStmtClass: {
      auto *T = cast<CXXTryStmt>(S);
      kids({T->getTryBlock()});
      json::Array h;
      for (unsigned i = 0; i < T->getNumHandlers(); i++) {
        auto *H = T->getHandler(i);
        json::Object ho;
        ho["type"] = H->getExceptionDecl() ? str(H->getCaughtType()) : std::string("...");
        if (H->getExceptionDecl()) ho["id"] = id(H->getExceptionDecl());
        ho["body"] = stmt(H->getHandlerBlock());
        h.push_back(std::move(ho));
      }
      o["handlers"] = std::move(h);
      break;
    }
    case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(S)->getSubStmt());
    // ---- expressions
    case Stmt::IntegerLiteralClass: {
      llvm::SmallString<32> b;
      cast<IntegerLiteral>(S)->getValue().toString(b, 10, S && cast<Expr>(S)->getType()->isSignedIntegerType());
      o["val"] = std::string(b);
      break;
    }
    case Stmt::CharacterLiteralClass: o["val"] = std::to_string(cast<CharacterLiteral>(S)->getValue()); break;
    case Stmt::CXXBoolLiteralExprClass: o["val"] = cast<CXXBoolLiteralExpr>(S)->getValue() ? "1" : "0"; break;
    case Stmt::CXXNullPtrLiteralExprClass: case Stmt::GNUNullExprClass: o["k"] = "NullPtr"; break;
    case Stmt::StringLiteralClass: {
      json::Array a;
      for (unsigned char c : cast<StringLiteral>(S)->getBytes()) a.push_back((int)c);
      o["bytes"] = std::move(a);
      break;
    }
    case Stmt::PredefinedExprClass: return stmt(cast<PredefinedExpr>(S)->getFunctionName());
    case Stmt::DeclRefExprClass: {
      auto *D = cast<DeclRefExpr>(S)->getDecl();
      o["id"] = id(D);
      o["name"] = D->getNameAsString();
      if (auto *F = dyn_cast<FunctionDecl>(D)) o["fn"] = fnRef(F);
      else if (auto *V = dyn_cast<VarDecl>(D)) {
        o["dk"] = "var";
        o["ref"] = V->getType()->isReferenceType();
        o["global"] = V->hasGlobalStorage();
        o["q"] = qname(V);
        o["capt"] = cast<DeclRefExpr>(S)->refersToEnclosingVariableOrCapture();
      } else if (isa<EnumConstantDecl>(D)) o["dk"] = "enum";
      else o["dk"] = D->getDeclKindName();
      break;
    }
    case Stmt::MemberExprClass: {
      auto *M = cast<MemberExpr>(S);
      auto *D = M->getMemberDecl();
      o["arrow"] = M->isArrow();
      o["member"] = D->getNameAsString();
      o["q"] = qname(D);
      o["qualified"] = M->hasQualifier();
      if (auto *F = dyn_cast<FunctionDecl>(D)) o["fn"] = fnRef(F);
      else if (auto *V = dyn_cast<VarDecl>(D)) { o["staticvar"] = true; o["id"] = id(V); }
      else if (auto *FD = dyn_cast<FieldDecl>(D)) { o["ref"] = FD->getType()->isReferenceType(); o["ftype"] = str(FD->getType()); }
      kids({M->getBase()});
      break;
    }
    case Stmt::CXXThisExprClass: break;
    case Stmt::ImplicitCastExprClass: case Stmt::CStyleCastExprClass: case Stmt::CXXStaticCastExprClass:
    case Stmt::CXXReinterpretCastExprClass: case Stmt::CXXConstCastExprClass: case Stmt::CXXFunctionalCastExprClass:
    case Stmt::CXXDynamicCastExprClass: {
      auto *K = cast<CastExpr>(S);
      o["cast"] = K->getCastKindName();
      o["implicit"] = isa<ImplicitCastExpr>(S);
      if (K->getConversionFunction() && isa<FunctionDecl>(K->getConversionFunction()))
        o["conv"] = fnRef(cast<FunctionDecl>(K->getConversionFunction()));
      kids({K->getSubExpr()});
      o["k"] = "Cast";
      break;
    }
    case Stmt::UnaryOperatorClass: {
      auto *U = cast<UnaryOperator>(S);
      o["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
      o["postfix"] = U->isPostfix();
      kids({U->getSubExpr()});
      break;
    }
    case Stmt::BinaryOperatorClass: case Stmt::CompoundAssignOperatorClass: {
      auto *B = cast<BinaryOperator>(S);
      o["op"] = B->getOpcodeStr().str();
      if (auto *CA = dyn_cast<CompoundAssignOperator>(S)) { o["lt"] = str(CA->getComputationLHSType()); o["rt"] = str(CA->getComputationResultType()); }
      kids({B->getLHS(), B->getRHS()});
      break;
    }
    case Stmt::ConditionalOperatorClass: {
      auto *K = cast<ConditionalOperator>(S);
      kids({K->getCond(), K->getTrueExpr(), K->getFalseExpr()});
      break;
    }
    case Stmt::BinaryConditionalOperatorClass: break;
    case Stmt::ArraySubscriptExprClass: {
      auto *A = cast<ArraySubscriptExpr>(S);
      kids({A->getBase(), A->getIdx()});
      break;
    }
    case Stmt::CallExprClass: case Stmt::CXXMemberCallExprClass: case Stmt::CXXOperatorCallExprClass: case Stmt::UserDefinedLiteralClass: {
      auto *K = cast<CallExpr>(S);
      if (auto *F = K->getDirectCallee()) o["fn"] = fnRef(F);
      o["callee"] = stmt(K->getCallee());
      json::Array a;
      for (auto *e : K->arguments()) a.push_back(stmt(e));
      o["args"] = std::move(a);
      if (auto *OC = dyn_cast<CXXOperatorCallExpr>(S)) o["oper"] = getOperatorSpelling(OC->getOperator());
      break;
    }
    case Stmt::CXXConstructExprClass: case Stmt::CXXTemporaryObjectExprClass: {
      auto *K = cast<CXXConstructExpr>(S);
      o["k"] = "Construct";
      o["fn"] = fnRef(K->getConstructor());
      o["elidable"] = K->isElidable();
      o["zeroinit"] = K->requiresZeroInitialization();
      o["listinit"] = K->isListInitialization();
      o["stdinitlist"] = K->isStdInitListInitialization();
      json::Array a;
      for (auto *e : K->arguments()) a.push_back(stmt(e));
      o["args"] = std::move(a);
      break;
    }
    case Stmt::CXXInheritedCtorInitExprClass: break;
    case Stmt::MaterializeTemporaryExprClass: kids({cast<MaterializeTemporaryExpr>(S)->getSubExpr()});
      o["extended"] = cast<MaterializeTemporaryExpr>(S)->getExtendingDecl() != nullptr; break;
    case Stmt::CXXBindTemporaryExprClass: kids({cast<CXXBindTemporaryExpr>(S)->getSubExpr()}); break;
    case Stmt::ExprWithCleanupsClass: kids({cast<ExprWithCleanups>(S)->getSubExpr()}); break;
    case Stmt::CXXStdInitializerListExprClass: kids({cast<CXXStdInitializerListExpr>(S)->getSubExpr()}); break;
    case Stmt::InitListExprClass: {
      auto *L = cast<InitListExpr>(S);
      if (L->getSemanticForm()) L = L->getSemanticForm();
      json::Array a;
      for (auto *e : L->inits()) a.push_back(stmt(e));
      o["c"] = std::move(a);
      if (L->hasArrayFiller()) o["filler"] = stmt(L->getArrayFiller());
      if (auto *RD = L->getType()->getAsCXXRecordDecl()) {
        json::Array f;
        for (auto *fd : RD->fields()) f.push_back(qname(fd));
        o["fields"] = std::move(f);
      } else if (auto *RT = L->getType()->getAs<RecordType>()) {
        json::Array f;
        for (auto *fd : RT->getDecl()->fields()) f.push_back(qname(fd));
        o["fields"] = std::move(f);
      }
      break;
    }
    case Stmt::ImplicitValueInitExprClass: case Stmt::CXXScalarValueInitExprClass: o["k"] = "ZeroInit"; break;
    case Stmt::CXXDefaultArgExprClass: kids({cast<CXXDefaultArgExpr>(S)->getExpr()}); break;
    case Stmt::CXXDefaultInitExprClass: kids({cast<CXXDefaultInitExpr>(S)->getExpr()}); break;
    case Stmt::CXXNewExprClass: {
      auto *N = cast<CXXNewExpr>(S);
      o["array"] = N->isArray();
      o["alloc"] = str(N->getAllocatedType());
      o["size"] = N->isArray() && N->getArraySize() ? stmt(*N->getArraySize()) : json::Value(nullptr);
      o["init"] = opt(N->getInitializer());
      o["placement"] = (int)N->getNumPlacementArgs();
      break;
    }
    case Stmt::CXXDeleteExprClass: {
      auto *N = cast<CXXDeleteExpr>(S);
      o["array"] = N->isArrayForm();
      o["destroyed"] = str(N->getDestroyedType());
      kids({N->getArgument()});
      break;
    }
    case Stmt::CXXThrowExprClass: kids({cast<CXXThrowExpr>(S)->getSubExpr()}); break;
    case Stmt::UnaryExprOrTypeTraitExprClass: break;  // always carries cv
    case Stmt::CXXNoexceptExprClass: break;
    case Stmt::LambdaExprClass: {
      auto *L = cast<LambdaExpr>(S);
      json::Array caps;
      auto init = L->capture_init_begin();
      for (auto &cap : L->captures()) {
        json::Object co;
        co["byref"] = cap.getCaptureKind() == LCK_ByRef || cap.getCaptureKind() == LCK_This;
        co["this"] = cap.capturesThis();
        if (cap.capturesVariable()) { co["id"] = id(cap.getCapturedVar()); co["name"] = cap.getCapturedVar()->getNameAsString(); co["type"] = str(cap.getCapturedVar()->getType()); }
        co["init"] = opt(*init);
        ++init;
        caps.push_back(std::move(co));
      }
      o["captures"] = std::move(caps);
      json::Array impls;
      auto addImpl = [&](const FunctionDecl *F) {
        const FunctionDecl *Def = nullptr;
        if (!F->hasBody(Def)) return;
        impls.push_back(fnBody(Def));
      };
      if (auto *FT = L->getDependentCallOperator()) { for (auto *sp : FT->specializations()) addImpl(sp); }
      else addImpl(L->getCallOperator());
      o["impls"] = std::move(impls);
      break;
    }
    default:
      o["k"] = "Unknown:" + k;
      json::Array a;
      for (auto *s : S->children()) a.push_back(opt(s));
      o["c"] = std::move(a);
    }
    return o;
  }

  json::Object fnBody(const FunctionDecl *F) {
    json::Object o = fnRef(F);
    json::Array ps;
    for (auto *p : F->parameters()) {
      json::Object po;
      po["id"] = id(p);
      po["name"] = p->getNameAsString();
      po["type"] = str(p->getType());
      ps.push_back(std::move(po));
    }
    o["params"] = std::move(ps);
    o["file"] = file(F->getLocation());
    o["line"] = line(F->getLocation());
    o["endline"] = line(F->getEndLoc());
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      json::Array ov;
      for (auto *b : M->overridden_methods()) ov.push_back(key(b));
      o["overrides"] = std::move(ov);
    }
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      json::Array in;
      for (auto *I : CD->inits()) {
        json::Object io;
        if (I->isAnyMemberInitializer()) { io["kind"] = "field"; io["q"] = qname(I->getAnyMember()); io["type"] = str(I->getAnyMember()->getType()); }
        else if (I->isDelegatingInitializer()) io["kind"] = "delegate";
        else { io["kind"] = "base"; io["cls"] = str(QualType(I->getBaseClass(), 0)); }
        io["init"] = stmt(I->getInit());
        io["line"] = line(I->getSourceLocation());
        in.push_back(std::move(io));
      }
      o["inits"] = std::move(in);
    }
    o["body"] = F->hasBody() ? stmt(F->getBody()) : json::Value(nullptr);
    return o;
  }

  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->isThisDeclarationADefinition() || F->isDependentContext() || F->getTemplatedKind() == FunctionDecl::TK_FunctionTemplate) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    if (!inRoot(F->getLocation())) return true;
    if (!F->doesThisDeclarationHaveABody()) return true;
    auto k = key(F);
    if (!doneFn.insert(k).second) return true;
    functions.push_back(fnBody(F));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda() || !inRoot(R->getLocation())) return true;
    json::Object o;
    auto q = qname(R);
    if (!doneRec.insert(q).second) return true;
    o["name"] = q;
    o["file"] = file(R->getLocation());
    json::Array bases, fields, methods;
    for (auto &b : R->bases()) bases.push_back(str(b.getType()));
    for (auto *f : R->fields()) {
      json::Object fo;
      fo["q"] = qname(f);
      fo["type"] = str(f->getType());
      if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = stmt(f->getInClassInitializer());
      fields.push_back(std::move(fo));
    }
    for (auto *m : R->methods()) {
      json::Object mo = fnRef(m);
      json::Array ov;
      for (auto *b : m->overridden_methods()) ov.push_back(key(b));
      mo["overrides"] = std::move(ov);
      mo["pure"] = m->isPureVirtual();
      methods.push_back(std::move(mo));
    }
    o["bases"] = std::move(bases);
    o["fields"] = std::move(fields);
    o["methods"] = std::move(methods);
    o["abstract"] = R->isAbstract();
    o["polymorphic"] = R->isPolymorphic();
    records.push_back(std::move(o));
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (!V->hasGlobalStorage() || V->isStaticLocal() || !inRoot(V->getLocation())) return true;
    if (V->getDeclContext()->isDependentContext()) return true;
    if (V->isThisDeclarationADefinition() == VarDecl::DeclarationOnly) return true;
    auto o = varDecl(V);
    o["q"] = qname(V);
    o["file"] = file(V->getLocation());
    globals.push_back(std::move(o));
    return true;
  }
};

struct Consumer : public ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Exporter E(C);
    E.TraverseDecl(C.getTranslationUnitDecl());
    std::error_code ec;
    llvm::raw_fd_ostream os(gOut, ec);
    json::Object top;
    top["functions"] = std::move(E.functions);
    top["records"] = std::move(E.records);
    top["globals"] = std::move(E.globals);
    os << json::Value(std::move(top)) << "\n";
  }
};
struct Action : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};
int main(int argc, const char **argv) {
  // exporter ROOT OUT FILE -- flags...
  if (argc < 5) { llvm::errs() << "usage: exporter ROOT OUT FILE -- flags\n"; return 2; }
  gRoot = argv[1];
  gOut = argv[2];
  std::string f = argv[3];
  std::vector<std::string> flags(argv + 5, argv + argc);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {f});
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
