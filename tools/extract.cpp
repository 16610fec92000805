// wsx: dump the type-checked program of one translation unit (functions of
// the analysed tree, their clang CFGs with fully resolved expressions, record
// layouts and enums) as JSON.  Nothing is executed; this is the front end of
// the static analyses in /verif/engine.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Frontend/TextDiagnosticPrinter.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> roots;
static std::string outFile;

class Dumper {
public:
  Dumper(ASTContext &C) : Ctx(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.FullyQualifiedName = true;
    PP.SuppressUnwrittenScope = true;
    PP.PrintCanonicalTypes = true;
  }
  ASTContext &Ctx;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, int> declIds;
  json::Array functions, records, enums, globals;
  std::set<std::string> doneFn, doneRec, doneEnum, doneGlob;
  std::vector<const FunctionDecl *> pending;

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    return SM.getFilename(L).str();
  }
  unsigned lineOf(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  bool inRoots(SourceLocation L) {
    if (L.isInvalid()) return false;
    std::string f = fileOf(L);
    for (auto &r : roots)
      if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  std::string typeStr(QualType T) {
    if (T.isNull()) return "";
    return T.getCanonicalType().getUnqualifiedType().getAsString(PP);
  }
  std::string qual(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    D->getNameForDiagnostic(os, PP, true);
    return os.str();
  }
  std::string plain(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    D->printQualifiedName(os, PP);
    return os.str();
  }
  std::string fnKey(const FunctionDecl *F) {
    F = F->getCanonicalDecl();
    std::string s = qual(F);
    s += "(";
    bool first = true;
    for (auto *p : F->parameters()) {
      if (!first) s += ",";
      first = false;
      s += p->getType().getCanonicalType().getAsString(PP);
    }
    s += ")";
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->isConst()) s += "const";
    if (F->getFormalLinkage() == Linkage::Internal && inRoots(F->getLocation())) {
      std::string f = fileOf(F->getLocation());
      auto p = f.rfind('/');
      s += "@" + (p == std::string::npos ? f : f.substr(p + 1));
    }
    return s;
  }
  int declId(const Decl *D) {
    auto it = declIds.find(D);
    if (it != declIds.end()) return it->second;
    int n = declIds.size() + 1;
    declIds[D] = n;
    return n;
  }

  // ---- per function ----
  std::map<const Stmt *, int> ids;
  json::Array *nodes = nullptr;
  std::vector<const CXXTryStmt *> tryStack;
  std::map<const Stmt *, const CXXTryStmt *> tryOf;

  void collectTry(const Stmt *S, const CXXTryStmt *cur) {
    if (!S) return;
    if (cur) tryOf[S] = cur;
    if (auto *T = dyn_cast<CXXTryStmt>(S)) {
      collectTry(T->getTryBlock(), T);
      for (unsigned i = 0; i < T->getNumHandlers(); ++i)
        collectTry(T->getHandler(i), cur);
      return;
    }
    for (const Stmt *c : S->children()) collectTry(c, cur);
  }

  void addCallee(json::Object &o, const FunctionDecl *F) {
    if (!F) return;
    const FunctionDecl *D = F;
    o["callee"] = fnKey(D);
    o["cname"] = plain(D);
    o["crepo"] = inRoots(D->getLocation());
    json::Array pm;
    for (auto *p : D->parameters()) {
      QualType T = p->getType();
      std::string k = "v";
      if (T->isReferenceType())
        k = T->getPointeeType().isConstQualified() ? "cr" : "r";
      else if (T->isPointerType())
        k = T->getPointeeType().isConstQualified() ? "cp" : "p";
      pm.push_back(k);
    }
    o["pmodes"] = std::move(pm);
    if (D->isNoReturn()) o["noreturn"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(D)) {
      if (M->isVirtual()) o["virt"] = true;
      if (M->isPureVirtual()) o["pure"] = true;
      if (M->isConst()) o["const"] = true;
      if (M->isStatic()) o["static"] = true;
      o["cls"] = qual(M->getParent());
      o["meth"] = M->getNameAsString();
      if (M->isCopyAssignmentOperator() || M->isMoveAssignmentOperator()) {
        o["assign"] = true;
        if (M->isDefaulted() || M->isImplicit()) o["defaulted"] = true;
      }
    }
    maybeQueue(D);
  }

  void maybeQueue(const FunctionDecl *F) {
    const FunctionDecl *Def = nullptr;
    if (!F->hasBody(Def) || !Def) return;
    if (!inRoots(Def->getLocation())) return;
    pending.push_back(Def);
  }

  int dump(const Stmt *S) {
    if (!S) return 0;
    auto it = ids.find(S);
    if (it != ids.end()) return it->second;
    int id = ids.size() + 1;
    ids[S] = id;
    json::Object o;
    o["i"] = id;
    o["k"] = S->getStmtClassName();
    o["l"] = (int64_t)lineOf(S->getBeginLoc());
    {
      std::string f = fileOf(S->getBeginLoc());
      if (!f.empty() && f != curFile) o["f"] = f;
    }
    json::Array ch;
    bool genericChildren = true;
    if (auto *E = dyn_cast<Expr>(S)) {
      o["t"] = typeStr(E->getType());
      if (E->isLValue()) o["lv"] = true;
      else if (E->isXValue()) o["lv"] = true;
      if (E->getType()->isRecordType()) o["rec"] = true;
      if (!E->isValueDependent() && !E->isTypeDependent() &&
          (E->getType()->isIntegralOrEnumerationType())) {
        Expr::EvalResult R;
        if (E->isPRValue() && E->EvaluateAsInt(R, Ctx, Expr::SE_NoSideEffects) &&
            !R.HasSideEffects && R.Val.isInt())
          o["cv"] = R.Val.getInt().isSigned()
                        ? (int64_t)R.Val.getInt().getExtValue()
                        : (int64_t)R.Val.getInt().getZExtValue();
      }
    }
    if (auto *D = dyn_cast<DeclRefExpr>(S)) {
      const ValueDecl *V = D->getDecl();
      o["name"] = V->getNameAsString();
      if (auto *EC = dyn_cast<EnumConstantDecl>(V)) {
        o["dk"] = "enum";
        o["cv"] = (int64_t)EC->getInitVal().getExtValue();
      } else if (auto *F = dyn_cast<FunctionDecl>(V)) {
        o["dk"] = "fn";
        addCallee(o, F);
      } else if (auto *P = dyn_cast<ParmVarDecl>(V)) {
        o["dk"] = "parm";
        o["d"] = declId(P);
      } else if (auto *Vd = dyn_cast<VarDecl>(V)) {
        if (Vd->hasGlobalStorage() ) {
          o["dk"] = Vd->isLocalVarDecl() ? "slocal" : "global";
          o["qn"] = plain(Vd);
          if (inRoots(Vd->getLocation())) dumpGlobal(Vd);
        } else
          o["dk"] = "local";
        o["d"] = declId(Vd);
      } else if (isa<BindingDecl>(V)) {
        o["dk"] = "binding";
      }
      if (V->getType()->isReferenceType()) o["ref"] = true;
    } else if (auto *M = dyn_cast<MemberExpr>(S)) {
      const ValueDecl *V = M->getMemberDecl();
      o["name"] = V->getNameAsString();
      if (auto *F = dyn_cast<FieldDecl>(V)) {
        o["field"] = true;
        o["owner"] = qual(F->getParent());
        if (F->getType()->isReferenceType()) o["ref"] = true;
        if (F->isMutable()) o["mut"] = true;
      } else if (auto *Vd = dyn_cast<VarDecl>(V)) {
        o["dk"] = "global";
        o["qn"] = plain(Vd);
      }
      if (M->isArrow()) o["arrow"] = true;
    } else if (auto *C = dyn_cast<CallExpr>(S)) {
      genericChildren = false;
      const FunctionDecl *F = C->getDirectCallee();
      if (auto *MC = dyn_cast<CXXMemberCallExpr>(C)) {
        const Expr *obj = MC->getImplicitObjectArgument();
        o["obj"] = dump(obj);
        if (obj && obj->getType()->isPointerType()) o["objptr"] = true;
        if (auto *ME = dyn_cast<MemberExpr>(C->getCallee()->IgnoreParens()))
          if (ME->hasQualifier()) o["nonvirt"] = true;
        if (F) addCallee(o, F);
        else o["fptr"] = dump(C->getCallee());
        for (auto *a : C->arguments()) ch.push_back(dump(a));
      } else if (auto *OC = dyn_cast<CXXOperatorCallExpr>(C)) {
        o["op"] = getOperatorSpelling(OC->getOperator());
        if (F) addCallee(o, F);
        bool method = F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic();
        unsigned i = 0;
        for (auto *a : C->arguments()) {
          if (i++ == 0 && method) o["obj"] = dump(a);
          else ch.push_back(dump(a));
        }
      } else {
        if (F) addCallee(o, F);
        else o["fptr"] = dump(C->getCallee());
        for (auto *a : C->arguments()) ch.push_back(dump(a));
      }
    } else if (auto *C = dyn_cast<CXXConstructExpr>(S)) {
      genericChildren = false;
      auto *K = C->getConstructor();
      addCallee(o, K);
      o["ctor"] = true;
      if (K->isCopyConstructor()) o["copy"] = true;
      if (K->isMoveConstructor()) o["move"] = true;
      if (K->isDefaultConstructor()) o["dflt"] = true;
      if (K->isDefaulted() || K->isImplicit()) o["defaulted"] = true;
      if (C->isElidable()) o["elide"] = true;
      for (auto *a : C->arguments()) ch.push_back(dump(a));
      dumpRecord(K->getParent());
    } else if (auto *L = dyn_cast<IntegerLiteral>(S)) {
      o["cv"] = (int64_t)L->getValue().getLimitedValue();
    } else if (auto *L = dyn_cast<CXXBoolLiteralExpr>(S)) {
      o["cv"] = (int64_t)L->getValue();
    } else if (auto *L = dyn_cast<CharacterLiteral>(S)) {
      o["cv"] = (int64_t)L->getValue();
    } else if (isa<CXXNullPtrLiteralExpr>(S) || isa<GNUNullExpr>(S)) {
      o["cv"] = (int64_t)0;
    } else if (auto *L = dyn_cast<clang::StringLiteral>(S)) {
      if (L->isOrdinary() || L->isUTF8())
        o["str"] = json::fixUTF8(L->getString().substr(0, 400));
    } else if (auto *B = dyn_cast<BinaryOperator>(S)) {
      o["op"] = B->getOpcodeStr().str();
      if (B->isCompoundAssignmentOp()) o["cassign"] = true;
    } else if (auto *U = dyn_cast<UnaryOperator>(S)) {
      o["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
      if (U->isPostfix()) o["post"] = true;
    } else if (auto *C = dyn_cast<CastExpr>(S)) {
      o["ck"] = C->getCastKindName();
      if (C->getCastKind() == CK_UserDefinedConversion || C->getCastKind() == CK_ConstructorConversion) {
      }
    } else if (auto *D = dyn_cast<DeclStmt>(S)) {
      genericChildren = false;
      json::Array vs;
      for (auto *d : D->decls()) {
        if (auto *V = dyn_cast<VarDecl>(d)) {
          json::Object v;
          v["d"] = declId(V);
          v["name"] = V->getNameAsString();
          v["t"] = typeStr(V->getType());
          if (V->getType()->isReferenceType()) v["ref"] = true;
          if (V->getType()->isRecordType()) v["rec"] = true;
          if (V->isStaticLocal()) v["static"] = true;
          if (V->getInit()) v["init"] = dump(V->getInit());
          vs.push_back(std::move(v));
        }
      }
      o["vars"] = std::move(vs);
    } else if (isa<CXXThisExpr>(S)) {
    } else if (auto *D = dyn_cast<CXXDefaultArgExpr>(S)) {
      ch.push_back(dump(D->getExpr()));
      genericChildren = false;
    } else if (auto *D = dyn_cast<CXXDefaultInitExpr>(S)) {
      ch.push_back(dump(D->getExpr()));
      genericChildren = false;
    } else if (auto *L = dyn_cast<LambdaExpr>(S)) {
      genericChildren = false;
      addCallee(o, L->getCallOperator());
      json::Array caps;
      auto ci = L->capture_init_begin();
      for (auto &c : L->captures()) {
        json::Object k;
        if (c.capturesVariable()) {
          k["d"] = declId(c.getCapturedVar());
          k["byref"] = c.getCaptureKind() == LCK_ByRef;
        } else if (c.capturesThis()) {
          k["this"] = true;
        }
        if (ci != L->capture_init_end()) {
          k["init"] = dump(*ci);
          ++ci;
        }
        caps.push_back(std::move(k));
      }
      o["caps"] = std::move(caps);
    } else if (auto *N = dyn_cast<CXXNewExpr>(S)) {
      o["nt"] = typeStr(N->getAllocatedType());
      genericChildren = false;
      if (N->getInitializer()) ch.push_back(dump(N->getInitializer()));
    } else if (auto *C = dyn_cast<CXXCatchStmt>(S)) {
      genericChildren = false;
      if (C->getExceptionDecl()) {
        o["d"] = declId(C->getExceptionDecl());
        o["ct"] = typeStr(C->getCaughtType().getNonReferenceType());
      }
    } else if (auto *T = dyn_cast<CXXThrowExpr>(S)) {
      if (T->getSubExpr()) o["tt"] = typeStr(T->getSubExpr()->getType());
    } else if (auto *C = dyn_cast<CaseStmt>(S)) {
      genericChildren = false;
      Expr::EvalResult R;
      if (C->getLHS()->EvaluateAsInt(R, Ctx)) o["lo"] = (int64_t)R.Val.getInt().getExtValue();
      if (C->getRHS() && C->getRHS()->EvaluateAsInt(R, Ctx)) o["hi"] = (int64_t)R.Val.getInt().getExtValue();
    } else if (auto *F = dyn_cast<CXXForRangeStmt>(S)) {
      (void)F;
      genericChildren = false;
    } else if (isa<CompoundStmt>(S) || isa<IfStmt>(S) || isa<SwitchStmt>(S) ||
               isa<WhileStmt>(S) || isa<ForStmt>(S) || isa<DoStmt>(S) ||
               isa<CXXTryStmt>(S) || isa<DefaultStmt>(S) || isa<LabelStmt>(S)) {
      genericChildren = false;
    } else if (auto *IL = dyn_cast<InitListExpr>(S)) {
      if (IL->isSemanticForm() == false && IL->getSemanticForm()) {
        ch.push_back(dump(IL->getSemanticForm()));
        genericChildren = false;
      }
    }
    if (genericChildren)
      for (const Stmt *c : S->children()) ch.push_back(dump(c));
    if (!ch.empty()) o["c"] = std::move(ch);
    auto t = tryOf.find(S);
    if (t != tryOf.end()) o["try"] = dump(t->second);
    nodes->push_back(std::move(o));
    return id;
  }

  std::string curFile;

  void dumpDtor(json::Object &e, QualType T) {
    T = T.getNonReferenceType();
    if (auto *R = T->getAsCXXRecordDecl()) {
      e["cls"] = qual(R);
      dumpRecord(R);
      if (auto *D = R->getDestructor()) {
        e["dtor"] = fnKey(D);
        maybeQueue(D);
      }
    }
  }

  void dumpFunction(const FunctionDecl *F) {
    const FunctionDecl *Def = nullptr;
    if (!F->hasBody(Def)) return;
    if (Def->isDependentContext()) return;
    if (Def->isTemplated() && !Def->isTemplateInstantiation() &&
        !isa<CXXMethodDecl>(Def)) return;
    std::string key = fnKey(Def);
    if (!doneFn.insert(key).second) return;
    const Stmt *Body = Def->getBody();
    if (!Body) return;
    ids.clear();
    tryOf.clear();
    collectTry(Body, nullptr);
    curFile = fileOf(Def->getLocation());
    json::Array ns;
    nodes = &ns;
    json::Object o;
    o["key"] = key;
    o["name"] = plain(Def);
    o["file"] = curFile;
    o["line"] = (int64_t)lineOf(Def->getLocation());
    o["ret"] = typeStr(Def->getReturnType());
    if (Def->getReturnType()->isReferenceType()) o["retref"] = true;
    if (Def->getReturnType()->isRecordType()) o["retrec"] = true;
    if (Def->getFormalLinkage() == Linkage::Internal) o["internal"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(Def)) {
      o["cls"] = qual(M->getParent());
      o["meth"] = M->getNameAsString();
      dumpRecord(M->getParent());
      if (M->isVirtual()) o["virt"] = true;
      if (M->isStatic()) o["static"] = true;
      if (M->isConst()) o["const"] = true;
      if (M->getAccess() == AS_public) o["pub"] = true;
      switch (M->getAccess()) {
        case AS_public: o["access"] = "public"; break;
        case AS_protected: o["access"] = "protected"; break;
        default: o["access"] = "private"; break;
      }
      json::Array ov;
      for (auto *b : M->overridden_methods()) ov.push_back(fnKey(b));
      if (!ov.empty()) o["overrides"] = std::move(ov);
    }
    if (isa<CXXConstructorDecl>(Def)) o["isctor"] = true;
    if (isa<CXXDestructorDecl>(Def)) o["isdtor"] = true;
    json::Array ps;
    for (auto *p : Def->parameters()) {
      json::Object q;
      q["d"] = declId(p);
      q["name"] = p->getNameAsString();
      q["t"] = typeStr(p->getType());
      if (p->getType()->isReferenceType()) {
        q["ref"] = true;
        if (p->getType()->getPointeeType().isConstQualified()) q["cref"] = true;
      }
      if (p->getType()->isRecordType()) q["rec"] = true;
      ps.push_back(std::move(q));
    }
    o["params"] = std::move(ps);
    CFG::BuildOptions BO;
    BO.setAllAlwaysAdd();
    BO.AddImplicitDtors = true;
    BO.AddInitializers = true;
    BO.PruneTriviallyFalseEdges = true;
    BO.AddTemporaryDtors = false;
    std::unique_ptr<CFG> G = CFG::buildCFG(Def, const_cast<Stmt *>(Body), &Ctx, BO);
    if (!G) {
      o["nocfg"] = true;
      functions.push_back(std::move(o));
      return;
    }
    o["entry"] = (int64_t)G->getEntry().getBlockID();
    o["exit"] = (int64_t)G->getExit().getBlockID();
    json::Array bs;
    for (CFGBlock *B : *G) {
      json::Object b;
      b["id"] = (int64_t)B->getBlockID();
      json::Array es;
      for (auto &E : *B) {
        json::Object e;
        switch (E.getKind()) {
        case CFGElement::Statement:
        case CFGElement::Constructor:
        case CFGElement::CXXRecordTypedCall:
          e["s"] = dump(E.castAs<CFGStmt>().getStmt());
          break;
        case CFGElement::Initializer: {
          auto *I = E.castAs<CFGInitializer>().getInitializer();
          if (I->isAnyMemberInitializer()) {
            e["initf"] = I->getAnyMember()->getNameAsString();
            e["owner"] = qual(cast<CXXRecordDecl>(I->getAnyMember()->getDeclContext()));
            if (I->getAnyMember()->getType()->isReferenceType()) e["ref"] = true;
            e["ft"] = typeStr(I->getAnyMember()->getType());
          } else if (I->isBaseInitializer())
            e["initb"] = typeStr(QualType(I->getBaseClass(), 0));
          else e["initd"] = true;
          e["init"] = dump(I->getInit());
          break;
        }
        case CFGElement::AutomaticObjectDtor: {
          auto D = E.castAs<CFGAutomaticObjDtor>();
          e["dtorv"] = declId(D.getVarDecl());
          e["l"] = (int64_t)lineOf(D.getTriggerStmt() ? D.getTriggerStmt()->getEndLoc() : D.getVarDecl()->getLocation());
          dumpDtor(e, D.getVarDecl()->getType());
          break;
        }
        case CFGElement::MemberDtor: {
          auto D = E.castAs<CFGMemberDtor>();
          e["dtorf"] = D.getFieldDecl()->getNameAsString();
          dumpDtor(e, D.getFieldDecl()->getType());
          break;
        }
        case CFGElement::BaseDtor: {
          auto D = E.castAs<CFGBaseDtor>();
          e["dtorb"] = true;
          dumpDtor(e, D.getBaseSpecifier()->getType());
          break;
        }
        case CFGElement::DeleteDtor: {
          auto D = E.castAs<CFGDeleteDtor>();
          e["dtordel"] = dump(D.getDeleteExpr());
          break;
        }
        default:
          e["other"] = (int64_t)E.getKind();
        }
        es.push_back(std::move(e));
      }
      b["e"] = std::move(es);
      if (const Stmt *L = B->getLabel()) {
        json::Object lo;
        lo["k"] = L->getStmtClassName();
        if (auto *C = dyn_cast<CaseStmt>(L)) {
          Expr::EvalResult R;
          if (C->getLHS()->EvaluateAsInt(R, Ctx)) lo["lo"] = (int64_t)R.Val.getInt().getExtValue();
          if (C->getRHS() && C->getRHS()->EvaluateAsInt(R, Ctx)) lo["hi"] = (int64_t)R.Val.getInt().getExtValue();
        }
        if (auto *C = dyn_cast<CXXCatchStmt>(L)) {
          if (C->getExceptionDecl()) {
            lo["d"] = declId(C->getExceptionDecl());
            lo["ct"] = typeStr(C->getCaughtType().getNonReferenceType());
          } else lo["ct"] = "...";
        }
        b["label"] = std::move(lo);
      }
      CFGTerminator T = B->getTerminator();
      if (T.isValid() && T.isStmtBranch()) {
        json::Object t;
        const Stmt *S = T.getStmt();
        t["k"] = S->getStmtClassName();
        t["l"] = (int64_t)lineOf(S->getBeginLoc());
        if (isa<CXXTryStmt>(S)) t["try"] = dump(S);
        if (auto *BO2 = dyn_cast<BinaryOperator>(S)) t["op"] = BO2->getOpcodeStr().str();
        if (const Stmt *C = B->getTerminatorCondition(false)) t["c"] = dump(C);
        if (const Expr *C = B->getLastCondition()) t["lc"] = dump(C);
        b["t"] = std::move(t);
      } else if (T.isValid()) {
        json::Object t;
        t["k"] = "Other";
        b["t"] = std::move(t);
      }
      json::Array ss;
      for (auto &s : B->succs()) {
        const CFGBlock *N = s.getReachableBlock();
        if (N) ss.push_back((int64_t)N->getBlockID());
        else ss.push_back(nullptr);
      }
      b["s"] = std::move(ss);
      if (B->hasNoReturnElement()) b["noret"] = true;
      bs.push_back(std::move(b));
    }
    o["blocks"] = std::move(bs);
    o["nodes"] = std::move(ns);
    functions.push_back(std::move(o));
  }

  void dumpRecord(const CXXRecordDecl *R) {
    if (!R || !(R = R->getDefinition())) return;
    if (R->isDependentContext()) return;
    std::string q = qual(R);
    if (!doneRec.insert(q).second) return;
    json::Object o;
    o["name"] = q;
    o["repo"] = inRoots(R->getLocation());
    o["file"] = fileOf(R->getLocation());
    o["line"] = (int64_t)lineOf(R->getLocation());
    json::Array fs, bs, ms;
    if (inRoots(R->getLocation())) {
      for (auto *f : R->fields()) {
        json::Object k;
        k["name"] = f->getNameAsString();
        k["t"] = typeStr(f->getType());
        k["line"] = (int64_t)lineOf(f->getLocation());
        if (f->getType()->isReferenceType()) k["ref"] = true;
        if (f->getType()->isRecordType()) {
          k["rec"] = true;
          dumpRecord(f->getType()->getAsCXXRecordDecl());
        }
        if (auto *ED = f->getType()->getAs<EnumType>()) dumpEnum(ED->getDecl());
        fs.push_back(std::move(k));
      }
      for (auto &b : R->bases()) {
        if (auto *br = b.getType()->getAsCXXRecordDecl()) {
          bs.push_back(qual(br));
          dumpRecord(br);
        }
      }
      for (auto *m : R->methods()) {
        if (m->isImplicit()) continue;
        json::Object k;
        k["key"] = fnKey(m);
        k["name"] = m->getNameAsString();
        if (m->isVirtual()) k["virt"] = true;
        if (m->isPureVirtual()) k["pure"] = true;
        if (m->isConst()) k["const"] = true;
        k["access"] = m->getAccess() == AS_public ? "public" : (m->getAccess() == AS_protected ? "protected" : "private");
        k["ret"] = typeStr(m->getReturnType());
        ms.push_back(std::move(k));
      }
    }
    o["fields"] = std::move(fs);
    o["bases"] = std::move(bs);
    o["methods"] = std::move(ms);
    records.push_back(std::move(o));
  }

  void dumpEnum(const EnumDecl *E) {
    if (!E->getDefinition()) return;
    E = E->getDefinition();
    std::string q = typeStr(Ctx.getEnumType(E));
    if (!doneEnum.insert(q).second) return;
    json::Object o, vs;
    o["name"] = q;
    for (auto *c : E->enumerators())
      vs[c->getNameAsString()] = (int64_t)c->getInitVal().getExtValue();
    o["vals"] = std::move(vs);
    enums.push_back(std::move(o));
  }

  json::Value constVal(const Expr *E) {
    if (auto *IL = dyn_cast<InitListExpr>(E->IgnoreParenImpCasts())) {
      if (!IL->isSemanticForm() && IL->getSemanticForm()) IL = IL->getSemanticForm();
      json::Array a;
      for (auto *c : IL->inits()) a.push_back(constVal(c));
      if (IL->hasArrayFiller()) a.push_back("filler");
      return a;
    }
    if (auto *SL = dyn_cast<clang::StringLiteral>(E->IgnoreParenImpCasts()))
      if (SL->isOrdinary()) return json::fixUTF8(SL->getString());
    if (E->isValueDependent() || E->isTypeDependent()) return nullptr;
    Expr::EvalResult R;
    if (E->getType()->isIntegralOrEnumerationType() && E->EvaluateAsInt(R, Ctx) && R.Val.isInt())
      return (int64_t)R.Val.getInt().getExtValue();
    return nullptr;
  }

  void dumpGlobal(const VarDecl *V) {
    if (V->getDeclContext()->isDependentContext()) return;
    std::string q = plain(V);
    const VarDecl *D = V;
    const Expr *I = V->getAnyInitializer(D);
    std::string key = q + "#" + std::to_string(declId(V));
    if (!doneGlob.insert(key).second) return;
    json::Object o;
    o["name"] = q;
    o["d"] = declId(V);
    o["t"] = typeStr(V->getType());
    o["const"] = V->getType().isConstQualified() ||
                 (V->getType()->isArrayType() && Ctx.getBaseElementType(V->getType()).isConstQualified());
    if (I) o["val"] = constVal(I);
    globals.push_back(std::move(o));
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
  Dumper &D;
  Visitor(Dumper &d) : D(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isThisDeclarationADefinition() && D.inRoots(F->getLocation()) &&
        !F->isDependentContext())
      D.pending.push_back(F);
    return true;
  }
  bool VisitLambdaExpr(LambdaExpr *L) {
    if (D.inRoots(L->getBeginLoc()) && !L->getCallOperator()->isDependentContext())
      D.pending.push_back(L->getCallOperator());
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (R->isThisDeclarationADefinition() && D.inRoots(R->getLocation())) D.dumpRecord(R);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (D.inRoots(E->getLocation())) D.dumpEnum(E);
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (V->hasGlobalStorage() && D.inRoots(V->getLocation())) D.dumpGlobal(V);
    return true;
  }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Dumper D(C);
    Visitor V(D);
    V.TraverseDecl(C.getTranslationUnitDecl());
    while (!D.pending.empty()) {
      auto *F = D.pending.back();
      D.pending.pop_back();
      D.dumpFunction(F);
    }
    json::Object top;
    top["functions"] = std::move(D.functions);
    top["records"] = std::move(D.records);
    top["enums"] = std::move(D.enums);
    top["globals"] = std::move(D.globals);
    std::error_code ec;
    llvm::raw_fd_ostream os(outFile, ec);
    os << json::Value(std::move(top));
  }
};

class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
    return std::make_unique<Consumer>();
  }
};

// usage: wsx OUT.json ROOT[:ROOT...] FILE -- flags
int main(int argc, char **argv) {
  if (argc < 5) { llvm::errs() << "usage: wsx out roots file -- flags\n"; return 2; }
  outFile = argv[1];
  {
    std::string r = argv[2], cur;
    for (char c : r) { if (c == ':') { roots.push_back(cur); cur.clear(); } else cur += c; }
    if (!cur.empty()) roots.push_back(cur);
  }
  std::string file = argv[3];
  std::vector<std::string> args = {"clang++", "-fsyntax-only"};
  for (int i = 5; i < argc; ++i) args.push_back(argv[i]);
  args.push_back(file);
  llvm::IntrusiveRefCntPtr<FileManager> FM(new FileManager(FileSystemOptions()));
  tooling::ToolInvocation TI(args, std::make_unique<Action>(), FM.get());
  bool ok = TI.run();
  return ok ? 0 : 1;
}
