// fcx: dumps the type-checked bodies of every function defined under a source
// root as compact JSON.  Callees, fields, enumerators and variables are
// resolved by the compiler front end; macros are already expanded.
#include <map>
#include <set>
#include <string>
#include <vector>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Attr.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;

static std::string g_root;     // e.g. /repo/fcp/
static std::string g_out;
static std::set<std::string> g_deps;

namespace {

std::string Esc(llvm::StringRef s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

class Dumper {
 public:
  Dumper(ASTContext& c) : ctx(c), sm(c.getSourceManager()), pp(c.getLangOpts()) {
    pp.SuppressTagKeyword = true;
    pp.FullyQualifiedName = true;
    pp.PrintCanonicalTypes = true;
    pp.Bool = true;
  }
  ASTContext& ctx;
  SourceManager& sm;
  PrintingPolicy pp;
  std::map<const Decl*, int> ids;

  int Id(const Decl* d) {
    d = d->getCanonicalDecl();
    auto it = ids.find(d);
    if (it != ids.end()) return it->second;
    int n = ids.size() + 1;
    ids[d] = n;
    return n;
  }
  int Line(SourceLocation l) { return sm.getExpansionLineNumber(l); }
  std::string File(SourceLocation l) {
    auto e = sm.getExpansionLoc(l);
    auto fe = sm.getFileEntryForID(sm.getFileID(e));
    if (!fe) return "";
    llvm::StringRef p = fe->tryGetRealPathName();
    if (p.empty()) p = fe->getName();
    return p.str();
  }
  std::string Type(QualType t) {
    if (t.isNull()) return "?";
    return t.getCanonicalType().getAsString(pp);
  }
  std::string ShortType(QualType t) {  // written type, for diagnostics
    return Type(t);
  }
  std::string QName(const NamedDecl* d) {
    std::string s;
    llvm::raw_string_ostream os(s);
    // Qualified name without template arguments of enclosing classes.
    std::vector<std::string> parts;
    if (auto* cd = dyn_cast<CXXConstructorDecl>(d)) parts.push_back(cd->getParent()->getNameAsString());
    else if (auto* dd = dyn_cast<CXXDestructorDecl>(d)) parts.push_back("~" + dd->getParent()->getNameAsString());
    else parts.push_back(d->getNameAsString());
    for (const DeclContext* c = d->getDeclContext(); c; c = c->getParent()) {
      if (auto* ns = dyn_cast<NamespaceDecl>(c)) {
        if (ns->isInline()) continue;
        parts.push_back(ns->isAnonymousNamespace() ? "(anon)" : ns->getNameAsString());
      } else if (auto* rd = dyn_cast<RecordDecl>(c)) {
        parts.push_back(rd->getNameAsString().empty() ? "(anon)" : rd->getNameAsString());
      } else if (auto* ed = dyn_cast<EnumDecl>(c)) {
        parts.push_back(ed->getNameAsString());
      } else if (auto* fd = dyn_cast<FunctionDecl>(c)) {
        parts.push_back(fd->getNameAsString());
      }
    }
    for (auto it = parts.rbegin(); it != parts.rend(); ++it) {
      if (it != parts.rbegin()) os << "::";
      os << *it;
    }
    return os.str();
  }
  const FunctionDecl* Pattern(const FunctionDecl* f) {
    if (auto* p = f->getTemplateInstantiationPattern()) return p;
    return f;
  }
  std::string Key(const FunctionDecl* f) {
    f = Pattern(f);
    std::string s = QName(f) + "(";
    bool first = true;
    for (auto* p : f->parameters()) {
      if (!first) s += ",";
      first = false;
      s += Type(p->getType());
    }
    s += ")";
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) if (m->isConst()) s += "c";
    return s;
  }

  std::string Modes(const FunctionDecl* f, unsigned nargs) {
    std::string m;
    for (unsigned i = 0; i < nargs; ++i) {
      if (!f || i >= f->getNumParams()) { m += 'v'; continue; }
      m += ModeOf(f->getParamDecl(i)->getType());
    }
    return m;
  }
  char ModeOf(QualType t) {
    if (auto* r = t->getAs<RValueReferenceType>()) { (void)r; return 'm'; }
    if (t->isLValueReferenceType()) {
      return t->getPointeeType().isConstQualified() ? 'c' : 'r';
    }
    if (t->isPointerType()) {
      return t->getPointeeType().isConstQualified() || t->getPointeeType()->isFunctionType() ? 'v' : 'p';
    }
    return 'v';
  }

  const Expr* Strip(const Expr* e) {
    for (;;) {
      if (!e) return e;
      if (auto* x = dyn_cast<ParenExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<ImplicitCastExpr>(e)) {
        if (x->getCastKind() == CK_PointerToBoolean || x->getCastKind() == CK_IntegralToBoolean ||
            x->getCastKind() == CK_MemberPointerToBoolean) return e;
        e = x->getSubExpr(); continue;
      }
      if (auto* x = dyn_cast<FullExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = x->getReplacement(); continue; }
      if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) { e = x->getSubExpr(); continue; }
      return e;
    }
  }

  std::string Args(llvm::ArrayRef<const Expr*> as) {
    std::string s = "[";
    bool first = true;
    for (auto* a : as) {
      if (isa<PackExpansionExpr>(a)) {}
      if (!first) s += ",";
      first = false;
      s += E(a);
    }
    return s + "]";
  }

  std::string IntConst(const Expr* e) {
    if (e->isValueDependent() || !e->getType()->isIntegralOrEnumerationType()) return "";
    Expr::EvalResult r;
    if (e->EvaluateAsInt(r, ctx, Expr::SE_NoSideEffects)) {
      llvm::SmallString<32> b;
      r.Val.getInt().toString(b, 10);
      return b.str().str();
    }
    return "";
  }

  bool InStdMove(const FunctionDecl* f) {
    if (!f) return false;
    if (!f->getDeclName().isIdentifier()) return false;
    auto n = f->getName();
    if (n != "move" && n != "forward") return false;
    return f->isInStdNamespace() || QName(f).rfind("absl::", 0) == 0;
  }

  std::string Call(const CallExpr* c) {
    int ln = Line(c->getBeginLoc());
    const FunctionDecl* fd = c->getDirectCallee();
    if (auto* oc = dyn_cast<CXXOperatorCallExpr>(c)) {
      std::string op = getOperatorSpelling(oc->getOperator());
      auto k = oc->getOperator();
      auto A = [&](unsigned i) { return E(oc->getArg(i)); };
      std::string fq = fd ? Key(fd) : "";
      switch (k) {
        case OO_EqualEqual: case OO_ExclaimEqual: case OO_Less: case OO_LessEqual:
        case OO_Greater: case OO_GreaterEqual: case OO_Percent: case OO_Slash:
        case OO_Caret: case OO_Pipe:
          return "[\"op\"," + Esc(op) + "," + A(0) + "," + A(1) + "," + std::to_string(ln) + "," + Esc(Type(oc->getType())) + "]";
        case OO_Plus: case OO_Minus: case OO_Star: case OO_Amp:
          if (oc->getNumArgs() == 2)
            return "[\"op\"," + Esc(op) + "," + A(0) + "," + A(1) + "," + std::to_string(ln) + "," + Esc(Type(oc->getType())) + "]";
          if (k == OO_Star) return "[\"deref\"," + A(0) + "," + std::to_string(ln) + "," + Esc(Type(oc->getArg(0)->getType())) + "]";
          if (k == OO_Amp) return "[\"addr\"," + A(0) + "]";
          return "[\"un\"," + Esc(op) + "," + A(0) + "]";
        case OO_Arrow:
          return "[\"deref\"," + A(0) + "," + std::to_string(ln) + "," + Esc(Type(oc->getArg(0)->getType())) + "]";
        case OO_Exclaim:
          return "[\"un\",\"!\"," + A(0) + "]";
        case OO_Subscript:
          return "[\"idx\"," + A(0) + "," + A(1) + "," + std::to_string(ln) + "," + Esc(Type(oc->getArg(0)->getType())) + "]";
        case OO_Equal:
          return "[\"asg\",\"=\"," + A(0) + "," + A(1) + "," + std::to_string(ln) + "]";
        case OO_PlusEqual: case OO_MinusEqual: case OO_StarEqual: case OO_SlashEqual:
        case OO_PipeEqual: case OO_AmpEqual: case OO_CaretEqual: case OO_PercentEqual:
        case OO_LessLessEqual: case OO_GreaterGreaterEqual:
          return "[\"asg\"," + Esc(op) + "," + A(0) + "," + A(1) + "," + std::to_string(ln) + "]";
        case OO_PlusPlus: case OO_MinusMinus:
          return std::string("[\"asg\",") + (k == OO_PlusPlus ? "\"+=\"" : "\"-=\"") + "," + A(0) + ",[\"int\",1]," + std::to_string(ln) + "," + (oc->getNumArgs() == 2 ? "1" : "0") + "]";
        default: break;
      }
    }
    if (fd && InStdMove(fd) && c->getNumArgs() == 1) return "[\"move\"," + E(c->getArg(0)) + "]";
    std::vector<const Expr*> args(c->arg_begin(), c->arg_end());
    std::string recv = "null";
    unsigned flags = 0;
    unsigned skip = 0;
    std::string recvType = "";
    if (auto* mc = dyn_cast<CXXMemberCallExpr>(c)) {
      if (auto* o = mc->getImplicitObjectArgument()) {
        if (fd) if (auto* cd = dyn_cast<CXXConversionDecl>(fd)) {
          return "[\"conv\"," + Esc(Type(cd->getConversionType())) + "," + E(o) + "," + std::to_string(ln) + "," + Esc(Type(o->getType())) + "]";
        }
        recv = E(o);
        recvType = Type(o->getType());
      }
      auto* me = dyn_cast<MemberExpr>(mc->getCallee()->IgnoreParens());
      if (me) if (auto* md = dyn_cast<CXXMethodDecl>(me->getMemberDecl())) {
        if (md->isVirtual() && !me->hasQualifier()) flags |= 2;
      }
    } else if (isa<CXXOperatorCallExpr>(c) && fd && isa<CXXMethodDecl>(fd)) {
      recv = E(args[0]);
      recvType = Type(args[0]->getType());
      skip = 1;
    }
    std::vector<const Expr*> rest(args.begin() + skip, args.end());
    if (!fd) {
      const Expr* callee = Strip(c->getCallee());
      if (auto* ul = dyn_cast<UnresolvedLookupExpr>(callee)) {
        return "[\"call\"," + Esc("?" + ul->getName().getAsString()) + ",null," + Args(rest) + "," + std::to_string(ln) + ",0,\"?\",\"\",\"\",\"\"]";
      }
      if (auto* dm = dyn_cast<CXXDependentScopeMemberExpr>(callee)) {
        std::string b = dm->isImplicitAccess() ? "[\"this\"]" : E(dm->getBase());
        return "[\"call\"," + Esc("?" + dm->getMember().getAsString()) + "," + b + "," + Args(rest) + "," + std::to_string(ln) + ",0,\"?\",\"\",\"\",\"\"]";
      }
      if (auto* um = dyn_cast<UnresolvedMemberExpr>(callee)) {
        std::string b = um->isImplicitAccess() ? "[\"this\"]" : E(um->getBase());
        return "[\"call\"," + Esc("?" + um->getMemberName().getAsString()) + "," + b + "," + Args(rest) + "," + std::to_string(ln) + ",0,\"?\",\"\",\"\",\"\"]";
      }
      return "[\"icall\"," + E(callee) + "," + Args(rest) + "," + std::to_string(ln) + "]";
    }
    if (auto* m = dyn_cast<CXXMethodDecl>(fd)) {
      if (m->isConst()) flags |= 1;
      if (m->isStatic()) flags |= 4;
    }
    if (fd->isNoReturn()) flags |= 8;
    std::string targs;
    if (auto* ta = fd->getTemplateSpecializationArgs()) {
      for (auto& a : ta->asArray()) {
        if (a.getKind() == TemplateArgument::Integral) {
          llvm::SmallString<16> b; a.getAsIntegral().toString(b, 10);
          targs += "<" + b.str().str() + ">";
          break;
        }
        // Which alternative of a variant a call is about.
        if (a.getKind() == TemplateArgument::Type && fd->isInStdNamespace() && fd->getIdentifier() &&
            (fd->getName() == "holds_alternative" || fd->getName() == "get" || fd->getName() == "get_if")) {
          if (auto* rd = a.getAsType()->getAsCXXRecordDecl()) targs += "<" + rd->getNameAsString() + ">";
        }
        break;
      }
    }
    return "[\"call\"," + Esc(QName(fd) + targs) + "," + recv + "," + Args(rest) + "," + std::to_string(ln) + "," +
           std::to_string(flags) + "," + Esc(Type(fd->getReturnType())) + "," + Esc(Key(fd)) + "," +
           Esc(Modes(fd, rest.size())) + "," + Esc(recvType) + "]";
  }

  std::string E(const Expr* e0) {
    const Expr* e = Strip(e0);
    if (!e) return "null";
    if (auto* x = dyn_cast<IntegerLiteral>(e)) {
      llvm::SmallString<32> b; x->getValue().toString(b, 10, x->getType()->isSignedIntegerType());
      return "[\"int\"," + b.str().str() + "]";
    }
    if (auto* x = dyn_cast<CharacterLiteral>(e)) return "[\"int\"," + std::to_string(x->getValue()) + "]";
    if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) return x->getValue() ? "[\"bool\",1]" : "[\"bool\",0]";
    if (auto* x = dyn_cast<FloatingLiteral>(e)) {
      llvm::SmallString<32> b; x->getValue().toString(b);
      return "[\"float\"," + Esc(b.str()) + "]";
    }
    if (auto* x = dyn_cast<StringLiteral>(e)) return "[\"str\"," + Esc(x->getBytes()) + "]";
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) return "[\"null\"]";
    if (isa<CXXThisExpr>(e)) return "[\"this\"]";
    if (auto* x = dyn_cast<ImplicitCastExpr>(e)) {
      if (x->getCastKind() == CK_IntegralToBoolean) {
        if (x->getSubExpr()->getType()->isBooleanType()) return E(x->getSubExpr());
        std::string sub = E(x->getSubExpr());
        return "[\"op\",\"!=\"," + sub + ",[\"int\",0]," + std::to_string(Line(x->getBeginLoc())) + ",\"bool\"]";
      }
      return "[\"has\"," + E(x->getSubExpr()) + "]";
    }
    if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) return E(x->getExpr());
    if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) return x->getExpr() ? E(x->getExpr()) : "[\"default\"]";
    if (auto* x = dyn_cast<DeclRefExpr>(e)) {
      const ValueDecl* d = x->getDecl();
      if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
        llvm::SmallString<32> b; ec->getInitVal().toString(b, 10);
        return "[\"enum\"," + Esc(QName(ec)) + "," + b.str().str() + "]";
      }
      if (auto* v = dyn_cast<VarDecl>(d)) {
        if (v->isLocalVarDeclOrParm() && !v->isStaticLocal())
          return "[\"var\"," + Esc(v->getNameAsString()) + "," + std::to_string(Id(v)) + "]";
        std::string c = (v->getType().isConstQualified() || v->isConstexpr()) ? IntConst(e) : "";
        return "[\"gvar\"," + Esc(QName(v)) + "," + (c.empty() ? "null" : c) + "," + Esc(Type(v->getType())) + "]";
      }
      if (auto* b = dyn_cast<BindingDecl>(d))
        return "[\"var\"," + Esc(b->getNameAsString()) + "," + std::to_string(Id(b)) + "]";
      if (auto* f = dyn_cast<FunctionDecl>(d))
        return "[\"fn\"," + Esc(QName(f)) + "," + Esc(Key(f)) + "]";
      return "[\"unk\"," + Esc(d->getNameAsString()) + ",[]]";
    }
    if (auto* x = dyn_cast<MemberExpr>(e)) {
      const ValueDecl* d = x->getMemberDecl();
      if (auto* f = dyn_cast<FieldDecl>(d))
        return "[\"fld\"," + Esc(QName(f)) + "," + E(x->getBase()) + "," + std::to_string(Line(x->getMemberLoc())) + "]";
      if (auto* v = dyn_cast<VarDecl>(d)) {
        std::string c = IntConst(e);
        return "[\"gvar\"," + Esc(QName(v)) + "," + (c.empty() ? "null" : c) + "," + Esc(Type(v->getType())) + "]";
      }
      if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
        llvm::SmallString<32> b; ec->getInitVal().toString(b, 10);
        return "[\"enum\"," + Esc(QName(ec)) + "," + b.str().str() + "]";
      }
      return "[\"fn\"," + Esc(QName(d)) + ",\"\"]";
    }
    if (auto* x = dyn_cast<CallExpr>(e)) return Call(x);
    if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
      auto* cd = x->getConstructor();
      if (cd->isCopyOrMoveConstructor() && x->getNumArgs() >= 1) return E(x->getArg(0));
      std::vector<const Expr*> as(x->arg_begin(), x->arg_end());
      return "[\"ctor\"," + Esc(QName(cd->getParent())) + "," + Args(as) + "," + std::to_string(Line(x->getBeginLoc())) +
             "," + Esc(Type(x->getType())) + "," + Esc(Modes(cd, as.size())) + "," + Esc(Key(cd)) + "]";
    }
    if (auto* x = dyn_cast<CXXFunctionalCastExpr>(e)) {
      if (x->getType()->isRecordType()) return E(x->getSubExpr());
      return "[\"cast\"," + Esc(Type(x->getType())) + "," + E(x->getSubExpr()) + "," + Esc(Type(x->getSubExpr()->getType())) + "]";
    }
    if (auto* x = dyn_cast<ExplicitCastExpr>(e)) {
      if (x->getType()->isRecordType() || x->getType()->isReferenceType() ) {
        return E(x->getSubExpr());
      }
      return "[\"cast\"," + Esc(Type(x->getType())) + "," + E(x->getSubExpr()) + "," + Esc(Type(x->getSubExpr()->getType())) + "]";
    }
    if (auto* x = dyn_cast<UnaryOperator>(e)) {
      std::string s = E(x->getSubExpr());
      switch (x->getOpcode()) {
        case UO_PostInc: case UO_PreInc: return "[\"asg\",\"+=\"," + s + ",[\"int\",1]," + std::to_string(Line(x->getBeginLoc())) + (x->isPostfix() ? ",1]" : ",0]");
        case UO_PostDec: case UO_PreDec: return "[\"asg\",\"-=\"," + s + ",[\"int\",1]," + std::to_string(Line(x->getBeginLoc())) + (x->isPostfix() ? ",1]" : ",0]");
        case UO_AddrOf: return "[\"addr\"," + s + "]";
        case UO_Deref: return "[\"deref\"," + s + "," + std::to_string(Line(x->getBeginLoc())) + "," + Esc(Type(x->getSubExpr()->getType())) + "]";
        case UO_LNot: return "[\"un\",\"!\"," + s + "]";
        case UO_Extension: return s;
        case UO_Minus: { auto c = IntConst(e); if (!c.empty()) return "[\"int\"," + c + "]"; return "[\"un\",\"-\"," + s + "]"; }
        default: return "[\"un\"," + Esc(UnaryOperator::getOpcodeStr(x->getOpcode())) + "," + s + "]";
      }
    }
    if (auto* x = dyn_cast<BinaryOperator>(e)) {
      std::string l = E(x->getLHS()), r = E(x->getRHS());
      std::string ln = std::to_string(Line(x->getBeginLoc()));
      if (x->isAssignmentOp()) return "[\"asg\"," + Esc(x->getOpcodeStr()) + "," + l + "," + r + "," + ln + "]";
      if (x->getOpcode() == BO_LAnd) return "[\"and\"," + l + "," + r + "]";
      if (x->getOpcode() == BO_LOr) return "[\"or\"," + l + "," + r + "]";
      if (x->getOpcode() == BO_Comma) return "[\"comma\"," + l + "," + r + "]";
      return "[\"op\"," + Esc(x->getOpcodeStr()) + "," + l + "," + r + "," + ln + "," + Esc(Type(x->getType())) + "]";
    }
    if (auto* x = dyn_cast<ConditionalOperator>(e))
      return "[\"cond\"," + E(x->getCond()) + "," + E(x->getTrueExpr()) + "," + E(x->getFalseExpr()) + "]";
    if (auto* x = dyn_cast<ArraySubscriptExpr>(e))
      return "[\"idx\"," + E(x->getBase()) + "," + E(x->getIdx()) + "," + std::to_string(Line(x->getBeginLoc())) + "," + Esc(Type(x->getBase()->getType())) + "]";
    if (auto* x = dyn_cast<CXXNewExpr>(e))
      return "[\"new\"," + Esc(Type(x->getAllocatedType())) + "," + (x->getInitializer() ? E(x->getInitializer()) : "null") + "," + std::to_string(Line(x->getBeginLoc())) + "]";
    if (auto* x = dyn_cast<CXXDeleteExpr>(e)) return "[\"delete\"," + E(x->getArgument()) + "," + std::to_string(Line(x->getBeginLoc())) + "]";
    if (auto* x = dyn_cast<LambdaExpr>(e)) {
      std::string s = "[\"lambda\"," + std::to_string(Id(x->getCallOperator())) + ",[";
      bool first = true;
      auto ii = x->capture_init_begin();
      for (auto c = x->capture_begin(); c != x->capture_end(); ++c, ++ii) {
        if (!first) s += ",";
        first = false;
        if (c->capturesThis()) { s += "[\"this\",0,\"this\",null]"; continue; }
        if (!c->capturesVariable()) { s += "[\"?\",0,\"?\",null]"; continue; }
        auto* v = c->getCapturedVar();
        bool ic = isa<VarDecl>(v) && x->isInitCapture(&*c);
        s += "[" + Esc(v->getNameAsString()) + "," + std::to_string(Id(v)) + "," +
             (c->getCaptureKind() == LCK_ByRef ? "\"r\"" : "\"c\"") + "," +
             (ic ? E(cast<VarDecl>(v)->getInit()) : "null") + "]";
      }
      s += "]," + Params(x->getCallOperator()) + "," + S(x->getBody()) + "," + std::to_string(Line(x->getBeginLoc())) + "]";
      return s;
    }
    if (auto* x = dyn_cast<InitListExpr>(e)) {
      const InitListExpr* il = x->getSemanticForm() ? x->getSemanticForm() : x;
      std::string s = "[\"list\"," + Esc(Type(il->getType())) + ",[";
      for (unsigned i = 0; i < il->getNumInits(); ++i) { if (i) s += ","; s += E(il->getInit(i)); }
      s += "],[";
      if (auto* rt = il->getType()->getAs<RecordType>()) {
        bool first = true;
        for (auto* f : rt->getDecl()->fields()) { if (!first) s += ","; first = false; s += Esc(QName(f)); }
      }
      return s + "]," + std::to_string(Line(x->getBeginLoc())) + "]";
    }
    if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
      auto c = IntConst(x);
      return "[\"sizeof\"," + (c.empty() ? "null" : c) + "," + Esc(Type(x->getTypeOfArgument())) + "]";
    }
    if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) return "[\"zero\"," + Esc(Type(e->getType())) + "]";
    if (auto* x = dyn_cast<CXXThrowExpr>(e)) return "[\"throw\"," + (x->getSubExpr() ? E(x->getSubExpr()) : std::string("null")) + "]";
    if (auto* x = dyn_cast<PredefinedExpr>(e)) { (void)x; return "[\"str\",\"__func__\"]"; }
    if (auto* x = dyn_cast<OpaqueValueExpr>(e)) { if (x->getSourceExpr()) return E(x->getSourceExpr()); return "[\"unk\",\"opaque\",[]]"; }
    if (auto* x = dyn_cast<CXXDependentScopeMemberExpr>(e)) {
      std::string b = x->isImplicitAccess() ? "[\"this\"]" : E(x->getBase());
      return "[\"fld\"," + Esc("?::" + x->getMember().getAsString()) + "," + b + "," + std::to_string(Line(x->getMemberLoc())) + "]";
    }
    if (auto* x = dyn_cast<CXXUnresolvedConstructExpr>(e)) {
      std::vector<const Expr*> as(x->arg_begin(), x->arg_end());
      return "[\"ctor\"," + Esc(Type(x->getTypeAsWritten())) + "," + Args(as) + "," + std::to_string(Line(x->getBeginLoc())) + ",\"?\",\"\",\"\"]";
    }
    if (auto* x = dyn_cast<ParenListExpr>(e)) {
      if (x->getNumExprs() == 1) return E(x->getExpr(0));
      std::string s = "[\"list\",\"?\",[";
      for (unsigned i = 0; i < x->getNumExprs(); ++i) { if (i) s += ","; s += E(x->getExpr(i)); }
      return s + "],[],0]";
    }
    if (auto* x = dyn_cast<StmtExpr>(e)) { (void)x; return "[\"unk\",\"stmtexpr\",[]]"; }
    // Anything else: keep children so data flow is not lost.
    std::string s = "[\"unk\"," + Esc(e->getStmtClassName()) + ",[";
    bool first = true;
    for (auto* c : e->children()) {
      if (auto* ce = dyn_cast_or_null<Expr>(c)) { if (!first) s += ","; first = false; s += E(ce); }
    }
    return s + "]]";
  }

  std::string Params(const FunctionDecl* f) {
    std::string s = "[";
    bool first = true;
    for (auto* p : f->parameters()) {
      if (!first) s += ",";
      first = false;
      s += "[" + std::to_string(Id(p)) + "," + Esc(p->getNameAsString()) + "," + Esc(Type(p->getType())) + ",\"" + ModeOf(p->getType()) + "\"]";
    }
    return s + "]";
  }

  std::string VarStmt(const VarDecl* v) {
    std::string st = !v->isStaticLocal() ? "0" : v->getTLSKind() != VarDecl::TLS_None ? "2" : "1";
    if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
      std::string s = "[\"decomp\"," + std::to_string(Line(v->getBeginLoc())) + ",[";
      bool first = true;
      for (auto* b : dd->bindings()) {
        if (!first) s += ",";
        first = false;
        s += "[" + std::to_string(Id(b)) + "," + Esc(b->getNameAsString()) + "]";
      }
      return s + "]," + (v->getInit() ? E(v->getInit()) : "null") + "]";
    }
    return "[\"decl\"," + std::to_string(Line(v->getBeginLoc())) + "," + std::to_string(Id(v)) + "," + Esc(v->getNameAsString()) + "," +
           Esc(Type(v->getType())) + "," + (v->getInit() ? E(v->getInit()) : "null") + "," + st + "," + Esc(v->isStaticLocal() ? QName(v) : std::string()) + "]";
  }

  std::string S(const Stmt* s) {
    if (!s) return "null";
    std::string ln = std::to_string(Line(s->getBeginLoc()));
    if (auto* x = dyn_cast<CompoundStmt>(s)) {
      std::string r = "[\"block\",[";
      bool first = true;
      for (auto* c : x->body()) { if (!first) r += ","; first = false; r += S(c); }
      return r + "]," + std::to_string(Line(x->getRBracLoc())) + "]";
    }
    if (auto* x = dyn_cast<DeclStmt>(s)) {
      std::vector<std::string> ds;
      for (auto* d : x->decls()) if (auto* v = dyn_cast<VarDecl>(d)) ds.push_back(VarStmt(v));
      if (ds.size() == 1) return ds[0];
      std::string r = "[\"seq\",[";
      for (size_t i = 0; i < ds.size(); ++i) { if (i) r += ","; r += ds[i]; }
      return r + "]]";
    }
    if (auto* x = dyn_cast<IfStmt>(s)) {
      return "[\"if\"," + ln + "," + (x->getInit() ? S(x->getInit()) : "null") + "," +
             (x->getConditionVariable() ? VarStmt(x->getConditionVariable()) : "null") + "," + E(x->getCond()) + "," +
             S(x->getThen()) + "," + S(x->getElse()) + (x->isConstexpr() ? ",1]" : ",0]");
    }
    if (auto* x = dyn_cast<WhileStmt>(s))
      return "[\"while\"," + ln + "," + (x->getConditionVariable() ? VarStmt(x->getConditionVariable()) : "null") + "," + E(x->getCond()) + "," + S(x->getBody()) + "]";
    if (auto* x = dyn_cast<DoStmt>(s)) return "[\"do\"," + ln + "," + S(x->getBody()) + "," + E(x->getCond()) + "]";
    if (auto* x = dyn_cast<ForStmt>(s))
      return "[\"for\"," + ln + "," + S(x->getInit()) + "," + (x->getCond() ? E(x->getCond()) : "null") + "," + (x->getInc() ? E(x->getInc()) : "null") + "," + S(x->getBody()) + "]";
    if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
      const VarDecl* v = x->getLoopVariable();
      std::string b = "[";
      if (auto* dd = dyn_cast_or_null<DecompositionDecl>(v)) {
        bool first = true;
        for (auto* bd : dd->bindings()) { if (!first) b += ","; first = false; b += "[" + std::to_string(Id(bd)) + "," + Esc(bd->getNameAsString()) + "]"; }
      }
      b += "]";
      return "[\"rfor\"," + ln + "," + (v ? std::to_string(Id(v)) : "0") + "," + Esc(v ? v->getNameAsString() : "") + "," + Esc(v ? Type(v->getType()) : "") + "," +
             E(x->getRangeInit()) + "," + S(x->getBody()) + "," + b + "]";
    }
    if (auto* x = dyn_cast<SwitchStmt>(s))
      return "[\"switch\"," + ln + "," + (x->getConditionVariable() ? VarStmt(x->getConditionVariable()) : (x->getInit() ? S(x->getInit()) : "null")) + "," + E(x->getCond()) + "," + S(x->getBody()) + "," + Esc(Type(x->getCond()->IgnoreImpCasts()->getType())) + "]";
    if (auto* x = dyn_cast<CaseStmt>(s)) return "[\"case\"," + ln + "," + E(x->getLHS()) + "," + S(x->getSubStmt()) + "]";
    if (auto* x = dyn_cast<DefaultStmt>(s)) return "[\"default\"," + ln + "," + S(x->getSubStmt()) + "]";
    if (auto* x = dyn_cast<ReturnStmt>(s)) return "[\"ret\"," + ln + "," + (x->getRetValue() ? E(x->getRetValue()) : "null") + "]";
    if (isa<BreakStmt>(s)) return "[\"break\"," + ln + "]";
    if (isa<ContinueStmt>(s)) return "[\"continue\"," + ln + "]";
    if (isa<NullStmt>(s)) return "null";
    if (auto* x = dyn_cast<AttributedStmt>(s)) return S(x->getSubStmt());
    if (auto* x = dyn_cast<LabelStmt>(s)) return S(x->getSubStmt());
    if (auto* x = dyn_cast<CXXTryStmt>(s)) {
      std::string r = "[\"try\"," + ln + "," + S(x->getTryBlock()) + ",[";
      for (unsigned i = 0; i < x->getNumHandlers(); ++i) { if (i) r += ","; r += S(x->getHandler(i)->getHandlerBlock()); }
      return r + "]]";
    }
    if (auto* x = dyn_cast<Expr>(s)) return "[\"expr\"," + ln + "," + E(x) + "]";
    return "[\"unkstmt\"," + ln + "," + Esc(s->getStmtClassName()) + "]";
  }

  std::string Pretty(const Expr* e) {
    std::string s;
    llvm::raw_string_ostream os(s);
    e->printPretty(os, nullptr, PrintingPolicy(ctx.getLangOpts()));
    return os.str();
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
 public:
  Visitor(ASTContext& c, llvm::raw_ostream& o) : d(c), os(o) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }

  bool InRoot(SourceLocation l) {
    if (l.isInvalid()) return false;
    std::string f = d.File(l);
    return f.rfind(g_root, 0) == 0;
  }

  bool VisitFunctionDecl(FunctionDecl* f) {
    if (!f->doesThisDeclarationHaveABody() || f->isImplicit()) return true;
    if (f->isDefaulted()) return true;
    if (!InRoot(f->getLocation())) return true;
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) return true;
    std::string file = d.File(f->getLocation());
    int line = d.Line(f->getLocation());
    std::string locKey = file + ":" + std::to_string(line) + ":" + std::to_string(d.sm.getExpansionColumnNumber(f->getLocation()));
    bool dep = f->isDependentContext();
    std::string& slot = dep ? patterns[locKey] : funcs[locKey];
    if (!slot.empty()) return true;
    std::string s = "{\"key\":" + Esc(d.Key(f)) + ",\"name\":" + Esc(d.QName(f)) + ",\"file\":" + Esc(file) +
                    ",\"line\":" + std::to_string(line) + ",\"end\":" + std::to_string(d.Line(f->getEndLoc())) +
                    ",\"ret\":" + Esc(d.Type(f->getReturnType())) + ",\"params\":" + d.Params(f) +
                    ",\"dep\":" + (dep ? "true" : "false");
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      s += ",\"cls\":" + Esc(d.QName(m->getParent())) + ",\"const\":" + (m->isConst() ? "true" : "false") +
           ",\"static\":" + (m->isStatic() ? "true" : "false") + ",\"virtual\":" + (m->isVirtual() ? "true" : "false") +
           ",\"access\":" + std::to_string((int)m->getAccess());
      s += ",\"overrides\":[";
      bool first = true;
      for (auto* o : m->overridden_methods()) { if (!first) s += ","; first = false; s += Esc(d.QName(o)); }
      s += "]";
    } else {
      s += ",\"cls\":\"\"";
    }
    s += ",\"kind\":\"" + std::string(isa<CXXConstructorDecl>(f) ? "ctor" : isa<CXXDestructorDecl>(f) ? "dtor" : "fn") + "\"";
    std::string req, excl, nots = "false";
    for (const FunctionDecl* r = f; r; r = r->getPreviousDecl()) {
      for (auto* a : r->attrs()) {
        if (auto* x = dyn_cast<RequiresCapabilityAttr>(a))
          for (auto* e : x->args()) { if (!req.empty()) req += ","; req += Esc(d.Pretty(e)); }
        if (auto* x = dyn_cast<LocksExcludedAttr>(a))
          for (auto* e : x->args()) { if (!excl.empty()) excl += ","; excl += Esc(d.Pretty(e)); }
        if (isa<NoThreadSafetyAnalysisAttr>(a)) nots = "true";
      }
    }
    s += ",\"req\":[" + req + "],\"excl\":[" + excl + "],\"notsa\":" + nots;
    if (auto* cd = dyn_cast<CXXConstructorDecl>(f)) {
      s += ",\"inits\":[";
      bool first = true;
      for (auto* i : cd->inits()) {
        if (!i->isWritten() && !i->isInClassMemberInitializer()) continue;
        if (!first) s += ",";
        first = false;
        if (i->isAnyMemberInitializer()) s += "[" + Esc(d.QName(i->getAnyMember())) + "," + d.E(i->getInit()) + "]";
        else s += "[\"~base\"," + d.E(i->getInit()) + "]";
      }
      s += "]";
    }
    s += ",\"body\":" + d.S(f->getBody()) + "}";
    slot = s;
    return true;
  }

  bool VisitCXXRecordDecl(CXXRecordDecl* r) {
    if (!r->isThisDeclarationADefinition() || r->isLambda() || r->isImplicit()) return true;
    if (!InRoot(r->getLocation())) return true;
    std::string key = d.File(r->getLocation()) + ":" + std::to_string(d.Line(r->getLocation()));
    if (classes.count(key)) return true;
    std::string s = "{\"name\":" + Esc(d.QName(r)) + ",\"file\":" + Esc(d.File(r->getLocation())) + ",\"line\":" + std::to_string(d.Line(r->getLocation())) + ",\"bases\":[";
    bool first = true;
    for (auto& b : r->bases()) { if (!first) s += ","; first = false; s += Esc(d.Type(b.getType())); }
    s += "],\"fields\":[";
    first = true;
    for (auto* f : r->fields()) {
      if (!first) s += ",";
      first = false;
      std::string g;
      for (auto* a : f->attrs()) {
        if (auto* x = dyn_cast<GuardedByAttr>(a)) g = d.Pretty(x->getArg());
        if (auto* x = dyn_cast<PtGuardedByAttr>(a)) g = d.Pretty(x->getArg());
      }
      s += "[" + Esc(f->getNameAsString()) + "," + Esc(d.Type(f->getType())) + "," + Esc(g) + "," + std::to_string(d.Line(f->getLocation())) + "," + std::to_string((int)f->getAccess()) + "," + (f->hasInClassInitializer() && f->getInClassInitializer() ? d.E(f->getInClassInitializer()) : "null") + "]";
    }
    s += "],\"methods\":[";
    first = true;
    for (auto* m : r->methods()) {
      if (m->isImplicit()) continue;
      if (!first) s += ",";
      first = false;
      std::string a;
      for (auto* at : m->attrs()) if (auto* x = dyn_cast<RequiresCapabilityAttr>(at)) for (auto* e : x->args()) { if (!a.empty()) a += ","; a += Esc(d.Pretty(e)); }
      s += "[" + Esc(m->getNameAsString()) + "," + std::to_string((int)m->getAccess()) + "," + (m->isPureVirtual() ? "1" : "0") + "," + (m->isDeleted() ? "1" : "0") + "," + (m->isDefaulted() ? "1" : "0") + "," + Esc(d.Key(m)) + ",[" + a + "]]";
    }
    s += "]}";
    classes[key] = s;
    return true;
  }

  bool VisitEnumDecl(EnumDecl* e) {
    if (!e->isThisDeclarationADefinition()) return true;
    std::string f = d.File(e->getLocation());
    if (f.rfind(g_root, 0) != 0 && f.find("/gen/") == std::string::npos && f.find("fcp/") == std::string::npos) return true;
    std::string n = d.QName(e);
    if (enums.count(n) && (e->isDependentContext() || !depEnums.count(n))) return true;
    if (e->isDependentContext()) depEnums.insert(n); else depEnums.erase(n);
    std::string s = "[";
    bool first = true;
    for (auto* c : e->enumerators()) {
      if (!first) s += ",";
      first = false;
      llvm::SmallString<32> b; c->getInitVal().toString(b, 10);
      s += "[" + Esc(c->getNameAsString()) + "," + b.str().str() + "]";
    }
    enums[n] = s + "]";
    return true;
  }

  bool VisitVarDecl(VarDecl* v) {
    if (!v->hasGlobalStorage() || v->isStaticLocal() || !v->hasInit() || !InRoot(v->getLocation())) return true;
    if (v->getDeclContext()->isDependentContext()) return true;
    std::string n = d.QName(v);
    if (globals.count(n)) return true;
    if (v->getInit()->isValueDependent()) return true;
    globals[n] = "[" + Esc(d.Type(v->getType())) + "," + d.E(v->getInit()) + "," + Esc(d.File(v->getLocation())) + "," + std::to_string(d.Line(v->getLocation())) + "," + (v->getTLSKind() != VarDecl::TLS_None ? "1" : "0") + "]";
    return true;
  }

  void Finish(const std::string& mainFile, int errors) {
    os << "{\"main\":" << Esc(mainFile) << ",\"errors\":" << errors << ",\n\"funcs\":[\n";
    bool first = true;
    for (auto& kv : funcs) { if (!first) os << ",\n"; first = false; os << kv.second; }
    for (auto& kv : patterns) if (!funcs.count(kv.first)) { if (!first) os << ",\n"; first = false; os << kv.second; }
    os << "],\n\"classes\":[\n";
    first = true;
    for (auto& kv : classes) { if (!first) os << ",\n"; first = false; os << kv.second; }
    os << "],\n\"enums\":{";
    first = true;
    for (auto& kv : enums) { if (!first) os << ",\n"; first = false; os << Esc(kv.first) << ":" << kv.second; }
    os << "},\n\"globals\":{";
    first = true;
    for (auto& kv : globals) { if (!first) os << ",\n"; first = false; os << Esc(kv.first) << ":" << kv.second; }
    os << "},\n\"deps\":[";
    std::set<std::string> deps;
    for (auto it = d.sm.fileinfo_begin(); it != d.sm.fileinfo_end(); ++it) {
      llvm::StringRef p = it->first.getFileEntry().tryGetRealPathName();
      if (!p.empty()) deps.insert(p.str());
    }
    first = true;
    for (auto& p : deps) { if (!first) os << ","; first = false; os << Esc(p); }
    os << "]}\n";
  }

  Dumper d;
  llvm::raw_ostream& os;
  std::map<std::string, std::string> funcs, patterns, classes, enums, globals;
  std::set<std::string> depEnums;
};

class Consumer : public ASTConsumer {
 public:
  Consumer(CompilerInstance& ci, std::string f) : ci(ci), file(f) {}
  void HandleTranslationUnit(ASTContext& ctx) override {
    std::error_code ec;
    llvm::raw_fd_ostream os(g_out, ec);
    Visitor v(ctx, os);
    v.TraverseDecl(ctx.getTranslationUnitDecl());
    v.Finish(file, ci.getDiagnostics().getClient()->getNumErrors());
  }
  CompilerInstance& ci;
  std::string file;
};

class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, llvm::StringRef f) override {
    return std::make_unique<Consumer>(ci, f.str());
  }
};

}  // namespace

// usage: fcx ROOT OUT FILE -- clang-args...
int main(int argc, const char** argv) {
  if (argc < 5) { llvm::errs() << "usage: fcx ROOT OUT FILE -- args\n"; return 3; }
  g_root = argv[1];
  g_out = argv[2];
  std::vector<std::string> args;
  for (int i = 5; i < argc; ++i) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", args);
  tooling::ClangTool tool(db, {argv[3]});
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
