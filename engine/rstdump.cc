// rstdump: dumps the type-checked program of one translation unit (functions
// with their clang CFGs, resolved callees, records, globals) as JSON, for the
// analyses in this directory.  Usage:
//   rstdump OUT.json ROOT1,ROOT2,... FILE.cc -- <compiler flags>
// Only functions whose definition lies under one of the ROOTs are dumped.
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> gRoots;
static std::string gOut;

namespace {

llvm::json::Value IntJson(const llvm::APSInt& v) {
  if (v.isSigned())
    return llvm::json::Value(static_cast<int64_t>(v.getSExtValue()));
  return llvm::json::Value(static_cast<uint64_t>(v.getZExtValue()));
}


std::string QName(const NamedDecl* d) {
  // Qualified name without template arguments and inline namespaces.
  std::string s;
  std::vector<std::string> parts;
  auto name = [](const NamedDecl* n) -> std::string {
    if (const auto* c = dyn_cast<CXXConstructorDecl>(n))
      return c->getParent()->getNameAsString();
    if (const auto* c = dyn_cast<CXXDestructorDecl>(n))
      return "~" + c->getParent()->getNameAsString();
    if (const auto* c = dyn_cast<CXXConversionDecl>(n))
      return "operator " + c->getConversionType().getCanonicalType().getAsString();
    if (const auto* r = dyn_cast<CXXRecordDecl>(n); r && r->isLambda())
      return "(lambda)";
    auto str = n->getNameAsString();
    if (str.empty()) {
      if (isa<NamespaceDecl>(n)) return "(anon)";
      return "(unnamed)";
    }
    return str;
  };
  parts.push_back(name(d));
  const DeclContext* ctx = d->getDeclContext();
  while (ctx && !ctx->isTranslationUnit()) {
    if (const auto* ns = dyn_cast<NamespaceDecl>(ctx)) {
      if (!ns->isInline()) parts.push_back(name(ns));
    } else if (const auto* nd = dyn_cast<NamedDecl>(ctx)) {
      parts.push_back(name(nd));
    }
    ctx = ctx->getParent();
  }
  for (auto it = parts.rbegin(); it != parts.rend(); ++it) {
    if (!s.empty()) s += "::";
    s += *it;
  }
  return s;
}

class Dumper : public RecursiveASTVisitor<Dumper> {
 public:
  explicit Dumper(ASTContext& ctx)
      : ctx_(ctx), sm_(ctx.getSourceManager()), names_(ctx), pp_(ctx.getLangOpts()) {
    pp_.SuppressTagKeyword = true;
    pp_.Bool = true;
    pp_.FullyQualifiedName = true;
    pp_.PrintCanonicalTypes = true;
    pp_.AnonymousTagLocations = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }

  bool VisitFunctionDecl(FunctionDecl* f) {
    pending_.push_back(f);
    return true;
  }
  bool VisitLambdaExpr(LambdaExpr* l) {
    NoteLambda(l->getLambdaClass());
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* r) {
    if (r->isLambda() && !r->isDependentContext()) NoteLambda(r);
    else if (r->isThisDeclarationADefinition() && !r->isDependentContext() &&
             InRoots(r->getLocation())) RecordId(r);
    return true;
  }
  bool VisitVarDecl(VarDecl* v) {
    if (v->isInvalidDecl() || v->getDeclContext()->isDependentContext()) return true;
    if (v->getType()->isDependentType()) return true;
    if (!InRoots(v->getLocation())) return true;
    if (v->hasGlobalStorage() && v->isThisDeclarationADefinition()) globals_.push_back(v);
    else if (v->isStaticDataMember()) globals_.push_back(v);
    return true;
  }

  void Run(json::Object& out) {
    TraverseDecl(ctx_.getTranslationUnitDecl());
    // Lambdas are traversed as expressions; make sure all call operators are in.
    json::Array fns;
    for (size_t i = 0; i < pending_.size(); i++) {
      EmitFunction(pending_[i], fns);
    }
    out["functions"] = std::move(fns);
    json::Array gl;
    for (auto* v : globals_) gl.push_back(GlobalJson(v));
    out["globals"] = std::move(gl);
    // types/records may grow while emitting; emit records until stable
    json::Array recs;
    for (size_t i = 0; i < rec_list_.size(); i++) recs.push_back(RecordJson(rec_list_[i]));
    out["records"] = std::move(recs);
    json::Array tys;
    for (size_t i = 0; i < type_list_.size(); i++) tys.push_back(TypeJson(type_list_[i]));
    // TypeJson may add records/types; loop until all present
    size_t done = rec_list_.size();
    json::Array* recp = out.getArray("records");
    while (true) {
      bool changed = false;
      for (size_t i = recp->size(); i < rec_list_.size(); i++) { recp->push_back(RecordJson(rec_list_[i])); changed = true; }
      for (size_t i = tys.size(); i < type_list_.size(); i++) { tys.push_back(TypeJson(type_list_[i])); changed = true; }
      if (!changed) break;
    }
    (void)done;
    out["types"] = std::move(tys);
    json::Array files;
    for (auto& f : file_list_) files.push_back(f);
    out["files"] = std::move(files);
  }

 private:
  bool InRoots(SourceLocation loc) {
    if (loc.isInvalid()) return false;
    loc = sm_.getExpansionLoc(loc);
    auto name = sm_.getFilename(loc);
    for (const auto& r : gRoots)
      if (name.starts_with(r)) return true;
    return false;
  }
  void NoteLambda(const CXXRecordDecl* r) {
    if (!r || r->isDependentContext()) return;
    if (const auto* op = r->getLambdaCallOperator()) {
      if (const auto* tmpl = r->getDependentLambdaCallOperator()) {
        for (auto* spec : tmpl->specializations())
          pending_.push_back(spec);
      } else {
        pending_.push_back(const_cast<CXXMethodDecl*>(op));
      }
    }
    RecordId(r);
  }
  int FileId(SourceLocation loc) {
    loc = sm_.getExpansionLoc(loc);
    std::string name = sm_.getFilename(loc).str();
    auto it = file_ids_.find(name);
    if (it != file_ids_.end()) return it->second;
    int id = static_cast<int>(file_list_.size());
    file_ids_[name] = id;
    file_list_.push_back(name);
    return id;
  }
  int Line(SourceLocation loc) {
    if (loc.isInvalid()) return 0;
    return static_cast<int>(sm_.getExpansionLineNumber(loc));
  }
  std::string DeclKey(const Decl* d) {
    d = d->getCanonicalDecl();
    auto it = decl_ids_.find(d);
    if (it != decl_ids_.end()) return it->second;
    std::string key;
    const auto* nd = dyn_cast<NamedDecl>(d);
    bool ext = nd && nd->isExternallyVisible();
    if (const auto* m = dyn_cast<CXXMethodDecl>(d))
      if (m->getParent()->isLambda()) ext = false;
    if (const auto* fd = dyn_cast<FunctionDecl>(d); fd && ext) {
      key = names_.getName(fd);
      if (const auto* c = dyn_cast<CXXConstructorDecl>(fd)) { (void)c; }
    } else if (const auto* vd = dyn_cast<VarDecl>(d); vd && ext && vd->hasGlobalStorage() && !vd->isLocalVarDecl()) {
      key = names_.getName(vd);
    }
    if (key.empty()) key = "#" + std::to_string(decl_ids_.size());
    decl_ids_[d] = key;
    return key;
  }
  int TypeId(QualType t) {
    if (t.isNull()) return -1;
    t = t.getCanonicalType();
    auto it = type_ids_.find(t.getAsOpaquePtr());
    if (it != type_ids_.end()) return it->second;
    int id = static_cast<int>(type_list_.size());
    type_ids_[t.getAsOpaquePtr()] = id;
    type_list_.push_back(t);
    if (const auto* r = t->getAsCXXRecordDecl())
      RecordId(r);
    return id;
  }
  int RecordId(const CXXRecordDecl* r) {
    if (!r) return -1;
    if (r->getDefinition()) r = r->getDefinition();
    r = cast<CXXRecordDecl>(r->getCanonicalDecl());
    auto it = rec_ids_.find(r);
    if (it != rec_ids_.end()) return it->second;
    int id = static_cast<int>(rec_list_.size());
    rec_ids_[r] = id;
    rec_list_.push_back(r);
    return id;
  }
  json::Object TypeJson(QualType t) {
    json::Object o;
    o["s"] = t.getAsString(pp_);
    o["const"] = t.isConstQualified();
    const Type* p = t.getTypePtr();
    if (const auto* rt = dyn_cast<ReferenceType>(p)) {
      o["k"] = isa<LValueReferenceType>(p) ? "lref" : "rref";
      o["p"] = TypeId(rt->getPointeeType());
    } else if (p->isPointerType()) {
      o["k"] = "ptr";
      o["p"] = TypeId(p->getPointeeType());
    } else if (const auto* r = p->getAsCXXRecordDecl()) {
      o["k"] = "rec";
      o["r"] = RecordId(r);
    } else if (p->isBooleanType()) {
      o["k"] = "bool";
    } else if (const auto* e = p->getAs<EnumType>()) {
      o["k"] = "enum";
      if (e->getDecl()->isComplete()) {
        auto it = e->getDecl()->getIntegerType();
        o["bits"] = static_cast<int64_t>(ctx_.getTypeSize(it));
        o["sg"] = it->isSignedIntegerType();
        json::Array vals;
        for (auto* c : e->getDecl()->enumerators()) {
          json::Array one;
          one.push_back(c->getNameAsString());
          one.push_back(IntJson(c->getInitVal()));
          vals.push_back(std::move(one));
        }
        if (InRoots(e->getDecl()->getLocation())) o["vals"] = std::move(vals);
      }
    } else if (p->isIntegerType() && !p->isDependentType()) {
      o["k"] = "int";
      o["bits"] = static_cast<int64_t>(ctx_.getTypeSize(t));
      o["sg"] = p->isSignedIntegerType();
    } else if (p->isRealFloatingType()) {
      o["k"] = "float";
      o["bits"] = static_cast<int64_t>(ctx_.getTypeSize(t));
    } else if (p->isVoidType()) {
      o["k"] = "void";
    } else if (p->isNullPtrType()) {
      o["k"] = "nullptr";
    } else if (p->isFunctionType()) {
      o["k"] = "fn";
    } else if (const auto* a = dyn_cast<ConstantArrayType>(p)) {
      o["k"] = "arr";
      o["p"] = TypeId(a->getElementType());
      o["n"] = static_cast<int64_t>(a->getSize().getZExtValue());
    } else if (p->isMemberPointerType()) {
      o["k"] = "memptr";
    } else {
      o["k"] = "other";
    }
    return o;
  }
  json::Object RecordJson(const CXXRecordDecl* r) {
    json::Object o;
    o["q"] = QName(r);
    o["s"] = ctx_.getRecordType(r).getAsString(pp_);
    bool in = InRoots(r->getLocation());
    o["in"] = in;
    o["line"] = Line(r->getLocation());
    o["file"] = FileId(r->getLocation());
    o["lambda"] = r->isLambda();
    o["union"] = r->isUnion();
    o["anon"] = r->isAnonymousStructOrUnion();
    if (const auto* spec = dyn_cast<ClassTemplateSpecializationDecl>(r)) {
      json::Array ta;
      for (const auto& a : spec->getTemplateArgs().asArray()) {
        if (a.getKind() == TemplateArgument::Type) ta.push_back(TypeId(a.getAsType()));
        else if (a.getKind() == TemplateArgument::Integral) ta.push_back("i" + llvm::toString(a.getAsIntegral(), 10));
        else if (a.getKind() == TemplateArgument::Pack) {
          for (const auto& e : a.pack_elements())
            if (e.getKind() == TemplateArgument::Type) ta.push_back(TypeId(e.getAsType()));
            else ta.push_back(nullptr);
        }
        else ta.push_back(nullptr);
      }
      o["ta"] = std::move(ta);
    }
    if (!r->hasDefinition() || r->isDependentContext()) return o;
    json::Array bases;
    for (const auto& b : r->bases())
      bases.push_back(TypeId(b.getType()));
    o["bases"] = std::move(bases);
    if (r->getNumBases() > 0 && !r->isInvalidDecl()) {
      json::Array offs;
      const auto& layout = ctx_.getASTRecordLayout(r);
      for (const auto& b : r->bases()) {
        const auto* d = b.getType()->getAsCXXRecordDecl();
        offs.push_back(b.isVirtual() || !d ? -1 : layout.getBaseClassOffset(d).getQuantity());
      }
      o["boff"] = std::move(offs);
    }
    o["final"] = r->hasAttr<FinalAttr>();
    o["poly"] = r->isPolymorphic();
    o["trivdtor"] = r->hasTrivialDestructor();
    if (const auto* d = r->getDestructor()) o["dtor"] = DeclKey(d);
    if (in || r->isLambda()) {
      json::Array fields;
      for (const auto* f : r->fields()) {
        json::Object fo;
        fo["n"] = FieldName(f);
        fo["t"] = TypeId(f->getType());
        fo["i"] = static_cast<int64_t>(f->getFieldIndex());
        fo["mut"] = f->isMutable();
        fo["acc"] = f->getAccess() == AS_public ? "public" : (f->getAccess() == AS_private ? "private" : "protected");
        fo["line"] = Line(f->getLocation());
        fields.push_back(std::move(fo));
      }
      o["fields"] = std::move(fields);
      json::Array methods;
      for (const auto* m : r->methods()) {
        json::Object mo;
        mo["id"] = DeclKey(m);
        mo["n"] = m->getNameAsString();
        mo["q"] = QName(m);
        mo["del"] = m->isDeleted();
        mo["virt"] = m->isVirtual();
        mo["pure"] = m->isPureVirtual();
        mo["acc"] = m->getAccess() == AS_public ? "public" : (m->getAccess() == AS_private ? "private" : "protected");
        if (const auto* c = dyn_cast<CXXConstructorDecl>(m)) mo["ck"] = c->isCopyConstructor() ? "copy" : c->isMoveConstructor() ? "move" : c->isDefaultConstructor() ? "default" : "other";
        if (m->isCopyAssignmentOperator()) mo["ck"] = "copyassign";
        if (m->isMoveAssignmentOperator()) mo["ck"] = "moveassign";
        json::Array ov;
        for (const auto* b : m->overridden_methods()) ov.push_back(DeclKey(b));
        if (!ov.empty()) mo["ov"] = std::move(ov);
        methods.push_back(std::move(mo));
      }
      o["methods"] = std::move(methods);
    }
    if (r->isLambda()) {
      json::Array caps;
      llvm::DenseMap<const ValueDecl*, FieldDecl*> m;
      FieldDecl* this_field = nullptr;
      const_cast<CXXRecordDecl*>(r)->getCaptureFields(m, this_field);
      for (auto& [v, f] : m) {
        json::Object c;
        c["v"] = DeclKey(v);
        c["n"] = v->getNameAsString();
        c["f"] = FieldName(f);
        c["ref"] = f->getType()->isReferenceType();
        caps.push_back(std::move(c));
      }
      if (this_field) {
        json::Object c;
        c["v"] = "this";
        c["n"] = "this";
        c["f"] = FieldName(this_field);
        c["ref"] = false;
        caps.push_back(std::move(c));
      }
      o["caps"] = std::move(caps);
      if (const auto* op = r->getLambdaCallOperator()) {
        json::Array ops;
        if (const auto* tmpl = r->getDependentLambdaCallOperator()) {
          for (const auto* s : tmpl->specializations()) ops.push_back(DeclKey(s));
        } else {
          ops.push_back(DeclKey(op));
        }
        o["ops"] = std::move(ops);
      }
    }
    return o;
  }
  std::string FieldName(const FieldDecl* f) {
    auto n = f->getNameAsString();
    if (n.empty()) n = "$" + std::to_string(f->getFieldIndex());
    return n;
  }
  json::Object GlobalJson(const VarDecl* v) {
    json::Object o;
    o["id"] = DeclKey(v);
    o["q"] = QName(v);
    o["t"] = TypeId(v->getType());
    o["tls"] = v->getTLSKind() != VarDecl::TLS_None;
    o["local"] = v->isStaticLocal();
    o["member"] = v->isStaticDataMember();
    o["def"] = v->isThisDeclarationADefinition() != VarDecl::DeclarationOnly;
    o["line"] = Line(v->getLocation());
    o["file"] = FileId(v->getLocation());
    if (v->isStaticDataMember()) o["rec"] = RecordId(cast<CXXRecordDecl>(v->getDeclContext()));
    return o;
  }

  void EmitFunction(FunctionDecl* f, json::Array& fns) {
    if (!f || f->isInvalidDecl()) return;
    const FunctionDecl* def = nullptr;
    if (!f->hasBody(def) || !def) {
      // A defaulted-but-not-yet-defined special member has no body.
      return;
    }
    if (def->isDependentContext()) return;
    if (def->getTemplatedKind() == FunctionDecl::TK_FunctionTemplate) return;
    if (def->getType()->isDependentType()) return;
    if (!InRoots(def->getLocation())) return;
    const auto key = DeclKey(def);
    if (!emitted_.insert(key).second) return;
    f = const_cast<FunctionDecl*>(def);

    CFG::BuildOptions bo;
    bo.setAllAlwaysAdd();
    bo.AddInitializers = true;
    bo.AddImplicitDtors = true;
    bo.AddTemporaryDtors = true;
    bo.AddEHEdges = false;
    bo.AddStaticInitBranches = true;
    bo.AddCXXDefaultInitExprInCtors = true;
    bo.AddCXXDefaultInitExprInAggregates = true;
    bo.PruneTriviallyFalseEdges = true;
    bo.OmitImplicitValueInitializers = false;
    std::unique_ptr<CFG> cfg = CFG::buildCFG(f, f->getBody(), &ctx_, bo);
    json::Object o;
    o["id"] = key;
    o["q"] = QName(f);
    o["n"] = f->getNameAsString();
    o["file"] = FileId(f->getLocation());
    o["line"] = Line(f->getLocation());
    o["end"] = Line(f->getEndLoc());
    o["ret"] = TypeId(f->getReturnType());
    o["implicit"] = f->isImplicit() || f->isDefaulted();
    o["static"] = f->isStatic();
    o["noret"] = f->isNoReturn();
    o["linkage"] = f->isExternallyVisible();
    json::Array params;
    for (const auto* p : f->parameters()) {
      json::Object po;
      po["id"] = DeclKey(p);
      po["n"] = p->getNameAsString();
      po["t"] = TypeId(p->getType());
      params.push_back(std::move(po));
    }
    o["params"] = std::move(params);
    if (const auto* ta = f->getTemplateSpecializationArgs()) {
      json::Array tas;
      for (const auto& a : ta->asArray()) AddTemplateArg(a, tas);
      o["ta"] = std::move(tas);
    }
    const char* kind = "fn";
    if (const auto* m = dyn_cast<CXXMethodDecl>(f)) {
      kind = "method";
      o["rec"] = RecordId(m->getParent());
      o["const"] = m->isConst();
      o["virt"] = m->isVirtual();
      o["acc"] = m->getAccess() == AS_public ? "public" : (m->getAccess() == AS_private ? "private" : "protected");
      if (!m->isStatic()) {
        o["rq"] = m->getRefQualifier() == RQ_RValue ? "&&" : (m->getRefQualifier() == RQ_LValue ? "&" : "");
      } else kind = "static";
      if (isa<CXXConstructorDecl>(m)) kind = "ctor";
      if (isa<CXXDestructorDecl>(m)) kind = "dtor";
      if (m->isCopyAssignmentOperator()) o["ck"] = "copyassign";
      if (m->isMoveAssignmentOperator()) o["ck"] = "moveassign";
      if (const auto* c = dyn_cast<CXXConstructorDecl>(m))
        o["ck"] = c->isCopyConstructor() ? "copy" : c->isMoveConstructor() ? "move" : c->isDefaultConstructor() ? "default" : "other";
    }
    o["kind"] = kind;
    // expressions
    stmt_ids_.clear();
    stmts_.clear();
    json::Object c;
    if (cfg) {
      c["entry"] = static_cast<int64_t>(cfg->getEntry().getBlockID());
      c["exit"] = static_cast<int64_t>(cfg->getExit().getBlockID());
      json::Array blocks;
      for (const CFGBlock* b : *cfg) blocks.push_back(BlockJson(*b));
      c["blocks"] = std::move(blocks);
    } else {
      o["nocfg"] = true;
    }
    json::Array nodes;
    for (size_t i = 0; i < stmts_.size(); i++) nodes.push_back(StmtJson(stmts_[i]));
    o["cfg"] = std::move(c);
    o["x"] = std::move(nodes);
    fns.push_back(std::move(o));
  }

  void AddTemplateArg(const TemplateArgument& a, json::Array& out) {
    switch (a.getKind()) {
      case TemplateArgument::Type: out.push_back(TypeId(a.getAsType())); break;
      case TemplateArgument::Pack:
        for (const auto& x : a.pack_elements()) AddTemplateArg(x, out);
        break;
      case TemplateArgument::Integral: out.push_back("i" + llvm::toString(a.getAsIntegral(), 10)); break;
      default: out.push_back(nullptr);
    }
  }

  int S(const Stmt* s) {
    if (!s) return -1;
    auto it = stmt_ids_.find(s);
    if (it != stmt_ids_.end()) return it->second;
    int id = static_cast<int>(stmts_.size());
    stmt_ids_[s] = id;
    stmts_.push_back(s);
    return id;
  }

  json::Object BlockJson(const CFGBlock& b) {
    json::Object o;
    o["id"] = static_cast<int64_t>(b.getBlockID());
    json::Array es;
    for (const auto& e : b) {
      json::Array a;
      switch (e.getKind()) {
        case CFGElement::Statement:
        case CFGElement::Constructor:
        case CFGElement::CXXRecordTypedCall:
          a.push_back("s");
          a.push_back(S(e.castAs<CFGStmt>().getStmt()));
          break;
        case CFGElement::Initializer: {
          const auto* in = e.castAs<CFGInitializer>().getInitializer();
          a.push_back("i");
          if (in->isAnyMemberInitializer()) {
            json::Array chain;
            if (in->isIndirectMemberInitializer()) {
              for (auto* d : in->getIndirectMember()->chain())
                if (auto* fd = dyn_cast<FieldDecl>(d)) chain.push_back(FieldName(fd));
            } else {
              chain.push_back(FieldName(in->getMember()));
            }
            a.push_back("m");
            a.push_back(std::move(chain));
            a.push_back(TypeId(in->getAnyMember()->getType()));
          } else if (in->isBaseInitializer()) {
            a.push_back("b");
            a.push_back(nullptr);
            a.push_back(TypeId(QualType(in->getBaseClass(), 0)));
          } else {
            a.push_back("d");
            a.push_back(nullptr);
            a.push_back(-1);
          }
          a.push_back(S(in->getInit()));
          break;
        }
        case CFGElement::AutomaticObjectDtor: {
          const auto d = e.castAs<CFGAutomaticObjDtor>();
          a.push_back("ad");
          a.push_back(DeclKey(d.getVarDecl()));
          a.push_back(TypeId(d.getVarDecl()->getType()));
          a.push_back(Line(d.getTriggerStmt() ? d.getTriggerStmt()->getEndLoc() : SourceLocation()));
          break;
        }
        case CFGElement::TemporaryDtor: {
          const auto d = e.castAs<CFGTemporaryDtor>();
          a.push_back("td");
          a.push_back(S(d.getBindTemporaryExpr()));
          break;
        }
        case CFGElement::MemberDtor: {
          const auto d = e.castAs<CFGMemberDtor>();
          a.push_back("md");
          a.push_back(FieldName(d.getFieldDecl()));
          a.push_back(TypeId(d.getFieldDecl()->getType()));
          break;
        }
        case CFGElement::BaseDtor: {
          const auto d = e.castAs<CFGBaseDtor>();
          a.push_back("bd");
          a.push_back(nullptr);
          a.push_back(TypeId(d.getBaseSpecifier()->getType()));
          break;
        }
        case CFGElement::DeleteDtor: {
          const auto d = e.castAs<CFGDeleteDtor>();
          a.push_back("dd");
          a.push_back(S(d.getDeleteExpr()));
          break;
        }
        default:
          a.push_back("?");
          a.push_back(static_cast<int64_t>(e.getKind()));
      }
      es.push_back(std::move(a));
    }
    o["e"] = std::move(es);
    if (b.hasNoReturnElement()) o["noret"] = true;
    const auto term = b.getTerminator();
    if (term.isValid()) {
      json::Object t;
      const Stmt* ts = term.getStmt();
      t["k"] = term.isStmtBranch() ? ts->getStmtClassName() : (term.isTemporaryDtorsBranch() ? "TempDtorBranch" : "VirtualBase");
      t["s"] = S(ts);
      t["c"] = S(b.getTerminatorCondition(/*StripParens=*/true));
      o["t"] = std::move(t);
    }
    json::Array su;
    for (auto it = b.succ_begin(); it != b.succ_end(); ++it) {
      const CFGBlock* r = it->getReachableBlock();
      if (r) su.push_back(static_cast<int64_t>(r->getBlockID()));
      else su.push_back(nullptr);
    }
    o["su"] = std::move(su);
    if (const Stmt* l = b.getLabel()) {
      json::Array la;
      if (const auto* cs = dyn_cast<CaseStmt>(l)) {
        la.push_back("case");
        Expr::EvalResult ev;
        if (cs->getLHS()->EvaluateAsInt(ev, ctx_)) la.push_back(IntJson(ev.Val.getInt()));
        else la.push_back(nullptr);
        if (cs->getRHS() && cs->getRHS()->EvaluateAsInt(ev, ctx_)) la.push_back(IntJson(ev.Val.getInt()));
      } else if (isa<DefaultStmt>(l)) {
        la.push_back("default");
      } else {
        la.push_back("label");
      }
      o["la"] = std::move(la);
    }
    if (const Stmt* lt = b.getLoopTarget()) { o["loop"] = true; (void)lt; }
    return o;
  }

  void CalleeInfo(json::Object& o, const FunctionDecl* fd) {
    if (!fd) return;
    o["f"] = DeclKey(fd);
    o["q"] = QName(fd);
    o["in"] = InRoots(fd->getLocation());
    if (fd->isNoReturn()) o["noret"] = true;
    if (const auto* m = dyn_cast<CXXMethodDecl>(fd)) {
      o["rec"] = RecordId(m->getParent());
      o["mconst"] = m->isConst();
      o["mstatic"] = m->isStatic();
      if (m->isVirtual()) o["virt"] = true;
    }
    if (const auto* ta = fd->getTemplateSpecializationArgs()) {
      json::Array tas;
      for (const auto& a : ta->asArray()) AddTemplateArg(a, tas);
      o["ta"] = std::move(tas);
    }
    json::Array pt;
    for (const auto* p : fd->parameters()) pt.push_back(TypeId(p->getType()));
    o["pt"] = std::move(pt);
    o["rt"] = TypeId(fd->getReturnType());
  }

  // Is the location inside (an argument of) an assertion that a release build drops?
  bool InAssertion(SourceLocation l) {
    while (l.isMacroID()) {
      const auto name = Lexer::getImmediateMacroName(l, sm_, ctx_.getLangOpts());
      if (name == "RST_DCHECK" || name == "RST_NOTREACHED" || name == "assert") return true;
      l = sm_.getImmediateMacroCallerLoc(l);
    }
    return false;
  }

  json::Object StmtJson(const Stmt* s) {
    json::Object o;
    o["k"] = s->getStmtClassName();
    o["l"] = Line(s->getBeginLoc());
    if (s->getBeginLoc().isMacroID()) {
      // name of outermost macro
      if (InAssertion(s->getBeginLoc())) o["dbg"] = true;
      o["mac"] = Lexer::getImmediateMacroName(OutermostMacro(s->getBeginLoc()), sm_, ctx_.getLangOpts()).str();
    }
    json::Array ch;
    if (const auto* e = dyn_cast<Expr>(s)) {
      o["t"] = TypeId(e->getType());
      o["vk"] = e->isLValue() ? "l" : (e->isXValue() ? "x" : "r");
      if (e->isPRValue() && e->getType()->isIntegralOrEnumerationType() && !e->isValueDependent()) {
        Expr::EvalResult ev;
        if (e->EvaluateAsInt(ev, ctx_, Expr::SE_NoSideEffects) && !ev.HasSideEffects) {
          llvm::SmallString<40> str;
          ev.Val.getInt().toString(str, 10);
          o["cv"] = str.str().str();
        }
      } else if (e->isPRValue() && e->getType()->isRealFloatingType() && !e->isValueDependent()) {
        Expr::EvalResult ev;
        if (e->EvaluateAsRValue(ev, ctx_) && !ev.HasSideEffects && ev.Val.isFloat()) {
          llvm::SmallString<40> str;
          ev.Val.getFloat().toString(str);
          o["cf"] = str.str().str();
        }
      }
    }
    bool def_children = true;
    if (const auto* dr = dyn_cast<DeclRefExpr>(s)) {
      const auto* d = dr->getDecl();
      o["d"] = DeclKey(d);
      o["n"] = d->getNameAsString();
      if (const auto* fd = dyn_cast<FunctionDecl>(d)) {
        o["dk"] = "fn";
        CalleeInfo(o, fd);
      } else if (const auto* ec = dyn_cast<EnumConstantDecl>(d)) {
        o["dk"] = "enum";
        llvm::SmallString<40> str;
        ec->getInitVal().toString(str, 10);
        o["cv"] = str.str().str();
      } else if (const auto* b = dyn_cast<BindingDecl>(d)) {
        o["dk"] = "binding";
        o["bx"] = S(b->getBinding());
        if (const auto* hv = b->getHoldingVar()) o["hv"] = DeclKey(hv);
        if (const auto* dd = dyn_cast<VarDecl>(b->getDecomposedDecl())) o["dd"] = DeclKey(dd);
      } else if (const auto* v = dyn_cast<VarDecl>(d)) {
        o["dk"] = isa<ParmVarDecl>(v) ? "parm" : (v->hasGlobalStorage() ? "global" : "var");
        if (v->hasGlobalStorage()) {
          o["q"] = QName(v);
          o["tls"] = v->getTLSKind() != VarDecl::TLS_None;
          o["slocal"] = v->isStaticLocal();
          o["in"] = InRoots(v->getLocation());
        }
        o["vt"] = TypeId(v->getType());
      } else {
        o["dk"] = "other";
      }
      if (dr->refersToEnclosingVariableOrCapture()) o["cap"] = true;
    } else if (const auto* me = dyn_cast<MemberExpr>(s)) {
      const auto* d = me->getMemberDecl();
      o["arrow"] = me->isArrow();
      if (const auto* fd = dyn_cast<FieldDecl>(d)) {
        o["m"] = FieldName(fd);
        o["mk"] = "field";
        o["mt"] = TypeId(fd->getType());
        o["mrec"] = RecordId(cast<CXXRecordDecl>(fd->getParent()));
        o["mut"] = fd->isMutable();
      } else if (const auto* md = dyn_cast<CXXMethodDecl>(d)) {
        o["mk"] = "method";
        CalleeInfo(o, md);
      } else if (const auto* vd = dyn_cast<VarDecl>(d)) {
        o["mk"] = "static";
        o["d"] = DeclKey(vd);
        o["q"] = QName(vd);
        o["vt"] = TypeId(vd->getType());
      } else {
        o["mk"] = "other";
        o["n"] = d->getNameAsString();
      }
    } else if (const auto* ce = dyn_cast<CallExpr>(s)) {
      const FunctionDecl* fd = ce->getDirectCallee();
      CalleeInfo(o, fd);
      o["nargs"] = static_cast<int64_t>(ce->getNumArgs());
      if (const auto* mc = dyn_cast<CXXMemberCallExpr>(ce)) {
        o["obj"] = S(mc->getImplicitObjectArgument());
        if (const auto* me = dyn_cast_or_null<MemberExpr>(mc->getCallee()->IgnoreParens())) {
          o["arrow"] = me->isArrow();
          // devirtualized by qualification or final class
          if (me->hasQualifier()) o["qual"] = true;
        }
      }
      if (const auto* oc = dyn_cast<CXXOperatorCallExpr>(ce)) o["op"] = getOperatorSpelling(oc->getOperator());
      json::Array args;
      for (const auto* a : ce->arguments()) args.push_back(S(a));
      o["args"] = std::move(args);
      o["callee"] = S(ce->getCallee());
      if (ce->isCallToStdMove()) o["stdmove"] = true;
    } else if (const auto* cc = dyn_cast<CXXConstructExpr>(s)) {
      CalleeInfo(o, cc->getConstructor());
      o["elide"] = cc->isElidable();
      const auto* cd = cc->getConstructor();
      o["ck"] = cd->isCopyConstructor() ? "copy" : cd->isMoveConstructor() ? "move" : cd->isDefaultConstructor() ? "default" : "other";
      o["triv"] = cd->isTrivial();
      o["zero"] = cc->requiresZeroInitialization();
      json::Array args;
      for (const auto* a : cc->arguments()) args.push_back(S(a));
      o["args"] = std::move(args);
    } else if (const auto* ie = dyn_cast<CXXInheritedCtorInitExpr>(s)) {
      CalleeInfo(o, ie->getConstructor());
    } else if (const auto* ne = dyn_cast<CXXNewExpr>(s)) {
      json::Array pl;
      for (const auto* a : ne->placement_arguments()) pl.push_back(S(a));
      o["pl"] = std::move(pl);
      o["init"] = S(ne->getInitializer());
      o["at"] = TypeId(ne->getAllocatedType());
      o["array"] = ne->isArray();
    } else if (const auto* de = dyn_cast<CXXDeleteExpr>(s)) {
      o["arg"] = S(de->getArgument());
      o["array"] = de->isArrayForm();
      o["dt"] = TypeId(de->getDestroyedType());
    } else if (const auto* ca = dyn_cast<CastExpr>(s)) {
      o["ck"] = ca->getCastKindName();
      if (const auto* conv = ca->getConversionFunction()) { o["convq"] = QName(conv); }
      json::Array path;
      for (const auto* b : ca->path()) path.push_back(TypeId(b->getType()));
      if (!path.empty()) o["path"] = std::move(path);
      if (isa<ExplicitCastExpr>(s)) o["explicit"] = true;
    } else if (const auto* il = dyn_cast<IntegerLiteral>(s)) {
      (void)il;
    } else if (const auto* cl = dyn_cast<CharacterLiteral>(s)) {
      o["cv"] = std::to_string(cl->getValue());
    } else if (const auto* bl = dyn_cast<CXXBoolLiteralExpr>(s)) {
      o["cv"] = bl->getValue() ? "1" : "0";
    } else if (const auto* sl = dyn_cast<StringLiteral>(s)) {
      if (sl->getCharByteWidth() == 1) {
        std::string hex;
        static const char* d = "0123456789abcdef";
        for (unsigned char ch2 : sl->getBytes()) { hex += d[ch2 >> 4]; hex += d[ch2 & 15]; }
        o["str"] = hex;
      }
    } else if (const auto* uo = dyn_cast<UnaryOperator>(s)) {
      o["op"] = UnaryOperator::getOpcodeStr(uo->getOpcode()).str();
      o["post"] = uo->isPostfix();
    } else if (const auto* bo = dyn_cast<BinaryOperator>(s)) {
      o["op"] = bo->getOpcodeStr().str();
      if (const auto* cao = dyn_cast<CompoundAssignOperator>(s)) {
        o["ct"] = TypeId(cao->getComputationResultType());
        o["cl"] = TypeId(cao->getComputationLHSType());
      }
    } else if (const auto* bt = dyn_cast<CXXBindTemporaryExpr>(s)) {
      if (bt->getTemporary() && bt->getTemporary()->getDestructor())
        o["dtor"] = DeclKey(bt->getTemporary()->getDestructor());
    } else if (const auto* mt = dyn_cast<MaterializeTemporaryExpr>(s)) {
      if (const auto* d = mt->getExtendingDecl()) o["ext"] = DeclKey(d);
    } else if (const auto* da = dyn_cast<CXXDefaultArgExpr>(s)) {
      ch.push_back(S(da->getExpr()));
      def_children = false;
    } else if (const auto* di = dyn_cast<CXXDefaultInitExpr>(s)) {
      ch.push_back(S(di->getExpr()));
      def_children = false;
    } else if (const auto* le = dyn_cast<LambdaExpr>(s)) {
      o["rec"] = RecordId(le->getLambdaClass());
      json::Array caps;
      auto ci = le->capture_begin();
      auto fi = le->getLambdaClass()->field_begin();
      for (auto it = le->capture_init_begin(); it != le->capture_init_end(); ++it, ++ci, ++fi) {
        json::Object c;
        c["x"] = S(*it);
        c["f"] = FieldName(*fi);
        c["ref"] = ci->capturesVariable() && ci->getCaptureKind() == LCK_ByRef;
        c["this"] = ci->capturesThis();
        caps.push_back(std::move(c));
      }
      o["caps"] = std::move(caps);
      def_children = false;
    } else if (const auto* ds = dyn_cast<DeclStmt>(s)) {
      json::Array decls;
      for (const auto* d : ds->decls()) {
        if (const auto* v = dyn_cast<VarDecl>(d)) {
          json::Object vo;
          vo["d"] = DeclKey(v);
          vo["n"] = v->getNameAsString();
          vo["t"] = TypeId(v->getType());
          vo["init"] = S(v->getInit());
          vo["static"] = v->isStaticLocal();
          vo["tls"] = v->getTLSKind() != VarDecl::TLS_None;
          vo["l"] = Line(v->getLocation());
          if (const auto* dd = dyn_cast<DecompositionDecl>(v)) {
            json::Array bs;
            for (const auto* b : dd->bindings()) {
              json::Object bo2;
              bo2["d"] = DeclKey(b);
              bo2["x"] = S(b->getBinding());
              if (const auto* hv = b->getHoldingVar()) {
                bo2["hv"] = DeclKey(hv);
                bo2["hi"] = S(hv->getInit());
                bo2["ht"] = TypeId(hv->getType());
              }
              bs.push_back(std::move(bo2));
            }
            vo["b"] = std::move(bs);
          }
          decls.push_back(std::move(vo));
        }
      }
      o["decls"] = std::move(decls);
      def_children = false;
    } else if (const auto* rs = dyn_cast<ReturnStmt>(s)) {
      o["rv"] = S(rs->getRetValue());
    } else if (const auto* ile = dyn_cast<InitListExpr>(s)) {
      const InitListExpr* sem = ile->isSemanticForm() ? ile : (ile->getSemanticForm() ? ile->getSemanticForm() : ile);
      for (const auto* i : sem->inits()) ch.push_back(S(i));
      if (sem->getArrayFiller()) o["filler"] = true;
      def_children = false;
    } else if (const auto* sp = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) {
      ch.push_back(S(sp->getReplacement()));
      def_children = false;
    } else if (const auto* ov = dyn_cast<OpaqueValueExpr>(s)) {
      ch.push_back(S(ov->getSourceExpr()));
      def_children = false;
    } else if (isa<UnaryExprOrTypeTraitExpr>(s) || isa<TypeTraitExpr>(s) || isa<CXXNoexceptExpr>(s)) {
      def_children = false;
    } else if (const auto* cf = dyn_cast<CXXForRangeStmt>(s)) {
      (void)cf;
      def_children = false;
    } else if (isa<CompoundStmt>(s) || isa<ForStmt>(s) || isa<WhileStmt>(s) || isa<DoStmt>(s) || isa<SwitchStmt>(s) || isa<IfStmt>(s)) {
      def_children = false;
    }
    if (def_children)
      for (const auto* c : s->children()) ch.push_back(S(c));
    o["c"] = std::move(ch);
    return o;
  }

  SourceLocation OutermostMacro(SourceLocation loc) {
    SourceLocation last = loc;
    while (loc.isMacroID()) {
      last = loc;
      loc = sm_.getImmediateMacroCallerLoc(loc);
    }
    return last;
  }

  ASTContext& ctx_;
  SourceManager& sm_;
  ASTNameGenerator names_;
  PrintingPolicy pp_;
  std::vector<FunctionDecl*> pending_;
  std::vector<VarDecl*> globals_;
  std::set<std::string> emitted_;
  std::map<const Decl*, std::string> decl_ids_;
  std::map<void*, int> type_ids_;
  std::vector<QualType> type_list_;
  std::map<const CXXRecordDecl*, int> rec_ids_;
  std::vector<const CXXRecordDecl*> rec_list_;
  std::map<std::string, int> file_ids_;
  std::vector<std::string> file_list_;
  std::map<const Stmt*, int> stmt_ids_;
  std::vector<const Stmt*> stmts_;
};

class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext& ctx) override {
    if (ctx.getDiagnostics().hasUncompilableErrorOccurred()) return;
    json::Object out;
    Dumper d(ctx);
    d.Run(out);
    std::error_code ec;
    llvm::raw_fd_ostream os(gOut, ec);
    os << json::Value(std::move(out));
  }
};

class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override {
    return std::make_unique<Consumer>();
  }
};

}  // namespace

int main(int argc, const char** argv) {
  if (argc < 5) return 2;
  gOut = argv[1];
  std::string roots = argv[2];
  size_t pos = 0;
  while (pos <= roots.size()) {
    auto n = roots.find(',', pos);
    if (n == std::string::npos) n = roots.size();
    gRoots.push_back(roots.substr(pos, n - pos));
    pos = n + 1;
  }
  std::string file = argv[3];
  std::vector<std::string> flags;
  for (int i = 5; i < argc; i++) flags.push_back(argv[i]);
  clang::tooling::FixedCompilationDatabase db(".", flags);
  clang::tooling::ClangTool tool(db, {file});
  return tool.run(clang::tooling::newFrontendActionFactory<Action>().get());
}
