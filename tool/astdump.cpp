// astdump: writes the type-checked program of one translation unit as JSON.
// Only declarations located under --root are written (bodies of instantiated
// templates, member functions, constructors, destructors, lambdas, records).
// Sugar (parens, temporaries, implicit no-op casts, default arguments) is
// removed; every callee, variable and field is resolved to its declaration;
// integer constant expressions carry their value.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include <map>
#include <set>
#include <deque>

using namespace clang;
namespace json = llvm::json;

static std::string g_root, g_out;
static std::vector<std::string> g_exclude;

struct Dumper {
	ASTContext& C;
	SourceManager& SM;
	PrintingPolicy PP;
	json::Object functions, records, globals;
	std::map<const Decl*, int> ids;
	std::deque<const FunctionDecl*> work;
	std::set<const FunctionDecl*> seen;
	std::deque<const CXXRecordDecl*> rwork;
	std::set<const CXXRecordDecl*> rseen;
	std::set<const VarDecl*> gseen;
	int next_id = 1;

	Dumper(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
		PP.SuppressTagKeyword = true;
		PP.FullyQualifiedName = true;
		PP.PrintCanonicalTypes = true;
	}
	int id(const Decl* d) {
		d = d->getCanonicalDecl();
		auto it = ids.find(d);
		if(it != ids.end()) return it->second;
		return ids[d] = next_id++;
	}
	std::string fileOf(SourceLocation l) {
		l = SM.getExpansionLoc(l);
		auto f = SM.getFilename(l);
		return f.str();
	}
	bool inRoot(SourceLocation l) {
		if(l.isInvalid()) return false;
		auto f = fileOf(l);
		if(f.rfind(g_root, 0) != 0) return false;
		for(auto& e : g_exclude) if(f.find(e) != std::string::npos) return false;
		return true;
	}
	std::string loc(SourceLocation l) {
		l = SM.getExpansionLoc(l);
		if(l.isInvalid()) return "";
		auto f = SM.getFilename(l).str();
		if(f.rfind(g_root, 0) == 0) f = f.substr(g_root.size());
		return f + ":" + std::to_string(SM.getSpellingLineNumber(l));
	}
	std::string ty(QualType t) {
		if(t.isNull()) return "";
		return t.getCanonicalType().getAsString(PP);
	}
	std::string qname(const NamedDecl* d) {
		std::string s;
		llvm::raw_string_ostream os(s);
		d->printQualifiedName(os, PP);
		return os.str();
	}
	// type info used by the analyses: integral width / signedness
	void tyInfo(json::Object& o, QualType t, const char* key = "t") {
		o[key] = ty(t);
	}
	static json::Value arr(std::vector<json::Value> v) { return json::Array(std::move(v)); }

	json::Value calleeInfo(const FunctionDecl* f) {
		json::Object o;
		o["id"] = id(f);
		o["n"] = qname(f);
		if(auto m = dyn_cast<CXXMethodDecl>(f)) {
			o["cls"] = qname(m->getParent());
			o["rid"] = id(m->getParent());
			if(m->isVirtual()) o["virt"] = true;
			if(m->isConst()) o["const"] = true;
			if(m->isStatic()) o["static"] = true;
			queueRecord(m->getParent());
		}
		json::Array ps;
		for(auto p : f->parameters()) ps.push_back(ty(p->getType()));
		o["pt"] = std::move(ps);
		o["rt"] = ty(f->getReturnType());
		if(auto ta = f->getTemplateSpecializationArgs()) {
			json::Array a;
			for(auto& t : ta->asArray()) {
				std::string s; llvm::raw_string_ostream os(s);
				t.print(PP, os, true); a.push_back(os.str());
			}
			o["ta"] = std::move(a);
		}
		queue(f);
		return json::Value(std::move(o));
	}
	void queue(const FunctionDecl* f) {
		const FunctionDecl* def = nullptr;
		if(!f->hasBody(def)) return;
		if(def->isDependentContext()) return;
		if(!inRoot(def->getLocation())) return;
		if(seen.insert(def).second) work.push_back(def);
	}
	void queueRecord(const CXXRecordDecl* r) {
		if(!r) return;
		r = r->getDefinition();
		if(!r || r->isDependentContext()) return;
		if(!inRoot(r->getLocation())) return;
		if(rseen.insert(r).second) rwork.push_back(r);
	}
	void queueType(QualType t) {
		if(t.isNull()) return;
		t = t.getCanonicalType();
		while(true) {
			if(t->isPointerType() || t->isReferenceType()) { t = t->getPointeeType().getCanonicalType(); continue; }
			if(auto a = C.getAsArrayType(t)) { t = a->getElementType().getCanonicalType(); continue; }
			break;
		}
		if(auto r = t->getAsCXXRecordDecl()) {
			queueRecord(r);
			if(auto s = dyn_cast<ClassTemplateSpecializationDecl>(r)) {
				for(auto& a : s->getTemplateArgs().asArray())
					if(a.getKind() == TemplateArgument::Type) queueType(a.getAsType());
			}
		}
	}

	json::Value E(const Expr* e) {
		if(!e) return nullptr;
		// constants
		if(!e->isValueDependent() && !e->isTypeDependent() && e->isPRValue()
			&& (e->getType()->isIntegralOrEnumerationType()))
		{
			Expr::EvalResult r;
			if(e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects)) {
				json::Object o;
				o["k"] = "Int";
				llvm::SmallString<40> s;
				r.Val.getInt().toString(s, 10);
				o["v"] = s.str().str();
				o["t"] = ty(e->getType());
				return json::Value(std::move(o));
			}
		}
		switch(e->getStmtClass()) {
			case Stmt::ParenExprClass: return E(cast<ParenExpr>(e)->getSubExpr());
			case Stmt::ExprWithCleanupsClass: return E(cast<ExprWithCleanups>(e)->getSubExpr());
			case Stmt::ConstantExprClass: return E(cast<ConstantExpr>(e)->getSubExpr());
			case Stmt::CXXBindTemporaryExprClass: return E(cast<CXXBindTemporaryExpr>(e)->getSubExpr());
			case Stmt::SubstNonTypeTemplateParmExprClass: return E(cast<SubstNonTypeTemplateParmExpr>(e)->getReplacement());
			case Stmt::CXXDefaultArgExprClass: return E(cast<CXXDefaultArgExpr>(e)->getExpr());
			case Stmt::CXXDefaultInitExprClass: return E(cast<CXXDefaultInitExpr>(e)->getExpr());
			case Stmt::CXXStdInitializerListExprClass: return E(cast<CXXStdInitializerListExpr>(e)->getSubExpr());
			case Stmt::OpaqueValueExprClass: return E(cast<OpaqueValueExpr>(e)->getSourceExpr());
			default: break;
		}
		json::Object o;
		o["l"] = loc(e->getBeginLoc());
		o["t"] = ty(e->getType());
		if(e->isGLValue()) o["lv"] = true;
		if(auto m = dyn_cast<MaterializeTemporaryExpr>(e)) {
			o["k"] = "Tmp"; o["e"] = E(m->getSubExpr());
		} else if(auto s = dyn_cast<StringLiteral>(e)) {
			o["k"] = "Str";
			std::string v = s->isOrdinary() || s->isUTF8() ? s->getString().str() : std::string("?");
			if(!json::isUTF8(v)) v = json::fixUTF8(v);
			o["v"] = v;
		} else if(auto f = dyn_cast<FloatingLiteral>(e)) {
			o["k"] = "Flt"; llvm::SmallString<40> s; f->getValue().toString(s); o["v"] = s.str().str();
		} else if(isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) {
			o["k"] = "Null";
		} else if(auto d = dyn_cast<DeclRefExpr>(e)) {
			auto vd = d->getDecl();
			if(auto f = dyn_cast<FunctionDecl>(vd)) {
				o["k"] = "Fn"; o["f"] = calleeInfo(f);
			} else if(auto b = dyn_cast<BindingDecl>(vd)) {
				o["k"] = "Bind"; o["n"] = vd->getNameAsString(); o["id"] = id(vd);
				if(b->getBinding()) o["e"] = E(b->getBinding());
			} else {
				o["k"] = "Var"; o["id"] = id(vd); o["n"] = vd->getNameAsString();
				if(auto v = dyn_cast<VarDecl>(vd)) {
					o["vt"] = ty(v->getType());
					if(v->hasGlobalStorage()) {
						o["g"] = qname(v);
						globalVar(v);
					}
				}
			}
		} else if(isa<CXXThisExpr>(e)) {
			o["k"] = "This";
		} else if(auto m = dyn_cast<MemberExpr>(e)) {
			auto md = m->getMemberDecl();
			if(auto f = dyn_cast<FunctionDecl>(md)) {
				o["k"] = "Fn"; o["f"] = calleeInfo(f); o["b"] = E(m->getBase());
			} else if(auto v = dyn_cast<VarDecl>(md)) {
				o["k"] = "Var"; o["id"] = id(v); o["n"] = v->getNameAsString(); o["g"] = qname(v);
				o["vt"] = ty(v->getType());
				globalVar(v);
			} else {
				o["k"] = "Mem"; o["b"] = E(m->getBase()); o["arrow"] = m->isArrow();
				o["n"] = md->getNameAsString();
				if(md->getNameAsString().empty()) o["n"] = "#anon" + std::to_string(id(md));
				o["id"] = id(md);
				if(auto fd = dyn_cast<FieldDecl>(md)) {
					o["ft"] = ty(fd->getType());
					o["cls"] = qname(fd->getParent());
				}
			}
		} else if(auto u = dyn_cast<UnaryOperator>(e)) {
			o["k"] = "Un"; o["op"] = UnaryOperator::getOpcodeStr(u->getOpcode()).str();
			o["post"] = u->isPostfix();
			o["e"] = E(u->getSubExpr());
		} else if(auto b = dyn_cast<CompoundAssignOperator>(e)) {
			o["k"] = "CAsn"; o["op"] = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(b->getOpcode())).str();
			o["a"] = E(b->getLHS()); o["b"] = E(b->getRHS()); o["ct"] = ty(b->getComputationResultType());
		} else if(auto b = dyn_cast<BinaryOperator>(e)) {
			o["k"] = b->getOpcode() == BO_Assign ? "Asn" : "Bin";
			o["op"] = b->getOpcodeStr().str();
			o["a"] = E(b->getLHS()); o["b"] = E(b->getRHS());
		} else if(auto c = dyn_cast<AbstractConditionalOperator>(e)) {
			o["k"] = "Cond"; o["c"] = E(c->getCond()); o["a"] = E(c->getTrueExpr()); o["b"] = E(c->getFalseExpr());
		} else if(auto a = dyn_cast<ArraySubscriptExpr>(e)) {
			o["k"] = "Idx"; o["b"] = E(a->getBase()); o["i"] = E(a->getIdx());
		} else if(auto c = dyn_cast<CXXOperatorCallExpr>(e)) {
			o["k"] = "Op"; o["op"] = getOperatorSpelling(c->getOperator());
			if(auto f = c->getDirectCallee()) o["f"] = calleeInfo(f);
			json::Array as; for(auto a : c->arguments()) as.push_back(E(a));
			o["a"] = std::move(as);
		} else if(auto c = dyn_cast<CXXMemberCallExpr>(e)) {
			o["k"] = "MCall";
			if(auto f = c->getMethodDecl()) o["f"] = calleeInfo(f);
			auto ob = c->getImplicitObjectArgument();
			o["o"] = E(ob);
			if(ob) o["ot"] = ty(ob->getType());
			if(ob && ob->getType()->isPointerType()) o["arrow"] = true;
			if(auto me = dyn_cast<MemberExpr>(c->getCallee()->IgnoreParens())) if(me->hasQualifier()) o["qual"] = true;
			json::Array as; for(auto a : c->arguments()) as.push_back(E(a));
			o["a"] = std::move(as);
		} else if(auto c = dyn_cast<CallExpr>(e)) {
			o["k"] = "Call";
			if(auto f = c->getDirectCallee()) o["f"] = calleeInfo(f);
			else o["ce"] = E(c->getCallee());
			json::Array as; for(auto a : c->arguments()) as.push_back(E(a));
			o["a"] = std::move(as);
		} else if(auto c = dyn_cast<CXXConstructExpr>(e)) {
			o["k"] = "Ctor"; o["f"] = calleeInfo(c->getConstructor());
			auto cd = c->getConstructor();
			o["copy"] = cd->isCopyConstructor(); o["move"] = cd->isMoveConstructor();
			o["dflt"] = cd->isDefaultConstructor();
			o["triv"] = cd->isImplicit() || cd->isDefaulted();
			json::Array as; for(auto a : c->arguments()) as.push_back(E(a));
			o["a"] = std::move(as);
			queueType(e->getType());
		} else if(auto c = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
			o["k"] = "Ctor"; o["f"] = calleeInfo(c->getConstructor()); o["a"] = json::Array();
		} else if(isa<CXXScalarValueInitExpr>(e) || isa<ImplicitValueInitExpr>(e)) {
			o["k"] = "Zero"; queueType(e->getType());
		} else if(auto l = dyn_cast<LambdaExpr>(e)) {
			o["k"] = "Lambda"; o["f"] = calleeInfo(l->getCallOperator());
			queue(l->getCallOperator());
			json::Array cs;
			auto it = l->capture_init_begin();
			for(auto& c : l->captures()) {
				json::Object co;
				if(c.capturesThis()) co["this"] = true;
				else if(c.capturesVariable()) {
					auto v = c.getCapturedVar();
					co["id"] = id(v); co["n"] = v->getNameAsString(); co["vt"] = ty(v->getType());
					if(auto vv = dyn_cast<VarDecl>(v)) if(vv->isInitCapture()) co["ic"] = true;
				}
				co["ref"] = c.getCaptureKind() == LCK_ByRef || c.getCaptureKind() == LCK_This;
				if(it != l->capture_init_end()) co["e"] = E(*it);
				++it;
				cs.push_back(std::move(co));
			}
			o["c"] = std::move(cs);
			o["mut"] = l->isMutable();
		} else if(auto n = dyn_cast<CXXNewExpr>(e)) {
			o["k"] = "New"; o["nt"] = ty(n->getAllocatedType()); queueType(n->getAllocatedType());
			if(n->isArray()) { auto s = n->getArraySize(); if(s && *s) o["n"] = E(*s); o["arr"] = true; }
			if(n->getInitializer()) o["e"] = E(n->getInitializer());
		} else if(auto d = dyn_cast<CXXDeleteExpr>(e)) {
			o["k"] = "Delete"; o["e"] = E(d->getArgument());
		} else if(auto t = dyn_cast<CXXThrowExpr>(e)) {
			o["k"] = "Throw"; if(t->getSubExpr()) { o["e"] = E(t->getSubExpr()); o["tt"] = ty(t->getSubExpr()->getType()); }
		} else if(auto il = dyn_cast<InitListExpr>(e)) {
			if(il->isSemanticForm() == false && il->getSemanticForm()) il = il->getSemanticForm();
			o["k"] = "List";
			json::Array as; for(auto a : il->inits()) as.push_back(E(a));
			o["a"] = std::move(as);
			if(il->getArrayFiller()) o["fill"] = E(il->getArrayFiller());
			if(auto r = il->getType()->getAsCXXRecordDecl()) {
				queueRecord(r);
				json::Array fs;
				for(auto& b : r->bases()) fs.push_back("#base:" + ty(b.getType()));
				for(auto f : r->fields()) fs.push_back(f->getNameAsString());
				o["fs"] = std::move(fs);
			}
		} else if(auto c = dyn_cast<CastExpr>(e)) {
			auto k = c->getCastKind();
			switch(k) {
				case CK_LValueToRValue: o["k"] = "Ld"; o["e"] = E(c->getSubExpr()); break;
				case CK_NoOp: case CK_FunctionToPointerDecay: case CK_BuiltinFnToFnPtr:
					return E(c->getSubExpr());
				case CK_ConstructorConversion: case CK_UserDefinedConversion:
					return E(c->getSubExpr());
				default:
					o["k"] = "Cast"; o["ck"] = c->getCastKindName(); o["e"] = E(c->getSubExpr());
					o["st"] = ty(c->getSubExpr()->getType());
					if(isa<ExplicitCastExpr>(c)) o["x"] = true;
			}
		} else if(auto p = dyn_cast<PredefinedExpr>(e)) {
			o["k"] = "Str"; o["v"] = "?"; (void)p;
		} else if(auto s = dyn_cast<StmtExpr>(e)) {
			o["k"] = "StmtExpr"; o["s"] = S(s->getSubStmt());
		} else if(auto a = dyn_cast<ArrayInitLoopExpr>(e)) {
			o["k"] = "ArrCopy"; o["e"] = E(a->getCommonExpr());
		} else if(auto a = dyn_cast<AtomicExpr>(e)) {
			o["k"] = "Atomic"; (void)a;
		} else {
			o["k"] = "Unk"; o["c"] = e->getStmtClassName();
			json::Array as; for(auto c : e->children()) if(auto ce = dyn_cast_or_null<Expr>(c)) as.push_back(E(ce));
			o["a"] = std::move(as);
		}
		return json::Value(std::move(o));
	}
	void globalVar(const VarDecl* v) {
		v = v->getCanonicalDecl();
		if(!gseen.insert(v).second) return;
		json::Object o;
		o["id"] = id(v); o["n"] = qname(v); o["t"] = ty(v->getType());
		o["l"] = loc(v->getLocation());
		o["const"] = v->getType().isConstQualified();
		if(v->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
		const VarDecl* def = v->getDefinition();
		if(!def) def = v;
		if(inRoot(def->getLocation()) && def->getInit() && !def->getInit()->isValueDependent()) o["init"] = E(def->getInit());
		o["inroot"] = inRoot(def->getLocation());
		globals[std::to_string(id(v))] = std::move(o);
	}
	json::Value V(const VarDecl* v) {
		json::Object o;
		o["id"] = id(v); o["n"] = v->getNameAsString(); o["t"] = ty(v->getType());
		o["l"] = loc(v->getLocation());
		if(v->isStaticLocal()) o["static"] = true;
		if(v->getInit()) o["e"] = E(v->getInit());
		if(v->getType()->isReferenceType()) o["ref"] = true;
		queueType(v->getType());
		if(auto a = dyn_cast<ConstantArrayType>(v->getType().getCanonicalType().getTypePtr()))
			o["asz"] = (int64_t)a->getSize().getZExtValue();
		return json::Value(std::move(o));
	}
	json::Value S(const Stmt* s) {
		if(!s) return nullptr;
		if(auto e = dyn_cast<Expr>(s)) {
			json::Object o; o["k"] = "Expr"; o["e"] = E(e); o["l"] = loc(s->getBeginLoc());
			return json::Value(std::move(o));
		}
		json::Object o;
		o["l"] = loc(s->getBeginLoc());
		if(auto c = dyn_cast<CompoundStmt>(s)) {
			o["k"] = "Block";
			json::Array a; for(auto x : c->body()) a.push_back(S(x));
			o["s"] = std::move(a);
			o["le"] = loc(c->getRBracLoc());
		} else if(auto d = dyn_cast<DeclStmt>(s)) {
			o["k"] = "Decl";
			json::Array a;
			for(auto x : d->decls()) {
				if(auto dd = dyn_cast<DecompositionDecl>(x)) {
					auto v = V(dd);
					json::Array bs; for(auto b : dd->bindings()) { json::Object bo; bo["id"] = id(b); bo["n"] = b->getNameAsString(); bs.push_back(std::move(bo)); }
					v.getAsObject()->insert({"binds", json::Value(std::move(bs))});
					a.push_back(std::move(v));
				} else if(auto v = dyn_cast<VarDecl>(x)) a.push_back(V(v));
			}
			o["d"] = std::move(a);
		} else if(auto i = dyn_cast<IfStmt>(s)) {
			o["k"] = "If";
			if(i->getInit()) o["init"] = S(i->getInit());
			if(i->getConditionVariable()) o["cv"] = V(i->getConditionVariable());
			o["c"] = E(i->getCond()); o["a"] = S(i->getThen()); o["b"] = S(i->getElse());
		} else if(auto w = dyn_cast<WhileStmt>(s)) {
			o["k"] = "While";
			if(w->getConditionVariable()) o["cv"] = V(w->getConditionVariable());
			o["c"] = E(w->getCond()); o["b"] = S(w->getBody());
		} else if(auto w = dyn_cast<DoStmt>(s)) {
			o["k"] = "Do"; o["c"] = E(w->getCond()); o["b"] = S(w->getBody());
		} else if(auto f = dyn_cast<ForStmt>(s)) {
			o["k"] = "For"; o["i"] = S(f->getInit());
			if(f->getConditionVariable()) o["cv"] = V(f->getConditionVariable());
			if(f->getCond()) o["c"] = E(f->getCond());
			if(f->getInc()) o["n"] = E(f->getInc());
			o["b"] = S(f->getBody());
		} else if(auto f = dyn_cast<CXXForRangeStmt>(s)) {
			o["k"] = "Range"; o["v"] = V(f->getLoopVariable()); o["r"] = E(f->getRangeInit());
			o["rt"] = ty(f->getRangeInit()->getType());
			o["b"] = S(f->getBody());
		} else if(auto r = dyn_cast<ReturnStmt>(s)) {
			o["k"] = "Ret"; if(r->getRetValue()) o["e"] = E(r->getRetValue());
		} else if(isa<BreakStmt>(s)) o["k"] = "Break";
		else if(isa<ContinueStmt>(s)) o["k"] = "Cont";
		else if(auto sw = dyn_cast<SwitchStmt>(s)) {
			o["k"] = "Switch"; if(sw->getInit()) o["init"] = S(sw->getInit());
			o["c"] = E(sw->getCond()); o["b"] = S(sw->getBody());
		} else if(auto c = dyn_cast<CaseStmt>(s)) {
			o["k"] = "Case"; o["e"] = E(c->getLHS()); o["b"] = S(c->getSubStmt());
		} else if(auto c = dyn_cast<DefaultStmt>(s)) {
			o["k"] = "Default"; o["b"] = S(c->getSubStmt());
		} else if(auto t = dyn_cast<CXXTryStmt>(s)) {
			o["k"] = "Try"; o["b"] = S(t->getTryBlock());
			json::Array a;
			for(unsigned i = 0; i < t->getNumHandlers(); ++i) {
				auto h = t->getHandler(i); json::Object ho;
				if(h->getExceptionDecl()) { ho["t"] = ty(h->getCaughtType()); ho["v"] = id(h->getExceptionDecl()); }
				ho["b"] = S(h->getHandlerBlock()); ho["l"] = loc(h->getBeginLoc());
				a.push_back(std::move(ho));
			}
			o["h"] = std::move(a);
		} else if(isa<NullStmt>(s)) o["k"] = "Null";
		else if(auto l = dyn_cast<LabelStmt>(s)) { o["k"] = "Label"; o["n"] = l->getName(); o["b"] = S(l->getSubStmt()); }
		else if(auto g = dyn_cast<GotoStmt>(s)) { o["k"] = "Goto"; o["n"] = g->getLabel()->getNameAsString(); }
		else if(auto a = dyn_cast<AttributedStmt>(s)) return S(a->getSubStmt());
		else { o["k"] = "Unk"; o["c"] = s->getStmtClassName(); }
		return json::Value(std::move(o));
	}
	void function(const FunctionDecl* f) {
		json::Object o;
		o["id"] = id(f); o["n"] = qname(f); o["l"] = loc(f->getLocation());
		o["rt"] = ty(f->getReturnType());
		json::Array ps;
		for(auto p : f->parameters()) {
			json::Object po; po["id"] = id(p); po["n"] = p->getNameAsString(); po["t"] = ty(p->getType());
			if(p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && p->getDefaultArg()) po["def"] = true;
			queueType(p->getType());
			ps.push_back(std::move(po));
		}
		o["p"] = std::move(ps);
		if(auto m = dyn_cast<CXXMethodDecl>(f)) {
			o["cls"] = qname(m->getParent()); o["rid"] = id(m->getParent());
			if(m->getParent()->isLambda()) o["lambda"] = true;
			o["const"] = m->isConst(); o["virt"] = m->isVirtual(); o["static"] = m->isStatic();
			queueRecord(m->getParent());
		}
		if(auto fpt = f->getType()->getAs<FunctionProtoType>()) o["noexcept"] = fpt->isNothrow();
		if(auto ta = f->getTemplateSpecializationArgs()) {
			json::Array a;
			for(auto& t : ta->asArray()) {
				std::string s; llvm::raw_string_ostream os(s);
				t.print(PP, os, true); a.push_back(os.str());
			}
			o["ta"] = std::move(a);
		}
		if(auto c = dyn_cast<CXXConstructorDecl>(f)) {
			o["kind"] = "ctor";
			json::Array is;
			for(auto i : c->inits()) {
				json::Object io;
				if(i->isMemberInitializer()) io["f"] = i->getMember()->getNameAsString();
				else if(i->isBaseInitializer()) io["base"] = ty(QualType(i->getBaseClass(), 0));
				else if(i->isDelegatingInitializer()) io["deleg"] = true;
				io["e"] = E(i->getInit());
				is.push_back(std::move(io));
			}
			o["inits"] = std::move(is);
		} else if(isa<CXXDestructorDecl>(f)) o["kind"] = "dtor";
		const FunctionDecl* par = nullptr;
		for(auto dc = f->getParent(); dc; dc = dc->getParent())
			if(auto pf = dyn_cast<FunctionDecl>(dc)) { par = pf; break; }
		if(par) { o["in"] = id(par); o["inn"] = qname(par); }
		if(f->isDefaulted()) o["defaulted"] = true;
		if(f->isImplicit()) o["implicit"] = true;
		o["b"] = S(f->getBody());
		functions[std::to_string(id(f))] = std::move(o);
	}
	void record(const CXXRecordDecl* r) {
		json::Object o;
		o["id"] = id(r); o["n"] = qname(r); o["l"] = loc(r->getLocation());
		o["t"] = ty(C.getRecordType(r));
		json::Array bs; for(auto& b : r->bases()) {
			json::Object bo; bo["t"] = ty(b.getType());
			if(auto br = b.getType()->getAsCXXRecordDecl()) { bo["id"] = id(br); queueRecord(br); }
			bs.push_back(std::move(bo));
		}
		o["bases"] = std::move(bs);
		json::Array fs;
		for(auto f : r->fields()) {
			json::Object fo; fo["n"] = f->getNameAsString(); fo["id"] = id(f); fo["t"] = ty(f->getType());
			if(f->isBitField()) fo["bits"] = (int64_t)f->getBitWidthValue(C);
			if(f->getInClassInitializer() && !f->getInClassInitializer()->isValueDependent()) fo["init"] = E(f->getInClassInitializer());
			queueType(f->getType());
			fs.push_back(std::move(fo));
		}
		o["fields"] = std::move(fs);
		if(auto d = r->getDestructor()) { o["dtor"] = id(d); queue(d); }
		if(auto s = dyn_cast<ClassTemplateSpecializationDecl>(r)) {
			o["tmpl"] = qname(s->getSpecializedTemplate());
			json::Array a;
			for(auto& t : s->getTemplateArgs().asArray()) {
				std::string x; llvm::raw_string_ostream os(x);
				t.print(PP, os, true); a.push_back(os.str());
			}
			o["ta"] = std::move(a);
		}
		json::Array ms;
		for(auto m : r->methods()) { ms.push_back(id(m)); queue(m); }
		o["methods"] = std::move(ms);
		if(r->isLambda()) o["lambda"] = true;
		records[std::to_string(id(r))] = std::move(o);
	}
	void drain() {
		while(!work.empty() || !rwork.empty()) {
			while(!work.empty()) { auto f = work.front(); work.pop_front(); function(f); }
			while(!rwork.empty()) { auto r = rwork.front(); rwork.pop_front(); record(r); }
		}
	}
};

struct Visitor : RecursiveASTVisitor<Visitor> {
	Dumper& D;
	Visitor(Dumper& d) : D(d) {}
	bool shouldVisitTemplateInstantiations() const { return true; }
	bool shouldVisitImplicitCode() const { return false; }
	bool VisitFunctionDecl(FunctionDecl* f) {
		if(f->doesThisDeclarationHaveABody() && !f->isDependentContext()) D.queue(f);
		return true;
	}
	bool VisitCXXRecordDecl(CXXRecordDecl* r) {
		if(r->isThisDeclarationADefinition() && !r->isDependentContext()) D.queueRecord(r);
		return true;
	}
	bool VisitVarDecl(VarDecl* v) {
		if(v->hasGlobalStorage() && !v->getDeclContext()->isDependentContext() && D.inRoot(v->getLocation()) && !v->getType()->isDependentType()) D.globalVar(v);
		return true;
	}
};

struct Consumer : ASTConsumer {
	void HandleTranslationUnit(ASTContext& C) override {
		if(C.getDiagnostics().hasUncompilableErrorOccurred()) return;
		Dumper D(C);
		Visitor V(D);
		V.TraverseDecl(C.getTranslationUnitDecl());
		D.drain();
		json::Object root;
		root["functions"] = std::move(D.functions);
		root["records"] = std::move(D.records);
		root["globals"] = std::move(D.globals);
		std::error_code ec;
		llvm::raw_fd_ostream os(g_out, ec);
		os << json::Value(std::move(root));
	}
};
struct Action : ASTFrontendAction {
	std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override {
		return std::make_unique<Consumer>();
	}
};

int main(int argc, const char** argv) {
	// astdump ROOT OUT SRC [EXCLUDE,...] -- flags
	if(argc < 5) { llvm::errs() << "usage: astdump ROOT OUT SRC EXCL -- flags\n"; return 2; }
	g_root = argv[1]; g_out = argv[2];
	std::string src = argv[3], ex = argv[4];
	for(size_t p = 0; p < ex.size();) {
		auto q = ex.find(',', p); if(q == std::string::npos) q = ex.size();
		if(q > p) g_exclude.push_back(ex.substr(p, q - p));
		p = q + 1;
	}
	std::vector<std::string> flags;
	for(int i = 6; i < argc; ++i) flags.push_back(argv[i]);
	tooling::FixedCompilationDatabase db(".", flags);
	tooling::ClangTool tool(db, {src});
	return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
