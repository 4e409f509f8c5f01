// Dumps the resolved AST of one translation unit of /repo/src as JSON.
// Everything the Python engine decides on comes from this dump: resolved callees, types after conversion,
// implicit casts, overrides, constructor initialisers, lambdas and template instantiations.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
#include <sstream>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string Root; // source root prefix, e.g. /repo/src

namespace {

class Dumper {
public:
	explicit Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()) {
		PP.SuppressTagKeyword = true;
		PP.FullyQualifiedName = true;
	}

	ASTContext &C;
	SourceManager &SM;
	PrintingPolicy PP;
	std::map<const void *, int> ids;
	Object types;
	Object fns;
	Object defs;
	Object records;
	Object enums;
	Object globals;
	std::set<std::string> seen;

	int idOf(const Decl *d) {
		d = d->getCanonicalDecl();
		auto it = ids.find(d);
		if (it != ids.end()) return it->second;
		int n = (int)ids.size() + 1;
		ids[d] = n;
		return n;
	}

	std::string fileOf(SourceLocation l) {
		if (l.isInvalid()) return "";
		PresumedLoc p = SM.getPresumedLoc(SM.getExpansionLoc(l));
		if (p.isInvalid()) return "";
		return p.getFilename();
	}
	unsigned lineOf(SourceLocation l) {
		if (l.isInvalid()) return 0;
		return SM.getPresumedLoc(SM.getExpansionLoc(l)).getLine();
	}
	std::string realPath(SourceLocation l) {
		if (l.isInvalid()) return "";
		auto fe = SM.getFileEntryRefForID(SM.getFileID(SM.getExpansionLoc(l)));
		if (!fe) return "";
		StringRef rp = fe->getFileEntry().tryGetRealPathName();
		if (!rp.empty()) return rp.str();
		return fe->getName().str();
	}
	bool inRepo(SourceLocation l) {
		std::string p = realPath(l);
		return p.compare(0, Root.size(), Root) == 0;
	}

	std::string ty(QualType t) {
		if (t.isNull()) return "?";
		QualType ct = t.getCanonicalType();
		std::string s = ct.getAsString(PP);
		std::string orig = s;
		if (!types.get(s)) {
			Object o;
			types[s] = Object{};
			bool isref = ct->isReferenceType();
			QualType u = isref ? ct.getNonReferenceType() : ct;
			if (isref) { o["ref"] = 1; if (ct->isRValueReferenceType()) o["rref"] = 1; o["el"] = ty(u); }
			if (u.isConstQualified()) o["const"] = 1;
			QualType q = u.getUnqualifiedType();
			if (q->isBooleanType()) { o["k"] = "bool"; o["w"] = 1; o["sg"] = 0; }
			else if (q->isEnumeralType()) {
				o["k"] = "enum"; o["w"] = (int64_t)C.getTypeSize(q); o["sg"] = q->isSignedIntegerOrEnumerationType() ? 1 : 0;
				o["q"] = q->getAs<EnumType>()->getDecl()->getQualifiedNameAsString();
			}
			else if (q->isIntegralType(C)) { o["k"] = "int"; o["w"] = (int64_t)C.getTypeSize(q); o["sg"] = q->isSignedIntegerType() ? 1 : 0; }
			else if (q->isFloatingType()) { o["k"] = "flt"; o["w"] = (int64_t)C.getTypeSize(q); }
			else if (q->isNullPtrType()) { o["k"] = "ptr"; }
			else if (q->isPointerType()) { o["k"] = "ptr"; o["el"] = ty(q->getPointeeType()); }
			else if (q->isArrayType()) {
				o["k"] = "arr";
				const ArrayType *at = C.getAsArrayType(q);
				o["el"] = ty(at->getElementType());
				if (auto *ca = dyn_cast<ConstantArrayType>(at)) o["n"] = (int64_t)ca->getSize().getZExtValue();
				else if (isa<VariableArrayType>(at)) o["vla"] = 1;
			}
			else if (q->isVoidType()) o["k"] = "void";
			else if (auto *r = q->getAsCXXRecordDecl()) {
				o["k"] = "rec"; o["q"] = recName(r);
				if (auto *sp = dyn_cast<ClassTemplateSpecializationDecl>(r)) {
					Array a;
					for (auto &ta : sp->getTemplateArgs().asArray()) {
						if (ta.getKind() == TemplateArgument::Type) a.push_back(ty(ta.getAsType()));
					}
					o["ta"] = std::move(a);
				}
			}
			else if (q->isFunctionType()) o["k"] = "fn";
			else if (q->isMemberPointerType()) o["k"] = "mptr";
			else o["k"] = "other";
			types[s] = std::move(o);
		}
		return orig;
	}

	std::string recName(const CXXRecordDecl *r) {
		std::string s;
		llvm::raw_string_ostream os(s);
		if (r->isLambda()) { os << "(lambda)@" << lineOf(r->getLocation()) << "#" << idOf(r); return os.str(); }
		r->getNameForDiagnostic(os, PP, true);
		return os.str();
	}
	std::string fnName(const FunctionDecl *f) {
		std::string s;
		if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
			s = recName(m->getParent()) + "::";
			if (isa<CXXConstructorDecl>(f)) return s + "<ctor>";
			if (isa<CXXDestructorDecl>(f)) return s + "<dtor>";
			if (isa<CXXConversionDecl>(f)) return s + "<conv>";
			return s + f->getNameAsString();
		}
		return f->getQualifiedNameAsString();
	}
	std::string usr(const Decl *d) {
		llvm::SmallString<256> b;
		d = d->getCanonicalDecl();
		if (index::generateUSRForDecl(d, b)) {
			return "anon#" + std::to_string(idOf(d));
		}
		std::string s = b.str().str();
		// distinct template instantiations share a USR in some cases: add the printed name
		if (auto *f = dyn_cast<FunctionDecl>(d)) {
			if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
				if (isa<ClassTemplateSpecializationDecl>(m->getParent())) s += "|" + recName(m->getParent());
				if (m->getParent()->isLambda()) s += "|" + recName(m->getParent()) + fileOf(m->getLocation());
			}
			if (auto *ta = f->getTemplateSpecializationArgs()) {
				std::string t; llvm::raw_string_ostream os(t);
				for (auto &a : ta->asArray()) { a.print(PP, os, true); os << ","; }
				s += "|" + os.str();
			}
		}
		return s;
	}

	std::string fn(const FunctionDecl *f) {
		std::string u = usr(f);
		if (fns.get(u)) return u;
		fns[u] = Object{};
		Object o;
		o["q"] = fnName(f);
		o["n"] = f->getNameAsString();
		Array ps;
		for (auto *p : f->parameters()) ps.push_back(ty(p->getType()));
		o["p"] = std::move(ps);
		o["ret"] = ty(f->getReturnType());
		if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
			o["cls"] = recName(m->getParent());
			if (m->isVirtual()) {
				o["virt"] = 1;
				Array ov;
				for (auto *b : m->overridden_methods()) ov.push_back(fn(b));
				o["ov"] = std::move(ov);
				if (m->isPureVirtual()) o["pure"] = 1;
			}
			if (m->isConst()) o["const"] = 1;
			if (m->isStatic()) o["static"] = 1;
			if (isa<CXXConstructorDecl>(f)) o["ctor"] = cast<CXXConstructorDecl>(f)->isCopyConstructor() ? "copy" : cast<CXXConstructorDecl>(f)->isMoveConstructor() ? "move" : "c";
			if (isa<CXXDestructorDecl>(f)) o["dtor"] = 1;
			if (m->getParent()->isLambda()) o["lambda"] = 1;
			o["acc"] = m->getAccess() == AS_public ? "pub" : m->getAccess() == AS_protected ? "prot" : "priv";
		}
		if (f->isOverloadedOperator()) o["op"] = getOperatorSpelling(f->getOverloadedOperator());
		if (auto *proto = f->getType()->getAs<FunctionProtoType>()) { auto es = proto->getExceptionSpecType(); if (es == EST_BasicNoexcept || es == EST_DynamicNone || es == EST_NoThrow || es == EST_NoexceptTrue) o["nothrow"] = 1; }
		if (f->isNoReturn()) o["noret"] = 1;
		if (f->isVariadic()) o["vararg"] = 1;
		if (f->isDefaulted() || f->isImplicit()) o["dflt"] = 1;
		if (inRepo(f->getLocation())) o["repo"] = 1;
		fns[u] = std::move(o);
		return u;
	}

	// ---------- expressions ----------
	Value opt(const Expr *e) { return e ? expr(e) : Value(nullptr); }

	Value varDecl(const VarDecl *v) {
		Object o;
		o["id"] = idOf(v);
		o["n"] = v->getNameAsString();
		o["t"] = ty(v->getType());
		o["l"] = (int64_t)lineOf(v->getLocation());
		if (v->isStaticLocal() || v->isStaticDataMember()) o["static"] = 1;
		if (v->isConstexpr()) o["constexpr"] = 1;
		if (v->getTLSKind() != VarDecl::TLS_None) o["tls"] = 1;
		if (v->hasInit()) o["init"] = expr(v->getInit());
		QualType t = v->getType();
		if (auto *va = C.getAsVariableArrayType(t)) o["vlasize"] = expr(va->getSizeExpr());
		return o;
	}

	Value expr(const Expr *e) {
		Value v = exprRaw(e);
		if (auto *o = v.getAsObject()) {
			if (!o->get("l")) o->try_emplace("l", (int64_t)lineOf(e->getExprLoc()));
			if (!o->get("t")) o->try_emplace("t", ty(e->getType()));
			if (!o->get("v") && !e->isValueDependent() && !e->isTypeDependent() &&
				(e->getType()->isIntegralOrEnumerationType()) && !isa<InitListExpr>(e)) {
				Expr::EvalResult r;
				if (e->isPRValue() && e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects)) {
					auto &i = r.Val.getInt();
					o->try_emplace("cv", i.isSigned() ? Value(i.getSExtValue()) : (i.getActiveBits() <= 63 ? Value((int64_t)i.getZExtValue()) : Value(std::to_string(i.getZExtValue()))));
				}
			}
		}
		return v;
	}

	template <class T> Array args(const T *c) {
		Array a;
		for (auto *x : c->arguments()) a.push_back(expr(x));
		return a;
	}

	Value exprRaw(const Expr *e) {
		if (auto *x = dyn_cast<ParenExpr>(e)) return expr(x->getSubExpr());
		if (auto *x = dyn_cast<ExprWithCleanups>(e)) return expr(x->getSubExpr());
		if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) return expr(x->getSubExpr());
		if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) return expr(x->getSubExpr());
		if (auto *x = dyn_cast<ConstantExpr>(e)) return expr(x->getSubExpr());
		if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return expr(x->getReplacement());
		if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) return expr(x->getExpr());
		if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) return expr(x->getExpr());
		if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e)) {
			return Object{{"k", "ILst"}, {"e", expr(x->getSubExpr())}};
		}
		if (auto *x = dyn_cast<IntegerLiteral>(e)) {
			auto i = x->getValue();
			if (i.getActiveBits() <= 63) return Object{{"k", "Int"}, {"v", (int64_t)i.getZExtValue()}};
			return Object{{"k", "Int"}, {"v", std::to_string(i.getZExtValue())}};
		}
		if (auto *x = dyn_cast<CharacterLiteral>(e)) return Object{{"k", "Int"}, {"v", (int64_t)x->getValue()}, {"chr", 1}};
		if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) return Object{{"k", "Int"}, {"v", x->getValue() ? 1 : 0}};
		if (auto *x = dyn_cast<FloatingLiteral>(e)) return Object{{"k", "Flt"}, {"v", x->getValue().convertToDouble()}};
		if (auto *x = dyn_cast<clang::StringLiteral>(e)) {
			std::string s;
			if (x->getCharByteWidth() == 1) for (char ch : x->getBytes()) { unsigned char u = ch; if (u < 128) s += ch; else { s += (char)(0xC0 | (u >> 6)); s += (char)(0x80 | (u & 63)); } }
			return Object{{"k", "Str"}, {"v", s}};
		}
		if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) return Object{{"k", "Nul"}};
		if (isa<CXXThisExpr>(e)) return Object{{"k", "This"}};
		if (auto *x = dyn_cast<DeclRefExpr>(e)) {
			const ValueDecl *d = x->getDecl();
			Object o{{"k", "Ref"}, {"n", d->getNameAsString()}};
			if (auto *f = dyn_cast<FunctionDecl>(d)) { o["dk"] = "fn"; o["f"] = fn(f); }
			else if (auto *ec = dyn_cast<EnumConstantDecl>(d)) { o["dk"] = "ec"; o["v"] = ec->getInitVal().getExtValue(); o["q"] = ec->getQualifiedNameAsString(); }
			else if (auto *v = dyn_cast<VarDecl>(d)) {
				o["id"] = idOf(v);
				if (isa<ParmVarDecl>(v)) o["dk"] = "param";
				else if (v->isStaticLocal()) { o["dk"] = "slocal"; o["q"] = v->getQualifiedNameAsString(); }
				else if (v->isLocalVarDecl()) o["dk"] = "var";
				else { o["dk"] = "global"; o["q"] = v->getQualifiedNameAsString(); global(v); }
				if (x->refersToEnclosingVariableOrCapture()) o["cap"] = 1;
			} else if (auto *b = dyn_cast<BindingDecl>(d)) { o["dk"] = "bind"; o["id"] = idOf(b); if (b->getBinding()) o["b"] = expr(b->getBinding()); }
			else { o["dk"] = "other"; o["q"] = d->getQualifiedNameAsString(); }
			return o;
		}
		if (auto *x = dyn_cast<MemberExpr>(e)) {
			const ValueDecl *d = x->getMemberDecl();
			Object o{{"k", "Mem"}, {"n", d->getNameAsString()}, {"b", expr(x->getBase())}};
			if (x->isArrow()) o["arrow"] = 1;
			if (auto *fd = dyn_cast<FieldDecl>(d)) {
				o["dk"] = "field";
				o["cls"] = recName(cast<CXXRecordDecl>(fd->getParent()));
			} else if (auto *f = dyn_cast<FunctionDecl>(d)) { o["dk"] = "fn"; o["f"] = fn(f); if (x->hasQualifier()) o["qual"] = 1; }
			else if (auto *v = dyn_cast<VarDecl>(d)) { o["dk"] = "global"; o["q"] = v->getQualifiedNameAsString(); o["id"] = idOf(v); global(v); }
			return o;
		}
		if (auto *x = dyn_cast<CompoundAssignOperator>(e)) {
			return Object{{"k", "Asg"}, {"op", x->getOpcodeStr().str()}, {"a", expr(x->getLHS())}, {"b", expr(x->getRHS())}, {"ct", ty(x->getComputationResultType())}};
		}
		if (auto *x = dyn_cast<BinaryOperator>(e)) {
			return Object{{"k", x->getOpcode() == BO_Assign ? "Asg" : "Bin"}, {"op", x->getOpcodeStr().str()}, {"a", expr(x->getLHS())}, {"b", expr(x->getRHS())}};
		}
		if (auto *x = dyn_cast<CXXRewrittenBinaryOperator>(e)) return expr(x->getSemanticForm());
		if (auto *x = dyn_cast<UnaryOperator>(e)) {
			std::string op = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
			if (x->isPostfix()) op = "p" + op;
			return Object{{"k", "Un"}, {"op", op}, {"e", expr(x->getSubExpr())}};
		}
		if (auto *x = dyn_cast<ConditionalOperator>(e))
			return Object{{"k", "Cnd"}, {"c", expr(x->getCond())}, {"a", expr(x->getTrueExpr())}, {"b", expr(x->getFalseExpr())}};
		if (auto *x = dyn_cast<BinaryConditionalOperator>(e))
			return Object{{"k", "Opq"}, {"cls", "BinCond"}, {"c", Array{expr(x->getCommon()), expr(x->getFalseExpr())}}};
		if (auto *x = dyn_cast<OpaqueValueExpr>(e)) { if (x->getSourceExpr()) return expr(x->getSourceExpr()); }
		if (auto *x = dyn_cast<ArraySubscriptExpr>(e))
			return Object{{"k", "Idx"}, {"b", expr(x->getBase())}, {"i", expr(x->getIdx())}};
		if (auto *x = dyn_cast<CXXOperatorCallExpr>(e)) {
			Object o{{"k", "OpC"}, {"op", getOperatorSpelling(x->getOperator())}, {"a", args(x)}};
			if (auto *f = x->getDirectCallee()) { o["f"] = fn(f); if (isa<CXXMethodDecl>(f) && cast<CXXMethodDecl>(f)->isInstance()) o["m"] = 1; }
			return o;
		}
		if (auto *x = dyn_cast<CXXMemberCallExpr>(e)) {
			Object o{{"k", "MC"}, {"a", args(x)}};
			if (auto *m = x->getMethodDecl()) {
				o["f"] = fn(m);
				o["o"] = expr(x->getImplicitObjectArgument());
				if (auto *me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) {
					if (me->hasQualifier()) o["qual"] = 1;
					if (me->isArrow()) o["arrow"] = 1;
				}
			} else { o["c"] = expr(x->getCallee()); }
			return o;
		}
		if (auto *x = dyn_cast<CallExpr>(e)) {
			Object o{{"k", "Call"}, {"a", args(x)}};
			if (auto *f = x->getDirectCallee()) o["f"] = fn(f); else o["c"] = expr(x->getCallee());
			return o;
		}
		if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
			Object o{{"k", "Ctor"}, {"f", fn(x->getConstructor())}, {"a", args(x)}};
			if (x->isElidable()) o["elide"] = 1;
			if (x->isListInitialization()) o["list"] = 1;
			return o;
		}
		if (auto *x = dyn_cast<CXXInheritedCtorInitExpr>(e)) return Object{{"k", "Ctor"}, {"f", fn(x->getConstructor())}, {"a", Array{}}};
		if (auto *x = dyn_cast<CXXNewExpr>(e)) {
			Object o{{"k", "New"}, {"at", ty(x->getAllocatedType())}};
			if (x->isArray()) { o["arr"] = 1; if (x->getArraySize()) o["sz"] = expr(*x->getArraySize()); }
			if (x->hasInitializer()) o["init"] = expr(x->getInitializer());
			return o;
		}
		if (auto *x = dyn_cast<CXXDeleteExpr>(e)) { Object o{{"k", "Del"}, {"e", expr(x->getArgument())}}; if (x->isArrayForm()) o["arr"] = 1; return o; }
		if (auto *x = dyn_cast<CastExpr>(e)) {
			auto k = x->getCastKind();
			// casts without effect on the value are dropped
			if (isa<ImplicitCastExpr>(e)) {
				switch (k) {
				case CK_NoOp: case CK_LValueToRValue: case CK_FunctionToPointerDecay: case CK_ArrayToPointerDecay:
				case CK_UserDefinedConversion: case CK_ConstructorConversion: case CK_DerivedToBase:
				case CK_UncheckedDerivedToBase: case CK_NullToPointer: case CK_BuiltinFnToFnPtr:
					return expr(x->getSubExpr());
				default: break;
				}
			} else if (k == CK_ConstructorConversion || k == CK_UserDefinedConversion) return expr(x->getSubExpr());
			Object o{{"k", "Cast"}, {"ck", x->getCastKindName()}, {"e", expr(x->getSubExpr())}};
			if (!isa<ImplicitCastExpr>(e)) o["ex"] = 1;
			return o;
		}
		if (auto *x = dyn_cast<InitListExpr>(e)) {
			if (auto *s = x->getSemanticForm()) if (s != x) return expr(s);
			Array a;
			for (auto *i : x->inits()) a.push_back(expr(i));
			Object o{{"k", "IL"}, {"e", std::move(a)}};
			if (x->hasArrayFiller()) o["fill"] = 1;
			return o;
		}
		if (auto *x = dyn_cast<LambdaExpr>(e)) {
			Object o{{"k", "Lam"}, {"rec", recName(x->getLambdaClass())}};
			Array caps;
			auto ci = x->capture_init_begin();
			for (auto &c : x->captures()) {
				Object k;
				if (c.capturesThis()) k["this"] = 1;
				else if (c.capturesVariable()) { k["id"] = idOf(c.getCapturedVar()); k["n"] = c.getCapturedVar()->getNameAsString(); k["ref"] = c.getCaptureKind() == LCK_ByRef ? 1 : 0; }
				if (ci != x->capture_init_end() && *ci) k["init"] = expr(*ci);
				++ci;
				caps.push_back(std::move(k));
			}
			o["caps"] = std::move(caps);
			if (auto *m = x->getCallOperator()) {
				Array ps;
				for (auto *p : m->parameters()) ps.push_back(varDecl(p));
				o["params"] = std::move(ps);
				o["ret"] = ty(m->getReturnType());
				o["f"] = fn(m);
			}
			o["body"] = stmt(x->getBody());
			return o;
		}
		if (auto *x = dyn_cast<CXXThrowExpr>(e)) return Object{{"k", "Thr"}, {"e", opt(x->getSubExpr())}};
		if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) return Object{{"k", "Szof"}};
		if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) return Object{{"k", "Zero"}};
		if (auto *x = dyn_cast<PredefinedExpr>(e)) return Object{{"k", "Str"}, {"v", "func"}};
		if (auto *x = dyn_cast<StmtExpr>(e)) return Object{{"k", "SE"}, {"b", stmt(x->getSubStmt())}};
		Array ch;
		for (auto *c : e->children()) if (c) { if (auto *ce = dyn_cast<Expr>(c)) ch.push_back(expr(ce)); else ch.push_back(stmt(c)); }
		return Object{{"k", "Opq"}, {"cls", e->getStmtClassName()}, {"c", std::move(ch)}};
	}

	// ---------- statements ----------
	Value stmt(const Stmt *s) {
		if (!s) return nullptr;
		Value v = stmtRaw(s);
		if (auto *o = v.getAsObject()) if (!o->get("l")) o->try_emplace("l", (int64_t)lineOf(s->getBeginLoc()));
		return v;
	}
	Value stmtRaw(const Stmt *s) {
		if (auto *x = dyn_cast<Expr>(s)) return expr(x);
		if (auto *x = dyn_cast<CompoundStmt>(s)) {
			Array a;
			for (auto *c : x->body()) a.push_back(stmt(c));
			return Object{{"k", "Blk"}, {"s", std::move(a)}, {"el", (int64_t)lineOf(x->getRBracLoc())}};
		}
		if (auto *x = dyn_cast<AttributedStmt>(s)) return stmt(x->getSubStmt());
		if (auto *x = dyn_cast<IfStmt>(s)) {
			Object o{{"k", "If"}, {"c", opt(x->getCond())}, {"a", stmt(x->getThen())}, {"b", stmt(x->getElse())}};
			if (x->getInit()) o["i"] = stmt(x->getInit());
			if (x->getConditionVariable()) o["cvar"] = varDecl(x->getConditionVariable());
			if (x->isConstexpr()) o["cx"] = 1;
			return o;
		}
		if (auto *x = dyn_cast<ForStmt>(s))
			return Object{{"k", "For"}, {"i", stmt(x->getInit())}, {"c", opt(x->getCond())}, {"n", opt(x->getInc())}, {"b", stmt(x->getBody())}};
		if (auto *x = dyn_cast<WhileStmt>(s)) {
			Object o{{"k", "Whl"}, {"c", opt(x->getCond())}, {"b", stmt(x->getBody())}};
			if (x->getConditionVariable()) o["cvar"] = varDecl(x->getConditionVariable());
			return o;
		}
		if (auto *x = dyn_cast<DoStmt>(s)) return Object{{"k", "Do"}, {"c", opt(x->getCond())}, {"b", stmt(x->getBody())}};
		if (auto *x = dyn_cast<CXXForRangeStmt>(s))
			return Object{{"k", "Rng"}, {"i", stmt(x->getInit())}, {"r", opt(x->getRangeInit())}, {"var", varDecl(x->getLoopVariable())}, {"b", stmt(x->getBody())}};
		if (auto *x = dyn_cast<SwitchStmt>(s)) {
			Object o{{"k", "Sw"}, {"c", opt(x->getCond())}, {"b", stmt(x->getBody())}};
			if (x->getInit()) o["i"] = stmt(x->getInit());
			return o;
		}
		if (auto *x = dyn_cast<CaseStmt>(s)) {
			Object o{{"k", "Case"}, {"c", expr(x->getLHS())}, {"b", stmt(x->getSubStmt())}};
			if (x->getRHS()) o["hi"] = expr(x->getRHS());
			return o;
		}
		if (auto *x = dyn_cast<DefaultStmt>(s)) return Object{{"k", "Dft"}, {"b", stmt(x->getSubStmt())}};
		if (isa<BreakStmt>(s)) return Object{{"k", "Brk"}};
		if (isa<ContinueStmt>(s)) return Object{{"k", "Cont"}};
		if (auto *x = dyn_cast<ReturnStmt>(s)) return Object{{"k", "Ret"}, {"e", opt(x->getRetValue())}};
		if (auto *x = dyn_cast<DeclStmt>(s)) {
			Array a;
			for (auto *d : x->decls()) {
				if (auto *v = dyn_cast<VarDecl>(d)) {
					Value vd = varDecl(v);
					if (auto *dd = dyn_cast<DecompositionDecl>(v)) {
						Array bs;
						for (auto *b : dd->bindings()) { Object bo{{"id", idOf(b)}, {"n", b->getNameAsString()}}; bs.push_back(std::move(bo)); }
						vd.getAsObject()->try_emplace("binds", std::move(bs));
					}
					a.push_back(std::move(vd));
				}
			}
			return Object{{"k", "Dcl"}, {"v", std::move(a)}};
		}
		if (auto *x = dyn_cast<CXXTryStmt>(s)) {
			Array h;
			for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
				auto *c = x->getHandler(i);
				Object o{{"b", stmt(c->getHandlerBlock())}};
				if (c->getExceptionDecl()) { o["t"] = ty(c->getCaughtType()); o["var"] = varDecl(c->getExceptionDecl()); }
				h.push_back(std::move(o));
			}
			return Object{{"k", "Try"}, {"b", stmt(x->getTryBlock())}, {"h", std::move(h)}};
		}
		if (isa<NullStmt>(s)) return Object{{"k", "Nop"}};
		if (auto *x = dyn_cast<LabelStmt>(s)) return Object{{"k", "Lbl"}, {"n", x->getName()}, {"b", stmt(x->getSubStmt())}};
		if (auto *x = dyn_cast<GotoStmt>(s)) return Object{{"k", "Goto"}, {"n", x->getLabel()->getNameAsString()}};
		Array ch;
		for (auto *c : s->children()) if (c) ch.push_back(stmt(c));
		return Object{{"k", "OpqS"}, {"cls", s->getStmtClassName()}, {"c", std::move(ch)}};
	}

	// ---------- declarations ----------
	void global(const VarDecl *v) {
		std::string q = v->getQualifiedNameAsString();
		const VarDecl *def = v->getDefinition(C);
		const VarDecl *d = def ? def : v;
		if (!inRepo(d->getLocation())) return;
		std::string key = q;
		if (v->isStaticLocal()) key += "@" + std::to_string(lineOf(v->getLocation()));
		if (auto *old = globals.getObject(key)) { if (old->get("init")) return; }
		if (seen.count("G" + key)) return;
		seen.insert("G" + key);
		Value o = varDecl(d);
		seen.erase("G" + key);
		auto *oo = o.getAsObject();
		oo->try_emplace("file", realPath(d->getLocation()));
		oo->try_emplace("sl", v->isStaticLocal() ? 1 : 0);
		oo->try_emplace("q", q);
		globals[key] = std::move(o);
	}
	void record(const CXXRecordDecl *r) {
		if (!r->isThisDeclarationADefinition() || r->isDependentType() || r->isLambda()) return;
		std::string q = recName(r);
		if (records.get(q)) return;
		Object o;
		Array bs;
		for (auto &b : r->bases()) if (auto *br = b.getType()->getAsCXXRecordDecl()) bs.push_back(recName(br));
		o["bases"] = std::move(bs);
		Array fs;
		for (auto *f : r->fields()) {
			Object fo{{"n", f->getNameAsString()}, {"t", ty(f->getType())}, {"l", (int64_t)lineOf(f->getLocation())}};
			if (f->isMutable()) fo["mut"] = 1;
			if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer());
			fo["acc"] = f->getAccess() == AS_public ? "pub" : f->getAccess() == AS_protected ? "prot" : "priv";
			fs.push_back(std::move(fo));
		}
		o["fields"] = std::move(fs);
		Array ms;
		for (auto *m : r->methods()) if (!m->isImplicit() || m->isVirtual()) ms.push_back(fn(m));
		o["methods"] = std::move(ms);
		if (r->isAbstract()) o["abstract"] = 1;
		o["file"] = realPath(r->getLocation());
		o["l"] = (int64_t)lineOf(r->getLocation());
		records[q] = std::move(o);
	}
	void enumd(const EnumDecl *e) {
		Object o;
		for (auto *c : e->enumerators()) o[c->getNameAsString()] = c->getInitVal().getExtValue();
		enums[e->getQualifiedNameAsString()] = std::move(o);
	}
	void function(const FunctionDecl *f) {
		if (!f->isThisDeclarationADefinition() || f->isDependentContext()) return;
		if (!f->getBody()) return;
		if (auto *m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) return;
		std::string u = fn(f);
		if (defs.get(u)) return;
		Object o;
		o["file"] = realPath(f->getLocation());
		o["l"] = (int64_t)lineOf(f->getLocation());
		o["el"] = (int64_t)lineOf(f->getEndLoc());
		Array ps;
		for (auto *p : f->parameters()) {
			Object po{{"id", idOf(p)}, {"n", p->getNameAsString()}, {"t", ty(p->getType())}};
			if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg()) po["def"] = expr(p->getDefaultArg());
			ps.push_back(std::move(po));
		}
		o["params"] = std::move(ps);
		if (auto *c = dyn_cast<CXXConstructorDecl>(f)) {
			Array is;
			for (auto *i : c->inits()) {
				Object io{{"e", expr(i->getInit())}};
				if (i->isMemberInitializer()) io["m"] = i->getMember()->getNameAsString();
				else if (i->isBaseInitializer()) { if (auto *b = i->getBaseClass()->getAsCXXRecordDecl()) io["b"] = recName(b); }
				else io["deleg"] = 1;
				if (i->isWritten()) io["w"] = 1;
				is.push_back(std::move(io));
			}
			o["inits"] = std::move(is);
		}
		if (isa<CXXConstructorDecl>(f) || isa<CXXMethodDecl>(f)) {}
		o["body"] = stmt(f->getBody());
		defs[u] = std::move(o);
	}
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
	explicit Visitor(Dumper &d) : D(d) {}
	Dumper &D;
	bool shouldVisitTemplateInstantiations() const { return true; }
	bool shouldVisitImplicitCode() const { return false; }
	bool VisitFunctionDecl(FunctionDecl *f) { if (D.inRepo(f->getLocation())) D.function(f); return true; }
	bool VisitCXXRecordDecl(CXXRecordDecl *r) { if (D.inRepo(r->getLocation())) D.record(r); return true; }
	bool VisitEnumDecl(EnumDecl *e) { if (D.inRepo(e->getLocation()) && e->isCompleteDefinition()) D.enumd(e); return true; }
	bool VisitVarDecl(VarDecl *v) {
		if (!D.inRepo(v->getLocation())) return true;
		if (v->getDeclContext()->isDependentContext()) return true;
		if (v->hasGlobalStorage()) D.global(v);
		return true;
	}
};

class Consumer : public ASTConsumer {
public:
	void HandleTranslationUnit(ASTContext &c) override {
		if (c.getDiagnostics().hasErrorOccurred()) return;
		Dumper d(c);
		Visitor v(d);
		v.TraverseDecl(c.getTranslationUnitDecl());
		// definitions reached only through instantiation are visited by the traversal above
		Object o;
		o["types"] = std::move(d.types);
		o["fns"] = std::move(d.fns);
		o["defs"] = std::move(d.defs);
		o["records"] = std::move(d.records);
		o["enums"] = std::move(d.enums);
		o["globals"] = std::move(d.globals);
		llvm::outs() << Value(std::move(o)) << "\n";
		llvm::outs().flush();
	}
};
class Action : public ASTFrontendAction {
public:
	std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};
}

// usage: extract ROOT FILE BLANKWORD -- flags...
int main(int argc, const char **argv) {
	if (argc < 5) return 2;
	Root = argv[1];
	std::string file = argv[2], word = argv[3];
	std::vector<std::string> flags(argv + 5, argv + argc);
	tooling::FixedCompilationDatabase db(".", flags);
	tooling::ClangTool tool(db, {file});
	std::string content;
	if (!word.empty()) {
		std::ifstream in(file);
		std::string line;
		while (std::getline(in, line)) { if (line.find(word) != std::string::npos) line.clear(); content += line + "\n"; }
		tool.mapVirtualFile(file, content);
	}
	return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
