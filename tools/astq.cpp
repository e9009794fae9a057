// astq: facts about the declarations of a translation unit that lie below a given directory, one JSON object per line.
// usage: astq DIR -- clang++ args... file.cpp
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
using namespace clang;
using namespace llvm;

static std::string Dir;

struct V : RecursiveASTVisitor<V>
{
	ASTContext& C;
	std::unique_ptr<MangleContext> M;
	V(ASTContext& c) : C(c), M(c.createMangleContext()) {}
	bool shouldVisitTemplateInstantiations() const { return true; }
	bool shouldVisitImplicitCode() const { return false; }

	std::string file(SourceLocation l, unsigned& line)
	{
		auto& SM = C.getSourceManager();
		auto p   = SM.getPresumedLoc(SM.getExpansionLoc(l), false);
		if (p.isInvalid()) return "";
		line = p.getLine();
		SmallString<256> s(p.getFilename());
		llvm::sys::path::remove_dots(s, true);
		return std::string(s);
	}
	std::string mangled(const NamedDecl* d)
	{
		std::string s;
		raw_string_ostream os(s);
		if (auto* c = dyn_cast<CXXConstructorDecl>(d)) M->mangleName(GlobalDecl(c, Ctor_Complete), os);
		else if (auto* x = dyn_cast<CXXDestructorDecl>(d)) M->mangleName(GlobalDecl(x, Dtor_Complete), os);
		else if (M->shouldMangleDeclName(d)) M->mangleName(GlobalDecl(d), os);
		else os << d->getName();
		return s;
	}
	static bool dependent(const Decl* d)
	{
		for (auto* dc = d->getDeclContext(); dc; dc = dc->getParent())
			if (dc->isDependentContext()) return true;
		return false;
	}
	void common(json::Object& o, NamedDecl* d, const char* kind)
	{
		unsigned line = 0;
		o["kind"]	  = kind;
		o["name"]	  = d->getQualifiedNameAsString();
		o["file"]	  = file(d->getLocation(), line);
		o["line"]	  = (int64_t)line;
		o["linkage"]  = (int64_t)d->getFormalLinkage();
		o["global"]	  = d->getDeclContext()->getRedeclContext()->isTranslationUnit();
	}
	bool mine(NamedDecl* d)
	{
		unsigned l;
		auto f = file(d->getLocation(), l);
		return StringRef(f).starts_with(Dir);
	}
	bool VisitFunctionDecl(FunctionDecl* d)
	{
		if (!mine(d) || d->isImplicit()) return true;
		json::Object o;
		common(o, d, "function");
		o["pattern"]	= d->isDependentContext() || d->getDescribedFunctionTemplate() != nullptr;
		o["instance"]	= d->isTemplateInstantiation();
		o["defined"]	= d->isDefined() || d->isDefaulted() || d->isDeleted() || d->isPureVirtual();
		o["body"]		= d->isThisDeclarationADefinition() && !d->isDeleted() && !d->isDefaulted();
		o["inline"]		= d->isInlined();
		o["consteval"]	= d->isConsteval();
		o["deleted"]	= d->isDeleted();
		o["constexpr"]	= d->isConstexpr();
		o["builtin"]	= d->getBuiltinID() != 0;
		o["canonical"]	= d->isCanonicalDecl();
		o["const"]		= d->hasAttr<ConstAttr>();
		o["pure"]		= d->hasAttr<PureAttr>();
		o["malloc"]		= d->hasAttr<RestrictAttr>();
		o["returnsNonNull"] = d->hasAttr<ReturnsNonNullAttr>();
		o["visible"]	= d->hasAttr<VisibilityAttr>();
		o["type"]		= d->getType().getAsString();
		o["member"]		= isa<CXXMethodDecl>(d) && !cast<CXXMethodDecl>(d)->isStatic();
		if (auto* ft = d->getType()->getAs<FunctionProtoType>(); ft && !isUnresolvedExceptionSpec(ft->getExceptionSpecType())) o["noexcept"] = (int64_t)ft->canThrow() == CT_Cannot;
		if (!d->isDependentContext() && !d->getDescribedFunctionTemplate() && !d->isDeleted()) o["mangled"] = mangled(d);
		outs() << json::Value(std::move(o)) << "\n";
		return true;
	}
	bool VisitVarDecl(VarDecl* d)
	{
		if (!mine(d) || d->isImplicit() || !d->hasGlobalStorage() || d->isLocalVarDecl() || isa<ParmVarDecl>(d)) return true;
		json::Object o;
		common(o, d, "variable");
		o["pattern"]   = dependent(d) || d->getDescribedVarTemplate() != nullptr || isa<VarTemplatePartialSpecializationDecl>(d);
		o["inline"]	   = d->isInline();
		o["defined"]   = d->hasDefinition() != VarDecl::DeclarationOnly;
		o["canonical"] = d->isCanonicalDecl();
		o["constexpr"] = d->isConstexpr();
		o["isconst"]   = d->getType().isConstQualified();
		o["instance"]  = isTemplateInstantiation(d->getTemplateSpecializationKind());
		outs() << json::Value(std::move(o)) << "\n";
		return true;
	}
	bool VisitUsingDirectiveDecl(UsingDirectiveDecl* d)
	{
		if (!mine(d)) return true;
		json::Object o;
		common(o, d, "using_directive");
		o["what"] = d->getNominatedNamespaceAsWritten()->getQualifiedNameAsString();
		outs() << json::Value(std::move(o)) << "\n";
		return true;
	}
	bool VisitNamedDecl(NamedDecl* d)
	{
		if (!d->getDeclContext()->getRedeclContext()->isTranslationUnit() || isa<NamespaceDecl>(d) || isa<UsingDirectiveDecl>(d) || !mine(d) || d->isImplicit()) return true;
		json::Object o;
		common(o, d, "toplevel");
		o["decl"] = d->getDeclKindName();
		outs() << json::Value(std::move(o)) << "\n";
		return true;
	}
};
struct Cons : ASTConsumer
{
	void HandleTranslationUnit(ASTContext& c) override
	{
		V v(c);
		v.TraverseDecl(c.getTranslationUnitDecl());
	}
};
struct Act : ASTFrontendAction
{
	std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Cons>(); }
};
int main(int argc, char** argv)
{
	if (argc < 4) return 2;
	Dir = argv[1];
	std::vector<std::string> args;
	std::string f = argv[argc - 1];
	args.push_back("clang++-18");
	for (int i = 3; i < argc - 1; i++) args.push_back(argv[i]);
	args.push_back("-resource-dir=/usr/lib/llvm-18/lib/clang/18");
	args.push_back("-fsyntax-only");
	args.push_back(f);
	IntrusiveRefCntPtr<FileManager> fm(new FileManager(FileSystemOptions()));
	tooling::ToolInvocation inv(args, std::make_unique<Act>(), fm.get());
	return inv.run() ? 0 : 1;
}
