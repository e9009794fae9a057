// effects: memory effects of every function of an unoptimised module, for checking the attributes that claim their absence.
// usage: effects file.bc   (compile with -O1 -Xclang -disable-llvm-passes -g1)  -> one JSON object per defined function
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/InstCombine/InstCombine.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Scalar/SCCP.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Utils/UnifyFunctionExitNodes.h"
#include <map>
#include <set>
using namespace llvm;

// root: 'a'+index argument, 'g' global, 'u' unknown pointer, 'c' unknown call
struct Eff
{
	char rw;
	char kind;
	int arg;
	const Value* g;
	bool operator<(const Eff& o) const { return std::tie(rw, kind, arg, g) < std::tie(o.rw, o.kind, o.arg, o.g); }
};
struct Info
{
	std::map<Eff, std::string> e; // effect -> where
};
static std::map<const Function*, Info> I;
static std::set<const BasicBlock*> dead;
static std::set<const GlobalVariable*> once; // function-local statics written only under their initialisation guard, and the guards

static std::string where(const Instruction* i)
{
	if (auto& d = i->getDebugLoc())
	{
		auto* s = cast<DIScope>(d.getScope());
		return (s->getFilename() + ":" + Twine(d.getLine())).str();
	}
	return "?";
}
// the argument a function's result points into, if that is always the same one (-1: unknown)
static std::map<const Function*, int> retarg;
static int returnsInto(const Function& F);
static void roots(const Value* p, SmallVectorImpl<const Value*>& out, int depth = 0)
{
	SmallVector<const Value*, 8> o;
	getUnderlyingObjects(p, o, nullptr, 32);
	for (auto* v : o)
	{
		if (auto* c = dyn_cast<CallBase>(v); c && depth < 8)
		{
			auto* t = dyn_cast<Function>(c->getCalledOperand()->stripPointerCastsAndAliases());
			if (t && !t->isDeclaration() && c->getType()->isPointerTy())
			{
				int k = returnsInto(*t);
				if (k >= 0 && k < (int)c->arg_size())
				{
					roots(c->getArgOperand(k), out, depth + 1);
					continue;
				}
			}
		}
		out.push_back(v);
	}
}
static int returnsInto(const Function& F)
{
	auto [it, fresh] = retarg.emplace(&F, -1);
	if (!fresh) return it->second;
	int r = -2;
	for (auto& B : F)
		if (auto* x = dyn_cast<ReturnInst>(B.getTerminator()); x && x->getReturnValue())
		{
			SmallVector<const Value*, 8> o;
			roots(x->getReturnValue(), o, 1);
			for (auto* v : o)
			{
				auto* a = dyn_cast<Argument>(v);
				int k	= a ? (int)a->getArgNo() : -1;
				if (isa<ConstantPointerNull>(v) || isa<UndefValue>(v)) continue;
				if (r == -2) r = k;
				if (r != k) r = -1;
			}
		}
	return retarg[&F] = r < 0 ? -1 : r;
}
static bool add(Info& f, Eff e, const std::string& w) { return f.e.emplace(e, w).second; }
static bool touch(const Function& F, Info& f, const Value* p, char rw, const std::string& w)
{
	SmallVector<const Value*, 8> r;
	roots(p, r);
	bool ch = false;
	for (auto* v : r)
	{
		if (isa<AllocaInst>(v) || isa<ConstantPointerNull>(v) || isa<UndefValue>(v)) continue;
		if (auto* a = dyn_cast<Argument>(v))
		{
			if (a->hasByValAttr() || a->hasStructRetAttr()) continue;
			ch |= add(f, { rw, 'a', (int)a->getArgNo(), nullptr }, w);
		}
		else if (auto* g = dyn_cast<GlobalVariable>(v))
		{
			if (g->isConstant() || once.count(g)) continue;
			ch |= add(f, { rw, 'g', 0, g }, w);
		}
		else ch |= add(f, { rw, 'u', 0, nullptr }, w);
	}
	return ch;
}
static bool scan(const Function& F)
{
	bool ch = false;
	auto& f = I[&F];
	for (auto& B : F)
	{
		if (dead.count(&B)) continue;
		for (auto& i : B)
		{
			auto w = where(&i);
			if (auto* l = dyn_cast<LoadInst>(&i)) ch |= touch(F, f, l->getPointerOperand(), 'r', w);
			else if (auto* s = dyn_cast<StoreInst>(&i)) ch |= touch(F, f, s->getPointerOperand(), 'w', w);
			else if (auto* x = dyn_cast<AtomicRMWInst>(&i)) ch |= touch(F, f, x->getPointerOperand(), 'w', w);
			else if (auto* x = dyn_cast<AtomicCmpXchgInst>(&i)) ch |= touch(F, f, x->getPointerOperand(), 'w', w);
			else if (auto* m = dyn_cast<MemIntrinsic>(&i))
			{
				ch |= touch(F, f, m->getRawDest(), 'w', w);
				if (auto* t = dyn_cast<MemTransferInst>(m)) ch |= touch(F, f, t->getRawSource(), 'r', w);
			}
			else if (auto* c = dyn_cast<CallBase>(&i))
			{
				if (isa<DbgInfoIntrinsic>(c)) continue;
				auto* t = dyn_cast<Function>(c->getCalledOperand()->stripPointerCastsAndAliases());
				if (t && t->isIntrinsic())
				{
					switch (t->getIntrinsicID())
					{
						case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::invariant_start: case Intrinsic::experimental_noalias_scope_decl:
						case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::donothing: case Intrinsic::stacksave: case Intrinsic::stackrestore: continue;
						default: break;
					}
					if (!t->doesNotAccessMemory()) ch |= add(f, { 'w', 'c', 0, t }, w);
					continue;
				}
				if (c->isInlineAsm())
				{
					if (!c->doesNotAccessMemory()) ch |= add(f, { 'w', 'c', 0, nullptr }, w);
					continue;
				}
				if (t && !t->isDeclaration())
				{
					auto copy = I[t].e;
					for (auto& [e, ww] : copy)
					{
						auto w2 = w + " -> " + ww;
						if (w2.size() > 400) w2 = w2.substr(0, 400);
						if (e.kind == 'a' && e.arg < (int)c->arg_size())
						{
							if (c->isByValArgument(e.arg)) ch |= touch(F, f, c->getArgOperand(e.arg), 'r', w2);
							else ch |= touch(F, f, c->getArgOperand(e.arg), e.rw, w2);
						}
						else ch |= add(f, e, w2);
					}
					// a byval argument is read at the call
					for (unsigned k = 0; k < c->arg_size(); k++)
						if (c->isByValArgument(k)) ch |= touch(F, f, c->getArgOperand(k), 'r', w);
						else if (c->paramHasAttr(k, Attribute::StructRet)) ch |= touch(F, f, c->getArgOperand(k), 'w', w);
					continue;
				}
				if (t && t->doesNotAccessMemory()) continue;
				ch |= add(f, { (t && t->onlyReadsMemory()) ? 'r' : 'w', 'c', 0, t }, w);
			}
		}
	}
	return ch;
}
int main(int argc, char** argv)
{
	LLVMContext C;
	SMDiagnostic E;
	auto M = parseIRFile(argv[1], E, C);
	if (!M) { E.print("effects", errs()); return 2; }
	std::map<const Function*, std::string> claim;
	for (auto& F : *M)
	{
		if (F.isDeclaration()) continue;
		claim[&F] = F.doesNotAccessMemory() ? "const" : F.onlyReadsMemory() ? "pure" : "";
	}
	for (auto& F : *M)
	{
		if (!F.isDeclaration()) F.removeFnAttr(Attribute::Memory);
		for (auto& i : instructions(F))
			if (auto* c = dyn_cast<CallBase>(&i))
			{
				auto* t = dyn_cast<Function>(c->getCalledOperand()->stripPointerCastsAndAliases());
				if (t && !t->isDeclaration()) c->removeFnAttr(Attribute::Memory);
			}
	}
	LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
	PassBuilder PB;
	PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
	PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
	FunctionPassManager FPM;
	FPM.addPass(SROAPass(SROAOptions::ModifyCFG));
	FPM.addPass(EarlyCSEPass(true));
	FPM.addPass(SCCPPass());
	FPM.addPass(SimplifyCFGPass());
	FPM.addPass(SROAPass(SROAOptions::ModifyCFG));
	for (auto& F : *M)
		if (!F.isDeclaration()) FPM.run(F, FAM);
	// blocks from which every path ends in unreachable
	for (auto& F : *M)
	{
		bool ch = true;
		while (ch)
		{
			ch = false;
			for (auto& B : F)
			{
				if (dead.count(&B)) continue;
				auto* t = B.getTerminator();
				bool d = isa<UnreachableInst>(t) || isa<ResumeInst>(t);
				if (!d && t->getNumSuccessors())
				{
					d = true;
					for (unsigned k = 0; k < t->getNumSuccessors(); k++)
						if (!dead.count(t->getSuccessor(k))) d = false;
				}
				if (d) dead.insert(&B), ch = true;
			}
		}
	}
	auto fix = [&]
	{
		bool ch = true;
		while (ch)
		{
			ch = false;
			for (auto& F : *M)
				if (!F.isDeclaration()) ch |= scan(F);
		}
	};
	// function-local statics: a guard is a global passed to __cxa_guard_acquire; a static written only in blocks dominated by an acquire is set once
	fix();
	std::set<const GlobalVariable*> stat, bad;
	for (auto& F : *M)
	{
		if (F.isDeclaration()) continue;
		SmallVector<const Instruction*, 4> acq;
		for (auto& i : instructions(F))
			if (auto* c = dyn_cast<CallBase>(&i))
				if (auto* t = c->getCalledFunction(); t && t->getName() == "__cxa_guard_acquire")
				{
					acq.push_back(c);
					if (auto* g = dyn_cast<GlobalVariable>(c->getArgOperand(0)->stripPointerCasts())) once.insert(g);
				}
		DominatorTree D(F);
		for (auto& i : instructions(F))
		{
			auto wr = [&](const Value* p)
			{
				SmallVector<const Value*, 8> r;
				roots(p, r);
				for (auto* v : r)
					if (auto* g = dyn_cast<GlobalVariable>(v))
					{
						stat.insert(g);
						bool ok = false;
						for (auto* a : acq)
							if (D.dominates(a, &i)) ok = true;
						if (!ok || !g->hasLocalLinkage() && !g->hasLinkOnceLinkage() && !g->hasWeakLinkage()) bad.insert(g);
					}
			};
			if (auto* s = dyn_cast<StoreInst>(&i)) wr(s->getPointerOperand()), wr(s->getValueOperand());
			else if (isa<LoadInst>(i)) {}
			else if (auto* m = dyn_cast<MemIntrinsic>(&i)) wr(m->getRawDest());
			else if (auto* c = dyn_cast<CallBase>(&i))
			{
				auto* t = dyn_cast<Function>(c->getCalledOperand()->stripPointerCastsAndAliases());
				for (unsigned k = 0; k < c->arg_size() && !(t && t->isIntrinsic()); k++)
					if (c->getArgOperand(k)->getType()->isPointerTy())
						if (!t || t->isDeclaration() || I[t].e.count({ 'w', 'a', (int)k, nullptr })) wr(c->getArgOperand(k));
			}
			else if (i.mayWriteToMemory())
				for (auto& o : i.operands())
					if (o->getType()->isPointerTy()) wr(o);
		}
	}
	for (auto* g : stat)
		if (!bad.count(g)) once.insert(g);
	I.clear();
	fix();
	for (auto& F : *M)
	{
		if (F.isDeclaration()) continue;
		json::Object o;
		o["name"]  = F.getName();
		o["claim"] = claim[&F];
		o["demangled"] = demangle(F.getName().str());
		if (auto* sp = F.getSubprogram()) { o["file"] = sp->getFilename(); o["line"] = (int64_t)sp->getLine(); }
		o["sret"] = F.arg_size() && F.getArg(0)->hasStructRetAttr();
		json::Array es;
		for (auto& [e, w] : I[&F].e)
		{
			json::Object x;
			x["rw"]	  = std::string(1, e.rw);
			x["kind"] = std::string(1, e.kind);
			x["arg"]  = e.arg;
			x["what"] = e.g ? demangle(e.g->getName().str()) : "";
			x["at"]	  = w;
			es.push_back(std::move(x));
		}
		o["effects"] = std::move(es);
		outs() << json::Value(std::move(o)) << "\n";
	}
}
