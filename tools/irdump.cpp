// irdump: reads LLVM IR/bitcode and dumps selected functions as JSON, for the value-graph analyses in /verif/lib.
// usage: irdump file.bc prefix   -> JSON on stdout for every defined function whose name starts with prefix
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/Support/AtomicOrdering.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/Dominators.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/OptimizationRemarkEmitter.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/TargetTransformInfo.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/Regex.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/InstCombine/InstCombine.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/GVN.h"
#include "llvm/Transforms/Scalar/SCCP.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Utils/LCSSA.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/Transforms/Utils/UnrollLoop.h"
#include <map>
#include <set>
using namespace llvm;

static const DataLayout* DL;
static std::map<const Value*, int> ids;
static std::set<const GlobalVariable*> usedGlobals;
static int idOf(const Value* v)
{
	auto it = ids.find(v);
	if (it != ids.end()) return it->second;
	int n = (int)ids.size();
	ids[v] = n;
	return n;
}
static std::string tstr(Type* t)
{
	std::string s;
	raw_string_ostream os(s);
	t->print(os, false, true);
	return os.str();
}
static json::Value ap(const APInt& v)
{
	SmallString<64> s;
	v.toStringUnsigned(s);
	return json::Value(std::string(s));
}
static json::Value constant(const Constant* c);
static json::Value operand(const Value* v)
{
	if (auto* c = dyn_cast<Constant>(v)) return constant(c);
	if (isa<MetadataAsValue>(v)) return json::Array{ "md" };
	if (isa<InlineAsm>(v)) return json::Array{ "asm" };
	if (isa<BasicBlock>(v)) return json::Array{ "bb", idOf(v) };
	return json::Array{ "v", idOf(v) };
}
static json::Value constant(const Constant* c)
{
	if (auto* ci = dyn_cast<ConstantInt>(c)) return json::Array{ "i", ap(ci->getValue()), (int)ci->getBitWidth() };
	if (auto* cf = dyn_cast<ConstantFP>(c))
		return json::Array{ "f", ap(cf->getValueAPF().bitcastToAPInt()), tstr(c->getType()) };
	if (isa<ConstantPointerNull>(c)) return json::Array{ "null" };
	if (isa<PoisonValue>(c)) return json::Array{ "poison", tstr(c->getType()) };
	if (isa<UndefValue>(c)) return json::Array{ "undef", tstr(c->getType()) };
	if (isa<ConstantAggregateZero>(c))
	{
		if (auto* vt = dyn_cast<FixedVectorType>(c->getType()))
		{
			json::Array a;
			for (unsigned i = 0; i < vt->getNumElements(); i++)
				a.push_back(constant(c->getAggregateElement(i)));
			return json::Array{ "vec", std::move(a) };
		}
		unsigned n = 0;
		if (auto* st = dyn_cast<StructType>(c->getType())) n = st->getNumElements();
		else if (auto* at = dyn_cast<ArrayType>(c->getType())) n = (unsigned)at->getNumElements();
		json::Array a;
		for (unsigned i = 0; i < n && i < 4096; i++)
			a.push_back(constant(c->getAggregateElement(i)));
		return json::Array{ "agg", std::move(a) };
	}
	if (auto* g = dyn_cast<GlobalVariable>(c))
	{
		usedGlobals.insert(g);
		return json::Array{ "g", g->getName().str(), 0 };
	}
	if (auto* f = dyn_cast<Function>(c)) return json::Array{ "fn", f->getName().str() };
	if (isa<ConstantVector>(c) || isa<ConstantDataVector>(c))
	{
		json::Array a;
		unsigned n = cast<FixedVectorType>(c->getType())->getNumElements();
		for (unsigned i = 0; i < n; i++)
			a.push_back(constant(c->getAggregateElement(i)));
		return json::Array{ "vec", std::move(a) };
	}
	if (isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantDataArray>(c))
	{
		json::Array a;
		for (unsigned i = 0;; i++)
		{
			auto* e = c->getAggregateElement(i);
			if (!e) break;
			a.push_back(constant(e));
		}
		return json::Array{ "agg", std::move(a) };
	}
	if (auto* ce = dyn_cast<ConstantExpr>(c))
	{
		if (ce->getOpcode() == Instruction::GetElementPtr)
		{
			APInt off(DL->getIndexSizeInBits(0), 0);
			if (cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off))
				return json::Array{ "cgep", constant(cast<Constant>(ce->getOperand(0))), off.getSExtValue() };
		}
		json::Array a;
		for (auto& o : ce->operands()) a.push_back(operand(o.get()));
		return json::Array{ "ce", ce->getOpcodeName(), std::move(a), tstr(c->getType()) };
	}
	return json::Array{ "other", tstr(c->getType()) };
}
static bool bytesOf(const Constant* c, std::vector<int>& out, uint64_t off)
{
	Type* t = c->getType();
	uint64_t sz = DL->getTypeAllocSize(t);
	if (off + sz > out.size()) return false;
	if (auto* ci = dyn_cast<ConstantInt>(c))
	{
		APInt v = ci->getValue().zext((unsigned)((ci->getBitWidth() + 7) / 8 * 8));
		for (unsigned i = 0; i < v.getBitWidth() / 8; i++)
			out[off + i] = (int)v.extractBitsAsZExtValue(8, i * 8);
		return true;
	}
	if (auto* cf = dyn_cast<ConstantFP>(c))
	{
		APInt v = cf->getValueAPF().bitcastToAPInt();
		for (unsigned i = 0; i < v.getBitWidth() / 8; i++)
			out[off + i] = (int)v.extractBitsAsZExtValue(8, i * 8);
		return true;
	}
	if (isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c))
	{
		for (uint64_t i = 0; i < sz; i++) out[off + i] = 0;
		return true;
	}
	if (auto* st = dyn_cast<StructType>(t))
	{
		auto* sl = DL->getStructLayout(st);
		for (unsigned i = 0; i < st->getNumElements(); i++)
			if (auto* e = c->getAggregateElement(i)) bytesOf(e, out, off + sl->getElementOffset(i));
		return true;
	}
	if (auto* at = dyn_cast<ArrayType>(t))
	{
		uint64_t es = DL->getTypeAllocSize(at->getElementType());
		for (unsigned i = 0; i < at->getNumElements(); i++)
			if (auto* e = c->getAggregateElement(i)) bytesOf(e, out, off + es * i);
		return true;
	}
	if (auto* vt = dyn_cast<FixedVectorType>(t))
	{
		uint64_t es = DL->getTypeAllocSize(vt->getElementType());
		for (unsigned i = 0; i < vt->getNumElements(); i++)
			if (auto* e = c->getAggregateElement(i)) bytesOf(e, out, off + es * i);
		return true;
	}
	return false;
}
static json::Value loc(const Instruction& I)
{
	if (DILocation* d = I.getDebugLoc())
	{
		json::Array chain;
		int n = 0;
		for (DILocation* x = d; x && n < 12; x = x->getInlinedAt(), n++)
		{
			auto* sp = x->getScope()->getSubprogram();
			chain.push_back((x->getFilename() + ":" + Twine(x->getLine()) + ":" + (sp ? sp->getName() : "")).str());
		}
		return chain;
	}
	return nullptr;
}

// Unrolls every loop n times and replaces the remaining back edge by "@__vg_unwound = 1; return": an obligation then holds
// for all inputs if it holds for the unrolled function and that store is shown to be unreachable (by the analysis).
static void unroll(Function& F, int n, FunctionAnalysisManager& FAM)
{
	Module& M = *F.getParent();
	LLVMContext& C = F.getContext();
	auto* flag = cast<GlobalVariable>(M.getOrInsertGlobal("__vg_unwound", Type::getInt8Ty(C)));
	bool any = false;
	for (int round = 0; round < 200; round++)
	{
		FunctionPassManager FPM;
		FPM.addPass(LoopSimplifyPass());
		FPM.addPass(LCSSAPass());
		FPM.run(F, FAM);
		FAM.invalidate(F, PreservedAnalyses::none());
		auto& LI = FAM.getResult<LoopAnalysis>(F);
		Loop* L = nullptr;
		for (auto* x : LI.getLoopsInPreorder())
			if (x->isInnermost() && x->isLoopSimplifyForm())
			{
				L = x;
				break;
			}
		if (!L) break;
		any = true;
		auto& DT = FAM.getResult<DominatorTreeAnalysis>(F);
		auto& SE = FAM.getResult<ScalarEvolutionAnalysis>(F);
		auto& AC = FAM.getResult<AssumptionAnalysis>(F);
		auto& TTI = FAM.getResult<TargetIRAnalysis>(F);
		OptimizationRemarkEmitter ORE(&F);
		auto* H = L->getHeader();
		UnrollLoopOptions O{};
		O.Count = n;
		O.Force = true;
		O.Runtime = false;
		O.AllowExpensiveTripCount = true;
		O.UnrollRemainder = false;
		O.ForgetAllSCEV = true;
		if (n > 1)
		{
			auto r = UnrollLoop(L, O, &LI, &SE, &DT, &AC, &TTI, &ORE, true);
			if (r == LoopUnrollResult::FullyUnrolled)
			{
				FAM.invalidate(F, PreservedAnalyses::none());
				continue;
			}
			if (r == LoopUnrollResult::Unmodified && round > 100) break;
		}
		// cut the back edge
		FAM.invalidate(F, PreservedAnalyses::none());
		DominatorTree D2(F);
		std::vector<BasicBlock*> latches;
		for (auto* p : predecessors(H))
			if (D2.isReachableFromEntry(p) && D2.dominates(H, p)) latches.push_back(p);
		auto* cut = BasicBlock::Create(C, "unwound", &F);
		new StoreInst(ConstantInt::get(Type::getInt8Ty(C), 1), flag, cut);
		if (F.getReturnType()->isVoidTy())
			ReturnInst::Create(C, cut);
		else
			ReturnInst::Create(C, Constant::getNullValue(F.getReturnType()), cut);
		for (auto* p : latches)
		{
			for (unsigned i = 0; i < p->getTerminator()->getNumSuccessors(); i++)
				if (p->getTerminator()->getSuccessor(i) == H)
				{
					H->removePredecessor(p, true);
					p->getTerminator()->setSuccessor(i, cut);
				}
		}
	}
	if (any)
	{
		FAM.invalidate(F, PreservedAnalyses::none());
		FunctionPassManager FPM;
		FPM.addPass(SROAPass(SROAOptions::ModifyCFG));
		FPM.addPass(EarlyCSEPass(true));
		FPM.addPass(SCCPPass());
		FPM.addPass(InstCombinePass());
		FPM.addPass(SimplifyCFGPass());
		FPM.addPass(GVNPass());
		FPM.addPass(SCCPPass());
		FPM.addPass(InstCombinePass());
		FPM.addPass(SimplifyCFGPass());
		FPM.run(F, FAM);
		FAM.invalidate(F, PreservedAnalyses::none());
	}
}

// Classes that own a std::mutex: name -> (members: offset, size, name, type). Marks the object pointer of their member functions with a call of
// @__lk_class(ptr, id) so that the class of an object is known after inlining.
static json::Object flatten(Module& M, const std::vector<std::string>& roots)
{
	LLVMContext& C = M.getContext();
	std::map<const DICompositeType*, int> cls;
	json::Array out;
	auto strip = [](const DIType* t)
	{
		while (auto* d = dyn_cast_or_null<DIDerivedType>(t))
		{
			if (d->getTag() != dwarf::DW_TAG_const_type && d->getTag() != dwarf::DW_TAG_typedef && d->getTag() != dwarf::DW_TAG_volatile_type) break;
			t = d->getBaseType();
		}
		return t;
	};
	auto classOf = [&](const DICompositeType* ct) -> int
	{
		auto it = cls.find(ct);
		if (it != cls.end()) return it->second;
		json::Array ms;
		bool has = false;
		for (auto* e : ct->getElements())
		{
			auto* m = dyn_cast_or_null<DIDerivedType>(e);
			if (!m || m->getTag() != dwarf::DW_TAG_member || m->isStaticMember()) continue;
			auto* t = strip(m->getBaseType());
			StringRef tn = t ? t->getName() : "";
			if (isa_and_nonnull<DICompositeType>(t) && tn == "mutex") has = true;
			ms.push_back(json::Object{ { "name", m->getName().str() }, { "off", (int64_t)m->getOffsetInBits() / 8 }, { "size", (int64_t)m->getSizeInBits() / 8 },
									   { "type", tn.str() }, { "ref", isa_and_nonnull<DIDerivedType>(t) } });
		}
		int id = -1;
		if (has)
		{
			id = (int)out.size();
			out.push_back(json::Object{ { "name", ct->getName().str() }, { "size", (int64_t)ct->getSizeInBits() / 8 }, { "members", std::move(ms) },
										{ "file", ct->getFilename().str() }, { "line", (int64_t)ct->getLine() } });
		}
		return cls[ct] = id;
	};
	auto mark = M.getOrInsertFunction("__lk_class", Type::getVoidTy(C), PointerType::get(C, 0), Type::getInt32Ty(C));
	auto* mf  = cast<Function>(mark.getCallee());
	mf->setDoesNotThrow();
	std::vector<Function*> keep;
	std::vector<GlobalAlias*> al;
	for (auto& a : M.aliases()) al.push_back(&a);
	for (auto* a : al)
		if (auto* f = dyn_cast<Function>(a->getAliasee()->stripPointerCasts())) a->replaceAllUsesWith(f);
	for (auto& F : M)
	{
		F.removeFnAttr(Attribute::Memory);
		for (auto& i : instructions(F))
			if (auto* c = dyn_cast<CallBase>(&i)) c->removeFnAttr(Attribute::Memory), c->removeFnAttr(Attribute::NoInline);
		if (F.isDeclaration()) continue;
		bool root = false;
		for (auto& r : roots)
			if (Regex(r).match(F.getName())) root = true;
		F.removeFnAttr(Attribute::NoInline);
		F.removeFnAttr(Attribute::OptimizeNone);
		if (root) { keep.push_back(&F); F.removeFnAttr(Attribute::AlwaysInline); }
		else F.addFnAttr(Attribute::AlwaysInline);
		if (auto* sp = F.getSubprogram())
			if (auto* ct = dyn_cast_or_null<DICompositeType>(sp->getScope()))
			{
				auto ta = sp->getType()->getTypeArray();
				bool isThis = ta.size() > 1 && ta[1] && (ta[1]->getFlags() & DINode::FlagArtificial);
				int id = classOf(ct);
				unsigned k = F.arg_size() && F.getArg(0)->hasStructRetAttr() ? 1 : 0;
				if (isThis && id >= 0 && k < F.arg_size())
					CallInst::Create(mark, { F.getArg(k), ConstantInt::get(Type::getInt32Ty(C), id) }, "", &*F.getEntryBlock().getFirstInsertionPt());
			}
	}
	PassBuilder PB;
	LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
	PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
	PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
	for (int round = 0; round < 3; round++)
	{
		ModulePassManager MPM;
		MPM.addPass(AlwaysInlinerPass(false));
		MPM.run(M, MAM);
		FunctionPassManager FPM;
		FPM.addPass(SROAPass(SROAOptions::ModifyCFG));
		FPM.addPass(EarlyCSEPass(false));
		FPM.addPass(SCCPPass());
		FPM.addPass(SimplifyCFGPass());
		FPM.addPass(SROAPass(SROAOptions::ModifyCFG));
		FPM.addPass(EarlyCSEPass(false));
		FPM.addPass(SimplifyCFGPass());
		for (auto* F : keep) FPM.run(*F, FAM);
		FAM.clear();
		MAM.clear();
	}
	for (auto* F : keep) F->setLinkage(GlobalValue::ExternalLinkage);
	json::Array tc;
	for (auto* F : keep)
	{
		auto& LI = FAM.getResult<LoopAnalysis>(*F);
		auto& SE = FAM.getResult<ScalarEvolutionAnalysis>(*F);
		for (auto* L : LI.getLoopsInPreorder())
		{
			std::string t;
			raw_string_ostream os(t);
			SE.getBackedgeTakenCount(L)->print(os);
			tc.push_back(json::Array{ F->getName().str(), L->getHeader()->getName().str(), t });
		}
	}
	return json::Object{ { "classes", std::move(out) }, { "trips", std::move(tc) } };
}

// inlines everything into the functions of interest and simplifies them, again and again: callees that are only known
// after some simplification (pointers to functions kept in memory) are inlined by a later round
static void simplify(Module& M, StringRef prefix, int rounds)
{
	const char* args[] = { "irdump", "-unroll-threshold=200000", "-unroll-max-count=4096", "-unroll-full-max-count=4096",
						   "-memdep-block-scan-limit=20000", "-available-load-scan-limit=4000", "-memdep-block-number-limit=4000",
						   "-dse-memoryssa-scanlimit=20000", "-gvn-max-num-deps=2000" };
	cl::ParseCommandLineOptions(sizeof(args) / sizeof(*args), args);
	for (auto& F : M)
	{
		if (F.isDeclaration()) continue;
		F.removeFnAttr(Attribute::NoInline);
		if (F.getName().starts_with("i__") || F.getName().starts_with("s__")) F.removeFnAttr(Attribute::AlwaysInline);
		else F.addFnAttr(Attribute::AlwaysInline);
	}
	for (int i = 0; i < rounds; i++)
	{
		PipelineTuningOptions T;
		T.LoopVectorization = T.SLPVectorization = false;
		T.LoopUnrolling = true;
		PassBuilder PB(nullptr, T);
		LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
		PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
		PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
		ModulePassManager MPM;
		MPM.addPass(AlwaysInlinerPass(false));
		MPM.addPass(createModuleToFunctionPassAdaptor(PB.buildFunctionSimplificationPipeline(OptimizationLevel::O3, ThinOrFullLTOPhase::None)));
		MPM.run(M, MAM);
	}
}

int main(int argc, char** argv)
{
	if (argc < 3) return 2;
	bool locs = false;
	int unrollCount = 0, rounds = 0;
	for (int i = 3; i < argc; i++)
	{
		if (StringRef(argv[i]) == "locs") locs = true;
		if (StringRef(argv[i]).starts_with("unroll=")) unrollCount = atoi(argv[i] + 7);
		if (StringRef(argv[i]).starts_with("rounds=")) rounds = atoi(argv[i] + 7);
	}
	LLVMContext ctx;
	SMDiagnostic err;
	auto M = parseIRFile(argv[1], err, ctx);
	if (!M)
	{
		err.print("irdump", errs());
		return 2;
	}
	DL = &M->getDataLayout();
	std::vector<std::string> roots;
	for (int i = 3; i < argc; i++)
		if (StringRef(argv[i]).starts_with("flat=")) roots.push_back(argv[i] + 5);
	json::Object flat;
	if (roots.size()) flat = flatten(*M, roots), locs = true;
	auto wanted = [&](Function& F)
	{
		if (roots.empty()) return F.getName().starts_with(argv[2]);
		for (auto& r : roots)
			if (Regex(r).match(F.getName())) return true;
		return false;
	};
	if (rounds) simplify(*M, argv[2], rounds);
	if (unrollCount)
	{
		PassBuilder PB;
		LoopAnalysisManager LAM;
		FunctionAnalysisManager FAM;
		CGSCCAnalysisManager CGAM;
		ModuleAnalysisManager MAM;
		PB.registerModuleAnalyses(MAM);
		PB.registerCGSCCAnalyses(CGAM);
		PB.registerFunctionAnalyses(FAM);
		PB.registerLoopAnalyses(LAM);
		PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
		for (auto& F : *M)
			if (!F.isDeclaration() && (F.getName().starts_with("i__") || F.getName().starts_with("s__"))) unroll(F, unrollCount, FAM);
	}
	json::Array funcs;
	for (auto& F : *M)
	{
		if (F.isDeclaration() || !wanted(F)) continue;
		ids.clear();
		json::Array args, blocks;
		for (auto& A : F.args())
			args.push_back(json::Object{ { "id", idOf(&A) },
										 { "type", tstr(A.getType()) },
										 { "name", A.getName().str() },
										 { "sret", A.hasStructRetAttr() },
										 { "byval", A.hasByValAttr() },
										 { "deref", (int64_t)A.getDereferenceableBytes() } });
		DominatorTree DT(F);
		LoopInfo LI(DT);
		for (auto& B : F)
		{
			json::Array ins;
			for (auto& I : B)
			{
				if (isa<DbgInfoIntrinsic>(I)) continue;
				json::Object o;
				o["id"] = idOf(&I);
				o["op"] = I.getOpcodeName();
				o["type"] = tstr(I.getType());
				if (auto* L = dyn_cast<LoadInst>(&I))
				{
					o["size"] = (int64_t)DL->getTypeStoreSize(L->getType()).getFixedValue();
					o["ops"] = json::Array{ operand(L->getPointerOperand()) };
					o["atomic"] = L->isAtomic();
					if (L->isAtomic()) o["ordering"] = toIRString(L->getOrdering());
					o["volatile"] = L->isVolatile();
				}
				else if (auto* S = dyn_cast<StoreInst>(&I))
				{
					o["size"] = (int64_t)DL->getTypeStoreSize(S->getValueOperand()->getType()).getFixedValue();
					o["vtype"] = tstr(S->getValueOperand()->getType());
					o["ops"] = json::Array{ operand(S->getValueOperand()), operand(S->getPointerOperand()) };
					o["atomic"] = S->isAtomic();
					if (S->isAtomic()) o["ordering"] = toIRString(S->getOrdering());
				}
				else if (auto* R = dyn_cast<AtomicRMWInst>(&I))
				{
					o["ops"] = json::Array{ operand(R->getPointerOperand()), operand(R->getValOperand()) };
					o["rmw"] = AtomicRMWInst::getOperationName(R->getOperation()).str();
					o["ordering"] = toIRString(R->getOrdering());
				}
				else if (auto* X = dyn_cast<AtomicCmpXchgInst>(&I))
				{
					o["ops"] = json::Array{ operand(X->getPointerOperand()), operand(X->getCompareOperand()), operand(X->getNewValOperand()) };
					o["ordering"] = toIRString(X->getSuccessOrdering());
					o["failure"] = toIRString(X->getFailureOrdering());
				}
				else if (auto* X = dyn_cast<FenceInst>(&I)) o["ordering"] = toIRString(X->getOrdering());
				else if (auto* A = dyn_cast<AllocaInst>(&I))
				{
					o["size"] = (int64_t)DL->getTypeAllocSize(A->getAllocatedType()).getFixedValue();
				}
				else if (auto* G = dyn_cast<GetElementPtrInst>(&I))
				{
					unsigned bw = DL->getIndexSizeInBits(0);
					MapVector<Value*, APInt> var;
					APInt off(bw, 0);
					if (!cast<GEPOperator>(G)->collectOffset(*DL, bw, var, off)) o["bad"] = true;
					o["base"] = operand(G->getPointerOperand());
					o["off"] = off.getSExtValue();
					json::Array vs;
					for (auto& kv : var) vs.push_back(json::Array{ operand(kv.first), kv.second.getSExtValue(), tstr(kv.first->getType()) });
					o["var"] = std::move(vs);
				}
				else if (auto* P = dyn_cast<PHINode>(&I))
				{
					json::Array in;
					for (unsigned i = 0; i < P->getNumIncomingValues(); i++)
						in.push_back(json::Array{ idOf(P->getIncomingBlock(i)), operand(P->getIncomingValue(i)) });
					o["in"] = std::move(in);
				}
				else if (auto* C = dyn_cast<CallBase>(&I))
				{
					auto* f = C->getCalledFunction();
					o["callee"] = f ? json::Value(f->getName().str()) : json::Value(nullptr);
					if (!f) o["calleeop"] = operand(C->getCalledOperand());
					json::Array a, t;
					for (auto& x : C->args())
					{
						a.push_back(operand(x.get()));
						t.push_back(tstr(x.get()->getType()));
					}
					o["ops"] = std::move(a);
					o["optypes"] = std::move(t);
					o["readnone"] = C->doesNotAccessMemory();
					o["readonly"] = C->onlyReadsMemory();
					o["nounwind"] = C->doesNotThrow();
					if (auto* inv = dyn_cast<InvokeInst>(C))
					{
						o["normal"] = idOf(inv->getNormalDest());
						o["unwind"] = idOf(inv->getUnwindDest());
					}
				}
				else
				{
					json::Array a;
					for (auto& x : I.operands()) a.push_back(operand(x.get()));
					o["ops"] = std::move(a);
					if (I.getNumOperands()) o["optype"] = tstr(I.getOperand(0)->getType());
					if (auto* c = dyn_cast<CmpInst>(&I)) o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
					if (auto* ev = dyn_cast<ExtractValueInst>(&I))
					{
						json::Array x;
						for (auto i : ev->indices()) x.push_back((int)i);
						o["idx"] = std::move(x);
					}
					if (auto* ev = dyn_cast<InsertValueInst>(&I))
					{
						json::Array x;
						for (auto i : ev->indices()) x.push_back((int)i);
						o["idx"] = std::move(x);
					}
					if (auto* sv = dyn_cast<ShuffleVectorInst>(&I))
					{
						json::Array x;
						for (auto i : sv->getShuffleMask()) x.push_back(i);
						o["mask"] = std::move(x);
					}
				}
				if (I.isTerminator())
				{
					json::Array s;
					for (unsigned i = 0; i < I.getNumSuccessors(); i++) s.push_back(idOf(I.getSuccessor(i)));
					o["succ"] = std::move(s);
				}
				if (locs || isa<CallBase>(I) || isa<StoreInst>(I)) o["loc"] = loc(I);
				ins.push_back(std::move(o));
			}
			json::Object bo{ { "id", idOf(&B) }, { "ins", std::move(ins) } };
			bo["loop"] = LI.isLoopHeader(&B);
			blocks.push_back(std::move(bo));
		}
		std::string file;
		int line = 0;
		if (auto* sp = F.getSubprogram())
		{
			file = sp->getFilename().str();
			line = (int)sp->getLine();
		}
		funcs.push_back(json::Object{ { "name", F.getName().str() },
									  { "ret", tstr(F.getReturnType()) },
									  { "args", std::move(args) },
									  { "blocks", std::move(blocks) },
									  { "file", file },
									  { "line", line },
									  { "vararg", F.isVarArg() } });
	}
	json::Object globals;
	std::set<const GlobalVariable*> done;
	for (auto* g : usedGlobals)
	{
		json::Object go;
		go["constant"] = g->isConstant();
		if (g->hasInitializer())
		{
			std::vector<int> b(DL->getTypeAllocSize(g->getValueType()), -1);
			bytesOf(g->getInitializer(), b, 0);
			go["bytes"] = json::Array(b);
		}
		globals[g->getName().str()] = std::move(go);
	}
	json::Value root = json::Object{ { "functions", std::move(funcs) }, { "globals", std::move(globals) }, { "flat", std::move(flat) } };
	outs() << root << "\n";
	return 0;
}
