// irdump: mechanical extraction step of the verifier.
//
// Reads the LLVM IR clang produced from a contract translation unit (the contracts plus the real
// NazaraUtils headers), puts memory-resident locals into SSA form (SROA/mem2reg), canonicalises loops
// (loop-simplify) and switches, turns invokes into calls (exceptions are not modelled), and writes every
// function reachable from a proof function as JSON.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/CFG.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <map>
#include <set>
#include <vector>

using namespace llvm;

static const DataLayout* DL;
static json::OStream* J;

static std::string tyStr(Type* t)
{
	if (t->isVoidTy()) return "void";
	if (t->isPointerTy()) return "ptr";
	if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
	if (t->isFloatTy()) return "f32";
	if (t->isDoubleTy()) return "f64";
	if (t->isX86_FP80Ty()) return "f80";
	if (t->isStructTy() || t->isArrayTy())
	{
		std::string s = "{";
		unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
		for (unsigned i = 0; i < n; ++i)
		{
			if (i) s += ",";
			uint64_t off = t->isStructTy() ? DL->getStructLayout(cast<StructType>(t))->getElementOffset(i).getFixedValue() : i * DL->getTypeAllocSize(t->getArrayElementType()).getFixedValue();
			s += std::to_string(off) + ":" + tyStr(t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType());
		}
		return s + "}";
	}
	if (auto* v = dyn_cast<FixedVectorType>(t))
		return "<" + std::to_string(v->getNumElements()) + "x" + tyStr(v->getElementType()) + ">";
	if (t->isLabelTy() || t->isMetadataTy()) return "meta";
	return "?";
}

struct FnCtx { std::map<const Value*, unsigned> ids; std::map<const BasicBlock*, unsigned> bbs; };

static std::set<const GlobalValue*> usedGlobals;
static std::vector<const Function*> fnWork;
static std::set<const Function*> fnSeen;
static std::vector<const GlobalVariable*> gvWork;

static void useGlobal(const GlobalValue* g)
{
	if (!usedGlobals.insert(g).second) return;
	if (auto* f = dyn_cast<Function>(g)) { if (fnSeen.insert(f).second) fnWork.push_back(f); }
	else if (auto* v = dyn_cast<GlobalVariable>(g)) gvWork.push_back(v);
	else if (auto* a = dyn_cast<GlobalAlias>(g)) useGlobal(cast<GlobalValue>(a->getAliasee()->stripPointerCasts()));
}

static const GlobalValue* resolveAlias(const GlobalValue* g)
{
	while (auto* a = dyn_cast<GlobalAlias>(g)) g = cast<GlobalValue>(a->getAliasee()->stripPointerCasts());
	return g;
}

static void emitOperand(const Value* v, FnCtx* c);

static void emitConst(const Constant* k)
{
	J->objectBegin();
	if (auto* ci = dyn_cast<ConstantInt>(k))
	{
		SmallString<64> s; ci->getValue().toString(s, 10, false);
		J->attribute("k", "int"); J->attribute("ty", tyStr(k->getType())); J->attribute("v", s.str());
	}
	else if (auto* cf = dyn_cast<ConstantFP>(k))
	{
		SmallString<64> s; cf->getValueAPF().bitcastToAPInt().toString(s, 10, false);
		J->attribute("k", "fp"); J->attribute("ty", tyStr(k->getType())); J->attribute("v", s.str());
	}
	else if (isa<ConstantPointerNull>(k)) { J->attribute("k", "int"); J->attribute("ty", "ptr"); J->attribute("v", "0"); }
	else if (isa<UndefValue>(k)) { J->attribute("k", isa<PoisonValue>(k) ? "poison" : "undef"); J->attribute("ty", tyStr(k->getType())); }
	else if (isa<ConstantAggregateZero>(k)) { J->attribute("k", "zero"); J->attribute("ty", tyStr(k->getType())); }
	else if (auto* g = dyn_cast<GlobalValue>(k))
	{
		g = resolveAlias(g); useGlobal(g);
		J->attribute("k", "glob"); J->attribute("ty", "ptr"); J->attribute("v", g->getName()); J->attribute("off", 0);
	}
	else if (isa<ConstantAggregate>(k) || isa<ConstantDataSequential>(k))
	{
		J->attribute("k", "agg"); J->attribute("ty", tyStr(k->getType()));
		J->attributeBegin("v"); J->arrayBegin();
		unsigned n = k->getType()->isStructTy() ? k->getType()->getStructNumElements() : (k->getType()->isArrayTy() ? k->getType()->getArrayNumElements() : cast<FixedVectorType>(k->getType())->getNumElements());
		for (unsigned i = 0; i < n; ++i) emitConst(k->getAggregateElement(i));
		J->arrayEnd(); J->attributeEnd();
	}
	else if (auto* ce = dyn_cast<ConstantExpr>(k))
	{
		if (ce->getType()->isPointerTy())
		{
			APInt off(64, 0);
			const Value* base = ce->stripAndAccumulateConstantOffsets(*DL, off, true);
			if (auto* g = dyn_cast<GlobalValue>(base))
			{
				g = resolveAlias(g); useGlobal(g);
				J->attribute("k", "glob"); J->attribute("ty", "ptr"); J->attribute("v", g->getName()); J->attribute("off", off.getSExtValue());
				J->objectEnd(); return;
			}
		}
		J->attribute("k", "cexpr"); J->attribute("op", ce->getOpcodeName()); J->attribute("ty", tyStr(k->getType()));
		J->attributeBegin("ops"); J->arrayBegin();
		for (auto& o : ce->operands()) emitConst(cast<Constant>(o.get()));
		J->arrayEnd(); J->attributeEnd();
	}
	else { J->attribute("k", "other"); J->attribute("ty", tyStr(k->getType())); }
	J->objectEnd();
}

static void emitOperand(const Value* v, FnCtx* c)
{
	if (auto* k = dyn_cast<Constant>(v)) { emitConst(k); return; }
	auto it = c->ids.find(v);
	if (it == c->ids.end()) { J->objectBegin(); J->attribute("k", "other"); J->attribute("ty", tyStr(v->getType())); J->objectEnd(); return; }
	J->value(int64_t(it->second));
}

static void emitInst(const Instruction& I, FnCtx& c)
{
	J->objectBegin();
	J->attribute("op", isa<CallBase>(I) ? "call" : I.getOpcodeName());
	auto id = c.ids.find(&I);
	if (id != c.ids.end()) { J->attribute("id", int64_t(id->second)); J->attribute("ty", tyStr(I.getType())); }
	if (const DebugLoc& d = I.getDebugLoc())
	{
		J->attribute("ln", int64_t(d.getLine()));
		if (auto* s = dyn_cast_or_null<DIScope>(d.getScope())) { StringRef f = s->getFilename(); J->attribute("fl", f.substr(f.rfind('/') == StringRef::npos ? 0 : f.rfind('/') + 1)); }
	}
	auto ops = [&](auto&& range) { J->attributeBegin("ops"); J->arrayBegin(); for (auto& o : range) emitOperand(o, &c); J->arrayEnd(); J->attributeEnd(); };
	if (auto* b = dyn_cast<OverflowingBinaryOperator>(&I)) { if (b->hasNoSignedWrap()) J->attribute("nsw", 1); if (b->hasNoUnsignedWrap()) J->attribute("nuw", 1); }
	if (auto* p = dyn_cast<PossiblyExactOperator>(&I)) if (p->isExact()) J->attribute("exact", 1);
	if (auto* a = dyn_cast<AllocaInst>(&I))
	{
		J->attribute("size", int64_t(DL->getTypeAllocSize(a->getAllocatedType()).getFixedValue()));
		J->attribute("align", int64_t(a->getAlign().value()));
		J->attribute("nm", a->getName());
		J->attributeBegin("n"); emitOperand(a->getArraySize(), &c); J->attributeEnd();
	}
	else if (auto* g = dyn_cast<GetElementPtrInst>(&I))
	{
		int64_t off = 0; std::vector<std::pair<const Value*, int64_t>> terms;
		for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti)
		{
			const Value* idx = gti.getOperand();
			if (StructType* st = gti.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()).getFixedValue(); continue; }
			int64_t sz = DL->getTypeAllocSize(gti.getIndexedType()).getFixedValue();
			if (auto* ci = dyn_cast<ConstantInt>(idx)) off += ci->getSExtValue() * sz; else terms.push_back({idx, sz});
		}
		if (g->isInBounds()) J->attribute("inb", 1);
		J->attribute("off", off);
		J->attributeBegin("base"); emitOperand(g->getPointerOperand(), &c); J->attributeEnd();
		J->attributeBegin("terms"); J->arrayBegin();
		for (auto& t : terms) { J->arrayBegin(); emitOperand(t.first, &c); J->value(tyStr(t.first->getType())); J->value(t.second); J->arrayEnd(); }
		J->arrayEnd(); J->attributeEnd();
	}
	else if (auto* l = dyn_cast<LoadInst>(&I))
	{
		J->attribute("align", int64_t(l->getAlign().value()));
		J->attribute("sz", int64_t(DL->getTypeStoreSize(l->getType()).getFixedValue())); ops(I.operands());
	}
	else if (auto* s = dyn_cast<StoreInst>(&I))
	{
		J->attribute("align", int64_t(s->getAlign().value()));
		J->attribute("vty", tyStr(s->getValueOperand()->getType())); J->attribute("sz", int64_t(DL->getTypeStoreSize(s->getValueOperand()->getType()).getFixedValue())); ops(I.operands());
	}
	else if (auto* ic = dyn_cast<CmpInst>(&I))
	{
		J->attribute("pred", CmpInst::getPredicateName(ic->getPredicate())); J->attribute("oty", tyStr(ic->getOperand(0)->getType())); ops(I.operands());
	}
	else if (auto* ca = dyn_cast<CastInst>(&I)) { J->attribute("oty", tyStr(ca->getOperand(0)->getType())); ops(I.operands()); }
	else if (auto* br = dyn_cast<BranchInst>(&I))
	{
		if (br->isConditional()) { J->attributeBegin("cond"); emitOperand(br->getCondition(), &c); J->attributeEnd(); }
		J->attributeBegin("succ"); J->arrayBegin(); for (unsigned i = 0; i < br->getNumSuccessors(); ++i) J->value(int64_t(c.bbs[br->getSuccessor(i)])); J->arrayEnd(); J->attributeEnd();
	}
	else if (auto* ph = dyn_cast<PHINode>(&I))
	{
		J->attribute("nm", ph->getName());
		J->attributeBegin("in"); J->arrayBegin();
		for (unsigned i = 0; i < ph->getNumIncomingValues(); ++i)
		{
			if (!c.bbs.count(ph->getIncomingBlock(i))) continue;
			J->arrayBegin(); J->value(int64_t(c.bbs[ph->getIncomingBlock(i)])); emitOperand(ph->getIncomingValue(i), &c); J->arrayEnd();
		}
		J->arrayEnd(); J->attributeEnd();
	}
	else if (auto* cb = dyn_cast<CallBase>(&I))
	{
		const Value* callee = cb->getCalledOperand()->stripPointerCasts();
		J->attributeBegin("callee"); emitOperand(callee, &c); J->attributeEnd();
		J->attributeBegin("aty"); J->arrayBegin(); for (auto& o : cb->args()) J->value(tyStr(o->getType())); J->arrayEnd(); J->attributeEnd();
		J->attributeBegin("byval"); J->arrayBegin();
		for (unsigned i = 0; i < cb->arg_size(); ++i) J->value(cb->isByValArgument(i) ? int64_t(DL->getTypeAllocSize(cb->getParamByValType(i)).getFixedValue()) : 0);
		J->arrayEnd(); J->attributeEnd();
		ops(cb->args());
	}
	else if (auto* ev = dyn_cast<ExtractValueInst>(&I)) { J->attributeBegin("idx"); J->arrayBegin(); for (unsigned i : ev->indices()) J->value(int64_t(i)); J->arrayEnd(); J->attributeEnd(); ops(I.operands()); }
	else if (auto* iv = dyn_cast<InsertValueInst>(&I)) { J->attributeBegin("idx"); J->arrayBegin(); for (unsigned i : iv->indices()) J->value(int64_t(i)); J->arrayEnd(); J->attributeEnd(); ops(I.operands()); }
	else ops(I.operands());
	J->objectEnd();
}

static void emitLoop(Loop* L, FnCtx& c)
{
	J->objectBegin();
	J->attribute("header", int64_t(c.bbs[L->getHeader()]));
	J->attributeBegin("blocks"); J->arrayBegin(); for (auto* b : L->blocks()) if (c.bbs.count(b)) J->value(int64_t(c.bbs[b])); J->arrayEnd(); J->attributeEnd();
	J->attributeBegin("sub"); J->arrayBegin(); for (auto* s : L->getSubLoops()) emitLoop(s, c); J->arrayEnd(); J->attributeEnd();
	J->objectEnd();
}

static void emitFunction(Function& F)
{
	J->objectBegin();
	J->attribute("name", F.getName());
	J->attribute("pretty", demangle(F.getName().str()));
	J->attribute("ret", tyStr(F.getReturnType()));
	J->attribute("decl", F.isDeclaration());
	if (!F.isDeclaration())
	{
		FnCtx c; unsigned n = 0;
		J->attributeBegin("args"); J->arrayBegin();
		for (auto& a : F.args())
		{
			c.ids[&a] = n++;
			J->objectBegin(); J->attribute("ty", tyStr(a.getType()));
			J->attribute("nm", a.getName());
			J->objectEnd();
		}
		J->arrayEnd(); J->attributeEnd();
		ReversePostOrderTraversal<Function*> rpo(&F);
		unsigned b = 0;
		for (auto* bb : rpo) { c.bbs[bb] = b++; for (auto& I : *bb) if (!I.getType()->isVoidTy()) c.ids[&I] = n++; }
		DominatorTree DT(F); LoopInfo LI(DT);
		J->attributeBegin("loops"); J->arrayBegin(); for (auto* l : LI) emitLoop(l, c); J->arrayEnd(); J->attributeEnd();
		J->attributeBegin("blocks"); J->arrayBegin();
		for (auto* bb : rpo)
		{
			J->arrayBegin();
			for (auto& I : *bb) { if (isa<DbgInfoIntrinsic>(I)) continue; emitInst(I, c); }
			J->arrayEnd();
		}
		J->arrayEnd(); J->attributeEnd();
	}
	J->objectEnd();
}

int main(int argc, char** argv)
{
	if (argc < 4) { errs() << "usage: irdump in.bc out.json prefix\n"; return 2; }
	LLVMContext ctx; SMDiagnostic err;
	std::unique_ptr<Module> M = parseIRFile(argv[1], err, ctx);
	if (!M) { err.print("irdump", errs()); return 2; }
	DL = &M->getDataLayout();
	PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
	PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
	PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
	ModulePassManager MPM;
	if (auto e = PB.parsePassPipeline(MPM, "function(lowerinvoke,loweratomic,sroa<preserve-cfg>,lowerswitch,loop-simplify,lcssa)")) { errs() << toString(std::move(e)) << "\n"; return 2; }
	MPM.run(*M, MAM);
	std::error_code ec; raw_fd_ostream out(argv[2], ec);
	json::OStream js(out); J = &js;
	js.objectBegin();
	std::string prefix = argv[3];
	js.attributeBegin("entries"); js.arrayBegin();
	for (auto& F : *M) if (!F.isDeclaration() && F.getName().starts_with(prefix)) { useGlobal(&F); js.value(F.getName()); }
	for (auto& G : M->globals()) if (G.getName() == "llvm.global_ctors") useGlobal(&G);
	js.arrayEnd(); js.attributeEnd();
	js.attributeBegin("functions"); js.arrayBegin();
	js.flush();
	std::vector<const GlobalVariable*> doneG; std::set<const GlobalVariable*> seenG;
	// globals' initialisers may use functions (vtables), so alternate until both lists are empty
	std::string gbuf; raw_string_ostream gos(gbuf); json::OStream gjs(gos); gjs.arrayBegin();
	while (!fnWork.empty() || !gvWork.empty())
	{
		if (!fnWork.empty()) { auto* f = fnWork.back(); fnWork.pop_back(); J = &js; emitFunction(*const_cast<Function*>(f)); continue; }
		auto* g = gvWork.back(); gvWork.pop_back(); J = &gjs;
		J->objectBegin();
		J->attribute("name", g->getName()); J->attribute("const", g->isConstant());
		J->attribute("size", int64_t(DL->getTypeAllocSize(g->getValueType()).getFixedValue()));
		J->attribute("align", int64_t(DL->getPreferredAlign(g).value()));
		J->attribute("ty", tyStr(g->getValueType()));
		if (g->hasInitializer()) { J->attributeBegin("init"); emitConst(g->getInitializer()); J->attributeEnd(); }
		J->objectEnd();
	}
	gjs.arrayEnd(); gjs.flush(); gos.flush();
	js.arrayEnd(); js.attributeEnd();
	js.attributeBegin("globals"); js.rawValue(gbuf); js.attributeEnd();
	js.objectEnd();
	js.flush();
	return 0;
}
