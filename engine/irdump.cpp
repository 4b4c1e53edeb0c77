// irdump: dump an LLVM module (bitcode / .ll of the real code) as JSON for the VC generator.
// Usage: irdump in.bc entry1,entry2,... > out.json
// Mechanical and total: every instruction of every function reachable from the entries is
// dumped; an instruction the VC generator does not understand stops the proof of the path
// that reaches it ("unsupported"), it is never skipped.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <set>
#include <map>
#include <deque>
using namespace llvm;
namespace js = llvm::json;

static const DataLayout* DL;
static std::set<const GlobalValue*> need;
static std::deque<const GlobalValue*> work;
static void want(const GlobalValue* g) {
  if (auto* ga = dyn_cast<GlobalAlias>(g)) { if (auto* b = ga->getAliaseeObject()) g = b; }
  if (need.insert(g).second) work.push_back(g);
}
static std::string ty(Type* t) {
  if (t->isVoidTy()) return "void";
  if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
  if (t->isPointerTy()) return "p";
  if (t->isFloatTy()) return "f32";
  if (t->isDoubleTy()) return "f64";
  if (t->isX86_FP80Ty()) return "f80";
  if (t->isTokenTy() || t->isMetadataTy() || t->isLabelTy()) return "?";
  std::string s; raw_string_ostream o(s); t->print(o); 
  return "agg:" + o.str();
}
static js::Array tyfull(Type* t) { // flattened aggregate: [["i64",off],["p",off]...]
  js::Array a;
  std::function<void(Type*, uint64_t)> rec = [&](Type* t, uint64_t off) {
    if (auto* st = dyn_cast<StructType>(t)) {
      auto* sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); i++) rec(st->getElementType(i), off + sl->getElementOffset(i));
    } else if (auto* at = dyn_cast<ArrayType>(t)) {
      uint64_t es = DL->getTypeAllocSize(at->getElementType());
      for (uint64_t i = 0; i < at->getNumElements() && i < 4096; i++) rec(at->getElementType(), off + i * es);
    } else a.push_back(js::Array{ty(t), (int64_t)off, (int64_t)DL->getTypeStoreSize(t).getFixedValue()});
  };
  rec(t, 0);
  return a;
}
static std::map<const Value*, int> ids;
static js::Value val(const Value* v);
static js::Value constant(const Constant* c) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    SmallString<40> s; ci->getValue().toString(s, 10, false);
    return js::Array{"i", (int64_t)ci->getBitWidth(), s.str().str()};
  }
  if (isa<ConstantPointerNull>(c)) return js::Array{"null"};
  if (isa<UndefValue>(c)) return js::Array{"undef", ty(c->getType()), tyfull(c->getType())};
  if (auto* f = dyn_cast<ConstantFP>(c)) {
    APInt b = f->getValueAPF().bitcastToAPInt(); SmallString<40> s; b.toString(s, 10, false);
    return js::Array{"fp", ty(c->getType()), s.str().str()};
  }
  if (auto* g = dyn_cast<GlobalValue>(c)) {
    if (auto* ga = dyn_cast<GlobalAlias>(g)) if (auto* b = ga->getAliaseeObject()) g = b;
    want(g);
    return js::Array{isa<Function>(g) ? "fn" : "g", g->getName().str()};
  }
  if (isa<ConstantAggregateZero>(c)) return js::Array{"zero", tyfull(c->getType())};
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    if (auto* gep = dyn_cast<GEPOperator>(ce)) {
      APInt off(64, 0);
      if (gep->accumulateConstantOffset(*DL, off))
        return js::Array{"cgep", constant(cast<Constant>(gep->getPointerOperand())), (int64_t)off.getSExtValue()};
    }
    if (ce->getOpcode() == Instruction::PtrToInt || ce->getOpcode() == Instruction::IntToPtr || ce->getOpcode()==Instruction::BitCast)
      return js::Array{ce->getOpcode()==Instruction::PtrToInt ? "cptrtoint" : ce->getOpcode()==Instruction::IntToPtr ? "cinttoptr":"cbitcast", constant(ce->getOperand(0)), ty(ce->getType())};
    if (ce->getOpcode() == Instruction::Sub || ce->getOpcode() == Instruction::Add)
      return js::Array{"cbin", ce->getOpcodeName(), constant(ce->getOperand(0)), constant(ce->getOperand(1)), ty(ce->getType())};
  }
  if (isa<ConstantAggregate>(c) || isa<ConstantDataSequential>(c)) {
    js::Array a; 
    std::function<void(const Constant*, uint64_t)> rec = [&](const Constant* c, uint64_t off) {
      Type* t = c->getType();
      if (auto* st = dyn_cast<StructType>(t)) {
        auto* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++) rec(c->getAggregateElement(i), off + sl->getElementOffset(i));
      } else if (auto* at = dyn_cast<ArrayType>(t)) {
        uint64_t es = DL->getTypeAllocSize(at->getElementType());
        for (uint64_t i = 0; i < at->getNumElements(); i++) rec(c->getAggregateElement(i), off + i * es);
      } else a.push_back(js::Array{(int64_t)off, (int64_t)DL->getTypeStoreSize(t).getFixedValue(), constant(c)});
    };
    rec(c, 0);
    return js::Array{"cagg", std::move(a), (int64_t)DL->getTypeAllocSize(c->getType()).getFixedValue()};
  }
  std::string s; raw_string_ostream o(s); c->print(o);
  return js::Array{"unsupported-constant", o.str()};
}
static js::Value val(const Value* v) {
  if (auto* c = dyn_cast<Constant>(v)) return constant(c);
  if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return js::Array{"md"};
  auto it = ids.find(v);
  if (it == ids.end()) return js::Array{"bad"};
  return js::Array{"r", it->second};
}
static js::Value dumpFn(const Function& F) {
  js::Object fo;
  fo["name"] = F.getName().str();
  fo["dem"] = demangle(F.getName().str());
  fo["ret"] = ty(F.getReturnType());
  if (F.getReturnType()->isStructTy()||F.getReturnType()->isArrayTy()) fo["retfull"] = tyfull(F.getReturnType());
  fo["nounwind"] = F.doesNotThrow();
  fo["vararg"] = F.isVarArg();
  ids.clear(); int n = 0;
  js::Array args;
  for (auto& a : F.args()) {
    ids[&a] = n++;
    js::Object ao; ao["t"] = ty(a.getType());
    if (a.hasByValAttr()) ao["byval"] = (int64_t)DL->getTypeAllocSize(a.getParamByValType()).getFixedValue();
    if (a.hasStructRetAttr()) ao["sret"] = (int64_t)DL->getTypeAllocSize(a.getParamStructRetType()).getFixedValue();
    args.push_back(std::move(ao));
  }
  fo["args"] = std::move(args);
  if (F.isDeclaration()) return js::Value(std::move(fo));
  std::map<const BasicBlock*, int> bid; int nb = 0;
  for (auto& B : F) { bid[&B] = nb++; for (auto& I : B) ids[&I] = n++; }
  DominatorTree DT(const_cast<Function&>(F)); LoopInfo LI(DT);
  js::Array loops;
  for (auto* L : LI.getLoopsInPreorder()) {
    js::Array bl; for (auto* B : L->blocks()) bl.push_back(bid[B]);
    loops.push_back(js::Object{{"header", bid[L->getHeader()]}, {"blocks", std::move(bl)}});
  }
  fo["loops"] = std::move(loops);
  js::Array blocks;
  for (auto& B : F) {
    js::Array ins;
    for (auto& I : B) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      js::Object o; o["id"] = ids[&I]; o["op"] = I.getOpcodeName(); 
      if (!I.getType()->isVoidTy()) { o["t"] = ty(I.getType()); if (I.getType()->isStructTy()||I.getType()->isArrayTy()) o["tf"] = tyfull(I.getType()); }
      if (auto& dl = I.getDebugLoc()) {
        std::string fn = dl->getFilename().str(); auto p = fn.rfind('/'); if (p != std::string::npos) fn = fn.substr(p + 1);
        o["loc"] = fn + ":" + std::to_string(dl.getLine());
      }
      js::Array ops;
      if (auto* phi = dyn_cast<PHINode>(&I)) {
        for (unsigned i = 0; i < phi->getNumIncomingValues(); i++)
          ops.push_back(js::Array{bid[phi->getIncomingBlock(i)], val(phi->getIncomingValue(i))});
      } else if (auto* gep = dyn_cast<GetElementPtrInst>(&I)) {
        MapVector<Value*, APInt> vo; APInt co(64, 0);
        if (!gep->collectOffset(*DL, 64, vo, co)) o["unsup"] = true;
        ops.push_back(val(gep->getPointerOperand()));
        o["coff"] = (int64_t)co.getSExtValue(); o["inb"] = gep->isInBounds();
        js::Array va; for (auto& kv : vo) va.push_back(js::Array{val(kv.first), (int64_t)kv.second.getSExtValue(), ty(kv.first->getType())});
        o["voff"] = std::move(va);
      } else if (auto* cb = dyn_cast<CallBase>(&I)) {
        for (auto& a : cb->args()) ops.push_back(val(a));
        js::Array bv; for (unsigned i = 0; i < cb->arg_size(); i++) if (cb->isByValArgument(i)) bv.push_back(js::Array{(int64_t)i, (int64_t)DL->getTypeAllocSize(cb->getParamByValType(i)).getFixedValue()});
        if (!bv.empty()) o["byval"] = std::move(bv);
        js::Array at; for (auto& a : cb->args()) at.push_back(ty(a->getType()));
        o["at"] = std::move(at);
        o["callee"] = val(cb->getCalledOperand());
        o["asm"] = cb->isInlineAsm();
        if (auto* inv = dyn_cast<InvokeInst>(&I)) { o["normal"] = bid[inv->getNormalDest()]; o["unwind"] = bid[inv->getUnwindDest()]; }
      } else if (auto* br = dyn_cast<BranchInst>(&I)) {
        if (br->isConditional()) { ops.push_back(val(br->getCondition())); o["tgt"] = js::Array{bid[br->getSuccessor(0)], bid[br->getSuccessor(1)]}; }
        else o["tgt"] = js::Array{bid[br->getSuccessor(0)]};
      } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
        ops.push_back(val(sw->getCondition())); js::Array cs;
        for (auto& c : sw->cases()) cs.push_back(js::Array{val(c.getCaseValue()), bid[c.getCaseSuccessor()]});
        o["cases"] = std::move(cs); o["default"] = bid[sw->getDefaultDest()];
        o["st"] = ty(sw->getCondition()->getType());
      } else if (auto* lp = dyn_cast<LandingPadInst>(&I)) {
        js::Array cl; for (unsigned i = 0; i < lp->getNumClauses(); i++) cl.push_back(js::Array{lp->isCatch(i) ? "catch" : "filter", constant(lp->getClause(i))});
        o["clauses"] = std::move(cl); o["cleanup"] = lp->isCleanup();
      } else {
        for (auto& op : I.operands()) ops.push_back(val(op));
        if (auto* al = dyn_cast<AllocaInst>(&I)) { o["size"] = (int64_t)DL->getTypeAllocSize(al->getAllocatedType()).getFixedValue(); o["arr"] = al->isArrayAllocation(); 
          o["at"] = ty(al->getAllocatedType()); 
          if (auto* at = dyn_cast<ArrayType>(al->getAllocatedType())) o["es"] = (int64_t)DL->getTypeAllocSize(at->getElementType()).getFixedValue(); }
        if (auto* ld = dyn_cast<LoadInst>(&I)) { o["size"] = (int64_t)DL->getTypeStoreSize(ld->getType()).getFixedValue(); o["atomic"] = ld->isAtomic() ? (int)ld->getOrdering() : 0; o["volatile"] = ld->isVolatile(); }
        if (auto* st = dyn_cast<StoreInst>(&I)) { o["vt"] = ty(st->getValueOperand()->getType()); o["size"] = (int64_t)DL->getTypeStoreSize(st->getValueOperand()->getType()).getFixedValue(); o["atomic"] = st->isAtomic() ? (int)st->getOrdering() : 0; 
          auto* vt=st->getValueOperand()->getType(); if (vt->isStructTy()||vt->isArrayTy()) o["tf"] = tyfull(vt); }
        if (auto* rmw = dyn_cast<AtomicRMWInst>(&I)) { o["rmw"] = AtomicRMWInst::getOperationName(rmw->getOperation()).str(); o["atomic"] = (int)rmw->getOrdering(); o["size"] = (int64_t)DL->getTypeStoreSize(rmw->getType()).getFixedValue(); }
        if (auto* cx = dyn_cast<AtomicCmpXchgInst>(&I)) { o["atomic"] = (int)cx->getSuccessOrdering(); o["fatomic"] = (int)cx->getFailureOrdering(); o["weak"] = cx->isWeak(); o["size"] = (int64_t)DL->getTypeStoreSize(cx->getCompareOperand()->getType()).getFixedValue(); }
        if (auto* fe = dyn_cast<FenceInst>(&I)) o["atomic"] = (int)fe->getOrdering();
        if (auto* ic = dyn_cast<CmpInst>(&I)) { o["pred"] = CmpInst::getPredicateName(ic->getPredicate()).str(); o["ct"] = ty(ic->getOperand(0)->getType()); }
        if (auto* bo = dyn_cast<OverflowingBinaryOperator>(&I)) { o["nsw"] = bo->hasNoSignedWrap(); o["nuw"] = bo->hasNoUnsignedWrap(); }
        if (auto* pe = dyn_cast<PossiblyExactOperator>(&I)) o["exact"] = pe->isExact();
        if (isa<CastInst>(I)) o["st"] = ty(I.getOperand(0)->getType());
        if (auto* ev = dyn_cast<ExtractValueInst>(&I)) { js::Array ix; for (auto i : ev->indices()) ix.push_back((int64_t)i); o["idx"] = std::move(ix);
          Type* t = ev->getAggregateOperand()->getType(); uint64_t off=0; for (auto i: ev->indices()) { if (auto* s=dyn_cast<StructType>(t)) { off += DL->getStructLayout(s)->getElementOffset(i); t=s->getElementType(i);} else { auto* a=cast<ArrayType>(t); off += i*DL->getTypeAllocSize(a->getElementType()); t=a->getElementType(); } } o["off"]=(int64_t)off; }
        if (auto* iv = dyn_cast<InsertValueInst>(&I)) { 
          Type* t = iv->getAggregateOperand()->getType(); uint64_t off=0; for (auto i: iv->indices()) { if (auto* s=dyn_cast<StructType>(t)) { off += DL->getStructLayout(s)->getElementOffset(i); t=s->getElementType(i);} else { auto* a=cast<ArrayType>(t); off += i*DL->getTypeAllocSize(a->getElementType()); t=a->getElementType(); } } o["off"]=(int64_t)off; }
      }
      o["ops"] = std::move(ops);
      ins.push_back(std::move(o));
    }
    blocks.push_back(std::move(ins));
  }
  fo["blocks"] = std::move(blocks);
  return js::Value(std::move(fo));
}
int main(int argc, char** argv) {
  LLVMContext C; SMDiagnostic E;
  auto M = parseIRFile(argv[1], E, C);
  if (!M) { E.print("irdump", errs()); return 2; }
  DL = &M->getDataLayout();
  StringRef ents(argc > 2 ? argv[2] : ""); SmallVector<StringRef> es; ents.split(es, ',', -1, false);
  if (es.empty()) { for (auto& F : *M) if ((F.getName().starts_with("vph_") || F.getName().starts_with("vpc_"))) want(&F); }
  for (auto e : es) { auto* f = M->getFunction(e); if (!f) { errs() << "no entry " << e << "\n"; return 3; } want(f); }
  // global constructors (dynamic initialisers of globals), for information
  js::Object fns, gls;
  while (!work.empty()) {
    auto* g = work.front(); work.pop_front();
    if (auto* F = dyn_cast<Function>(g)) fns[F->getName().str()] = dumpFn(*F);
    else if (auto* V = dyn_cast<GlobalVariable>(g)) {
      js::Object o; o["size"] = V->getValueType()->isSized() ? (int64_t)DL->getTypeAllocSize(V->getValueType()).getFixedValue() : 0;
      o["const"] = V->isConstant();
      std::string nm = V->getName().str();
      bool rtti = nm.rfind("_ZTI", 0) == 0 || nm.rfind("_ZTS", 0) == 0;
      if (V->hasInitializer() ) o["init"] = constant(V->getInitializer());
      (void)rtti;
      gls[nm] = std::move(o);
    }
  }
  js::Object top; top["fns"] = std::move(fns); top["globals"] = std::move(gls);
  outs() << js::Value(std::move(top)) << "\n";
}
