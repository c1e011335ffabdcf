// irdump: prints the part of an LLVM module that is reachable from given entry functions as JSON.
// This is the front end of the eisvc verification-condition generator: no semantics live here, it is a
// one-to-one rendering of the IR (plus DataLayout-resolved getelementptr offsets, type sizes and loop structure).
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/JSON.h>
#include <llvm/Demangle/Demangle.h>
#include <deque>
#include <map>
#include <set>
using namespace llvm;
using json::Array; using json::Object; using JV = json::Value;

static const DataLayout* DL;
static std::deque<const Function*> fq; static std::set<const Function*> fseen;
static std::deque<const GlobalVariable*> gq; static std::set<const GlobalVariable*> gseen;
static std::map<const Value*, int> ids; static int nextid;

static JV ty(Type* t) {
  if(t->isVoidTy()) return "void";
  if(t->isPointerTy()) return "ptr";
  if(t->isFloatTy()) return "f32";
  if(t->isDoubleTy()) return "f64";
  if(t->isX86_FP80Ty()) return "f80";
  if(t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
  if(auto* s = dyn_cast<StructType>(t)) {
    Object o; o["k"] = "s"; Array fs, of;
    if(s->isSized()) { auto* L = DL->getStructLayout(s);
      for(unsigned i = 0; i < s->getNumElements(); i++) { fs.push_back(ty(s->getElementType(i))); of.push_back((int64_t)L->getElementOffset(i)); }
      o["size"] = (int64_t)DL->getTypeAllocSize(s); }
    o["f"] = std::move(fs); o["o"] = std::move(of); return std::move(o);
  }
  if(auto* a = dyn_cast<ArrayType>(t)) { Object o; o["k"] = "a"; o["n"] = (int64_t)a->getNumElements(); o["e"] = ty(a->getElementType());
    o["es"] = (int64_t)DL->getTypeAllocSize(a->getElementType()); o["size"] = (int64_t)DL->getTypeAllocSize(a); return std::move(o); }
  if(auto* v = dyn_cast<FixedVectorType>(t)) { Object o; o["k"] = "v"; o["n"] = (int64_t)v->getNumElements(); o["e"] = ty(v->getElementType());
    o["es"] = (int64_t)DL->getTypeStoreSize(v->getElementType()); o["size"] = (int64_t)DL->getTypeAllocSize(v); return std::move(o); }
  return "other";
}
static std::string gname(const GlobalValue* g) { return g->getName().str(); }
static void needf(const Function* f) { if(fseen.insert(f).second) fq.push_back(f); }
static void needg(const GlobalVariable* g) { if(gseen.insert(g).second) gq.push_back(g); }

static JV opnd(const Value* v);
static JV gep(const GEPOperator* g) {
  Object o; o["base"] = opnd(g->getPointerOperand());
  int64_t c = 0; Array vs;
  for(gep_type_iterator it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
    Value* idx = it.getOperand();
    if(StructType* s = it.getStructTypeOrNull()) { c += DL->getStructLayout(s)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
    int64_t sz = DL->getTypeAllocSize(it.getIndexedType());
    if(auto* ci = dyn_cast<ConstantInt>(idx)) c += ci->getSExtValue() * sz;
    else { Array p; p.push_back(opnd(idx)); p.push_back(sz); vs.push_back(std::move(p)); }
  }
  o["c"] = c; o["v"] = std::move(vs); o["inb"] = g->isInBounds(); return std::move(o);
}
static JV opnd(const Value* v) {
  if(auto it = ids.find(v); it != ids.end()) return it->second;      // a local value: plain number
  Object o;
  if(auto* c = dyn_cast<ConstantInt>(v)) { SmallString<40> s; c->getValue().toStringUnsigned(s); o["i"] = s.str().str(); o["t"] = ty(v->getType()); return std::move(o); }
  if(auto* c = dyn_cast<ConstantFP>(v)) { SmallString<40> s; c->getValueAPF().bitcastToAPInt().toStringUnsigned(s); o["fp"] = s.str().str(); o["t"] = ty(v->getType()); return std::move(o); }
  if(isa<ConstantPointerNull>(v)) { o["null"] = true; return std::move(o); }
  if(isa<UndefValue>(v)) { o["undef"] = ty(v->getType()); return std::move(o); }   // includes poison
  if(isa<ConstantAggregateZero>(v)) { o["zero"] = ty(v->getType()); return std::move(o); }
  if(auto* f = dyn_cast<Function>(v)) { needf(f); o["fn"] = gname(f); return std::move(o); }
  if(auto* g = dyn_cast<GlobalVariable>(v)) { needg(g); o["g"] = gname(g); return std::move(o); }
  if(auto* a = dyn_cast<GlobalAlias>(v)) return opnd(a->getAliasee());
  if(auto* e = dyn_cast<ConstantExpr>(v)) {
    if(auto* g = dyn_cast<GEPOperator>(e)) { o["gep"] = gep(g); return std::move(o); }
    o["ce"] = e->getOpcodeName(); o["t"] = ty(e->getType()); o["ot"] = ty(e->getOperand(0)->getType());
    Array a; for(auto& u : e->operands()) a.push_back(opnd(u.get())); o["a"] = std::move(a); return std::move(o);
  }
  if(auto* ca = dyn_cast<ConstantAggregate>(v)) { Array a; for(auto& u : ca->operands()) a.push_back(opnd(u.get())); o["agg"] = std::move(a); o["t"] = ty(v->getType()); return std::move(o); }
  if(auto* cd = dyn_cast<ConstantDataSequential>(v)) { Array a; for(unsigned i = 0; i < cd->getNumElements(); i++) a.push_back(opnd(cd->getElementAsConstant(i))); o["agg"] = std::move(a); o["t"] = ty(v->getType()); return std::move(o); }
  o["unk"] = true; return std::move(o);
}
static std::string loc(const Instruction& i) {
  if(const DebugLoc& d = i.getDebugLoc()) { auto* s = cast<DIScope>(d.getScope()); return s->getFilename().str() + ":" + std::to_string(d.getLine()); }
  return "";
}
static void dump(const Function& F, Object& out) {
  Object o; o["dem"] = demangle(F.getName().str());
  o["ret"] = ty(F.getReturnType());
  Array args; ids.clear(); nextid = 0;
  for(auto& a : F.args()) { ids[&a] = nextid++; Object ao; ao["t"] = ty(a.getType());
    if(a.hasByValAttr()) ao["byval"] = (int64_t)DL->getTypeAllocSize(a.getParamByValType()); if(a.hasStructRetAttr()) ao["sret"] = (int64_t)DL->getTypeAllocSize(a.getParamStructRetType()); args.push_back(std::move(ao)); }
  o["args"] = std::move(args); o["decl"] = F.isDeclaration(); o["va"] = F.isVarArg(); o["noret"] = F.doesNotReturn();
  if(!F.isDeclaration()) {
    std::map<const BasicBlock*, int> bid; int nb = 0;
    for(auto& B : F) bid[&B] = nb++;
    for(auto& B : F) for(auto& I : B) if(!I.getType()->isVoidTy()) ids[&I] = nextid++;
    if(auto* sp = F.getSubprogram()) { o["file"] = sp->getFilename().str(); o["line"] = (int64_t)sp->getLine(); }
    Array blocks;
    for(auto& B : F) {
      Array is;
      for(auto& I : B) {
        if(isa<DbgInfoIntrinsic>(I)) continue;
        if(auto* ii = dyn_cast<IntrinsicInst>(&I)) { auto id = ii->getIntrinsicID();
          if(id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl) continue; }
        Object io; io["op"] = I.getOpcodeName(); io["t"] = ty(I.getType());
        if(auto it = ids.find(&I); it != ids.end()) io["id"] = it->second;
        std::string l = loc(I); if(!l.empty()) io["loc"] = l;
        Array a;
        if(auto* p = dyn_cast<PHINode>(&I)) { for(unsigned k = 0; k < p->getNumIncomingValues(); k++) { Array e; e.push_back(bid[p->getIncomingBlock(k)]); e.push_back(opnd(p->getIncomingValue(k))); a.push_back(std::move(e)); } }
        else if(auto* g = dyn_cast<GetElementPtrInst>(&I)) io["gep"] = gep(cast<GEPOperator>(g));
        else if(auto* b = dyn_cast<BranchInst>(&I)) { if(b->isConditional()) a.push_back(opnd(b->getCondition())); Array s; for(unsigned k = 0; k < b->getNumSuccessors(); k++) s.push_back(bid[b->getSuccessor(k)]); io["succ"] = std::move(s); }
        else if(auto* s = dyn_cast<SwitchInst>(&I)) { a.push_back(opnd(s->getCondition())); io["def"] = bid[s->getDefaultDest()]; Array cs; for(auto& c : s->cases()) { Array e; e.push_back(opnd(c.getCaseValue())); e.push_back(bid[c.getCaseSuccessor()]); cs.push_back(std::move(e)); } io["cases"] = std::move(cs); io["ct"] = ty(s->getCondition()->getType()); }
        else if(auto* c = dyn_cast<CallBase>(&I)) { io["callee"] = opnd(c->getCalledOperand()); for(auto& u : c->args()) a.push_back(opnd(u.get())); Array at; for(auto& u : c->args()) at.push_back(ty(u->getType())); io["at"] = std::move(at);
          Array bv; for(unsigned k = 0; k < c->arg_size(); k++) bv.push_back(c->isByValArgument(k) ? (int64_t)DL->getTypeAllocSize(c->getParamByValType(k)) : (int64_t)0); io["bv"] = std::move(bv);
          if(auto* iv = dyn_cast<InvokeInst>(c)) { io["normal"] = bid[iv->getNormalDest()]; io["unwind"] = bid[iv->getUnwindDest()]; } }
        else { for(auto& u : I.operands()) a.push_back(isa<BasicBlock>(u.get()) ? JV(nullptr) : opnd(u.get())); }
        if(I.getNumOperands() > 0 && !isa<PHINode>(I) && !isa<BranchInst>(I) && !isa<CallBase>(I)) { Array ot; for(auto& u : I.operands()) ot.push_back(isa<BasicBlock>(u.get()) ? JV(nullptr) : ty(u->getType())); io["ot"] = std::move(ot); }
        io["a"] = std::move(a);
        if(auto* ic = dyn_cast<CmpInst>(&I)) io["pred"] = CmpInst::getPredicateName(ic->getPredicate()).str();
        if(auto* al = dyn_cast<AllocaInst>(&I)) { io["size"] = (int64_t)DL->getTypeAllocSize(al->getAllocatedType()); }
        if(auto* ev = dyn_cast<ExtractValueInst>(&I)) { Array x; for(unsigned k : ev->indices()) x.push_back((int64_t)k); io["idx"] = std::move(x); }
        if(auto* iv = dyn_cast<InsertValueInst>(&I)) { Array x; for(unsigned k : iv->indices()) x.push_back((int64_t)k); io["idx"] = std::move(x); }
        if(auto* ob = dyn_cast<OverflowingBinaryOperator>(&I)) { io["nsw"] = ob->hasNoSignedWrap(); io["nuw"] = ob->hasNoUnsignedWrap(); }
        is.push_back(std::move(io));
      }
      blocks.push_back(std::move(is));
    }
    o["blocks"] = std::move(blocks);
    DominatorTree DT(const_cast<Function&>(F)); LoopInfo LI(DT); Array loops;
    for(Loop* L : LI.getLoopsInPreorder()) { Object lo; lo["header"] = bid[L->getHeader()]; lo["depth"] = (int64_t)L->getLoopDepth(); Array bs; for(auto* b : L->blocks()) bs.push_back(bid[b]); lo["blocks"] = std::move(bs); loops.push_back(std::move(lo)); }
    o["loops"] = std::move(loops);
  }
  out[gname(&F)] = std::move(o);
}
int main(int argc, char** argv) {
  LLVMContext C; SMDiagnostic E;
  auto M = parseIRFile(argv[1], E, C);
  if(!M) { E.print(argv[0], errs()); return 1; }
  DL = &M->getDataLayout();
  Array entries;
  for(auto& F : *M) if(!F.isDeclaration() && F.getName().starts_with("ev_contract_")) { needf(&F); entries.push_back(gname(&F)); }
  Object fns, gl;
  while(!fq.empty() || !gq.empty()) {
    if(!fq.empty()) { auto* f = fq.front(); fq.pop_front(); dump(*f, fns); continue; }
    auto* g = gq.front(); gq.pop_front(); ids.clear();
    Object o; o["size"] = (int64_t)(g->getValueType()->isSized() ? (int64_t)DL->getTypeAllocSize(g->getValueType()) : 0); o["const"] = g->isConstant(); o["t"] = ty(g->getValueType());
    if(g->hasInitializer()) o["init"] = opnd(g->getInitializer());
    gl[gname(g)] = std::move(o);
  }
  Object top; top["entries"] = std::move(entries); top["functions"] = std::move(fns); top["globals"] = std::move(gl);
  outs() << JV(std::move(top)) << "\n";
  return 0;
}
