// irdump: dumps the part of an LLVM module that is reachable from the given
// root functions as JSON, with every type size and GEP offset resolved through
// the module's data layout.  It is the front half of the analyser: it resolves
// the program (callees, layouts, source positions) and decides nothing.
//
// usage: irdump IN.bc OUT.json ROOT_PREFIX [ROOT_PREFIX...]
#include <map>
#include <set>
#include <string>
#include <vector>

#include "llvm/ADT/MapVector.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugLoc.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"

using namespace llvm;

static const DataLayout* DL;

static std::string typeStr(Type* t) {
  std::string s;
  raw_string_ostream os(s);
  t->print(os, false, true);
  return os.str();
}

static uint64_t sizeOf(Type* t) {
  if (!t->isSized()) return 0;
  return DL->getTypeStoreSize(t);
}

class Dumper {
 public:
  Dumper(Module& m, json::OStream& j) : m_(m), j_(j) {}

  void Run(const std::vector<std::string>& prefixes) {
    for (Function& f : m_) {
      if (f.isDeclaration()) continue;
      for (const std::string& p : prefixes) {
        if (f.getName().starts_with(p)) Enqueue(&f);
      }
    }
    j_.objectBegin();
    j_.attributeBegin("functions");
    j_.arrayBegin();
    while (!work_.empty()) {
      Function* f = work_.back();
      work_.pop_back();
      DumpFunction(*f);
    }
    j_.arrayEnd();
    j_.attributeEnd();
    j_.attributeBegin("globals");
    j_.arrayBegin();
    for (size_t i = 0; i < globals_.size(); ++i) DumpGlobal(*globals_[i]);
    j_.arrayEnd();
    j_.attributeEnd();
    j_.objectEnd();
  }

 private:
  void Enqueue(Function* f) {
    if (seen_.insert(f).second) work_.push_back(f);
  }
  void NoteGlobal(GlobalVariable* g) {
    if (!gseen_.insert(g).second) return;
    globals_.push_back(g);
    if (g->hasInitializer()) NoteConstant(g->getInitializer());
  }
  // Functions named by an initializer (virtual tables) are reachable too.
  void NoteConstant(Constant* c) {
    if (auto* f = dyn_cast<Function>(c)) {
      if (!f->isDeclaration()) Enqueue(f);
    } else if (auto* g = dyn_cast<GlobalVariable>(c)) {
      NoteGlobal(g);
    } else {
      for (Use& u : c->operands()) {
        if (auto* k = dyn_cast<Constant>(u.get())) NoteConstant(k);
      }
    }
  }

  // A value reference as a compact JSON array.
  void Ref(Value* v) {
    j_.arrayBegin();
    if (auto* ci = dyn_cast<ConstantInt>(v)) {
      j_.value("c");
      SmallString<40> s;
      ci->getValue().toString(s, 10, /*Signed=*/true);
      j_.value(s.str());
      j_.value(ci->getBitWidth());
    } else if (auto* cf = dyn_cast<ConstantFP>(v)) {
      j_.value("f");
      SmallString<40> s;
      cf->getValueAPF().toString(s, 20);
      j_.value(s.str());
    } else if (isa<ConstantPointerNull>(v)) {
      j_.value("n");
    } else if (isa<UndefValue>(v)) {
      j_.value("u");
    } else if (isa<ConstantAggregateZero>(v)) {
      j_.value("z");
      j_.value((int64_t)sizeOf(v->getType()));
    } else if (auto* f = dyn_cast<Function>(v)) {
      Enqueue(f);
      j_.value("fn");
      j_.value(f->getName());
    } else if (auto* g = dyn_cast<GlobalVariable>(v)) {
      NoteGlobal(g);
      j_.value("g");
      j_.value(g->getName());
      j_.value(0);
    } else if (auto* ga = dyn_cast<GlobalAlias>(v)) {
      if (auto* f = dyn_cast<Function>(ga->getAliasee())) {
        Enqueue(f);
        j_.value("fn");
        j_.value(f->getName());
      } else {
        j_.value("x");
      }
    } else if (auto* ce = dyn_cast<ConstantExpr>(v)) {
      APInt off(64, 0);
      Value* base = nullptr;
      if (ce->getType()->isPointerTy()) {
        base = ce->stripAndAccumulateConstantOffsets(*DL, off, true);
      }
      if (base && isa<GlobalVariable>(base)) {
        NoteGlobal(cast<GlobalVariable>(base));
        j_.value("g");
        j_.value(base->getName());
        j_.value(off.getSExtValue());
      } else {
        j_.value("x");
        std::string s;
        raw_string_ostream os(s);
        v->print(os);
        j_.value(os.str());
      }
    } else if (isa<Constant>(v)) {
      j_.value("x");
      std::string s;
      raw_string_ostream os(s);
      v->print(os);
      j_.value(os.str());
    } else if (auto* bb = dyn_cast<BasicBlock>(v)) {
      j_.value("b");
      j_.value((int64_t)bbid_[bb]);
    } else if (isa<MetadataAsValue>(v)) {
      j_.value("m");
    } else {
      auto it = vid_.find(v);
      j_.value("v");
      j_.value(it == vid_.end() ? (int64_t)-1 : (int64_t)it->second);
    }
    j_.arrayEnd();
  }

  void DumpConst(Constant* c, uint64_t off) {
    if (auto* cs = dyn_cast<ConstantStruct>(c)) {
      const StructLayout* sl = DL->getStructLayout(cs->getType());
      for (unsigned i = 0; i < cs->getNumOperands(); ++i)
        DumpConst(cs->getOperand(i), off + sl->getElementOffset(i));
    } else if (auto* ca = dyn_cast<ConstantArray>(c)) {
      uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
      for (unsigned i = 0; i < ca->getNumOperands(); ++i)
        DumpConst(ca->getOperand(i), off + i * es);
    } else if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
      uint64_t es = DL->getTypeAllocSize(cd->getElementType());
      for (unsigned i = 0; i < cd->getNumElements(); ++i)
        DumpConst(cd->getElementAsConstant(i), off + i * es);
    } else {
      j_.arrayBegin();
      j_.value((int64_t)off);
      j_.value((int64_t)sizeOf(c->getType()));
      Ref(c);
      j_.arrayEnd();
    }
  }

  void DumpGlobal(GlobalVariable& g) {
    j_.objectBegin();
    j_.attribute("name", g.getName());
    j_.attribute("dem", demangle(g.getName().str()));
    j_.attribute("const", g.isConstant());
    j_.attribute("size", (int64_t)sizeOf(g.getValueType()));
    SmallVector<DIGlobalVariableExpression*, 1> di;
    g.getDebugInfo(di);
    if (!di.empty() && di[0]->getVariable()) {
      j_.attribute("file", di[0]->getVariable()->getFilename());
      j_.attribute("line", (int64_t)di[0]->getVariable()->getLine());
    }
    j_.attributeBegin("init");
    j_.arrayBegin();
    if (g.hasInitializer()) DumpConst(g.getInitializer(), 0);
    j_.arrayEnd();
    j_.attributeEnd();
    j_.objectEnd();
  }

  void DumpFunction(Function& f) {
    vid_.clear();
    bbid_.clear();
    int n = 0;
    for (Argument& a : f.args()) vid_[&a] = n++;
    int b = 0;
    for (BasicBlock& bb : f) {
      bbid_[&bb] = b++;
      for (Instruction& i : bb) vid_[&i] = n++;
    }
    j_.objectBegin();
    j_.attribute("name", f.getName());
    j_.attribute("dem", demangle(f.getName().str()));
    j_.attribute("ret", typeStr(f.getReturnType()));
    if (DISubprogram* sp = f.getSubprogram()) {
      j_.attribute("file", sp->getFilename());
      j_.attribute("line", (int64_t)sp->getLine());
    }
    j_.attributeBegin("args");
    j_.arrayBegin();
    for (Argument& a : f.args()) {
      j_.arrayBegin();
      j_.value((int64_t)vid_[&a]);
      j_.value(typeStr(a.getType()));
      j_.value(a.hasStructRetAttr());
      j_.value(a.getName());
      j_.arrayEnd();
    }
    j_.arrayEnd();
    j_.attributeEnd();
    j_.attributeBegin("blocks");
    j_.arrayBegin();
    for (BasicBlock& bb : f) {
      j_.arrayBegin();
      for (Instruction& i : bb) DumpInst(i);
      j_.arrayEnd();
    }
    j_.arrayEnd();
    j_.attributeEnd();
    j_.objectEnd();
  }

  void DumpInst(Instruction& i) {
    if (isa<DbgInfoIntrinsic>(&i)) return;
    j_.objectBegin();
    j_.attribute("op", i.getOpcodeName());
    j_.attribute("id", (int64_t)vid_[&i]);
    j_.attribute("ty", typeStr(i.getType()));
    j_.attribute("sz", (int64_t)sizeOf(i.getType()));
    if (const DebugLoc& dl = i.getDebugLoc()) {
      j_.attribute("line", (int64_t)dl.getLine());
      if (auto* sc = dyn_cast_or_null<DIScope>(dl.getScope()))
        j_.attribute("file", sc->getFilename());
    }
    if (auto* al = dyn_cast<AllocaInst>(&i)) {
      j_.attribute("asz", (int64_t)DL->getTypeAllocSize(al->getAllocatedType()));
      j_.attribute("aty", typeStr(al->getAllocatedType()));
    }
    if (auto* ld = dyn_cast<LoadInst>(&i)) {
      (void)ld;
    }
    if (auto* st = dyn_cast<StoreInst>(&i)) {
      j_.attribute("ssz", (int64_t)sizeOf(st->getValueOperand()->getType()));
      j_.attribute("sty", typeStr(st->getValueOperand()->getType()));
    }
    if (auto* c = dyn_cast<CmpInst>(&i)) {
      j_.attribute("pred", CmpInst::getPredicateName(c->getPredicate()));
      j_.attribute("oty", typeStr(c->getOperand(0)->getType()));
    }
    if (auto* cast = dyn_cast<CastInst>(&i))
      j_.attribute("oty", typeStr(cast->getOperand(0)->getType()));
    if (auto* gep = dyn_cast<GEPOperator>(&i)) {
      MapVector<Value*, APInt> var;
      APInt off(64, 0);
      if (gep->collectOffset(*DL, 64, var, off)) {
        j_.attribute("off", off.getSExtValue());
        j_.attributeBegin("var");
        j_.arrayBegin();
        for (auto& kv : var) {
          j_.arrayBegin();
          Ref(kv.first);
          j_.value(kv.second.getSExtValue());
          j_.arrayEnd();
        }
        j_.arrayEnd();
        j_.attributeEnd();
      }
      j_.attribute("gty", typeStr(gep->getSourceElementType()));
      j_.attributeBegin("a");
      j_.arrayBegin();
      Ref(gep->getPointerOperand());
      j_.arrayEnd();
      j_.attributeEnd();
      j_.objectEnd();
      return;
    }
    if (auto* ev = dyn_cast<ExtractValueInst>(&i)) {
      uint64_t off = AggOff(ev->getAggregateOperand()->getType(), ev->getIndices());
      j_.attribute("off", (int64_t)off);
    }
    if (auto* iv = dyn_cast<InsertValueInst>(&i)) {
      uint64_t off = AggOff(iv->getAggregateOperand()->getType(), iv->getIndices());
      j_.attribute("off", (int64_t)off);
      j_.attribute("ssz", (int64_t)sizeOf(iv->getInsertedValueOperand()->getType()));
    }
    if (auto* phi = dyn_cast<PHINode>(&i)) {
      j_.attributeBegin("phi");
      j_.arrayBegin();
      for (unsigned k = 0; k < phi->getNumIncomingValues(); ++k) {
        j_.arrayBegin();
        Ref(phi->getIncomingValue(k));
        j_.value((int64_t)bbid_[phi->getIncomingBlock(k)]);
        j_.arrayEnd();
      }
      j_.arrayEnd();
      j_.attributeEnd();
      j_.objectEnd();
      return;
    }
    if (auto* sw = dyn_cast<SwitchInst>(&i)) {
      j_.attributeBegin("cond");
      Ref(sw->getCondition());
      j_.attributeEnd();
      j_.attribute("default", (int64_t)bbid_[sw->getDefaultDest()]);
      j_.attributeBegin("cases");
      j_.arrayBegin();
      for (auto& c : sw->cases()) {
        j_.arrayBegin();
        Ref(c.getCaseValue());
        j_.value((int64_t)bbid_[c.getCaseSuccessor()]);
        j_.arrayEnd();
      }
      j_.arrayEnd();
      j_.attributeEnd();
      j_.objectEnd();
      return;
    }
    if (auto* br = dyn_cast<BranchInst>(&i)) {
      if (br->isConditional()) {
        j_.attributeBegin("cond");
        Ref(br->getCondition());
        j_.attributeEnd();
        j_.attribute("t", (int64_t)bbid_[br->getSuccessor(0)]);
        j_.attribute("f", (int64_t)bbid_[br->getSuccessor(1)]);
      } else {
        j_.attribute("t", (int64_t)bbid_[br->getSuccessor(0)]);
      }
      j_.objectEnd();
      return;
    }
    if (auto* cb = dyn_cast<CallBase>(&i)) {
      j_.attributeBegin("callee");
      Ref(cb->getCalledOperand());
      j_.attributeEnd();
      j_.attributeBegin("a");
      j_.arrayBegin();
      for (Value* a : cb->args()) Ref(a);
      j_.arrayEnd();
      j_.attributeEnd();
      j_.attributeBegin("aty");
      j_.arrayBegin();
      for (Value* a : cb->args()) j_.value(typeStr(a->getType()));
      j_.arrayEnd();
      j_.attributeEnd();
      // by-value aggregates
      j_.attributeBegin("byval");
      j_.arrayBegin();
      for (unsigned k = 0; k < cb->arg_size(); ++k)
        j_.value(cb->isByValArgument(k)
                     ? (int64_t)DL->getTypeAllocSize(cb->getParamByValType(k))
                     : (int64_t)0);
      j_.arrayEnd();
      j_.attributeEnd();
      j_.objectEnd();
      return;
    }
    j_.attributeBegin("a");
    j_.arrayBegin();
    for (Value* o : i.operands()) Ref(o);
    j_.arrayEnd();
    j_.attributeEnd();
    j_.objectEnd();
  }

  uint64_t AggOff(Type* t, ArrayRef<unsigned> idx) {
    uint64_t off = 0;
    for (unsigned k : idx) {
      if (auto* st = dyn_cast<StructType>(t)) {
        off += DL->getStructLayout(st)->getElementOffset(k);
        t = st->getElementType(k);
      } else if (auto* at = dyn_cast<ArrayType>(t)) {
        off += k * DL->getTypeAllocSize(at->getElementType());
        t = at->getElementType();
      }
    }
    return off;
  }

  Module& m_;
  json::OStream& j_;
  std::vector<Function*> work_;
  std::set<Function*> seen_;
  std::set<GlobalVariable*> gseen_;
  std::vector<GlobalVariable*> globals_;
  std::map<Value*, int> vid_;
  std::map<BasicBlock*, int> bbid_;
};

int main(int argc, char** argv) {
  if (argc < 4) {
    errs() << "usage: irdump IN OUT ROOT_PREFIX...\n";
    return 2;
  }
  LLVMContext ctx;
  SMDiagnostic err;
  std::unique_ptr<Module> m = parseIRFile(argv[1], err, ctx);
  if (!m) {
    err.print(argv[0], errs());
    return 2;
  }
  DL = &m->getDataLayout();
  std::error_code ec;
  raw_fd_ostream os(argv[2], ec);
  if (ec) {
    errs() << ec.message() << "\n";
    return 2;
  }
  json::OStream j(os);
  std::vector<std::string> prefixes(argv + 3, argv + argc);
  Dumper(*m, j).Run(prefixes);
  os << "\n";
  return 0;
}
