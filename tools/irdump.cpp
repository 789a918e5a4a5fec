// irdump: turns one LLVM bitcode/IR module into JSON that the Python analyses read.
// Offsets of every address computation are resolved with the module's data layout, so
// the analyses work on byte offsets and never on source spelling.
#include <llvm/ADT/SmallString.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <string>
#include <vector>
using namespace llvm;

static const DataLayout *DL;
static raw_ostream *OS;
static std::map<Type *, int> TypeIds;
static std::vector<std::string> TypeDefs;

static std::string esc(StringRef s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

static int typeId(Type *T) {
  auto it = TypeIds.find(T);
  if (it != TypeIds.end()) return it->second;
  std::string d;
  uint64_t sz = T->isSized() ? DL->getTypeAllocSize(T).getFixedValue() : 0;
  if (T->isIntegerTy()) d = "{\"k\":\"int\",\"w\":" + std::to_string(T->getIntegerBitWidth()) + ",\"sz\":" + std::to_string((T->getIntegerBitWidth() + 7) / 8) + "}";
  else if (T->isPointerTy()) d = "{\"k\":\"ptr\",\"sz\":8}";
  else if (T->isFloatingPointTy()) d = "{\"k\":\"fp\",\"w\":" + std::to_string(T->getPrimitiveSizeInBits().getFixedValue()) + ",\"sz\":" + std::to_string(sz) + "}";
  else if (auto *V = dyn_cast<FixedVectorType>(T)) d = "{\"k\":\"vec\",\"n\":" + std::to_string(V->getNumElements()) + ",\"e\":" + std::to_string(typeId(V->getElementType())) + ",\"sz\":" + std::to_string(sz) + "}";
  else if (auto *S = dyn_cast<StructType>(T)) {
    if (S->isOpaque()) d = "{\"k\":\"opaque\",\"sz\":0}";
    else {
      auto *L = DL->getStructLayout(S);
      d = "{\"k\":\"struct\",\"sz\":" + std::to_string(sz) + ",\"f\":[";
      for (unsigned i = 0; i < S->getNumElements(); i++) {
        if (i) d += ",";
        d += "[" + std::to_string(L->getElementOffset(i).getFixedValue()) + "," + std::to_string(typeId(S->getElementType(i))) + "]";
      }
      d += "],\"n\":" + esc(S->hasName() ? S->getName() : "") + "}";
    }
  } else if (auto *A = dyn_cast<ArrayType>(T)) d = "{\"k\":\"array\",\"n\":" + std::to_string(A->getNumElements()) + ",\"e\":" + std::to_string(typeId(A->getElementType())) + ",\"sz\":" + std::to_string(sz) + "}";
  else if (T->isVoidTy()) d = "{\"k\":\"void\",\"sz\":0}";
  else d = "{\"k\":\"other\",\"sz\":0}";
  int id = TypeDefs.size();
  TypeDefs.push_back(d);
  TypeIds[T] = id;
  return id;
}

static std::map<const Value *, int> Ids;

static std::string val(const Value *V);

static std::string cst(const Constant *C) {
  int t = typeId(C->getType());
  std::string ts = std::to_string(t);
  if (auto *I = dyn_cast<ConstantInt>(C)) {
    SmallString<32> s; I->getValue().toStringSigned(s);
    return "[\"i\"," + ts + "," + s.c_str() + "]";
  }
  if (isa<ConstantPointerNull>(C)) return "[\"n\"," + ts + "]";
  if (isa<UndefValue>(C)) return "[\"u\"," + ts + "]";
  if (auto *F = dyn_cast<ConstantFP>(C)) {
    APFloat f = F->getValueAPF(); bool l; f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &l);
    double d = f.convertToDouble(); char b[64]; snprintf(b, sizeof b, "%.17g", d);
    return "[\"d\"," + ts + ",\"" + b + "\"]";
  }
  if (isa<ConstantAggregateZero>(C)) return "[\"z\"," + ts + "]";
  if (auto *GA = dyn_cast<GlobalAlias>(C)) if (auto *T = dyn_cast<GlobalValue>(GA->getAliasee())) C = T;
  if (auto *G = dyn_cast<GlobalValue>(C)) return "[\"g\"," + ts + "," + esc(G->getName()) + ",0]";
  if (auto *A = dyn_cast<ConstantDataSequential>(C)) {
    std::string s = "[\"a\"," + ts + ",[";
    for (unsigned i = 0; i < A->getNumElements(); i++) { if (i) s += ","; s += cst(A->getElementAsConstant(i)); }
    return s + "]]";
  }
  if (auto *A = dyn_cast<ConstantAggregate>(C)) {
    std::string s = "[\"a\"," + ts + ",[";
    for (unsigned i = 0; i < A->getNumOperands(); i++) { if (i) s += ","; s += cst(A->getOperand(i)); }
    return s + "]]";
  }
  if (auto *E = dyn_cast<ConstantExpr>(C)) {
    if (C->getType()->isPointerTy()) {
      APInt off(64, 0);
      const Value *B = C->stripAndAccumulateConstantOffsets(*DL, off, true);
      if (auto *G = dyn_cast<GlobalValue>(B)) return "[\"g\"," + ts + "," + esc(G->getName()) + "," + std::to_string(off.getSExtValue()) + "]";
    }
    if (E->getOpcode() == Instruction::PtrToInt) {
      APInt off(64, 0);
      const Value *B = E->getOperand(0)->stripAndAccumulateConstantOffsets(*DL, off, true);
      if (auto *G = dyn_cast<GlobalValue>(B)) return "[\"g\"," + ts + "," + esc(G->getName()) + "," + std::to_string(off.getSExtValue()) + "]";
    }
    return "[\"x\"," + ts + "," + esc(E->getOpcodeName()) + "]";
  }
  return "[\"x\"," + ts + ",\"?\"]";
}

static std::string val(const Value *V) {
  if (auto *C = dyn_cast<Constant>(V)) return cst(C);
  if (isa<InlineAsm>(V)) return "[\"asm\",0]";
  if (isa<MetadataAsValue>(V)) return "[\"md\",0]";
  auto it = Ids.find(V);
  if (it == Ids.end()) return "[\"x\",0,\"noid\"]";
  return "[\"v\"," + std::to_string(typeId(V->getType())) + "," + std::to_string(it->second) + "]";
}

int main(int argc, char **argv) {
  if (argc != 3) return 2;
  LLVMContext Ctx; SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if (!M) { Err.print(argv[0], errs()); return 2; }
  DL = &M->getDataLayout();
  std::error_code EC; raw_fd_ostream Out(argv[2], EC); OS = &Out;
  raw_ostream &O = Out;
  std::map<std::string, int> Files; std::vector<std::string> FileList;
  auto fileId = [&](std::string f) { auto it = Files.find(f); if (it != Files.end()) return it->second; int n = FileList.size(); FileList.push_back(f); Files[f] = n; return n; };
  O << "{\"funcs\":{";
  bool ff = true;
  for (Function &F : *M) {
    if (!ff) O << ",\n"; ff = false;
    Ids.clear(); int n = 0;
    O << esc(F.getName()) << ":{\"d\":" << esc(demangle(F.getName().str())) << ",\"decl\":" << (F.isDeclaration() ? 1 : 0)
      << ",\"va\":" << (F.isVarArg() ? 1 : 0) << ",\"noret\":" << (F.doesNotReturn() ? 1 : 0) << ",\"rt\":" << typeId(F.getReturnType());
    if (auto *SP = F.getSubprogram()) O << ",\"loc\":[" << fileId(SP->getFilename().str()) << "," << SP->getLine() << "]";
    O << ",\"args\":[";
    bool fa = true;
    for (auto &A : F.args()) {
      Ids[&A] = n;
      if (!fa) O << ","; fa = false;
      O << "[" << n << "," << typeId(A.getType()) << "," << (A.hasStructRetAttr() ? 1 : 0) << "," << (A.hasByValAttr() ? DL->getTypeAllocSize(A.getParamByValType()).getFixedValue() : 0) << "]";
      n++;
    }
    O << "]";
    if (F.isDeclaration()) { O << "}"; continue; }
    std::map<const BasicBlock *, int> B; int b = 0;
    for (auto &BB : F) { B[&BB] = b++; for (auto &I : BB) if (!I.getType()->isVoidTy()) Ids[&I] = n++; }
    O << ",\"blocks\":[";
    bool fb = true;
    for (auto &BB : F) {
      if (!fb) O << ",\n"; fb = false;
      O << "[";
      bool fi = true;
      for (auto &I : BB) {
        if (isa<DbgInfoIntrinsic>(&I)) continue;
        if (!fi) O << ",\n"; fi = false;
        O << "{\"op\":" << esc(I.getOpcodeName()) << ",\"t\":" << typeId(I.getType());
        if (!I.getType()->isVoidTy()) O << ",\"id\":" << Ids[&I];
        if (auto &L = I.getDebugLoc()) {
          O << ",\"l\":[" << fileId(L->getFilename().str()) << "," << L.getLine() << "," << L.getCol() << "]";
        }
        if (auto *P = dyn_cast<PHINode>(&I)) {
          O << ",\"in\":[";
          for (unsigned i = 0; i < P->getNumIncomingValues(); i++) { if (i) O << ","; O << "[" << val(P->getIncomingValue(i)) << "," << B[P->getIncomingBlock(i)] << "]"; }
          O << "]";
        } else if (auto *Br = dyn_cast<BranchInst>(&I)) {
          if (Br->isConditional()) O << ",\"c\":" << val(Br->getCondition());
          O << ",\"s\":[";
          for (unsigned i = 0; i < Br->getNumSuccessors(); i++) { if (i) O << ","; O << B[Br->getSuccessor(i)]; }
          O << "]";
        } else if (auto *Sw = dyn_cast<SwitchInst>(&I)) {
          O << ",\"c\":" << val(Sw->getCondition()) << ",\"def\":" << B[Sw->getDefaultDest()] << ",\"cases\":[";
          bool fc = true;
          for (auto &C : Sw->cases()) { if (!fc) O << ","; fc = false; O << "[" << val(C.getCaseValue()) << "," << B[C.getCaseSuccessor()] << "]"; }
          O << "]";
        } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
          O << ",\"a\":[" << val(G->getPointerOperand());
          O << "],\"srct\":" << typeId(G->getSourceElementType());
          APInt off(64, 0); MapVector<Value *, APInt> Vars;
          G->collectOffset(*DL, 64, Vars, off);
          O << ",\"off\":" << off.getSExtValue() << ",\"vars\":[";
          bool fv = true;
          for (auto &kv : Vars) { if (!fv) O << ","; fv = false; O << "[" << val(kv.first) << "," << kv.second.getSExtValue() << "]"; }
          O << "]";
          // indices into arrays of known length
          bool fa = true;
          if (G->isInBounds()) {
            Type *T = nullptr;
            for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
              if (auto *AT = dyn_cast_or_null<ArrayType>(T))
                if (AT->getNumElements() > 1) {
                  O << (fa ? ",\"arr\":[" : ",") << "[" << val(it.getOperand()) << "," << AT->getNumElements() << "]";
                  fa = false;
                }
              T = it.getIndexedType();
            }
          }
          if (!fa) {
            O << "]";
            for (auto *U : G->users())
              if ((isa<LoadInst>(U) && cast<LoadInst>(U)->getPointerOperand() == G) || (isa<StoreInst>(U) && cast<StoreInst>(U)->getPointerOperand() == G)) { O << ",\"used\":1"; break; }
          }
        } else if (auto *A = dyn_cast<AllocaInst>(&I)) {
          O << ",\"al\":" << A->getAlign().value() << ",\"sz\":" << DL->getTypeAllocSize(A->getAllocatedType()).getFixedValue() << ",\"at\":" << typeId(A->getAllocatedType()) << ",\"a\":[" << val(A->getArraySize()) << "]";
          O << ",\"name\":" << esc(A->getName());
        } else if (auto *C = dyn_cast<CmpInst>(&I)) {
          O << ",\"p\":" << esc(CmpInst::getPredicateName(C->getPredicate())) << ",\"a\":[" << val(C->getOperand(0)) << "," << val(C->getOperand(1)) << "]";
        } else if (auto *C = dyn_cast<CallBase>(&I)) {
          O << ",\"f\":" << val(C->getCalledOperand()) << ",\"a\":[";
          for (unsigned i = 0; i < C->arg_size(); i++) { if (i) O << ","; O << val(C->getArgOperand(i)); }
          O << "],\"attr\":[";
          for (unsigned i = 0; i < C->arg_size(); i++) { if (i) O << ","; O << "[" << (C->paramHasAttr(i, Attribute::StructRet) ? 1 : 0) << "," << (C->isByValArgument(i) ? DL->getTypeAllocSize(C->getParamByValType(i)).getFixedValue() : 0) << "]"; }
          O << "]";
          if (C->doesNotReturn()) O << ",\"noret\":1";
          if (isa<IntrinsicInst>(C)) O << ",\"intr\":1";
          if (C->isInlineAsm()) O << ",\"asm\":1";
        } else if (auto *E = dyn_cast<ExtractValueInst>(&I)) {
          O << ",\"a\":[" << val(E->getAggregateOperand()) << "],\"ix\":[";
          for (unsigned i = 0; i < E->getNumIndices(); i++) { if (i) O << ","; O << E->getIndices()[i]; }
          O << "]";
        } else if (auto *E = dyn_cast<InsertValueInst>(&I)) {
          O << ",\"a\":[" << val(E->getAggregateOperand()) << "," << val(E->getInsertedValueOperand()) << "],\"ix\":[";
          for (unsigned i = 0; i < E->getNumIndices(); i++) { if (i) O << ","; O << E->getIndices()[i]; }
          O << "]";
        } else {
          O << ",\"a\":[";
          for (unsigned i = 0; i < I.getNumOperands(); i++) { if (i) O << ","; O << val(I.getOperand(i)); }
          O << "]";
          if (auto *S = dyn_cast<ShuffleVectorInst>(&I)) {
            O << ",\"mask\":[";
            for (unsigned i = 0; i < S->getShuffleMask().size(); i++) { if (i) O << ","; O << S->getShuffleMask()[i]; }
            O << "]";
          }
          if (auto *L = dyn_cast<LoadInst>(&I)) { if (L->isAtomic()) O << ",\"ord\":" << esc(toIRString(L->getOrdering())); if (L->isVolatile()) O << ",\"vol\":1"; if (L->getType()->isVectorTy()) O << ",\"al\":" << L->getAlign().value(); }
          if (auto *L = dyn_cast<StoreInst>(&I)) { if (L->isAtomic()) O << ",\"ord\":" << esc(toIRString(L->getOrdering())); if (L->getValueOperand()->getType()->isVectorTy()) O << ",\"al\":" << L->getAlign().value(); if (L->isVolatile()) O << ",\"vol\":1"; }
          if (auto *L = dyn_cast<AtomicRMWInst>(&I)) O << ",\"ord\":" << esc(toIRString(L->getOrdering())) << ",\"rmw\":" << esc(AtomicRMWInst::getOperationName(L->getOperation()));
          if (auto *L = dyn_cast<AtomicCmpXchgInst>(&I)) O << ",\"ord\":" << esc(toIRString(L->getSuccessOrdering())) << ",\"ford\":" << esc(toIRString(L->getFailureOrdering())) << ",\"weak\":" << (L->isWeak() ? 1 : 0);
          if (auto *L = dyn_cast<FenceInst>(&I)) O << ",\"ord\":" << esc(toIRString(L->getOrdering()));
          if (auto *OB = dyn_cast<OverflowingBinaryOperator>(&I)) { if (OB->hasNoSignedWrap()) O << ",\"nsw\":1"; if (OB->hasNoUnsignedWrap()) O << ",\"nuw\":1"; }
        }
        O << "}";
      }
      O << "]";
    }
    O << "]}";
  }
  O << "},\n\"globals\":{";
  Ids.clear();
  bool fg = true;
  for (GlobalVariable &G : M->globals()) {
    if (!fg) O << ",\n"; fg = false;
    O << esc(G.getName()) << ":{\"d\":" << esc(demangle(G.getName().str())) << ",\"t\":" << typeId(G.getValueType()) << ",\"const\":" << (G.isConstant() ? 1 : 0);
    if (G.hasInitializer()) O << ",\"init\":" << cst(G.getInitializer());
    O << "}";
  }
  O << "},\n\"types\":[";
  for (size_t i = 0; i < TypeDefs.size(); i++) { if (i) O << ",\n"; O << TypeDefs[i]; }
  O << "],\n\"files\":[";
  for (size_t i = 0; i < FileList.size(); i++) { if (i) O << ","; O << esc(FileList[i]); }
  O << "]}\n";
  return 0;
}
