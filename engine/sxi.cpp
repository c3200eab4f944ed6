// sxi IN.bc OUT.bc: inserts a call to sx_preempt() before every visible atomic access (the same points the symbolic
// engine treats as optional context switches) so that a recorded schedule can be replayed on really executed code.
#include "exec.h"
#include <llvm/IR/IRBuilder.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/raw_ostream.h>
static std::string srcPath(const DebugLoc& dl) { std::string f = dl->getFilename().str(); return f.empty() || f[0] == '/' ? f : dl->getDirectory().str() + "/" + f; }
bool isPreemptPoint(Instruction* I) {
  if (auto* L = dyn_cast<LoadInst>(I)) { if (!L->isAtomic() && !L->isVolatile()) return false; } else if (auto* S = dyn_cast<StoreInst>(I)) { if (!S->isAtomic() && !S->isVolatile()) return false; } else if (!isa<AtomicRMWInst>(I) && !isa<AtomicCmpXchgInst>(I)) return false;
  if (auto dl = I->getDebugLoc()) { std::string f = srcPath(dl); if (StringRef(f).ends_with("atomicity.h") || StringRef(f).contains("/verif/")) return false; } return true; }
static bool isPlainPoint(Instruction* I) {
  Value* ptr; if (auto* L = dyn_cast<LoadInst>(I)) { if (L->isAtomic() || L->isVolatile()) return false; ptr = L->getPointerOperand(); } else if (auto* S = dyn_cast<StoreInst>(I)) { if (S->isAtomic() || S->isVolatile()) return false; ptr = S->getPointerOperand(); } else return false;
  ptr = ptr->stripInBoundsOffsets(); if (isa<AllocaInst>(ptr)) return false; if (auto* C = dyn_cast<IntrinsicInst>(ptr)) if (C->getIntrinsicID() == Intrinsic::threadlocal_address) return false;
  if (auto dl = I->getDebugLoc()) { std::string f = srcPath(dl); return StringRef(f).contains("/source/cy") && !StringRef(f).contains("/verif/"); } return false; }
int main(int argc, char** argv) { LLVMContext ctx; SMDiagnostic err; auto M = parseIRFile(argv[1], err, ctx); if (!M) { err.print("sxi", errs()); return 1; } auto F = M->getOrInsertFunction("sx_preempt", Type::getVoidTy(ctx)); auto G = M->getOrInsertFunction("sx_preempt_plain", Type::getVoidTy(ctx), PointerType::getUnqual(ctx));
  for (auto& fn : *M) { if (fn.isDeclaration()) continue; fn.addFnAttr(Attribute::SanitizeAddress); std::vector<Instruction*> v; for (auto& B : fn) for (auto& I : B) if (isPreemptPoint(&I) || isPlainPoint(&I)) v.push_back(&I); for (auto* I : v) { IRBuilder<> b(I); auto* c = isPreemptPoint(I) ? b.CreateCall(F) : b.CreateCall(G, {isa<LoadInst>(I) ? cast<LoadInst>(I)->getPointerOperand() : cast<StoreInst>(I)->getPointerOperand()}); c->setDebugLoc(I->getDebugLoc()); } }
  std::error_code ec; raw_fd_ostream o(argv[2], ec); WriteBitcodeToFile(*M, o); return ec ? 1 : 0; }
