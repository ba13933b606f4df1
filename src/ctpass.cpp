// LLVM pass: reports to the monitor every executed basic block, load/store address, memory-intrinsic arguments,
// division operands (unless the divisor is a constant power of two) and indirect call targets.
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
using namespace llvm;
namespace {
struct CtPass : PassInfoMixin<CtPass> {
    static bool isRequired() { return true; }
    PreservedAnalyses run(Module &M, ModuleAnalysisManager &)
    {
        LLVMContext &C = M.getContext();
        Type *V = Type::getVoidTy(C), *I64 = Type::getInt64Ty(C), *Ptr = PointerType::getUnqual(C);
        FunctionCallee FB = M.getOrInsertFunction("vp_block", V, I64), FA = M.getOrInsertFunction("vp_addr", V, Ptr),
                       FM = M.getOrInsertFunction("vp_mem", V, Ptr, Ptr, I64), FD = M.getOrInsertFunction("vp_div", V, I64, I64),
                       FC = M.getOrInsertFunction("vp_icall", V, Ptr);
        uint64_t id = 0;
        uint64_t base = std::hash<std::string>{}(M.getSourceFileName()) << 20;
        for (Function &F : M) {
            if (F.isDeclaration()) continue;
            std::vector<Instruction *> todo;
            for (BasicBlock &BB : F) {
                for (Instruction &I : BB) todo.push_back(&I);
                IRBuilder<> B(&*BB.getFirstInsertionPt());
                B.CreateCall(FB, {B.getInt64(base + id++)});
            }
            for (Instruction *I : todo) {
                IRBuilder<> B(I);
                if (auto *L = dyn_cast<LoadInst>(I)) { if (L->getPointerAddressSpace() == 0) B.CreateCall(FA, {L->getPointerOperand()}); }
                else if (auto *S = dyn_cast<StoreInst>(I)) { if (S->getPointerAddressSpace() == 0) B.CreateCall(FA, {S->getPointerOperand()}); }
                else if (auto *T = dyn_cast<MemTransferInst>(I)) B.CreateCall(FM, {T->getRawDest(), T->getRawSource(), B.CreateZExtOrTrunc(T->getLength(), I64)});
                else if (auto *T = dyn_cast<MemSetInst>(I)) B.CreateCall(FM, {T->getRawDest(), ConstantPointerNull::get(cast<PointerType>(Ptr)), B.CreateZExtOrTrunc(T->getLength(), I64)});
                else if (auto *O = dyn_cast<BinaryOperator>(I)) {
                    unsigned op = O->getOpcode();
                    if (op != Instruction::UDiv && op != Instruction::SDiv && op != Instruction::URem && op != Instruction::SRem) continue;
                    if (auto *K = dyn_cast<ConstantInt>(O->getOperand(1))) if (K->getValue().abs().isPowerOf2()) continue;
                    if (!O->getType()->isIntegerTy() || O->getType()->getIntegerBitWidth() > 64) continue;
                    B.CreateCall(FD, {B.CreateZExt(O->getOperand(0), I64), B.CreateZExt(O->getOperand(1), I64)});
                } else if (auto *K = dyn_cast<CallBase>(I)) {
                    if (K->isIndirectCall() && !K->isInlineAsm()) B.CreateCall(FC, {K->getCalledOperand()});
                }
            }
        }
        return PreservedAnalyses::none();
    }
};
} // namespace
extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo()
{
    return {LLVM_PLUGIN_API_VERSION, "ctpass", "1", [](PassBuilder &PB) {
        PB.registerOptimizerLastEPCallback([](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(CtPass()); });
    }};
}
