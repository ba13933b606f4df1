// LLVM pass: makes a module run as on a big-endian machine. Every load and store of a 16-, 32-, 64- or 128-bit integer
// (or vector of such) swaps its bytes, and so do the initial values of global variables. Pointers keep the native form.
// Runs first in the pipeline, before anything could fold loads and stores.
#include "llvm/IR/Constants.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
using namespace llvm;
namespace {
bool swapped(Type *T)
{
    if (auto *V = dyn_cast<FixedVectorType>(T)) T = V->getElementType();
    if (!T->isIntegerTy()) return false;
    unsigned w = T->getIntegerBitWidth();
    return w == 16 || w == 32 || w == 64 || w == 128;
}
Constant *swapConst(Constant *K)
{
    Type *T = K->getType();
    if (isa<ConstantAggregateZero>(K) || isa<UndefValue>(K) || K->isNullValue()) return K;
    if (auto *I = dyn_cast<ConstantInt>(K)) return swapped(T) ? ConstantInt::get(T, I->getValue().byteSwap()) : K;
    if (auto *D = dyn_cast<ConstantDataSequential>(K)) {
        if (!swapped(D->getElementType())) return K;
        SmallVector<Constant *, 64> E;
        for (unsigned i = 0; i < D->getNumElements(); i++) E.push_back(swapConst(D->getElementAsConstant(i)));
        return isa<ConstantDataArray>(K) ? ConstantArray::get(cast<ArrayType>(T), E) : ConstantVector::get(E);
    }
    if (isa<ConstantArray>(K) || isa<ConstantStruct>(K) || isa<ConstantVector>(K)) {
        SmallVector<Constant *, 64> E;
        for (unsigned i = 0; i < K->getNumOperands(); i++) E.push_back(swapConst(cast<Constant>(K->getOperand(i))));
        if (auto *A = dyn_cast<ArrayType>(T)) return ConstantArray::get(A, E);
        if (auto *S = dyn_cast<StructType>(T)) return ConstantStruct::get(S, E);
        return ConstantVector::get(E);
    }
    return K;
}
struct BePass : PassInfoMixin<BePass> {
    static bool isRequired() { return true; }
    PreservedAnalyses run(Module &M, ModuleAnalysisManager &)
    {
        for (GlobalVariable &G : M.globals())
            if (G.hasInitializer() && !G.getName().starts_with("llvm.")) G.setInitializer(swapConst(G.getInitializer()));
        for (Function &F : M) {
            std::vector<Instruction *> todo;
            for (BasicBlock &BB : F)
                for (Instruction &I : BB) todo.push_back(&I);
            for (Instruction *I : todo) {
                if (auto *L = dyn_cast<LoadInst>(I)) {
                    if (!swapped(L->getType()) || native(L->getPointerOperand())) continue;
                    IRBuilder<> B(L->getNextNode());
                    Value *Z = B.CreateUnaryIntrinsic(Intrinsic::bswap, L);
                    L->replaceUsesWithIf(Z, [&](Use &U) { return U.getUser() != Z; });
                    L->setMetadata(LLVMContext::MD_range, nullptr);
                } else if (auto *S = dyn_cast<StoreInst>(I)) {
                    if (!swapped(S->getValueOperand()->getType()) || native(S->getPointerOperand())) continue;
                    IRBuilder<> B(S);
                    S->setOperand(0, B.CreateUnaryIntrinsic(Intrinsic::bswap, S->getValueOperand()));
                } else if (auto *K = dyn_cast<CallBase>(I)) {
                    // the only native integers handed over in memory by code that is not instrumented: the output lengths of the provider
                    Function *T = K->getCalledFunction();
                    if (!T || K->isTerminator() || K->arg_size() < 3) continue;
                    StringRef N = T->getName();
                    if (!N.starts_with("EVP_") || !(N.contains("Update") || N.contains("Final"))) continue;
                    if (isa<ConstantPointerNull>(K->getArgOperand(2)) || !K->getArgOperand(2)->getType()->isPointerTy()) continue;
                    IRBuilder<> B(K->getNextNode());
                    Value *P = K->getArgOperand(2);
                    B.CreateStore(B.CreateUnaryIntrinsic(Intrinsic::bswap, B.CreateLoad(B.getInt32Ty(), P)), P);
                }
            }
        }
        return PreservedAnalyses::none();
    }
    static bool native(Value *P)
    {
        auto *K = dyn_cast<CallBase>(P->stripPointerCasts());
        return K && K->getCalledFunction() && K->getCalledFunction()->getName() == "__errno_location";
    }
};
} // namespace
extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo()
{
    return {LLVM_PLUGIN_API_VERSION, "bepass", "1", [](PassBuilder &PB) {
        PB.registerPipelineStartEPCallback([](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(BePass()); });
    }};
}
