// points IN.bc OUT.bc: calls kh_point() before every compare-and-exchange that
// may take a lock, where khsym lets another thread continue.
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;
int main(int argc, char **argv) {
  LLVMContext c; SMDiagnostic d; auto m = parseIRFile(argv[1], d, c); if (!m) { d.print("points", errs()); return 1; }
  auto f = m->getOrInsertFunction("kh_point", FunctionType::get(Type::getVoidTy(c), false)); unsigned n = 0;
  for (Function &fn : *m) { std::vector<AtomicCmpXchgInst*> v; for (auto &i : instructions(fn)) if (auto *x = dyn_cast<AtomicCmpXchgInst>(&i)) v.push_back(x);
    for (auto *x : v) { auto *k = dyn_cast<ConstantInt>(x->getNewValOperand()); if (k && k->isZero()) continue; IRBuilder<>(x).CreateCall(f); n++; } }
  std::error_code ec; raw_fd_ostream o(argv[2], ec); if (ec) return 1; WriteBitcodeToFile(*m, o); errs() << n << " points\n"; return 0;
}
