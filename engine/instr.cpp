// symex-instr: turns atomic operations, and the accesses listed in a file, into scheduling points
// by inserting calls of rt_yield. With --native: marks every function for AddressSanitizer.
#include <fstream>
#include <map>
#include <set>
#include <string>
#include "llvm/Bitcode/BitcodeWriter.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/ToolOutputFile.h"
#include "llvm/Support/raw_ostream.h"
using namespace llvm;
static bool isYield(Instruction &i) {
  auto *c = dyn_cast<CallBase>(&i);
  return c && c->getCalledFunction() && c->getCalledFunction()->getName() == "rt_yield";
}
static bool skipAtomic(Instruction &i) {
  const DebugLoc &dl = i.getDebugLoc();
  if (!dl) return false;
  for (DILocation *l = dl.get(); l; l = l->getInlinedAt()) {
    StringRef f = l->getFilename();
    if (f.ends_with("shared_ptr_base.h") || f.ends_with("shared_ptr.h") || f.ends_with("atomicity.h") || f.ends_with("atomic_futex.h") || f.ends_with("/future") ||
        f.ends_with("cow_string.h") || f.ends_with("ios_base.h")) return true;
  }
  return false;
}
int main(int argc, char **argv) {
  bool native = false;
  std::vector<std::string> pos;
  for (int k = 1; k < argc; k++) { std::string a = argv[k]; if (a == "--native") native = true; else pos.push_back(a); }
  LLVMContext C;
  SMDiagnostic err;
  auto M = parseIRFile(pos[0], err, C);
  if (!M) { err.print("symex-instr", errs()); return 3; }
  if (native) {
    for (auto &F : *M) if (!F.isDeclaration()) { F.addFnAttr(Attribute::SanitizeAddress);  }
  } else {
    std::map<std::string, std::set<unsigned>> want;
    if (pos.size() > 2) {
      std::ifstream f(pos[2]);
      std::string l;
      while (std::getline(f, l)) { auto t = l.find('\t'); if (t != std::string::npos) want[l.substr(0, t)].insert((unsigned)std::stoul(l.substr(t + 1))); }
    }
    FunctionCallee y = M->getOrInsertFunction("rt_yield", Type::getVoidTy(C), PointerType::getUnqual(C));
    std::vector<Function *> fs;
    for (auto &F : *M) if (!F.isDeclaration()) fs.push_back(&F);
    for (auto *F : fs) {
      F->addFnAttr("maf-base");
      auto wi = want.find(F->getName().str());
      std::vector<std::pair<Instruction *, bool>> at;
      unsigned ord = 0;
      for (auto &b : *F)
        for (auto &i : b) {
          if (isYield(i) || isa<DbgInfoIntrinsic>(&i)) continue;
          bool hit = wi != want.end() && wi->second.count(ord);
          ord++;
          bool atomic = i.isAtomic() && !isa<FenceInst>(&i) && !skipAtomic(i);
          if ((hit || atomic) && !isa<PHINode>(&i) && !i.isEHPad()) at.push_back({&i, atomic});
        }
      for (auto &p : at) {
        IRBuilder<> B(p.first);
        // rt_yield never throws
        auto *c = B.CreateCall(y, {ConstantPointerNull::get(PointerType::getUnqual(C))});
        c->setDoesNotThrow();
      }
    }
  }
  std::error_code ec;
  raw_fd_ostream o(pos[1], ec);
  if (ec) { errs() << ec.message() << "\n"; return 3; }
  WriteBitcodeToFile(*M, o);
  o.close();
  return 0;
}
