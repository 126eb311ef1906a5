#pragma once
#include "expr.h"
#include <deque>
#include <functional>
#include <set>
#include <unordered_set>
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/DataLayout.h"

enum ObjKind : uint8_t { KGlobal, KHeap, KStack, KFunc, KConst, KExc };

// happens-before tracking: who accessed eight bytes last (bytes given by the mask)
struct Cell {
  uint8_t wt = 255, wm = 0, nr = 0;
  uint32_t wc = 0, wsite = 0;
  struct { uint8_t t, m; uint32_t c, site; } r[4];
};
struct VC {
  uint32_t c[16] = {};
  void join(const VC &o) { for (int i = 0; i < 16; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};
struct HB {
  std::vector<VC> th;
  std::map<uint64_t, VC> sync;
};

struct Obj {
  std::vector<Cell> sh;
  uint32_t id = 0, size = 0;
  ObjKind kind = KHeap;
  bool scopeDead = false;
  std::vector<uint8_t> b;
  std::vector<uint8_t> m;    // empty: all concrete; else 0 concrete, 1 symbolic, 2 uninitialised
  std::vector<E> x;          // per-byte expressions where m==1
  const char *site = nullptr;
  void ensureMask() { if (m.empty()) m.assign(size, 0); }
  void ensureX() { ensureMask(); if (x.empty()) x.assign(size, nullptr); }
};
typedef std::shared_ptr<Obj> ObjP;
struct Chunk { ObjP o[64]; };

struct Mem {
  std::vector<std::shared_ptr<Chunk>> ch;
  uint32_t next = 1;
  Obj *get(uint32_t id) const {
    if (id >= next) return nullptr;
    auto &c = ch[id >> 6];
    return c ? c->o[id & 63].get() : nullptr;
  }
  ObjP *slot(uint32_t id) {
    auto &c = ch[id >> 6];
    if (!c) c = std::make_shared<Chunk>();
    else if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
    return &c->o[id & 63];
  }
  Obj *writable(uint32_t id) {
    ObjP *s = slot(id);
    if (s->use_count() > 1) *s = std::make_shared<Obj>(**s);
    return s->get();
  }
  uint32_t alloc(uint32_t size, ObjKind k, bool uninit) {
    uint32_t id = next++;
    if ((id >> 6) >= ch.size()) ch.resize((id >> 6) + 1);
    auto o = std::make_shared<Obj>();
    o->id = id; o->size = size; o->kind = k;
    o->b.assign(size, 0);
    if (uninit) o->m.assign(size, 2);
    *slot(id) = o;
    return id;
  }
  void free(uint32_t id) {
    slot(id)->reset();
    auto &c = ch[id >> 6];
    if ((id >> 6) != (next >> 6)) {
      bool any = false;
      for (auto &p : c->o) if (p) { any = true; break; }
      if (!any) c.reset();
    }
  }
};

struct Inst {
  llvm::Instruction *I;
  unsigned opc;
  int dest;               // register or -1
  std::vector<int> ops;   // >=0 register, <0 constant -1-i
  unsigned w = 0;         // result width, 0 if aggregate/void
  int bb = 0;
  int ord = 0;            // position in the function, scheduling calls not counted
  signed char cls = -1;   // 1 repository code, 2 harness, 0 library code on behalf of the caller
  uint32_t site = 0;
  int t0 = -1, t1 = -1;   // branch targets (block ids)
  struct CallInfo *ci = nullptr;
  // GEP
  uint64_t constOff = 0;
  std::vector<std::pair<int, uint64_t>> scaled;
};
struct FInfo {
  llvm::Function *F;
  std::string name;
  std::vector<Inst> code;
  std::vector<int> bbStart;
  std::vector<llvm::BasicBlock *> bbs;
  // phis per block: (dest, pred bb -> operand)
  struct Phi { int dest; std::vector<std::pair<int, int>> in; };
  std::vector<std::vector<Phi>> phis;
  std::vector<E> consts;
  int nregs = 0;
  bool inRepo = false;
  bool executed = false;
  bool base = false;      // part of the harness/repository module (not of the runtime model)
  std::string file;
};

struct Frame {
  FInfo *f;
  int pc = 0, prev = -1;
  int curbb = 0;
  std::vector<E> regs;
  std::vector<uint32_t> allocas;
  std::vector<uint32_t> byvals;
  uint8_t inserted = 0;       // engine-inserted call: returning does not advance the caller
  uint32_t freeOnRet = 0;     // exception object to free when this (destructor) frame returns
  uint64_t ehAfter = 0;       // reserved
};

struct Thread {
  std::vector<Frame> fr;
  std::vector<uint32_t> caught;           // exception objects being handled, innermost last
  std::map<const llvm::GlobalVariable *, uint32_t> tls;
  bool done = false;
  uint32_t unwinding = 0;                 // exception object in flight (between landingpad and resume/begin_catch)
};

struct ExcInfo { uint64_t ti = 0, dtor = 0; int refs = 0; int handlers = 0; uint64_t adj = 0; bool rethrown = false; };

struct SymLog { std::string name; uint32_t idx; unsigned w; };

struct State {
  uint64_t id = 0;
  Mem mem;
  std::vector<Thread> th;
  int cur = 0;
  std::vector<E> pc;
  ModelP model;
  std::vector<SymLog> syms;
  uint32_t nsyms = 0;
  std::map<uint32_t, ExcInfo> exc;
  uint64_t steps = 0;
  std::shared_ptr<HB> hb;
  HB &hbw() { if (hb.use_count() > 1) hb = std::make_shared<HB>(*hb); return *hb; }
  uint64_t allocLimit = 1u << 24;
  uint64_t stepLimit = 0;
  bool stepLimitIsHang = false;
  std::vector<std::string> trace;
  std::map<const void *, unsigned> concCount;
  uint32_t forks = 0;
  Frame &top() { return th[cur].fr.back(); }
};
