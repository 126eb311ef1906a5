// symex: a symbolic executor for LLVM IR (clang 18), deciding assertions with Z3.
#include "exec.h"
#include <algorithm>
#include <chrono>
#include <cmath>
#include <unistd.h>
#include <atomic>
#include <sys/mman.h>
#include <sys/wait.h>
#include <fstream>
#include <sstream>
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/ReplaceConstant.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
using namespace llvm;

// ------------------------------------------------------------------ options
static std::string optEntry, optOut, optCexDir = ".", optRepo = "/repo";
static double optTime = 600;
static unsigned optJobs = 1;
static uint64_t optSteps = 50000000, optHang = 8000000, optMaxPaths = ~0ull, optPart = 0, optNParts = 1, optMaxViol = 1, optConcCap = 300;
static std::map<std::string, int64_t> optCfg;
static bool optVerbose = false, optTrace = false;

// ------------------------------------------------------------------ globals
static Module *M;
static const DataLayout *DL;
static std::unordered_map<const Function *, FInfo *> finfos;
static std::unordered_map<const GlobalValue *, uint32_t> gobj;
static std::vector<const Function *> funcById;   // indexed by object id
static std::unordered_map<uint32_t, std::string> extName;
static std::deque<State *> work;
static uint64_t nPaths, nForks, nInstr, nAsserts, nAssertSym, nIncomplete, nStates, nChoices, nTruncConc, nUninitBr;
static uint64_t nErrPaths, nAssumeKilled, maxPathSteps;
static std::map<std::string, uint64_t> covers, unsupported, incompleteWhy;
static std::chrono::steady_clock::time_point tStart;
static std::vector<std::string> samplePaths;

struct Violation { std::string kind, msg, where, cex; std::vector<std::string> stack; };
static std::vector<Violation> violations;
static std::set<std::string> violKeys;

static inline uint64_t addrOf(uint32_t id) { return (uint64_t)id << 32; }
static E ptrE(uint64_t a) { return mkConst(a, 64); }

static std::string dem(const std::string &s) { return demangle(s); }

static std::vector<std::string> stackOf(State &s) {
  std::vector<std::string> r;
  auto &fr = s.th[s.cur].fr;
  for (int i = (int)fr.size() - 1; i >= 0 && r.size() < 24; i--) {
    auto &f = fr[i];
    std::string n = dem(f.f->name);
    if (n.size() > 160) n = n.substr(0, 157) + "...";
    if (f.pc >= 0 && f.pc < (int)f.f->code.size()) {
      const DebugLoc &dl = f.f->code[f.pc].I->getDebugLoc();
      if (dl) {
        DILocation *l = dl.get();
        std::string loc = l->getFilename().str() + ":" + std::to_string(l->getLine());
        for (DILocation *p = l->getInlinedAt(); p; p = p->getInlinedAt())
          loc += " <- " + p->getFilename().str() + ":" + std::to_string(p->getLine());
        n += " @ " + loc;
      }
    }
    r.push_back(n);
  }
  return r;
}

static std::string jsonEsc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

static void writeInputs(State &s, std::ostream &os) {
  for (auto &l : s.syms) {
    u128 v = s.model->eval(mkSym(l.idx, l.w));
    os << l.name << " " << l.w << " " << (uint64_t)v << "\n";
  }
}

// returns true always; caller must treat path as dead
static void report(State &s, const std::string &kind, const std::string &msg) {
  nErrPaths++;
  auto st = stackOf(s);
  std::string where;
  // first frame in the repository (or innermost)
  for (auto &x : st) if (x.find(" @ ") != std::string::npos && x.find(optRepo + "/") != std::string::npos) { where = x; break; }
  if (where.empty() && !st.empty()) where = st[0];
  std::string key = kind + "|" + msg + "|" + where;
  if (!violKeys.insert(key).second) return;
  Violation v;
  v.kind = kind; v.msg = msg; v.where = where; v.stack = st;
  std::string base = optCexDir + "/" + optEntry + (optPart ? "-p" + std::to_string(optPart) : std::string()) + "-" + std::to_string(violations.size());
  v.cex = base + ".cex";
  {
    std::ofstream f(v.cex);
    f << "#entry " << optEntry << "\n#kind " << kind << "\n#msg " << msg << "\n#where " << where << "\n";
    for (auto &c : optCfg) f << "#cfg " << c.first << " " << c.second << "\n";
    if (kind == "hang") f << "#cfg __hang 1\n";
    writeInputs(s, f);
    f << "#end\n";
    for (auto &x : st) f << "#stack " << x << "\n";
    for (auto &t : s.trace) f << "#trace " << t << "\n";
  }
  violations.push_back(v);
  fprintf(stderr, "symex: %s: %s\n    at %s\n", kind.c_str(), msg.c_str(), where.c_str());
  if (optVerbose) for (auto &x : st) fprintf(stderr, "      %s\n", x.c_str());
}
static void incomplete(const std::string &why) { nIncomplete++; incompleteWhy[why]++; }

// ------------------------------------------------------------------ types
static unsigned bitsOf(Type *t) {
  if (t->isPointerTy()) return 64;
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  if (t->isX86_FP80Ty()) return 80;
  return 0;
}
static uint64_t storeSize(Type *t) { return DL->getTypeStoreSize(t).getFixedValue(); }
static uint64_t allocSize(Type *t) { return DL->getTypeAllocSize(t).getFixedValue(); }

static E zeroOf(Type *t) {
  if (unsigned w = bitsOf(t)) return mkConst(0, w);
  std::vector<E> v;
  if (auto *st = dyn_cast<StructType>(t)) for (auto *e : st->elements()) v.push_back(zeroOf(e));
  else if (auto *at = dyn_cast<ArrayType>(t)) for (uint64_t i = 0; i < at->getNumElements(); i++) v.push_back(zeroOf(at->getElementType()));
  else if (auto *vt = dyn_cast<FixedVectorType>(t)) for (uint64_t i = 0; i < vt->getNumElements(); i++) v.push_back(zeroOf(vt->getElementType()));
  return mkTuple(v);
}

static u128 apToU(const APInt &a) {
  u128 v = a.getRawData()[0];
  if (a.getNumWords() > 1) v |= (u128)a.getRawData()[1] << 64;
  return v;
}

static uint32_t globalId(const GlobalValue *g) {
  if (auto *ga = dyn_cast<GlobalAlias>(g)) return globalId(cast<GlobalValue>(ga->getAliasee()->stripPointerCasts()));
  auto it = gobj.find(g);
  if (it == gobj.end()) { fprintf(stderr, "symex: no object for global %s\n", g->getName().str().c_str()); exit(3); }
  return it->second;
}

static E constE(const Constant *c);
static E constExprE(const ConstantExpr *ce) {
  switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
      APInt off(64, 0);
      if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "symex: odd const gep\n"); exit(3); }
      return mkBin(OAdd, constE(ce->getOperand(0)), mkConst(apToU(off), 64));
    }
    case Instruction::BitCast: case Instruction::AddrSpaceCast: return constE(ce->getOperand(0));
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc:
      return mkZExt(constE(ce->getOperand(0)), bitsOf(ce->getType()));
    case Instruction::Add: return mkBin(OAdd, constE(ce->getOperand(0)), constE(ce->getOperand(1)));
    case Instruction::Sub: return mkBin(OSub, constE(ce->getOperand(0)), constE(ce->getOperand(1)));
    case Instruction::Xor: return mkBin(OXor, constE(ce->getOperand(0)), constE(ce->getOperand(1)));
    case Instruction::ICmp: {
      E a = constE(ce->getOperand(0)), b = constE(ce->getOperand(1));
      if (ce->getPredicate() == CmpInst::ICMP_EQ) return mkEq(a, b);
      if (ce->getPredicate() == CmpInst::ICMP_NE) return mkNot(mkEq(a, b));
    }
    default: fprintf(stderr, "symex: constant expr opcode %s\n", ce->getOpcodeName()); exit(3);
  }
}
static E constE(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) return mkConst(apToU(ci->getValue()), ci->getBitWidth());
  if (auto *cf = dyn_cast<ConstantFP>(c)) { APInt a = cf->getValueAPF().bitcastToAPInt(); return mkConst(apToU(a), a.getBitWidth()); }
  if (isa<ConstantPointerNull>(c)) return ptrE(0);
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroOf(c->getType());
  if (auto *gv = dyn_cast<GlobalValue>(c)) return ptrE(addrOf(globalId(gv)));
  if (auto *ce = dyn_cast<ConstantExpr>(c)) return constExprE(ce);
  if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
    std::vector<E> v;
    for (auto &o : ca->operands()) v.push_back(constE(cast<Constant>(o)));
    return mkTuple(v);
  }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    std::vector<E> v;
    for (unsigned i = 0; i < cd->getNumElements(); i++) v.push_back(constE(cd->getElementAsConstant(i)));
    return mkTuple(v);
  }
  if (auto *dso = dyn_cast<DSOLocalEquivalent>(c)) return constE(dso->getGlobalValue());
  if (auto *nc = dyn_cast<NoCFIValue>(c)) return constE(nc->getGlobalValue());
  fprintf(stderr, "symex: unhandled constant\n");
  exit(3);
}

// ------------------------------------------------------------------ raw memory access
static void rawWrite(Obj *o, uint32_t off, E v) {
  unsigned n = (v->w + 7) / 8;
  if (v->isConst()) {
    u128 x = v->val;
    for (unsigned i = 0; i < n; i++) o->b[off + i] = (uint8_t)(x >> (8 * i));
    if (!o->m.empty()) for (unsigned i = 0; i < n; i++) o->m[off + i] = 0;
    return;
  }
  if (v->w % 8) v = mkZExt(v, n * 8);
  o->ensureX();
  for (unsigned i = 0; i < n; i++) {
    E by = mkExtract(v, 8 * i, 8);
    if (by->isConst()) { o->b[off + i] = (uint8_t)by->val; o->m[off + i] = 0; }
    else { o->x[off + i] = by; o->m[off + i] = 1; }
  }
}
static E newSym(State &s, unsigned w) { return mkSym(s.nsyms++, w); }

// o must belong to the state; fills uninitialised bytes with fresh symbols (in place)
static E byteAt(State &s, Obj *&o, uint32_t off) {
  if (o->m.empty() || o->m[off] == 0) return mkConst(o->b[off], 8);
  if (o->m[off] == 1) return o->x[off];
  o = s.mem.writable(o->id);
  o->ensureX();
  o->x[off] = newSym(s, 8);
  o->m[off] = 1;
  return o->x[off];
}
static E rawRead(State &s, Obj *&o, uint32_t off, unsigned w) {
  unsigned n = (w + 7) / 8;
  bool conc = true;
  if (!o->m.empty()) for (unsigned i = 0; i < n; i++) if (o->m[off + i]) { conc = false; break; }
  if (conc) {
    u128 x = 0;
    for (unsigned i = 0; i < n; i++) x |= (u128)o->b[off + i] << (8 * i);
    return mkConst(x, w);
  }
  E r = byteAt(s, o, off);
  for (unsigned i = 1; i < n; i++) r = mkConcat(byteAt(s, o, off + i), r);
  return w == n * 8 ? r : mkExtract(r, 0, w);
}

static State *clone(State &s) {
  State *n = new State(s);
  n->id = nStates++;
  n->forks++;
  nForks++;
  return n;
}
static void addPC(State &s, E c) { if (!c->isConst()) s.pc.push_back(c); }

static int sat(State &s, E c, ModelP &m) {
  int r = solveSat(s.pc, c, s.model, m);
  if (r < 0) incomplete("solver returned unknown");
  return r;
}

// may c be true / must c be true under the path condition
static bool may(State &s, E c, ModelP &m) { return sat(s, c, m) == 1; }

// Make e concrete on this path, forking off the other values. The current instruction must not
// have had any effect yet (the sibling re-executes it).
static bool concretize(State &s, E e, uint64_t &out, const char *why) {
  if (e->isConst()) { out = (uint64_t)e->val; return true; }
  u128 v = s.model->eval(e);
  E eq = mkEq(e, mkConst(v, e->w));
  E ne = mkNot(eq);
  ModelP m;
  if (may(s, ne, m)) {
    unsigned &cnt = s.concCount[(const void *)s.top().f->code[s.top().pc].I];
    if (++cnt > optConcCap) { nTruncConc++; incomplete(std::string("concretisation cap: ") + why); }
    else {
      State *o = clone(s);
      addPC(*o, ne);
      o->model = m;
      work.push_back(o);
    }
    addPC(s, eq);
  }
  s.concCount.erase((const void *)s.top().f->code[s.top().pc].I);
  out = (uint64_t)v;
  return true;
}

static std::string ptrDesc(State &s, uint64_t a) {
  uint32_t id = a >> 32;
  char b[96];
  Obj *o = s.mem.get(id);
  if (o) snprintf(b, 96, "object #%u size %u offset %d", id, o->size, (int)(uint32_t)a);
  else snprintf(b, 96, "address 0x%llx", (unsigned long long)a);
  return b;
}

// Resolve an access; returns false when the path is dead.
// ------------------------------------------------------------------ data races
// Unordered conflicting accesses are not reported as such: the driver turns them into scheduling
// points and explores again, so that only their observable consequences count.
struct Site { FInfo *f; int ord; std::string loc; };
static std::vector<Site> sites(1);
static std::map<std::pair<uint32_t, uint32_t>, uint64_t> races;
static int classOf(FInfo *f, Inst &in) {
  if (in.cls >= 0) return in.cls;
  in.cls = 0;
  if (!f->base) return 0;
  if (const DebugLoc &dl = in.I->getDebugLoc())
    for (DILocation *l = dl.get(); l; l = l->getInlinedAt()) {
      std::string fn = l->getFilename().str();
      if (fn.rfind("/", 0) != 0) fn = (l->getDirectory() + "/" + fn).str();
      if (fn.rfind(optRepo + "/", 0) == 0) { in.cls = 1; break; }
      if (fn.rfind("/usr/", 0) != 0) { in.cls = 2; break; }
    }
  if (!in.cls && !f->file.empty() && f->file.rfind("/usr/", 0) != 0) in.cls = f->inRepo ? 1 : 2;
  return in.cls;
}
static uint32_t siteOf(State &s) {  // 0: not tracked
  auto &fr = s.th[s.cur].fr;
  Frame *inner = nullptr;   // where a preemption can be put: inside the standard library's templates as well
  for (int k = (int)fr.size() - 1; k >= 0; k--) {
    Frame &f = fr[k];
    if (f.pc < 0 || f.pc >= (int)f.f->code.size()) return 0;
    Inst &at = f.f->code[f.pc];
    int c = classOf(f.f, at);
    if (c == 2) return 0;
    if (!inner && f.f->base) inner = &f;
    if (c == 0) { if (!f.f->base && f.f->file.find("/rt_model") != std::string::npos) return 0; continue; }
    Inst &in = inner->f->code[inner->pc];
    if (!in.site) {
      std::string loc;
      if (const DebugLoc &dl = at.I->getDebugLoc())
        for (DILocation *l = dl.get(); l; l = l->getInlinedAt())
          if (l->getFilename().starts_with(optRepo)) { loc = l->getFilename().str().substr(optRepo.size() + 1) + ":" + std::to_string(l->getLine()); break; }
      in.site = (uint32_t)sites.size();
      sites.push_back({inner->f, in.ord, loc});
    }
    return in.site;
  }
  return 0;
}
static void noteRace(uint32_t a, uint32_t b) { if (a > b) std::swap(a, b); races[{a, b}]++; }
static void trackAccess(State &s, uint32_t id, uint32_t off, uint64_t n, bool write) {
  Obj *o = s.mem.get(id);
  if (!o || o->kind == KFunc || o->kind == KConst || o->size > 65536 || !s.hb) return;
  uint32_t site = siteOf(s);
  if (!site) return;
  HB &h = *s.hb;
  int t = s.cur;
  if ((int)h.th.size() <= t) return;
  VC &me = h.th[t];
  o = s.mem.writable(id);
  if (o->sh.empty()) o->sh.resize(o->size / 8 + 1);
  for (uint64_t p = off; p < off + n && p < o->size;) {
    uint64_t e = std::min<uint64_t>(off + n, (p / 8 + 1) * 8);
    uint8_t m = (uint8_t)(((1u << (e - p)) - 1) << (p % 8));
    Cell &c = o->sh[p / 8];
    if (c.wt != 255 && c.wt != t && (c.wm & m) && c.wc > me.c[c.wt]) noteRace(c.wsite, site);
    if (write) {
      for (int k = 0; k < c.nr; k++)
        if (c.r[k].t != t && (c.r[k].m & m) && c.r[k].c > me.c[c.r[k].t]) noteRace(c.r[k].site, site);
      if (c.wt == t && c.wc == me.c[t]) c.wm |= m; else c.wm = m;
      c.wt = (uint8_t)t; c.wc = me.c[t]; c.wsite = site;
    } else {
      int k = 0;
      while (k < c.nr && c.r[k].t != t) k++;
      if (k == c.nr) { if (c.nr < 4) c.nr++; else k = 3; c.r[k].m = 0; c.r[k].c = 0; }
      if (c.r[k].c != me.c[t]) c.r[k].m = 0;
      c.r[k].t = (uint8_t)t; c.r[k].c = me.c[t]; c.r[k].m |= m; c.r[k].site = site;
    }
    p = e;
  }
}
static void hbSync(State &s, uint64_t addr, bool acq, bool rel) {
  if (!s.hb) return;
  HB &h = s.hbw();
  if ((int)h.th.size() <= s.cur) return;
  VC &me = h.th[s.cur];
  if (acq) { auto it = h.sync.find(addr); if (it != h.sync.end()) me.join(it->second); }
  if (rel) { h.sync[addr].join(me); me.c[s.cur]++; }
}
static void hbAtomic(State &s, E p, AtomicOrdering o, bool rd, bool wr) {
  if (!s.hb || !p->isConst()) return;
  hbSync(s, (uint64_t)p->val, rd && isAcquireOrStronger(o), wr && isReleaseOrStronger(o));
}

static bool resolve(State &s, E addr, uint64_t n, bool write, Obj *&o, E &off) {
  if (addr->isConst()) {
    uint64_t a = (uint64_t)addr->val;
    uint32_t id = a >> 32, of = (uint32_t)a;
    o = s.mem.get(id);
    if (!o) {
      if (a < 65536) report(s, "null-dereference", std::string(write ? "write" : "read") + " through a null pointer");
      else if (id && id < s.mem.next) report(s, "use-after-free", std::string(write ? "write to" : "read of") + " freed or out-of-scope memory");
      else report(s, "wild-pointer", std::string(write ? "write to" : "read of") + " an invalid address");
      return false;
    }
    if (o->scopeDead) { report(s, "use-after-scope", std::string(write ? "write to" : "read of") + " a local variable after its scope ended"); return false; }
    if ((uint64_t)of + n > o->size) {
      report(s, "out-of-bounds", std::string(write ? "write" : "read") + " beyond the bounds of an object");
      if (optVerbose) fprintf(stderr, "  %s n=%llu\n", ptrDesc(s, a).c_str(), (unsigned long long)n);
      return false;
    }
    if (o->kind == KFunc) { report(s, "wild-pointer", "data access to a function"); return false; }
    if (write && o->kind == KConst) { report(s, "write-to-constant", "write to read-only memory"); return false; }
    off = nullptr;
    // offset returned through the address itself
    return true;
  }
  uint64_t a = (uint64_t)s.model->eval(addr);
  uint32_t id = a >> 32;
  o = s.mem.get(id);
  if (!o || o->scopeDead || (uint64_t)(uint32_t)a + n > o->size) {
    report(s, "out-of-bounds", std::string(write ? "write" : "read") + " at an input-dependent address outside every live object");
    if (optVerbose) fprintf(stderr, "  %s n=%llu\n", ptrDesc(s, a).c_str(), (unsigned long long)n);
    // the remaining values of the address still have to be explored
    E bad = mkEq(addr, ptrE(a));
    ModelP m;
    if (may(s, mkNot(bad), m)) { State *c = clone(s); addPC(*c, mkNot(bad)); c->model = m; unsigned &cnt = c->concCount[c->top().f->code[c->top().pc].I]; if (++cnt < 4) work.push_back(c); else delete c; }
    return false;
  }
  E inb = mkBin(OUle, mkBin(OSub, addr, ptrE(addrOf(id))), mkConst(o->size - n, 64));
  ModelP m;
  if (may(s, mkNot(inb), m)) {
    State *c = clone(s);
    addPC(*c, mkNot(inb));
    c->model = m;
    work.push_back(c);
    addPC(s, inb);
    o = s.mem.get(id);
  }
  if (write && o->kind == KConst) { report(s, "write-to-constant", "write to read-only memory"); return false; }
  off = mkBin(OSub, addr, ptrE(addrOf(id)));
  if (o->size - n + 1 > 512) {
    uint64_t c;
    concretize(s, off, c, "symbolic offset into a large object");
    off = mkConst(c, 64);
  }
  return true;
}

static bool loadE(State &s, E addr, unsigned w, E &out) {
  Obj *o; E off;
  unsigned n = (w + 7) / 8;
  if (!resolve(s, addr, n, false, o, off)) return false;
  if (!off) { out = rawRead(s, o, (uint32_t)addr->val, w); return true; }
  if (off->isConst()) { out = rawRead(s, o, (uint32_t)off->val, w); return true; }
  E r = rawRead(s, o, 0, w);
  ModelP m;
  for (uint32_t k = 1; k + n <= o->size; k++) {
    E is = mkEq(off, mkConst(k, 64));
    if (is->isConst() && !is->val) continue;
    r = mkIte(is, rawRead(s, o, k, w), r);
  }
  out = r;
  return true;
}
static bool storeE(State &s, E addr, E v) {
  Obj *o; E off;
  unsigned n = (v->w + 7) / 8;
  if (!resolve(s, addr, n, true, o, off)) return false;
  o = s.mem.writable(o->id);
  if (!off) { rawWrite(o, (uint32_t)addr->val, v); return true; }
  if (off->isConst()) { rawWrite(o, (uint32_t)off->val, v); return true; }
  E vv = mkZExt(v, n * 8);
  std::vector<E> nb(o->size);
  for (uint32_t i = 0; i < o->size; i++) nb[i] = byteAt(s, o, i);
  for (uint32_t i = 0; i < o->size; i++)
    for (unsigned j = 0; j < n; j++)
      if (i >= j && i - j + n <= o->size)
        nb[i] = mkIte(mkEq(off, mkConst(i - j, 64)), mkExtract(vv, 8 * j, 8), nb[i]);
  o = s.mem.writable(o->id);
  for (uint32_t i = 0; i < o->size; i++) rawWrite(o, i, nb[i]);
  return true;
}

static bool loadT(State &s, E addr, Type *t, E &out) {
  if (unsigned w = bitsOf(t)) return loadE(s, addr, w, out);
  std::vector<E> v;
  auto sub = [&](uint64_t off, Type *et) {
    E x;
    if (!loadT(s, mkBin(OAdd, addr, mkConst(off, 64)), et, x)) return false;
    v.push_back(x);
    return true;
  };
  if (auto *st = dyn_cast<StructType>(t)) {
    auto *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) if (!sub(sl->getElementOffset(i), st->getElementType(i))) return false;
  } else if (auto *at = dyn_cast<ArrayType>(t)) {
    for (uint64_t i = 0; i < at->getNumElements(); i++) if (!sub(i * allocSize(at->getElementType()), at->getElementType())) return false;
  } else if (auto *vt = dyn_cast<FixedVectorType>(t)) {
    for (uint64_t i = 0; i < vt->getNumElements(); i++) if (!sub(i * allocSize(vt->getElementType()), vt->getElementType())) return false;
  } else { unsupported["load of odd type"]++; return false; }
  out = mkTuple(v);
  return true;
}
static bool storeT(State &s, E addr, Type *t, E val) {
  if (bitsOf(t)) return storeE(s, addr, val);
  auto sub = [&](uint64_t off, Type *et, E x) { return storeT(s, mkBin(OAdd, addr, mkConst(off, 64)), et, x); };
  if (auto *st = dyn_cast<StructType>(t)) {
    auto *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) if (!sub(sl->getElementOffset(i), st->getElementType(i), (*val->elems)[i])) return false;
  } else if (auto *at = dyn_cast<ArrayType>(t)) {
    for (uint64_t i = 0; i < at->getNumElements(); i++) if (!sub(i * allocSize(at->getElementType()), at->getElementType(), (*val->elems)[i])) return false;
  } else if (auto *vt = dyn_cast<FixedVectorType>(t)) {
    for (uint64_t i = 0; i < vt->getNumElements(); i++) if (!sub(i * allocSize(vt->getElementType()), vt->getElementType(), (*val->elems)[i])) return false;
  } else { unsupported["store of odd type"]++; return false; }
  return true;
}

// ------------------------------------------------------------------ function preparation
typedef int (*Handler)(State &, Inst &, std::vector<E> &, E &);  // see R below
enum R { RNext, RJumped, RDead, RPushed };
struct CallInfo {
  Function *callee = nullptr;   // direct
  FInfo *fi = nullptr;
  Handler h = nullptr;
  bool intrinsic = false;
  unsigned iid = 0;
  bool resolved = false;
  int calleeOp = -1;            // operand index when indirect (index into Inst.ops)
  std::vector<Type *> byval;
};
static std::unordered_map<std::string, Handler> handlers;

static FInfo *getF(const Function *cf);

static int operandOf(FInfo *fi, std::unordered_map<const Value *, int> &reg, std::unordered_map<const Value *, int> &cm, const Value *v) {
  auto it = reg.find(v);
  if (it != reg.end()) return it->second;
  auto jt = cm.find(v);
  if (jt != cm.end()) return jt->second;
  E e = nullptr;
  if (auto *c = dyn_cast<Constant>(v)) e = constE(c);
  else e = mkConst(0, 64);  // metadata, inline asm, basic blocks: never read
  fi->consts.push_back(e);
  int idx = -(int)fi->consts.size();
  cm[v] = idx;
  return idx;
}

static FInfo *getF(const Function *cf) {
  auto it = finfos.find(cf);
  if (it != finfos.end()) return it->second;
  Function *F = const_cast<Function *>(cf);
  FInfo *fi = new FInfo();
  finfos[cf] = fi;
  fi->F = F;
  fi->name = F->getName().str();
  if (auto *sp = F->getSubprogram()) {
    fi->file = sp->getFilename().str();
    if (fi->file.rfind("/", 0) != 0 && sp->getFile()) fi->file = (sp->getDirectory() + "/" + sp->getFilename()).str();
    fi->inRepo = fi->file.rfind(optRepo + "/", 0) == 0;
  }
  std::unordered_map<const Value *, int> reg, cm;
  std::unordered_map<const BasicBlock *, int> bbi;
  for (auto &a : F->args()) reg[&a] = fi->nregs++;
  for (auto &b : *F) {
    bbi[&b] = (int)fi->bbs.size();
    fi->bbs.push_back(&b);
    for (auto &i : b) if (!i.getType()->isVoidTy()) reg[&i] = fi->nregs++;
  }
  fi->phis.resize(fi->bbs.size());
  fi->base = F->hasFnAttribute("maf-base");
  int ord = 0;
  for (size_t bi = 0; bi < fi->bbs.size(); bi++) {
    BasicBlock *b = fi->bbs[bi];
    fi->bbStart.push_back((int)fi->code.size());
    for (auto &i : *b) {
      if (!isa<DbgInfoIntrinsic>(&i)) {
        auto *yc = dyn_cast<CallBase>(&i);
        if (!(yc && yc->getCalledFunction() && yc->getCalledFunction()->getName() == "rt_yield")) ord++;
      }
      if (auto *p = dyn_cast<PHINode>(&i)) {
        FInfo::Phi ph;
        ph.dest = reg[p];
        for (unsigned k = 0; k < p->getNumIncomingValues(); k++)
          ph.in.push_back({bbi[p->getIncomingBlock(k)], operandOf(fi, reg, cm, p->getIncomingValue(k))});
        fi->phis[bi].push_back(ph);
        continue;
      }
      if (isa<DbgInfoIntrinsic>(&i)) continue;
      if (auto *ii = dyn_cast<IntrinsicInst>(&i)) {
        auto id = ii->getIntrinsicID();
        if (id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::donothing ||
            id == Intrinsic::prefetch || id == Intrinsic::sideeffect || id == Intrinsic::invariant_end) continue;
      }
      Inst in;
      in.I = &i; in.opc = i.getOpcode(); in.bb = (int)bi; in.ord = ord - 1;
      in.dest = i.getType()->isVoidTy() ? -1 : reg[&i];
      in.w = i.getType()->isVoidTy() ? 0 : bitsOf(i.getType());
      if (auto *br = dyn_cast<BranchInst>(&i)) {
        if (br->isConditional()) { in.ops.push_back(operandOf(fi, reg, cm, br->getCondition())); in.t1 = bbi[br->getSuccessor(1)]; }
        in.t0 = bbi[br->getSuccessor(0)];
      } else if (auto *cb = dyn_cast<CallBase>(&i)) {
        in.ci = new CallInfo();
        for (unsigned k = 0; k < cb->arg_size(); k++) {
          in.ops.push_back(operandOf(fi, reg, cm, cb->getArgOperand(k)));
          in.ci->byval.push_back(cb->isByValArgument(k) ? cb->getParamByValType(k) : nullptr);
        }
        Value *cv = cb->getCalledOperand()->stripPointerCasts();
        if (auto *al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliasee()->stripPointerCasts();
        if (auto *f = dyn_cast<Function>(cv)) in.ci->callee = f;
        else in.ci->calleeOp = operandOf(fi, reg, cm, cb->getCalledOperand());
        if (auto *inv = dyn_cast<InvokeInst>(&i)) { in.t0 = bbi[inv->getNormalDest()]; in.t1 = bbi[inv->getUnwindDest()]; }
      } else if (auto *sw = dyn_cast<SwitchInst>(&i)) {
        in.ops.push_back(operandOf(fi, reg, cm, sw->getCondition()));
        in.t0 = bbi[sw->getDefaultDest()];
      } else if (auto *gep = dyn_cast<GetElementPtrInst>(&i)) {
        in.ops.push_back(operandOf(fi, reg, cm, gep->getPointerOperand()));
        APInt co(64, 0);
        MapVector<Value *, APInt> vo;
        if (!cast<GEPOperator>(gep)->collectOffset(*DL, 64, vo, co)) { fprintf(stderr, "symex: gep?\n"); exit(3); }
        in.constOff = co.getZExtValue();
        for (auto &p : vo) in.scaled.push_back({operandOf(fi, reg, cm, p.first), p.second.getZExtValue()});
      } else {
        for (auto &o : i.operands()) in.ops.push_back(operandOf(fi, reg, cm, o.get()));
      }
      fi->code.push_back(in);
    }
  }
  return fi;
}

static inline E val(Frame &f, int op) { return op >= 0 ? f.regs[op] : f.f->consts[-op - 1]; }

static bool jumpTo(State &s, int bb) {
  Frame &f = s.top();
  int from = f.curbb;
  auto &ph = f.f->phis[bb];
  if (!ph.empty()) {
    if (ph.size() == 1) {
      for (auto &p : ph[0].in) if (p.first == from) { f.regs[ph[0].dest] = val(f, p.second); break; }
    } else {
      static std::vector<E> tmp;
      tmp.resize(ph.size());
      for (size_t i = 0; i < ph.size(); i++)
        for (auto &p : ph[i].in) if (p.first == from) { tmp[i] = val(f, p.second); break; }
      for (size_t i = 0; i < ph.size(); i++) f.regs[ph[i].dest] = tmp[i];
    }
  }
  f.prev = from;
  f.curbb = bb;
  f.pc = f.f->bbStart[bb];
  return true;
}

static void pushCall(State &s, FInfo *fi, const std::vector<E> &args, uint8_t inserted = 0) {
  s.th[s.cur].fr.emplace_back();
  Frame &f = s.top();
  f.f = fi;
  f.inserted = inserted;
  f.regs.assign(fi->nregs, nullptr);
  unsigned na = (unsigned)fi->F->arg_size();
  for (unsigned i = 0; i < na && i < args.size(); i++) f.regs[i] = args[i];
  f.curbb = 0;
  f.pc = fi->bbStart[0];
  if (!fi->executed) fi->executed = true;
}

static void popFrame(State &s) {
  Frame &f = s.top();
  for (auto id : f.allocas) s.mem.free(id);
  s.th[s.cur].fr.pop_back();
}

// ------------------------------------------------------------------ RTTI / exceptions
static bool peek64(State &s, uint64_t a, uint64_t &v) {
  Obj *o = s.mem.get(a >> 32);
  uint32_t off = (uint32_t)a;
  if (!o || off + 8 > o->size) return false;
  v = 0;
  for (int i = 0; i < 8; i++) {
    if (!o->m.empty() && o->m[off + i]) return false;
    v |= (uint64_t)o->b[off + i] << (8 * i);
  }
  return true;
}
static std::string peekStr(State &s, uint64_t a) {
  Obj *o = s.mem.get(a >> 32);
  std::string r;
  if (!o) return r;
  for (uint32_t off = (uint32_t)a; off < o->size && o->b[off]; off++) r += (char)o->b[off];
  return r;
}
static std::string tiName(State &s, uint64_t ti) {
  uint64_t n;
  if (extName.count(ti >> 32)) return extName[ti >> 32].substr(4);
  if (!peek64(s, ti + 8, n)) return "?";
  return peekStr(s, n);
}
static bool tiEq(State &s, uint64_t a, uint64_t b) {
  if (a == b) return true;
  std::string x = tiName(s, a), y = tiName(s, b);
  return x == y && x != "?" && x[0] != '*';
}
static bool upcast(State &s, uint64_t ti, uint64_t dst, uint64_t &addr) {
  if (tiEq(s, ti, dst)) return true;
  uint64_t vt;
  if (!peek64(s, ti, vt)) return false;
  auto it = extName.find((uint32_t)((vt) >> 32));
  if (it == extName.end()) return false;
  if (it->second == "_ZTVN10__cxxabiv120__si_class_type_infoE") {
    uint64_t b;
    if (!peek64(s, ti + 16, b)) return false;
    return upcast(s, b, dst, addr);
  }
  if (it->second == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") {
    uint64_t fc;
    if (!peek64(s, ti + 16, fc)) return false;
    unsigned cnt = fc >> 32;
    for (unsigned i = 0; i < cnt; i++) {
      uint64_t b, of;
      if (!peek64(s, ti + 24 + 16 * i, b) || !peek64(s, ti + 32 + 16 * i, of)) return false;
      int64_t off = (int64_t)of >> 8;
      uint64_t a = addr;
      if (of & 1) {
        uint64_t vp, o2;
        if (!peek64(s, addr, vp) || !peek64(s, vp + off, o2)) continue;
        a += o2;
      } else a += off;
      if (upcast(s, b, dst, a)) { addr = a; return true; }
    }
  }
  return false;
}

static void destroyExc(State &s, uint32_t id) {
  ExcInfo ei = s.exc[id];
  s.exc.erase(id);
  if (ei.dtor) {
    const Function *df = funcById[ei.dtor >> 32];
    if (df && !df->isDeclaration()) {
      pushCall(s, getF(df), {ptrE(addrOf(id))}, 1);
      s.top().freeOnRet = id;
      return;
    }
  }
  s.mem.free(id);
}
static void maybeDestroy(State &s, uint32_t id) {
  auto it = s.exc.find(id);
  if (it == s.exc.end()) return;
  if (it->second.refs <= 0 && it->second.handlers <= 0 && !it->second.rethrown) destroyExc(s, id);
}

// Unwind from the current top frame (whose current instruction is the throwing call).
// popTop: start by leaving the top frame (resume).
static R unwind(State &s, uint32_t exc, bool popTop) {
  auto &t = s.th[s.cur];
  uint64_t ti = s.exc[exc].ti;
  s.exc[exc].rethrown = true;  // in flight
  bool first = true;
  auto st = stackOf(s);
  while (!t.fr.empty()) {
    if (!(first && !popTop)) {
      if (first && popTop) {}
    }
    Frame &f = t.fr.back();
    Inst &in = f.f->code[f.pc];
    if (!(first && popTop) && in.opc == Instruction::Invoke) {
      auto *inv = cast<InvokeInst>(in.I);
      auto *lp = inv->getLandingPadInst();
      int64_t sel = 0;
      bool enter = lp->isCleanup();
      uint64_t adj = addrOf(exc);
      for (unsigned i = 0; i < lp->getNumClauses(); i++) {
        Constant *c = lp->getClause(i);
        if (lp->isCatch(i)) {
          E ce = constE(c);
          uint64_t cti = (uint64_t)ce->val;
          uint64_t a = addrOf(exc);
          if (cti == 0 || upcast(s, ti, cti, a)) { sel = cti ? (int64_t)(cti >> 32) : 0x7fffffff; adj = a; enter = true; break; }
        } else {
          bool match = false;
          E arr = constE(c);
          if (arr->op == OTuple) for (E e : *arr->elems) { uint64_t a = addrOf(exc); if (upcast(s, ti, (uint64_t)e->val, a)) match = true; }
          if (!match) { sel = -1; enter = true; break; }
        }
      }
      if (enter) {
        s.exc[exc].adj = adj;
        t.unwinding = exc;
        // find the landingpad's register
        jumpTo(s, in.t1);
        Frame &g = s.top();
        Inst &lpi = g.f->code[g.pc];
        if (lpi.opc != Instruction::LandingPad) { unsupported["landingpad not first"]++; return RDead; }
        g.regs[lpi.dest] = mkTuple({ptrE(addrOf(exc)), mkConst((u128)(uint64_t)sel, 32)});
        g.pc++;
        return RJumped;
      }
    }
    first = false;
    if (f.inserted) { report(s, "terminate", "exception escapes a destructor"); return RDead; }
    popFrame(s);
  }
  // nobody catches: std::terminate
  State &ss = s;
  ss.th[ss.cur].fr.clear();
  std::string msg = "uncaught exception of type " + dem(std::string("_ZTS") + tiName(s, ti));
  // report with the stack at the throw
  {
    nErrPaths++;
    std::string where;
    for (auto &x : st) if (x.find(optRepo + "/") != std::string::npos) { where = x; break; }
    if (where.empty() && !st.empty()) where = st[0];
    if (violKeys.insert("terminate|" + msg).second) {
      Violation v{"terminate", msg, where, "", st};
      v.cex = optCexDir + "/" + optEntry + (optPart ? "-p" + std::to_string(optPart) : std::string()) + "-" + std::to_string(violations.size()) + ".cex";
      std::ofstream f(v.cex);
      f << "#entry " << optEntry << "\n#kind terminate\n#msg " << msg << "\n#where " << where << "\n";
      for (auto &c : optCfg) f << "#cfg " << c.first << " " << c.second << "\n";
      writeInputs(s, f);
      f << "#end\n";
      for (auto &x : st) f << "#stack " << x << "\n";
      for (auto &tr : s.trace) f << "#trace " << tr << "\n";
      violations.push_back(v);
      fprintf(stderr, "symex: terminate: %s\n    at %s\n", msg.c_str(), where.c_str());
      if (optVerbose) for (auto &x : st) fprintf(stderr, "      %s\n", x.c_str());
    }
  }
  return RDead;
}

// ------------------------------------------------------------------ builtins
#define H(name) static int name(State &s, Inst &in, std::vector<E> &a, E &ret)
static FInfo *fnByName(const char *n) {
  Function *f = M->getFunction(n);
  if (!f || f->isDeclaration()) { fprintf(stderr, "symex: runtime function %s missing\n", n); exit(3); }
  return getF(f);
}

static int doAlloc(State &s, E size, E &ret, bool canThrow) {
  // sizes above the limit: allocation failure
  E big = mkBin(OUlt, mkConst(s.allocLimit, 64), size);
  if (big->isConst() ? big->val : s.model->eval(big)) {
    if (!big->isConst()) {
      ModelP m;
      if (may(s, mkNot(big), m)) { State *o = clone(s); addPC(*o, mkNot(big)); o->model = m; work.push_back(o); addPC(s, big); }
    }
    if (!canThrow) { ret = ptrE(0); return RNext; }
    pushCall(s, fnByName("rt_throw_bad_alloc"), {}, 0);
    return RPushed;
  } else if (!big->isConst()) {
    ModelP m;
    if (may(s, big, m)) { State *o = clone(s); addPC(*o, big); o->model = m; work.push_back(o); addPC(s, mkNot(big)); }
  }
  uint64_t n;
  if (!concretize(s, size, n, "allocation size")) return RDead;
  uint32_t id = s.mem.alloc((uint32_t)n, KHeap, true);
  ret = ptrE(addrOf(id));
  return RNext;
}
H(h_new) { return doAlloc(s, a[0], ret, true); }
H(h_malloc) { return doAlloc(s, a[0], ret, false); }
H(h_calloc) {
  int r = doAlloc(s, mkBin(OMul, a[0], a[1]), ret, false);
  if (r == RNext && ret->val) { Obj *o = s.mem.writable((uint32_t)(ret->val >> 32)); o->m.clear(); }
  return r;
}
H(h_delete) {
  uint64_t p;
  if (!concretize(s, a[0], p, "freed pointer")) return RDead;
  if (!p) return RNext;
  uint32_t id = p >> 32;
  Obj *o = s.mem.get(id);
  if (!o) { report(s, "double-free", "memory is freed twice, or an invalid pointer is freed"); return RDead; }
  if (o->kind != KHeap || (uint32_t)p) { report(s, "invalid-free", "free of a pointer that is not the start of a heap block"); return RDead; }
  if (s.hb && !o->sh.empty()) trackAccess(s, id, 0, o->size, true);
  s.mem.free(id);
  return RNext;
}
static bool rangeOK(State &s, E p, uint64_t n, bool write, Obj *&o, uint32_t &off) {
  uint64_t pa;
  if (!concretize(s, p, pa, "block pointer")) return false;
  E o2;
  if (!resolve(s, ptrE(pa), n, write, o, o2)) return false;
  off = (uint32_t)pa;
  if (s.hb) { trackAccess(s, (uint32_t)(pa >> 32), off, n, write); o = s.mem.get((uint32_t)(pa >> 32)); }
  return true;
}
static int doCopy(State &s, E d, E sr, E n, E &ret) {
  if (!n->isConst()) {
    // a length the input controls: first show it cannot exceed either object
    for (int k = 0; k < 2; k++) {
      E p = k ? sr : d;
      if (!p->isConst()) { uint64_t v; if (!concretize(s, p, v, "block pointer")) return RDead; p = ptrE(v); }
      Obj *o = s.mem.get((uint32_t)(p->val >> 32));
      uint32_t off = (uint32_t)p->val;
      uint64_t room = o && off <= o->size ? o->size - off : 0;
      E over = mkBin(OUlt, mkConst(room, 64), n);
      ModelP m;
      if (may(s, over, m)) {
        State *c = clone(s);
        addPC(*c, over); c->model = m;
        report(*c, "out-of-bounds", k ? "block copy reads beyond the bounds of its source" : "block copy writes beyond the bounds of its destination");
        delete c;
        ModelP m2;
        if (!may(s, mkNot(over), m2)) return RDead;
        addPC(s, mkNot(over)); s.model = m2;
      }
    }
  }
  uint64_t len;
  if (!concretize(s, n, len, "block length")) return RDead;
  ret = d;
  if (!len) return RNext;
  Obj *od, *os; uint32_t fd, fs;
  if (!rangeOK(s, sr, len, false, os, fs)) return RDead;
  if (!rangeOK(s, d, len, true, od, fd)) return RDead;
  od = s.mem.writable(od->id);
  os = s.mem.get((uint32_t)(s.mem.get(os->id) ? os->id : 0));
  if (os == od) {
    std::vector<uint8_t> b(os->b.begin() + fs, os->b.begin() + fs + len), m;
    std::vector<E> x;
    if (!os->m.empty()) m.assign(os->m.begin() + fs, os->m.begin() + fs + len);
    if (!os->x.empty()) x.assign(os->x.begin() + fs, os->x.begin() + fs + len);
    std::copy(b.begin(), b.end(), od->b.begin() + fd);
    if (!m.empty()) std::copy(m.begin(), m.end(), od->m.begin() + fd);
    if (!x.empty()) std::copy(x.begin(), x.end(), od->x.begin() + fd);
    return RNext;
  }
  std::copy(os->b.begin() + fs, os->b.begin() + fs + len, od->b.begin() + fd);
  bool any = false;
  if (!os->m.empty()) for (uint64_t i = 0; i < len; i++) if (os->m[fs + i]) { any = true; break; }
  if (any) {
    od->ensureMask();
    std::copy(os->m.begin() + fs, os->m.begin() + fs + len, od->m.begin() + fd);
    if (!os->x.empty()) { od->ensureX(); std::copy(os->x.begin() + fs, os->x.begin() + fs + len, od->x.begin() + fd); }
  } else if (!od->m.empty()) std::fill(od->m.begin() + fd, od->m.begin() + fd + len, 0);
  return RNext;
}
static int doSet(State &s, E d, E v, E n, E &ret) {
  uint64_t len;
  if (!n->isConst()) {
    E p = d;
    if (!p->isConst()) { uint64_t x; if (!concretize(s, p, x, "block pointer")) return RDead; p = ptrE(x); }
    Obj *o = s.mem.get((uint32_t)(p->val >> 32));
    uint32_t off = (uint32_t)p->val;
    uint64_t room = o && off <= o->size ? o->size - off : 0;
    E over = mkBin(OUlt, mkConst(room, 64), n);
    ModelP m;
    if (may(s, over, m)) {
      State *c = clone(s); addPC(*c, over); c->model = m;
      report(*c, "out-of-bounds", "block fill writes beyond the bounds of its destination");
      delete c;
      ModelP m2;
      if (!may(s, mkNot(over), m2)) return RDead;
      addPC(s, mkNot(over)); s.model = m2;
    }
  }
  if (!concretize(s, n, len, "block length")) return RDead;
  ret = d;
  if (!len) return RNext;
  Obj *o; uint32_t off;
  if (!rangeOK(s, d, len, true, o, off)) return RDead;
  o = s.mem.writable(o->id);
  E by = mkExtract(v, 0, 8);
  for (uint64_t i = 0; i < len; i++) rawWrite(o, off + (uint32_t)i, by);
  return RNext;
}
H(h_memcpy) { return doCopy(s, a[0], a[1], a[2], ret); }
H(h_memset) { return doSet(s, a[0], a[1], a[2], ret); }
H(h_memcmp) {
  uint64_t len;
  if (!concretize(s, a[2], len, "memcmp length")) return RDead;
  if (!len) { ret = mkConst(0, 32); return RNext; }
  Obj *x, *y; uint32_t fx, fy;
  if (!rangeOK(s, a[0], len, false, x, fx) || !rangeOK(s, a[1], len, false, y, fy)) return RDead;
  bool onlyEq = cast<CallBase>(in.I)->getCalledFunction() && cast<CallBase>(in.I)->getCalledFunction()->getName() == "bcmp";
  E r = mkConst(0, 32);
  for (int64_t i = (int64_t)len - 1; i >= 0; i--) {
    E bx = byteAt(s, x, fx + (uint32_t)i);
    y = s.mem.get(y->id);
    E by = byteAt(s, y, fy + (uint32_t)i);
    x = s.mem.get(x->id);
    if (bx == by) continue;
    if (onlyEq) r = mkIte(mkEq(bx, by), r, mkConst(1, 32));
    else r = mkIte(mkEq(bx, by), r, mkIte(mkBin(OUlt, bx, by), mkConst((u128)-1, 32), mkConst(1, 32)));
  }
  ret = r;
  return RNext;
}
static std::string cstr(State &s, E p) { return p->isConst() ? peekStr(s, (uint64_t)p->val) : "?"; }

H(h_sym_int) {  // uint64_t sym_int(unsigned bits, const char* name)
  unsigned w = (unsigned)a[0]->val;
  E x = newSym(s, w);
  s.syms.push_back({cstr(s, a[1]), (uint32_t)x->val, w});
  ret = mkZExt(x, 64);
  return RNext;
}
H(h_sym_bytes) {  // void sym_bytes(void*, size_t, const char*)
  uint64_t n;
  if (!concretize(s, a[1], n, "sym_bytes")) return RDead;
  Obj *o; uint32_t off;
  if (!n) return RNext;
  if (!rangeOK(s, a[0], n, true, o, off)) return RDead;
  o = s.mem.writable(o->id);
  std::string nm = cstr(s, a[2]);
  for (uint64_t i = 0; i < n; i++) {
    E x = newSym(s, 8);
    s.syms.push_back({nm, (uint32_t)x->val, 8});
    rawWrite(o, off + (uint32_t)i, x);
  }
  return RNext;
}
H(h_sym_choice) {  // uint64_t sym_choice(uint64_t n, const char* name): symbolic, then split on its value
  uint64_t n;
  if (!concretize(s, a[0], n, "choice arity")) return RDead;
  if (n == 0) { report(s, "harness", "sym_choice(0)"); return RDead; }
  E x = newSym(s, 8);
  nChoices++;
  s.syms.push_back({cstr(s, a[1]), (uint32_t)x->val, 8});
  for (uint64_t k = n - 1; k >= 1; k--) {
    State *c = clone(s);
    E eq = mkEq(x, mkConst(k, 8));
    addPC(*c, eq);
    auto m = std::make_shared<Model>(); m->v = s.model->v; m->v[(uint32_t)x->val] = k; c->model = m;
    Frame &f = c->top();
    Inst &ci = f.f->code[f.pc];
    if (ci.dest >= 0) f.regs[ci.dest] = mkConst(k, 64);
    if (ci.opc == Instruction::Invoke) jumpTo(*c, ci.t0); else f.pc++;
    work.push_back(c);
  }
  addPC(s, mkEq(x, mkConst(0, 8)));
  { auto m = std::make_shared<Model>(); m->v = s.model->v; m->v[(uint32_t)x->val] = 0; s.model = m; }
  ret = mkConst(0, 64);
  return RNext;
}
H(h_sym_assume) {
  E c = mkNot(mkEq(a[0], mkConst(0, a[0]->w)));
  ModelP m;
  int r = sat(s, c, m);
  if (r != 1) { nAssumeKilled++; return RDead; }
  s.model = m;
  addPC(s, c);
  return RNext;
}
H(h_sym_assert) {
  nAsserts++;
  E c = mkNot(mkEq(a[0], mkConst(0, a[0]->w)));
  if (c->isConst()) {
    if (!c->val) { report(s, "assertion", cstr(s, a[1])); return RDead; }
    return RNext;
  }
  nAssertSym++;
  ModelP m;
  int r = sat(s, mkNot(c), m);
  if (r == 1) {
    State *o = clone(s);
    addPC(*o, mkNot(c));
    o->model = m;
    report(*o, "assertion", cstr(*o, a[1]));
    delete o;
    if (sat(s, c, m) != 1) return RDead;
    s.model = m;
    addPC(s, c);
  }
  return RNext;
}
H(h_sym_fail) { nAsserts++; report(s, "assertion", cstr(s, a[0])); return RDead; }
H(h_sym_cover) { covers[cstr(s, a[0])]++; return RNext; }
H(h_sym_concretize) {
  uint64_t v;
  if (!concretize(s, a[0], v, "sym_concretize")) return RDead;
  ret = mkConst(v, 64);
  return RNext;
}
H(h_sym_alloc_limit) { s.allocLimit = a[0]->u64(); return RNext; }
H(h_sym_step_limit) { s.stepLimit = s.steps + a[0]->u64(); s.stepLimitIsHang = a[1]->u64(); return RNext; }
H(h_sym_heap_live) {
  uint64_t n = 0;
  for (auto &c : s.mem.ch) if (c) for (auto &o : c->o) if (o && o->kind == KHeap) n++;
  ret = mkConst(n, 64);
  return RNext;
}
H(h_sym_done) { return RDead; }
H(h_sym_note) { if (s.trace.size() < 4000) s.trace.push_back(cstr(s, a[0])); return RNext; }
H(h_sym_note2) { if (s.trace.size() < 4000) { s.trace.push_back(cstr(s, a[0]) + " " + (a[1]->isConst() ? std::to_string((int64_t)a[1]->u64()) : show(a[1], 3))); } return RNext; }
H(h_sym_cfg) {
  auto it = optCfg.find(cstr(s, a[0]));
  ret = it == optCfg.end() ? a[1] : mkConst((u128)(uint64_t)it->second, 64);
  return RNext;
}
H(h_sym_part) {  // split the work: returns this process's share index
  (void)a;
  ret = mkConst(optNParts > 1 ? optPart : 0, 64);
  return RNext;
}
H(h_sym_nparts) { ret = mkConst(optNParts, 64); return RNext; }
H(h_sym_symbolic) { ret = mkConst(a[0]->isConst() ? 0 : 1, 32); return RNext; }
H(h_sym_valid) {  // int sym_valid(p, n): is [p,p+n) inside one live object
  uint64_t p, n;
  if (!concretize(s, a[0], p, "sym_valid") || !concretize(s, a[1], n, "sym_valid")) return RDead;
  Obj *o = s.mem.get(p >> 32);
  ret = mkConst(o && !o->scopeDead && (uint64_t)(uint32_t)p + n <= o->size, 32);
  return RNext;
}
H(h_thread_new) {
  uint64_t fp;
  if (!concretize(s, a[0], fp, "thread function")) return RDead;
  const Function *f = funcById[fp >> 32];
  int saved = s.cur;
  s.th.emplace_back();
  s.cur = (int)s.th.size() - 1;
  pushCall(s, getF(f), {a[1]});
  s.cur = saved;
  if (!s.hb) { s.hb = std::make_shared<HB>(); s.hb->th.resize(1); s.hb->th[0].c[0] = 1; }
  {
    HB &h = s.hbw();
    if (s.th.size() <= 16) {
      h.th.resize(s.th.size());
      VC &ch = h.th.back();
      ch.join(h.th[saved]);
      ch.c[s.th.size() - 1] = 1;
      h.th[saved].c[saved]++;
    }
  }
  ret = mkConst(s.th.size() - 1, 32);
  return RNext;
}
H(h_hb) {  // void sym_hb(const void *obj, int op): 1 acquire, 2 release, 3 both
  uint64_t op = a[1]->u64();
  if (a[0]->isConst()) hbSync(s, (uint64_t)a[0]->val, op & 1, op & 2);
  return RNext;
}
H(h_thread_self) { ret = mkConst(s.cur, 32); return RNext; }
H(h_switch) {  // void sym_switch(int t): continue as thread t (this thread resumes after the call when switched back)
  uint64_t t = a[0]->u64();
  // finish the call in this thread first
  Frame &f = s.top();
  if (in.opc == Instruction::Invoke) jumpTo(s, in.t0); else f.pc++;
  s.cur = (int)t;
  return RJumped;
}
H(h_unsupported) { unsupported[cstr(s, a[0])]++; return RDead; }
H(h_terminate) { report(s, "terminate", "std::terminate called"); return RDead; }
H(h_abort) { report(s, "abort", "abort called"); return RDead; }
H(h_assert_fail) { report(s, "assert", "assert failed: " + cstr(s, a[0])); return RDead; }
H(h_pure) { report(s, "pure-virtual", "pure virtual function called"); return RDead; }
H(h_nop) { if (in.dest >= 0) ret = zeroOf(in.I->getType()); return RNext; }

H(h_alloc_exc) {
  uint64_t n = a[0]->u64();
  uint32_t id = s.mem.alloc((uint32_t)n, KExc, true);
  s.exc[id] = ExcInfo();
  ret = ptrE(addrOf(id));
  return RNext;
}
H(h_free_exc) { uint32_t id = a[0]->val >> 32; s.exc.erase(id); s.mem.free(id); return RNext; }
H(h_init_primary) {
  uint32_t id = a[0]->val >> 32;
  auto &e = s.exc[id];
  e.ti = a[1]->u64(); e.dtor = a[2]->u64();
  ret = a[0];
  return RNext;
}
H(h_throw) {
  uint32_t id = a[0]->val >> 32;
  auto &e = s.exc[id];
  e.ti = a[1]->u64(); e.dtor = a[2]->u64();
  return unwind(s, id, false);
}
H(h_begin_catch) {
  uint32_t id = a[0]->val >> 32;
  auto &e = s.exc[id];
  e.handlers++;
  e.rethrown = false;
  s.th[s.cur].caught.push_back(id);
  s.th[s.cur].unwinding = 0;
  ret = ptrE(e.adj);
  return RNext;
}
H(h_get_exc_ptr) { ret = ptrE(s.exc[a[0]->val >> 32].adj); return RNext; }
H(h_end_catch) {
  auto &c = s.th[s.cur].caught;
  if (c.empty()) { report(s, "engine", "__cxa_end_catch without catch"); return RDead; }
  uint32_t id = c.back();
  c.pop_back();
  s.exc[id].handlers--;
  // advance first: a destructor frame may be pushed on top
  Frame &f = s.top();
  if (in.opc == Instruction::Invoke) jumpTo(s, in.t0); else f.pc++;
  maybeDestroy(s, id);
  return RJumped;
}
H(h_rethrow) {
  auto &c = s.th[s.cur].caught;
  if (c.empty()) { report(s, "terminate", "rethrow without active exception"); return RDead; }
  return unwind(s, c.back(), false);
}
H(h_ep_addref) {
  uint64_t p;
  if (peek64(s, a[0]->u64(), p) && p) s.exc[p >> 32].refs++;
  return RNext;
}
H(h_ep_release) {
  uint64_t p;
  Frame &f = s.top();
  if (in.opc == Instruction::Invoke) jumpTo(s, in.t0); else f.pc++;
  if (peek64(s, a[0]->u64(), p) && p) {
    storeE(s, a[0], ptrE(0));
    s.exc[p >> 32].refs--;
    maybeDestroy(s, p >> 32);
  }
  return RJumped;
}
H(h_ep_ctor) {
  if (!storeE(s, a[0], a[1])) return RDead;
  uint64_t p = a[1]->u64();
  if (p) s.exc[p >> 32].refs++;
  return RNext;
}
H(h_current_exception) {
  auto &c = s.th[s.cur].caught;
  uint64_t p = c.empty() ? 0 : addrOf(c.back());
  if (!storeE(s, a[0], ptrE(p))) return RDead;
  if (p) s.exc[p >> 32].refs++;
  return RNext;
}
H(h_rethrow_exception) {
  uint64_t p;
  if (!peek64(s, a[0]->u64(), p)) return RDead;
  if (!p) { report(s, "terminate", "rethrow_exception(null)"); return RDead; }
  return unwind(s, p >> 32, false);
}
H(h_uncaught) { ret = mkConst(s.th[s.cur].unwinding ? 1 : 0, in.w); return RNext; }
H(h_dyncast) {
  uint64_t p;
  if (!concretize(s, a[0], p, "dynamic_cast")) return RDead;
  if (!p) { ret = ptrE(0); return RNext; }
  E vpE;
  if (!loadE(s, ptrE(p), 64, vpE)) return RDead;
  if (!vpE->isConst()) { report(s, "wild-pointer", "dynamic_cast of an object without a valid vtable pointer"); return RDead; }
  uint64_t vp = vpE->u64(), ott, ti;
  if (!peek64(s, vp - 16, ott) || !peek64(s, vp - 8, ti)) { report(s, "wild-pointer", "dynamic_cast of an object without a valid vtable pointer"); return RDead; }
  uint64_t whole = p + ott;
  if (upcast(s, ti, a[2]->u64(), whole)) ret = ptrE(whole);
  else ret = ptrE(0);
  return RNext;
}

static void initHandlers() {
  auto &h = handlers;
  h["_Znwm"] = h["_Znam"] = h["_ZnwmSt11align_val_t"] = h["_ZnamSt11align_val_t"] = h_new;
  h["_ZnwmRKSt9nothrow_t"] = h["_ZnamRKSt9nothrow_t"] = h["malloc"] = h_malloc;
  h["calloc"] = h_calloc;
  h["_ZdlPv"] = h["_ZdaPv"] = h["_ZdlPvm"] = h["_ZdaPvm"] = h["_ZdlPvSt11align_val_t"] = h["_ZdlPvmSt11align_val_t"] = h["free"] =
      h["_ZdlPvRKSt9nothrow_t"] = h_delete;
  h["memcpy"] = h["memmove"] = h_memcpy;
  h["memset"] = h_memset;
  h["memcmp"] = h["bcmp"] = h_memcmp;
  h["sym_int"] = h_sym_int; h["sym_bytes"] = h_sym_bytes; h["sym_choice"] = h_sym_choice;
  h["sym_assume"] = h_sym_assume; h["sym_assert"] = h_sym_assert; h["sym_fail"] = h_sym_fail;
  h["sym_cover"] = h_sym_cover; h["sym_concretize"] = h_sym_concretize; h["sym_alloc_limit"] = h_sym_alloc_limit;
  h["sym_step_limit"] = h_sym_step_limit;
  h["sym_heap_live"] = h_sym_heap_live; h["sym_done"] = h_sym_done; h["sym_note"] = h_sym_note; h["sym_note2"] = h_sym_note2;
  h["sym_cfg"] = h_sym_cfg; h["sym_hb"] = h_hb; h["sym_part"] = h_sym_part; h["sym_nparts"] = h_sym_nparts; h["sym_is_symbolic"] = h_sym_symbolic; h["sym_valid"] = h_sym_valid;
  h["sym_thread_new"] = h_thread_new; h["sym_thread_self"] = h_thread_self; h["sym_switch"] = h_switch;
  h["sym_unsupported"] = h_unsupported;
  h["_ZSt9terminatev"] = h_terminate; h["abort"] = h_abort; h["__assert_fail"] = h_assert_fail;
  h["__cxa_pure_virtual"] = h_pure;
  h["__cxa_atexit"] = h_nop;
  h["__cxa_allocate_exception"] = h_alloc_exc; h["__cxa_free_exception"] = h_free_exc;
  h["__cxa_init_primary_exception"] = h_init_primary; h["__cxa_throw"] = h_throw;
  h["__cxa_begin_catch"] = h_begin_catch; h["__cxa_end_catch"] = h_end_catch; h["__cxa_rethrow"] = h_rethrow;
  h["__cxa_get_exception_ptr"] = h_get_exc_ptr;
  h["_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv"] = h_ep_addref;
  h["_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv"] = h_ep_release;
  h["_ZNSt15__exception_ptr13exception_ptrC1EPv"] = h["_ZNSt15__exception_ptr13exception_ptrC2EPv"] = h_ep_ctor;
  h["_ZSt17current_exceptionv"] = h_current_exception;
  h["_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE"] = h_rethrow_exception;
  h["_ZSt18uncaught_exceptionv"] = h["_ZSt19uncaught_exceptionsv"] = h_uncaught;
  h["__dynamic_cast"] = h_dyncast;
}

// ------------------------------------------------------------------ intrinsics
static double asD(E e) { double d; uint64_t v = e->u64(); memcpy(&d, &v, 8); return d; }
static float asF(E e) { float d; uint32_t v = (uint32_t)e->val; memcpy(&d, &v, 4); return d; }
static E fromD(double d) { uint64_t v; memcpy(&v, &d, 8); return mkConst(v, 64); }
static E fromF(float d) { uint32_t v; memcpy(&v, &d, 4); return mkConst(v, 32); }
static double fpv(E e) { return e->w == 32 ? (double)asF(e) : asD(e); }
static E mkfp(double d, unsigned w) { return w == 32 ? fromF((float)d) : fromD(d); }

static int intrinsic(State &s, Inst &in, std::vector<E> &a, E &ret) {
  unsigned w = in.w;
  switch (in.ci->iid) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { E r; int x = doCopy(s, a[0], a[1], mkZExt(a[2], 64), r); return x; }
    case Intrinsic::memset: case Intrinsic::memset_inline: { E r; return doSet(s, a[0], a[1], mkZExt(a[2], 64), r); }
    case Intrinsic::lifetime_start: {
      if (!a[1]->isConst()) return RNext;
      Obj *o = s.mem.get((uint32_t)(a[1]->val >> 32));
      if (o && o->kind == KStack && (uint32_t)a[1]->val == 0) {
        o = s.mem.writable(o->id);
        o->scopeDead = false;
        o->m.assign(o->size, 2);
      }
      return RNext;
    }
    case Intrinsic::lifetime_end: {
      if (!a[1]->isConst()) return RNext;
      Obj *o = s.mem.get((uint32_t)(a[1]->val >> 32));
      if (o && o->kind == KStack && (uint32_t)a[1]->val == 0) { o = s.mem.writable(o->id); o->scopeDead = true; }
      return RNext;
    }
    case Intrinsic::umax: ret = mkIte(mkBin(OUlt, a[0], a[1]), a[1], a[0]); return RNext;
    case Intrinsic::umin: ret = mkIte(mkBin(OUlt, a[0], a[1]), a[0], a[1]); return RNext;
    case Intrinsic::smax: ret = mkIte(mkBin(OSlt, a[0], a[1]), a[1], a[0]); return RNext;
    case Intrinsic::smin: ret = mkIte(mkBin(OSlt, a[0], a[1]), a[0], a[1]); return RNext;
    case Intrinsic::abs: ret = mkIte(mkBin(OSlt, a[0], mkConst(0, w)), mkBin(OSub, mkConst(0, w), a[0]), a[0]); return RNext;
    case Intrinsic::uadd_sat: { E r = mkBin(OAdd, a[0], a[1]); ret = mkIte(mkBin(OUlt, r, a[0]), mkConst(maskw(w), w), r); return RNext; }
    case Intrinsic::usub_sat: ret = mkIte(mkBin(OUlt, a[0], a[1]), mkConst(0, w), mkBin(OSub, a[0], a[1])); return RNext;
    case Intrinsic::uadd_with_overflow: { E r = mkBin(OAdd, a[0], a[1]); ret = mkTuple({r, mkBin(OUlt, r, a[0])}); return RNext; }
    case Intrinsic::usub_with_overflow: ret = mkTuple({mkBin(OSub, a[0], a[1]), mkBin(OUlt, a[0], a[1])}); return RNext;
    case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
      unsigned bw = a[0]->w;
      bool sg = in.ci->iid != Intrinsic::umul_with_overflow;
      E x = sg ? mkSExt(a[0], 2 * bw) : mkZExt(a[0], 2 * bw), y = sg ? mkSExt(a[1], 2 * bw) : mkZExt(a[1], 2 * bw);
      Op op = in.ci->iid == Intrinsic::sadd_with_overflow ? OAdd : in.ci->iid == Intrinsic::ssub_with_overflow ? OSub : OMul;
      E r = mkBin(op, x, y);
      E lo = mkExtract(r, 0, bw);
      ret = mkTuple({lo, mkNot(mkEq(sg ? mkSExt(lo, 2 * bw) : mkZExt(lo, 2 * bw), r))});
      return RNext;
    }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      E c = mkConcat(a[0], a[1]);
      E sh = mkZExt(mkBin(OURem, a[2], mkConst(w, w)), 2 * w);
      if (in.ci->iid == Intrinsic::fshl) ret = mkExtract(mkBin(OShl, c, sh), w, w);
      else ret = mkExtract(mkBin(OLShr, c, sh), 0, w);
      return RNext;
    }
    case Intrinsic::ctpop: { E r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(OAdd, r, mkZExt(mkExtract(a[0], i, 1), w)); ret = r; return RNext; }
    case Intrinsic::ctlz: { E r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkEq(mkExtract(a[0], i, 1), mkConst(1, 1)), mkConst(w - 1 - i, w), r); ret = r; return RNext; }
    case Intrinsic::cttz: { E r = mkConst(w, w); for (int i = (int)w - 1; i >= 0; i--) r = mkIte(mkEq(mkExtract(a[0], i, 1), mkConst(1, 1)), mkConst(i, w), r); ret = r; return RNext; }
    case Intrinsic::bswap: { E r = mkExtract(a[0], 0, 8); for (unsigned i = 1; i < w / 8; i++) r = mkConcat(r, mkExtract(a[0], 8 * i, 8)); ret = r; return RNext; }
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: ret = a[0]; return RNext;
    case Intrinsic::is_constant: ret = mkConst(0, 1); return RNext;
    case Intrinsic::objectsize: ret = mkConst(maskw(w), w); return RNext;
    case Intrinsic::trap: report(s, "trap", "trap instruction reached"); return RDead;
    case Intrinsic::eh_typeid_for: ret = mkConst((u128)(a[0]->u64() >> 32), 32); return RNext;
    case Intrinsic::stacksave: ret = ptrE(0); return RNext;
    case Intrinsic::stackrestore: case Intrinsic::var_annotation: case Intrinsic::invariant_start: if (in.dest >= 0) ret = ptrE(0); return RNext;
    case Intrinsic::threadlocal_address: {
      auto *gv = dyn_cast<GlobalVariable>(cast<CallBase>(in.I)->getArgOperand(0)->stripPointerCasts());
      if (!gv) { unsupported["tls alias"]++; return RDead; }
      auto &tls = s.th[s.cur].tls;
      auto it = tls.find(gv);
      if (it == tls.end()) {
        Obj *init = s.mem.get(globalId(gv));
        uint32_t id = s.mem.alloc(init->size, KGlobal, false);
        Obj *o = s.mem.writable(id);
        init = s.mem.get(globalId(gv));
        o->b = init->b; o->m = init->m; o->x = init->x;
        tls[gv] = id;
        ret = ptrE(addrOf(id));
      } else ret = ptrE(addrOf(it->second));
      return RNext;
    }
    case Intrinsic::fabs: if (a[0]->isConst()) { ret = mkfp(std::fabs(fpv(a[0])), w); return RNext; } break;
    case Intrinsic::fmuladd: if (a[0]->isConst() && a[1]->isConst() && a[2]->isConst()) { ret = mkfp(fpv(a[0]) * fpv(a[1]) + fpv(a[2]), w); return RNext; } break;
    case Intrinsic::ceil: if (a[0]->isConst()) { ret = mkfp(std::ceil(fpv(a[0])), w); return RNext; } break;
    case Intrinsic::floor: if (a[0]->isConst()) { ret = mkfp(std::floor(fpv(a[0])), w); return RNext; } break;
    default: break;
  }
  unsupported["intrinsic " + Intrinsic::getBaseName(in.ci->iid).str()]++;
  return RDead;
}

// ------------------------------------------------------------------ the step function
static E binop(unsigned opc, E a, E b) {
  switch (opc) {
    case Instruction::Add: return mkBin(OAdd, a, b);
    case Instruction::Sub: return mkBin(OSub, a, b);
    case Instruction::Mul: return mkBin(OMul, a, b);
    case Instruction::UDiv: return mkBin(OUDiv, a, b);
    case Instruction::SDiv: return mkBin(OSDiv, a, b);
    case Instruction::URem: return mkBin(OURem, a, b);
    case Instruction::SRem: return mkBin(OSRem, a, b);
    case Instruction::And: return mkBin(OAnd, a, b);
    case Instruction::Or: return mkBin(OOr, a, b);
    case Instruction::Xor: return mkBin(OXor, a, b);
    case Instruction::Shl: return mkBin(OShl, a, b);
    case Instruction::LShr: return mkBin(OLShr, a, b);
    case Instruction::AShr: return mkBin(OAShr, a, b);
  }
  return nullptr;
}
static E icmp(CmpInst::Predicate p, E a, E b) {
  switch (p) {
    case CmpInst::ICMP_EQ: return mkEq(a, b);
    case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
    case CmpInst::ICMP_ULT: return mkBin(OUlt, a, b);
    case CmpInst::ICMP_ULE: return mkBin(OUle, a, b);
    case CmpInst::ICMP_UGT: return mkBin(OUlt, b, a);
    case CmpInst::ICMP_UGE: return mkBin(OUle, b, a);
    case CmpInst::ICMP_SLT: return mkBin(OSlt, a, b);
    case CmpInst::ICMP_SLE: return mkBin(OSle, a, b);
    case CmpInst::ICMP_SGT: return mkBin(OSlt, b, a);
    case CmpInst::ICMP_SGE: return mkBin(OSle, b, a);
    default: return nullptr;
  }
}
static bool fcmp(CmpInst::Predicate p, double a, double b) {
  bool un = std::isnan(a) || std::isnan(b);
  switch (p) {
    case CmpInst::FCMP_OEQ: return !un && a == b;
    case CmpInst::FCMP_ONE: return !un && a != b;
    case CmpInst::FCMP_OLT: return !un && a < b;
    case CmpInst::FCMP_OLE: return !un && a <= b;
    case CmpInst::FCMP_OGT: return !un && a > b;
    case CmpInst::FCMP_OGE: return !un && a >= b;
    case CmpInst::FCMP_ORD: return !un;
    case CmpInst::FCMP_UNO: return un;
    case CmpInst::FCMP_UEQ: return un || a == b;
    case CmpInst::FCMP_UNE: return un || a != b;
    case CmpInst::FCMP_ULT: return un || a < b;
    case CmpInst::FCMP_ULE: return un || a <= b;
    case CmpInst::FCMP_UGT: return un || a > b;
    case CmpInst::FCMP_UGE: return un || a >= b;
    default: return p == CmpInst::FCMP_TRUE;
  }
}

static R finishCall(State &s, Inst &in, E ret) {
  Frame &f = s.top();
  if (in.dest >= 0) f.regs[in.dest] = ret ? ret : zeroOf(in.I->getType());
  if (in.opc == Instruction::Invoke) jumpTo(s, in.t0);
  else f.pc++;
  return RJumped;
}

static R doCall(State &s, Inst &in) {
  Frame &f = s.top();
  CallInfo &ci = *in.ci;
  std::vector<E> args;
  args.reserve(in.ops.size());
  for (int o : in.ops) args.push_back(val(f, o));
  FInfo *target = ci.fi;
  Handler h = ci.h;
  bool intr = ci.intrinsic;
  if (!ci.resolved) {
    const Function *cf = ci.callee;
    if (!cf) {
      if (isa<InlineAsm>(cast<CallBase>(in.I)->getCalledOperand())) { ci.h = h_nop; ci.resolved = true; return finishCall(s, in, nullptr); }
      E fp = val(f, ci.calleeOp);
      uint64_t a;
      if (!concretize(s, fp, a, "function pointer")) return RDead;
      uint32_t id = a >> 32;
      if (!a) { report(s, "null-call", "call through a null function pointer"); return RDead; }
      if (id >= funcById.size() || !funcById[id] || (uint32_t)a) { report(s, "wild-call", "call through an invalid function pointer"); return RDead; }
      cf = funcById[id];
    }
    if (cf->isIntrinsic()) { intr = true; if (ci.callee) { ci.intrinsic = true; ci.iid = cf->getIntrinsicID(); ci.resolved = true; } }
    else {
      std::string n = cf->getName().str();
      auto it = handlers.find(n);
      if (it != handlers.end()) h = it->second;
      else {
        if (cf->isDeclaration()) {
          Function *w = M->getFunction("__wrap_" + n);
          if (w && !w->isDeclaration()) cf = w;
          else { unsupported["external function " + dem(n)]++; return RDead; }
        }
        target = getF(cf);
      }
      if (ci.callee) { ci.h = h; ci.fi = target; ci.resolved = true; }
    }
  }
  E ret = nullptr;
  if (intr || h) {
    int r = intr ? intrinsic(s, in, args, ret) : h(s, in, args, ret);
    if (r == RNext) return finishCall(s, in, ret);
    return (R)r == RPushed ? RJumped : (R)r;
  }
  // byval copies
  std::vector<uint32_t> copies;
  for (size_t i = 0; i < args.size(); i++)
    if (ci.byval.size() > i && ci.byval[i]) {
      uint32_t id = s.mem.alloc((uint32_t)allocSize(ci.byval[i]), KStack, true);
      E r;
      if (doCopy(s, ptrE(addrOf(id)), args[i], mkConst(allocSize(ci.byval[i]), 64), r) != RNext) return RDead;
      args[i] = ptrE(addrOf(id));
      copies.push_back(id);
    }
  if (s.th[s.cur].fr.size() > 400) { report(s, "stack-overflow", "recursion deeper than 400 frames"); return RDead; }
  if (args.size() < target->F->arg_size()) { unsupported["call with missing arguments"]++; return RDead; }
  pushCall(s, target, args);
  s.top().allocas = copies;
  return RJumped;
}

static bool branchTo(State &s, E c, int t, int f) {
  ModelP m;
  bool mv = s.model->eval(c) & 1;
  E other = mv ? mkNot(c) : c;
  int r = sat(s, other, m);
  if (r == 1) {
    State *o = clone(s);
    addPC(*o, other);
    o->model = m;
    jumpTo(*o, mv ? f : t);
    work.push_back(o);
    addPC(s, mv ? c : mkNot(c));
  }
  jumpTo(s, mv ? t : f);
  return true;
}

static R step(State &s) {
  Frame &f = s.top();
  Inst &in = f.f->code[f.pc];
  switch (in.opc) {
    case Instruction::Br: {
      if (in.t1 < 0) { jumpTo(s, in.t0); return RJumped; }
      E c = val(f, in.ops[0]);
      if (c->isConst()) { jumpTo(s, c->val ? in.t0 : in.t1); return RJumped; }
      branchTo(s, c, in.t0, in.t1);
      return RJumped;
    }
    case Instruction::Switch: {
      auto *sw = cast<SwitchInst>(in.I);
      E c = val(f, in.ops[0]);
      auto bbOf = [&](BasicBlock *b) { for (size_t i = 0; i < f.f->bbs.size(); i++) if (f.f->bbs[i] == b) return (int)i; return -1; };
      if (c->isConst()) {
        for (auto &k : sw->cases())
          if (apToU(k.getCaseValue()->getValue()) == c->val) { jumpTo(s, bbOf(k.getCaseSuccessor())); return RJumped; }
        jumpTo(s, in.t0);
        return RJumped;
      }
      // one state per case
      u128 mv = s.model->eval(c);
      E def = mkTrue();
      int mine = in.t0;
      E mineC = nullptr;
      for (auto &k : sw->cases()) {
        u128 kv = apToU(k.getCaseValue()->getValue());
        E eq = mkEq(c, mkConst(kv, c->w));
        def = mkAnd(def, mkNot(eq));
        int t = bbOf(k.getCaseSuccessor());
        if (kv == mv) { mine = t; mineC = eq; continue; }
        ModelP m;
        if (sat(s, eq, m) == 1) { State *o = clone(s); addPC(*o, eq); o->model = m; jumpTo(*o, t); work.push_back(o); }
      }
      if (mineC) {
        ModelP m;
        if (sat(s, def, m) == 1) { State *o = clone(s); addPC(*o, def); o->model = m; jumpTo(*o, in.t0); work.push_back(o); }
        addPC(s, mineC);
      } else addPC(s, def);
      jumpTo(s, mine);
      return RJumped;
    }
    case Instruction::Ret: {
      E rv = in.ops.empty() ? nullptr : val(f, in.ops[0]);
      uint8_t ins = f.inserted;
      uint32_t fo = f.freeOnRet;
      popFrame(s);
      if (fo) s.mem.free(fo);
      auto &t = s.th[s.cur];
      if (t.fr.empty()) {
        t.done = true;
        if (s.cur == 0) return RDead;   // entry finished
        unsupported["thread function returned to the engine"]++;
        return RDead;
      }
      if (ins) return RJumped;
      Frame &c = s.top();
      return finishCall(s, c.f->code[c.pc], rv);
    }
    case Instruction::Call: case Instruction::Invoke: return doCall(s, in);
    case Instruction::Resume: {
      E t = val(f, in.ops[0]);
      return unwind(s, (uint32_t)((*t->elems)[0]->val >> 32), true);
    }
    case Instruction::Unreachable: report(s, "unreachable", "code the compiler assumed unreachable was reached (undefined behaviour)"); return RDead;
    case Instruction::Alloca: {
      auto *ai = cast<AllocaInst>(in.I);
      uint64_t n;
      if (!concretize(s, val(f, in.ops[0]), n, "alloca size")) return RDead;
      n *= allocSize(ai->getAllocatedType());
      uint32_t id = s.mem.alloc((uint32_t)n, KStack, true);
      s.top().allocas.push_back(id);
      s.top().regs[in.dest] = ptrE(addrOf(id));
      break;
    }
    case Instruction::Load: {
      E r;
      E lp = val(f, in.ops[0]);
      if (!loadT(s, lp, in.I->getType(), r)) return RDead;
      if (s.hb && lp->isConst()) {
        if (in.I->isAtomic()) hbAtomic(s, lp, cast<LoadInst>(in.I)->getOrdering(), true, false);
        else trackAccess(s, (uint32_t)((uint64_t)lp->val >> 32), (uint32_t)lp->val, storeSize(in.I->getType()), false);
      }
      s.top().regs[in.dest] = r;
      break;
    }
    case Instruction::Store: {
      E sp = val(f, in.ops[1]);
      if (!storeT(s, sp, in.I->getOperand(0)->getType(), val(f, in.ops[0]))) return RDead;
      if (s.hb && sp->isConst()) {
        if (in.I->isAtomic()) hbAtomic(s, sp, cast<StoreInst>(in.I)->getOrdering(), false, true);
        else trackAccess(s, (uint32_t)((uint64_t)sp->val >> 32), (uint32_t)sp->val, storeSize(in.I->getOperand(0)->getType()), true);
      }
      break;
    }
    case Instruction::GetElementPtr: {
      E b = val(f, in.ops[0]);
      E r = in.constOff ? mkBin(OAdd, b, mkConst(in.constOff, 64)) : b;
      for (auto &p : in.scaled) {
        E i = mkSExt(val(f, p.first), 64);
        r = mkBin(OAdd, r, mkBin(OMul, i, mkConst(p.second, 64)));
      }
      f.regs[in.dest] = r;
      break;
    }
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
      E a = val(f, in.ops[0]), b = val(f, in.ops[1]);
      if (!in.w) { unsupported["vector division"]++; return RDead; }
      E z = mkEq(b, mkConst(0, b->w));
      ModelP m;
      if (z->isConst() ? z->val : sat(s, z, m) == 1) {
        State *c = clone(s);
        if (!z->isConst()) { addPC(*c, z); c->model = m; }
        report(*c, "division-by-zero", "division by zero");
        delete c;
        if (z->isConst() || sat(s, mkNot(z), m) != 1) return RDead;
        addPC(s, mkNot(z)); s.model = m;
      }
      s.top().regs[in.dest] = binop(in.opc, a, b);
      break;
    }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or:
    case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      E a = val(f, in.ops[0]), b = val(f, in.ops[1]);
      if (in.w) f.regs[in.dest] = binop(in.opc, a, b);
      else {
        std::vector<E> v;
        for (size_t i = 0; i < a->elems->size(); i++) v.push_back(binop(in.opc, (*a->elems)[i], (*b->elems)[i]));
        f.regs[in.dest] = mkTuple(v);
      }
      break;
    }
    case Instruction::ICmp: {
      E a = val(f, in.ops[0]), b = val(f, in.ops[1]);
      auto p = cast<ICmpInst>(in.I)->getPredicate();
      if (in.w) f.regs[in.dest] = icmp(p, a, b);
      else {
        std::vector<E> v;
        for (size_t i = 0; i < a->elems->size(); i++) v.push_back(icmp(p, (*a->elems)[i], (*b->elems)[i]));
        f.regs[in.dest] = mkTuple(v);
      }
      break;
    }
    case Instruction::Select: {
      E c = val(f, in.ops[0]), a = val(f, in.ops[1]), b = val(f, in.ops[2]);
      if (c->op == OTuple) {
        std::vector<E> v;
        for (size_t i = 0; i < a->elems->size(); i++) v.push_back(mkIte((*c->elems)[i], (*a->elems)[i], (*b->elems)[i]));
        f.regs[in.dest] = mkTuple(v);
        break;
      }
      // pointers: split the path instead of building an address ITE
      if (!c->isConst() && in.I->getType()->isPointerTy() && a != b) {
        ModelP m;
        bool mv = s.model->eval(c) & 1;
        E other = mv ? mkNot(c) : c;
        if (sat(s, other, m) == 1) {
          State *o = clone(s);
          addPC(*o, other); o->model = m;
          Frame &of = o->top();
          of.regs[in.dest] = mv ? b : a;
          of.pc++;
          work.push_back(o);
          addPC(s, mv ? c : mkNot(c));
        }
        f.regs[in.dest] = mv ? a : b;
        break;
      }
      f.regs[in.dest] = mkIte(c, a, b);
      break;
    }
    case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: {
      E a = val(f, in.ops[0]);
      Type *et = in.I->getType()->getScalarType();
      unsigned w = bitsOf(et);
      auto cv = [&](E x) { return in.opc == Instruction::SExt ? mkSExt(x, w) : mkZExt(x, w); };
      if (a->op != OTuple) f.regs[in.dest] = cv(a);
      else { std::vector<E> v; for (E x : *a->elems) v.push_back(cv(x)); f.regs[in.dest] = mkTuple(v); }
      break;
    }
    case Instruction::PtrToInt: case Instruction::IntToPtr: f.regs[in.dest] = mkZExt(val(f, in.ops[0]), in.w); break;
    case Instruction::AddrSpaceCast: f.regs[in.dest] = val(f, in.ops[0]); break;
    case Instruction::BitCast: {
      E a = val(f, in.ops[0]);
      if (a->op == OTuple && in.w) {
        E r = (*a->elems)[0];
        for (size_t i = 1; i < a->elems->size(); i++) r = mkConcat((*a->elems)[i], r);
        f.regs[in.dest] = r;
      } else if (a->op != OTuple && !in.w) {
        auto *vt = cast<FixedVectorType>(in.I->getType());
        unsigned ew = bitsOf(vt->getElementType());
        std::vector<E> v;
        for (unsigned i = 0; i < vt->getNumElements(); i++) v.push_back(mkExtract(a, i * ew, ew));
        f.regs[in.dest] = mkTuple(v);
      } else f.regs[in.dest] = a;
      break;
    }
    case Instruction::Freeze: f.regs[in.dest] = val(f, in.ops[0]); break;
    case Instruction::ExtractValue: {
      E a = val(f, in.ops[0]);
      for (unsigned i : cast<ExtractValueInst>(in.I)->indices()) a = (*a->elems)[i];
      f.regs[in.dest] = a;
      break;
    }
    case Instruction::InsertValue: {
      std::function<E(E, ArrayRef<unsigned>, E)> ins = [&](E agg, ArrayRef<unsigned> ix, E v) -> E {
        if (ix.empty()) return v;
        std::vector<E> el = *agg->elems;
        el[ix[0]] = ins(el[ix[0]], ix.drop_front(), v);
        return mkTuple(el);
      };
      f.regs[in.dest] = ins(val(f, in.ops[0]), cast<InsertValueInst>(in.I)->getIndices(), val(f, in.ops[1]));
      break;
    }
    case Instruction::ExtractElement: f.regs[in.dest] = (*val(f, in.ops[0])->elems)[(size_t)val(f, in.ops[1])->val]; break;
    case Instruction::InsertElement: {
      std::vector<E> el = *val(f, in.ops[0])->elems;
      el[(size_t)val(f, in.ops[2])->val] = val(f, in.ops[1]);
      f.regs[in.dest] = mkTuple(el);
      break;
    }
    case Instruction::ShuffleVector: {
      auto *sv = cast<ShuffleVectorInst>(in.I);
      std::vector<E> src = *val(f, in.ops[0])->elems;
      for (E x : *val(f, in.ops[1])->elems) src.push_back(x);
      std::vector<E> r;
      for (int k : sv->getShuffleMask()) r.push_back(k < 0 ? src[0] : src[k]);
      f.regs[in.dest] = mkTuple(r);
      break;
    }
    case Instruction::AtomicRMW: {
      auto *ar = cast<AtomicRMWInst>(in.I);
      E p = val(f, in.ops[0]), v = val(f, in.ops[1]), old;
      uint64_t pa;
      if (!concretize(s, p, pa, "atomic address")) return RDead;
      p = ptrE(pa);
      if (!loadE(s, p, v->w, old)) return RDead;
      hbAtomic(s, p, ar->getOrdering(), true, true);
      E n;
      switch (ar->getOperation()) {
        case AtomicRMWInst::Xchg: n = v; break;
        case AtomicRMWInst::Add: n = mkBin(OAdd, old, v); break;
        case AtomicRMWInst::Sub: n = mkBin(OSub, old, v); break;
        case AtomicRMWInst::And: n = mkBin(OAnd, old, v); break;
        case AtomicRMWInst::Or: n = mkBin(OOr, old, v); break;
        case AtomicRMWInst::Xor: n = mkBin(OXor, old, v); break;
        case AtomicRMWInst::Max: n = mkIte(mkBin(OSlt, old, v), v, old); break;
        case AtomicRMWInst::Min: n = mkIte(mkBin(OSlt, old, v), old, v); break;
        case AtomicRMWInst::UMax: n = mkIte(mkBin(OUlt, old, v), v, old); break;
        case AtomicRMWInst::UMin: n = mkIte(mkBin(OUlt, old, v), old, v); break;
        default: unsupported["atomicrmw op"]++; return RDead;
      }
      if (!storeE(s, p, n)) return RDead;
      s.top().regs[in.dest] = old;
      break;
    }
    case Instruction::AtomicCmpXchg: {
      E p = val(f, in.ops[0]), c = val(f, in.ops[1]), n = val(f, in.ops[2]), old;
      uint64_t pa;
      if (!concretize(s, p, pa, "atomic address")) return RDead;
      p = ptrE(pa);
      if (!loadE(s, p, c->w, old)) return RDead;
      hbAtomic(s, p, cast<AtomicCmpXchgInst>(in.I)->getSuccessOrdering(), true, true);
      E eq = mkEq(old, c);
      if (!storeE(s, p, mkIte(eq, n, old))) return RDead;
      s.top().regs[in.dest] = mkTuple({old, eq});
      break;
    }
    case Instruction::Fence: break;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
      E a = val(f, in.ops[0]), b = val(f, in.ops[1]);
      if (!a->isConst() || !b->isConst() || in.w > 64 || !in.w) { unsupported["symbolic floating point"]++; return RDead; }
      double x = fpv(a), y = fpv(b), r;
      if (in.w == 32) {
        float xf = (float)x, yf = (float)y, rf;
        rf = in.opc == Instruction::FAdd ? xf + yf : in.opc == Instruction::FSub ? xf - yf : in.opc == Instruction::FMul ? xf * yf : in.opc == Instruction::FDiv ? xf / yf : std::fmod(xf, yf);
        r = rf;
      } else
        r = in.opc == Instruction::FAdd ? x + y : in.opc == Instruction::FSub ? x - y : in.opc == Instruction::FMul ? x * y : in.opc == Instruction::FDiv ? x / y : std::fmod(x, y);
      f.regs[in.dest] = mkfp(r, in.w);
      break;
    }
    case Instruction::FNeg: {
      E a = val(f, in.ops[0]);
      f.regs[in.dest] = mkBin(OXor, a, mkConst((u128)1 << (a->w - 1), a->w));
      break;
    }
    case Instruction::FCmp: {
      E a = val(f, in.ops[0]), b = val(f, in.ops[1]);
      if (!a->isConst() || !b->isConst() || a->w > 64) { unsupported["symbolic floating point"]++; return RDead; }
      f.regs[in.dest] = mkConst(fcmp(cast<FCmpInst>(in.I)->getPredicate(), fpv(a), fpv(b)), 1);
      break;
    }
    case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::FPToSI: case Instruction::FPToUI: {
      E a = val(f, in.ops[0]);
      if (!a->isConst() || a->w > 64 || in.w > 64) { unsupported["symbolic floating point"]++; return RDead; }
      if (in.opc == Instruction::FPExt || in.opc == Instruction::FPTrunc) f.regs[in.dest] = mkfp(fpv(a), in.w);
      else if (in.opc == Instruction::FPToSI) f.regs[in.dest] = mkConst((u128)(i128)fpv(a), in.w);
      else f.regs[in.dest] = mkConst((u128)fpv(a), in.w);
      break;
    }
    case Instruction::SIToFP: case Instruction::UIToFP: {
      E a = val(f, in.ops[0]);
      if (!a->isConst() || in.w > 64) { unsupported["symbolic floating point"]++; return RDead; }
      f.regs[in.dest] = mkfp(in.opc == Instruction::SIToFP ? (double)sextv(a->val, a->w) : (double)a->val, in.w);
      break;
    }
    default:
      unsupported[std::string("instruction ") + in.I->getOpcodeName()]++;
      return RDead;
  }
  s.top().pc++;
  return RNext;
}

// ------------------------------------------------------------------ setup
static void initGlobals(State &s) {
  funcById.push_back(nullptr);
  auto reg = [&](uint32_t id, const Function *f) { if (funcById.size() <= id) funcById.resize(id + 1, nullptr); funcById[id] = f; };
  for (auto &F : *M) {
    uint32_t id = s.mem.alloc(0, KFunc, false);
    gobj[&F] = id;
    reg(id, &F);
  }
  for (auto &G : M->globals()) {
    uint64_t sz = allocSize(G.getValueType());
    if (G.isDeclaration() && sz < 256) sz = 256;
    uint32_t id = s.mem.alloc((uint32_t)sz, KGlobal, false);
    gobj[&G] = id;
    if (G.isDeclaration()) extName[id] = G.getName().str();
  }
  for (auto &G : M->globals()) {
    if (G.isDeclaration()) continue;
    uint32_t id = gobj[&G];
    Constant *init = G.getInitializer();
    // fast path for strings
    E v = nullptr;
    if (auto *cd = dyn_cast<ConstantDataSequential>(init)) {
      StringRef raw = cd->getRawDataValues();
      Obj *o = s.mem.writable(id);
      memcpy(o->b.data(), raw.data(), raw.size());
    } else if (!isa<ConstantAggregateZero>(init)) {
      v = constE(init);
      storeT(s, ptrE(addrOf(id)), G.getValueType(), v);
    }
  }
  for (auto &G : M->globals())
    if (G.isConstant() && !G.isDeclaration()) s.mem.writable(gobj[&G])->kind = KConst;
  funcById.resize(s.mem.next + 1, nullptr);
}

static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - tStart).count(); }

static void samplePath(State &s) {
  if (samplePaths.size() >= 6) return;
  std::string r;
  int n = 0;
  for (auto &l : s.syms) {
    if (n++ > 14) { r += " ..."; break; }
    r += (r.empty() ? "" : " ") + l.name + "=" + std::to_string((uint64_t)s.model->eval(mkSym(l.idx, l.w)));
  }
  samplePaths.push_back(r);
}

// uses of thread_local variables that do not go through the intrinsic are made to
static void lowerThreadLocals(Module &m) {
  std::vector<GlobalVariable *> gs;
  for (auto &g : m.globals()) if (g.isThreadLocal()) gs.push_back(&g);
  for (auto *g : gs) {
    convertUsersOfConstantsToInstructions({g});
    std::vector<Use *> uses;
    for (auto &u : g->uses()) {
      auto *i = dyn_cast<Instruction>(u.getUser());
      if (!i) continue;
      auto *ii = dyn_cast<IntrinsicInst>(i);
      if (!ii || ii->getIntrinsicID() != Intrinsic::threadlocal_address) uses.push_back(&u);
    }
    for (auto *u : uses) {
      auto *i = cast<Instruction>(u->getUser());
      Instruction *at = i;
      if (auto *phi = dyn_cast<PHINode>(i)) at = phi->getIncomingBlock(*u)->getTerminator();
      IRBuilder<> b(at);
      u->set(b.CreateThreadLocalAddress(g));
    }
  }
}
int main(int argc, char **argv) {
  std::string bc;
  for (int i = 1; i < argc; i++) {
    std::string x = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (x == "--entry") optEntry = nx();
    else if (x == "--out") optOut = nx();
    else if (x == "--cexdir") optCexDir = nx();
    else if (x == "--repo") optRepo = nx();
    else if (x == "--time") optTime = std::stod(nx());
    else if (x == "--steps") optSteps = std::stoull(nx());
    else if (x == "--hang") optHang = std::stoull(nx());
    else if (x == "--max-paths") optMaxPaths = std::stoull(nx());
    else if (x == "--part") { optPart = std::stoull(nx()); }
    else if (x == "--jobs") { optJobs = (unsigned)std::stoul(nx()); }
    else if (x == "--nparts") { optNParts = std::stoull(nx()); }
    else if (x == "--max-viol") optMaxViol = std::stoull(nx());
    else if (x == "--conc-cap") optConcCap = std::stoull(nx());
    else if (x == "--solver-timeout") gSolverTimeoutMs = (unsigned)std::stoul(nx());
    else if (x == "--cfg") { std::string kv = nx(); auto p = kv.find('='); optCfg[kv.substr(0, p)] = std::stoll(kv.substr(p + 1)); }
    else if (x == "-v") optVerbose = true;
    else if (x == "--trace") optTrace = true;
    else bc = x;
  }
  LLVMContext C;
  SMDiagnostic err;
  auto mod = parseIRFile(bc, err, C);
  if (!mod) { err.print("symex", errs()); return 3; }
  M = mod.get();
  lowerThreadLocals(*M);
  DL = &M->getDataLayout();
  initHandlers();
  tStart = std::chrono::steady_clock::now();
  State *s0 = new State();
  s0->id = nStates++;
  s0->model = std::make_shared<Model>();
  s0->th.emplace_back();
  initGlobals(*s0);
  Function *ent = M->getFunction(optEntry);
  if (!ent || ent->isDeclaration()) { fprintf(stderr, "symex: entry %s not found\n", optEntry.c_str()); return 3; }
  pushCall(*s0, getF(ent), {});
  // global constructors run first (pushed on top, last executed first => push in reverse)
  if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) {
    if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
      std::vector<std::pair<uint64_t, Function *>> v;
      for (auto &o : ca->operands()) {
        auto *st = cast<ConstantStruct>(o);
        v.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), cast<Function>(st->getOperand(1)->stripPointerCasts())});
      }
      std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
      for (int i = (int)v.size() - 1; i >= 0; i--) pushCall(*s0, getF(v[i].second), {}, 1);
    }
  }
  work.push_back(s0);
  bool timedOut = false, child = false;
  double violAt = -1;
  std::vector<pid_t> kids;
  // runs the state until it ends (true) or, with stopAtFork, until it forked (false)
  auto run = [&](State *s, bool stopAtFork) {
    for (;;) {
      if (optTrace) {
        auto st = stackOf(*s);
        fprintf(stderr, "T%d %s\n", s->cur, st.empty() ? "" : st[0].c_str());
      }
      size_t before = work.size();
      R r = step(*s);
      s->steps++;
      nInstr++;
      if (r == RDead) break;
      if (s->steps > optSteps) { incomplete("path step limit"); if (optVerbose) for (auto &x : stackOf(*s)) fprintf(stderr, "  limit: %s\n", x.c_str()); break; }
      if (s->steps > optHang) { report(*s, "hang", "no progress: the code keeps running without finishing"); break; }
      if (s->stepLimit && s->steps > s->stepLimit) {
        if (s->stepLimitIsHang) report(*s, "hang", "no progress: the code keeps running without finishing"); else incomplete("path step limit (harness)");
        break;
      }
      if ((nInstr & 0xfff) == 0) {
        if (!violations.empty() && violAt < 0) violAt = elapsed();
        if (elapsed() > optTime || (violAt >= 0 && elapsed() > violAt + 15)) { timedOut = true; break; }
      }
      if (stopAtFork && work.size() != before) return false;
    }
    if (s->steps > maxPathSteps) maxPathSteps = s->steps;
    nPaths++;
    if (nPaths == 1 || (nPaths & (nPaths - 1)) == 0) samplePath(*s);
    delete s;
    return true;
  };
  auto stop = [&]() {
    if (timedOut) { incomplete("time limit"); return true; }
    if (violations.size() >= optMaxViol) { if (!work.empty()) incomplete("stopped after violation"); return true; }
    if (nPaths >= optMaxPaths) { if (!work.empty()) incomplete("path limit"); return true; }
    return false;
  };
  if (optJobs > 1) {
    // breadth-first until there is enough work to share, then fork
    while (!work.empty() && work.size() < optJobs * 24) {
      State *s = work.front();
      work.pop_front();
      if (!run(s, true)) work.push_back(s);
      if (stop()) { for (auto w : work) delete w; work.clear(); }
    }
    if (!work.empty()) {
      auto *next = (std::atomic<size_t> *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      auto *violSeen = (std::atomic<size_t> *)(next + 8);
      std::vector<State *> all(work.begin(), work.end());
      work.clear();
      fflush(stdout); fflush(stderr);
      for (unsigned j = 0; j < optJobs; j++) {
        pid_t pid = fork();
        if (pid) { kids.push_back(pid); continue; }
        child = true;
        optPart = j + 1;
        optOut += "." + std::to_string(j + 1);
        nPaths = nForks = nInstr = nChoices = nAsserts = nAssertSym = nAssumeKilled = nErrPaths = 0;
        gSolver.queries = gSolver.sat = gSolver.unsat = gSolver.unknown = gSolver.cacheHits = gSolver.modelHits = 0;
        gSolver.time = gSolver.maxTime = 0;
        races.clear(); covers.clear(); unsupported.clear(); incompleteWhy.clear(); samplePaths.clear(); violations.clear();
        for (;;) {
          size_t i = next->fetch_add(1);
          if (i >= all.size()) break;
          work.push_back(all[i]);
          bool st = false;
          while (!work.empty() && !st) {
            State *s = work.back();
            work.pop_back();
            run(s, false);
            violSeen->store(std::max<size_t>(violSeen->load(), violations.size()));
            if (violSeen->load() && violAt < 0) violAt = elapsed();
            st = stop();
            if (!st && violSeen->load() >= optMaxViol) { incomplete("stopped after violation"); st = true; }
          }
          if (st) break;
        }
        break;
      }
    }
  } else
    while (!work.empty()) {
      State *s = work.back();
      work.pop_back();
      run(s, false);
      if (stop()) break;
    }
  int kidFail = 0;
  for (pid_t k : kids) {
    int st = 0;
    while (waitpid(k, &st, 0) < 0 && errno == EINTR) {}
    if (!WIFEXITED(st) || WEXITSTATUS(st) > 2) kidFail++;
  }
  if (kidFail) incomplete("worker process died");
  // ---------------------------------------------------------------- output
  std::ostringstream o;
  o << "{\n \"entry\": \"" << optEntry << "\",\n \"part\": " << optPart << ",\n";
  o << " \"paths\": " << nPaths << ", \"forks\": " << nForks << ", \"instructions\": " << nInstr << ", \"max_path_instructions\": " << maxPathSteps << ",\n";
  o << " \"choices\": " << nChoices << ", \"asserts\": " << nAsserts << ", \"asserts_symbolic\": " << nAssertSym << ",\n";
  o << " \"assume_killed\": " << nAssumeKilled << ", \"error_paths\": " << nErrPaths << ", \"pending\": " << work.size() << ",\n";
  o << " \"queries\": " << gSolver.queries << ", \"sat\": " << gSolver.sat << ", \"unsat\": " << gSolver.unsat << ", \"unknown\": " << gSolver.unknown
    << ", \"cache_hits\": " << gSolver.cacheHits << ", \"model_hits\": " << gSolver.modelHits << ",\n";
  o << " \"solver_s\": " << gSolver.time << ", \"solver_max_s\": " << gSolver.maxTime << ", \"wall_s\": " << elapsed() << ",\n";
  auto mp = [&](const char *n, std::map<std::string, uint64_t> &m) {
    o << " \"" << n << "\": {";
    bool first = true;
    for (auto &p : m) { o << (first ? "" : ", ") << "\"" << jsonEsc(p.first) << "\": " << p.second; first = false; }
    o << "},\n";
  };
  mp("covers", covers); mp("unsupported", unsupported); mp("incomplete", incompleteWhy);
  o << " \"functions\": [";
  bool first = true;
  std::set<std::string> fs;
  for (auto &p : finfos) if (p.second->executed && p.second->inRepo) fs.insert(dem(p.second->name));
  for (auto &x : fs) { o << (first ? "" : ", ") << "\"" << jsonEsc(x.size() > 200 ? x.substr(0, 200) : x) << "\""; first = false; }
  o << "],\n \"races\": [";
  first = true;
  for (auto &p : races) {
    Site &x = sites[p.first.first], &y = sites[p.first.second];
    o << (first ? "" : ",") << "\n  {\"key\": \"" << jsonEsc(x.loc + " / " + y.loc) << "\", \"count\": " << p.second << ", \"instrs\": [\"" << jsonEsc(x.f->name) << "\\t" << x.ord << "\", \"" << jsonEsc(y.f->name) << "\\t" << y.ord << "\"]}";
    first = false;
  }
  o << "],\n \"samples\": [";
  first = true;
  for (auto &x : samplePaths) { o << (first ? "" : ", ") << "\"" << jsonEsc(x) << "\""; first = false; }
  o << "],\n \"violations\": [";
  first = true;
  for (auto &v : violations) {
    o << (first ? "" : ",") << "\n  {\"kind\": \"" << jsonEsc(v.kind) << "\", \"msg\": \"" << jsonEsc(v.msg) << "\", \"where\": \"" << jsonEsc(v.where) << "\", \"cex\": \"" << jsonEsc(v.cex) << "\", \"stack\": [";
    bool f2 = true;
    for (auto &x : v.stack) { o << (f2 ? "" : ", ") << "\"" << jsonEsc(x) << "\""; f2 = false; }
    o << "]}";
    first = false;
  }
  o << "]\n}\n";
  if (optOut.empty()) fputs(o.str().c_str(), stdout);
  else { std::ofstream f(optOut); f << o.str(); f.close(); }
  fflush(stdout);
  if (kidFail) _exit(3);
  if (!violations.empty()) _exit(1);
  if (!unsupported.empty()) _exit(2);
  _exit(0);
}
