// A02: identifiers are unique and never the invalid one, from any number of threads.
#include "rt/sym.h"
#include <set>
#include <thread>
#include <vector>
#include "maf/messaging/client-server/RegID.h"
#include "maf/utils/IDManager.h"
using namespace maf::util;
using namespace maf::messaging;
// every identifier of a small type is handed out once before any is repeated, the invalid one never, also beyond wrap-around
SYM_ENTRY a02_all() {
  IDManagerT<uint8_t> m;
  bool seen[256] = {};
  for (int round = 0; round < 3; round++) {
    for (auto &s : seen) s = false;
    for (int i = 0; i < 255; i++) {
      uint8_t id = m.allocateNewID();
      sym_assert(id != IDManagerT<uint8_t>::INVALID_ID && m.isValidID(id), "an identifier handed out is valid");
      sym_assert(!seen[id], "an identifier handed out is not in use");
      seen[id] = true;
    }
  }
  sym_assert(!m.isValidID((uint8_t)-1), "the invalid identifier is invalid");
  sym_cover("end");
}
// requests and returns in any order: an identifier still in use is never handed out again
SYM_ENTRY a02_history() {
  IDManager m;
  std::set<uint64_t> used;
  std::vector<uint64_t> held;
  uint64_t ops = sym_cfg("ops", 5);
  for (uint64_t k = 0; k < ops; k++) {
    if (held.empty() || sym_choice(2, "op") == 0) {
      uint64_t id = m.allocateNewID();
      sym_assert(IDManager::isValidID(id), "an identifier handed out is valid");
      sym_assert(used.insert(id).second, "an identifier handed out is not in use");
      held.push_back(id);
    } else {
      size_t i = sym_choice(held.size(), "which");
      m.reclaimUsedID(held[i]);
      used.erase(held[i]);
      held.erase(held.begin() + i);
    }
  }
  uint64_t any = sym_u64("any");
  sym_assert(IDManager::isValidID(any) == (any != (uint64_t)-1), "only the reserved value is invalid");
  sym_cover("end");
}
template <class M> void race(int per) {
  rt_set_preempt((int)sym_cfg("preempt", 3));
  M m;
  typename M::IDType got[3][4] = {};
  std::vector<std::thread> t;
  for (int k = 0; k < 2; k++) t.emplace_back([&, k] { for (int i = 0; i < per; i++) { got[k][i] = m.allocateNewID(); if (i == 0 && k == 1) m.reclaimUsedID(got[k][i]); } });
  for (int i = 0; i < per; i++) got[2][i] = m.allocateNewID();
  for (auto &x : t) x.join();
  for (int a = 0; a < 3 * per; a++) {
    auto x = got[a / per][a % per];
    sym_assert(M::isValidID(x), "an identifier handed out is valid");
    for (int b = a + 1; b < 3 * per; b++)
      if (!(a / per == 1 && a % per == 0) && !(b / per == 1 && b % per == 0))   // that one was given back
        sym_assert(x != got[b / per][b % per], "two threads never get the same identifier");
  }
  sym_cover("end");
}
// from every state the manager can be in (its counter is any value), on one thread and on two
template <class M> void anyState(int n, bool threads) {
  M m;
  if (sizeof(M) == sizeof(typename M::IDType)) sym_bytes((void *)&m, sizeof m, "state");
  typename M::IDType got[4] = {};
  if (threads) {
    rt_set_preempt((int)sym_cfg("preempt", 3));
    std::thread t([&] { for (int i = 0; i < n / 2; i++) got[i] = m.allocateNewID(); });
    for (int i = n / 2; i < n; i++) got[i] = m.allocateNewID();
    t.join();
  } else for (int i = 0; i < n; i++) got[i] = m.allocateNewID();
  for (int a = 0; a < n; a++) {
    sym_assert(M::isValidID(got[a]) && got[a] != M::INVALID_ID, "an identifier handed out is valid");
    for (int b = 0; b < a; b++) sym_assert(got[a] != got[b], "an identifier handed out is not in use");
  }
}
SYM_ENTRY a02_any() {
  switch (sym_choice(4, "type")) {
    case 0: anyState<IDManager>(4, false); break;
    case 1: anyState<IDManagerT<uint8_t>>(4, false); break;
    case 2: anyState<IDManagerT<uint16_t>>(4, false); break;
    case 3: anyState<IDManagerT<uint32_t>>(4, false); break;
  }
  sym_cover("end");
}
SYM_ENTRY a02_any_threads() { if (sym_choice(2, "type")) anyState<IDManager>(4, true); else anyState<IDManagerT<uint8_t>>(4, true); sym_cover("end"); }
SYM_ENTRY a02_threads() { race<IDManager>(2); }
SYM_ENTRY a02_threads_wrap() {   // around the reserved value
  rt_set_preempt((int)sym_cfg("preempt", 3));
  IDManagerT<uint8_t> m;
  for (int i = 0; i < 253; i++) m.allocateNewID();
  uint8_t got[4] = {};
  std::thread t([&] { got[0] = m.allocateNewID(); got[1] = m.allocateNewID(); });
  got[2] = m.allocateNewID();
  got[3] = m.allocateNewID();
  t.join();
  for (int a = 0; a < 4; a++) {
    sym_assert(m.isValidID(got[a]), "an identifier handed out is valid");
    for (int b = 0; b < a; b++) sym_assert(got[a] != got[b], "two threads never get the same identifier");
  }
  sym_cover("end");
}
// registration identifiers take their number from the manager
SYM_ENTRY a02_regid() {
  CSIDManager m;
  RegID a, b, c;
  a.opID = b.opID = c.opID = "op";
  sym_assert(!a.valid(), "an identifier without a number is invalid");
  RegID::allocateUniqueID(a, m);
  RegID::allocateUniqueID(b, m);
  sym_assert(a.valid() && b.valid() && a.requestID != b.requestID, "registrations get different valid numbers");
  RegID::reclaimID(a, m);
  RegID::allocateUniqueID(c, m);
  sym_assert(c.valid() && c.requestID != b.requestID, "a number still in use is not handed out again");
  sym_cover("end");
}
