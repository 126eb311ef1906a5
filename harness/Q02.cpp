// Q02: closing releases every waiter, in every interleaving.
#include "rt/sym.h"
#include <thread>
#include <vector>
#include "maf/threading/Queue.h"
using namespace maf::threading;
static bool waitOn(Queue<uint8_t> &q, uint8_t &v, int how) {
  switch (how) {
    case 0: return q.wait(v);
    case 1: return q.waitFor(v, 1000000ll);
    default: return q.waitUntil(v, std::chrono::steady_clock::now() + std::chrono::hours(1));
  }
}
SYM_ENTRY q02_close_wait() {
  rt_set_preempt((int)sym_cfg("preempt", 3));
  Queue<uint8_t> q;
  int how = (int)sym_choice(3, "how");
  int waiters = 1 + (int)sym_choice(2, "waiters");
  int64_t t0 = rt_now();
  bool res[2] = {};
  std::vector<std::thread> t;
  for (int i = 0; i < waiters; i++) t.emplace_back([&, i] { uint8_t v = 0; res[i] = waitOn(q, v, how); });
  q.close();
  for (auto &x : t) x.join();
  for (int i = 0; i < waiters; i++) sym_assert(!res[i], "a waiter released by closing gets no element");
  sym_assert(rt_now() == t0, "waiters are released by the close, not by their timeout");
  uint8_t v = 5;
  q.push(v);
  sym_assert(q.size() == 0, "a closed queue accepts no element");
  sym_assert(!waitOn(q, v, how) && !q.tryPop(v) && v == 5, "a closed queue hands out nothing");
  sym_cover("end");
}
// elements still inside when the queue is closed are not handed out; reopening makes them available again
SYM_ENTRY q02_reopen() {
  Queue<uint8_t> q;
  uint8_t a = sym_u8("a"), v = 0;
  q.push(a);
  q.close();
  q.push((uint8_t)(a + 1));
  sym_assert(!q.tryPop(v) && !q.wait(v) && !q.waitFor(v, 10ll) && v == 0, "a closed queue hands out nothing");
  q.close();
  q.reOpen();
  sym_assert(!q.isClosed() && q.size() == 1, "reopening keeps what was inside and nothing pushed meanwhile");
  sym_assert(q.wait(v) && v == a, "a reopened queue works");
  q.push((uint8_t)(a + 2));
  sym_assert(q.tryPop(v) && v == (uint8_t)(a + 2), "a reopened queue accepts elements");
  sym_cover("end");
}
// close, reopen and a waiter at the same time: never an element out of nothing
SYM_ENTRY q02_close_reopen_race() {
  rt_set_preempt((int)sym_cfg("preempt", 2));
  Queue<uint8_t> q;
  bool ok = false;
  uint8_t v = 77;
  std::thread t([&] { ok = q.wait(v); });
  q.close();
  q.reOpen();
  uint8_t a = sym_u8("a");
  q.push(a);
  t.join();
  sym_assert(ok ? v == a : q.size() == 1, "a waiter gets a real element or none");
  sym_cover(ok ? "got" : "released");
}
// closing while elements are pushed and consumed
SYM_ENTRY q02_close_push() {
  rt_set_preempt((int)sym_cfg("preempt", 2));
  Queue<uint8_t> q;
  int got = 0;
  uint8_t in[2] = {sym_u8("a"), sym_u8("b")};
  std::thread c([&] { uint8_t v = 0; while (q.wait(v)) { sym_assert(got < 2 && v == in[got], "elements arrive in order"); got++; } });
  std::thread p([&] { q.push(in[0]); q.push(in[1]); });
  q.close();
  c.join();
  p.join();
  sym_assert(got <= 2, "no element out of nothing");
  sym_cover(got == 2 ? "all" : got ? "some" : "none");
}
