// Q01: a thread-safe queue delivers every accepted element exactly once, in order (or by priority).
#include "rt/sym.h"
#include <deque>
#include <thread>
#include <vector>
#include "maf/threading/Queue.h"
using namespace maf::threading;
// one thread: every operation against a reference queue
SYM_ENTRY q01_model() {
  Queue<uint32_t> q;
  std::deque<uint32_t> ref;
  bool closed = false;
  uint64_t ops = sym_cfg("ops", 4);
  for (uint64_t k = 0; k < ops; k++) {
    switch (sym_choice(9, "op")) {
      case 0: { const uint32_t v = sym_u32("v"); q.push(v); if (!closed) ref.push_back(v); break; }
      case 1: { uint32_t v = sym_u32("v"); q.push(std::move(v)); if (!closed) ref.push_back(v); break; }
      case 2: {
        std::vector<uint32_t> s(sym_len(2, "n"));
        for (auto &v : s) v = sym_u32("v");
        q.push(s);
        if (!closed) for (auto v : s) ref.push_back(v);
        sym_cover("sequence");
        break;
      }
      case 3: {
        uint32_t v = 77;
        bool ok = q.tryPop(v);
        sym_assert(ok == (!ref.empty() && !closed), "an element is handed out exactly when there is one");
        if (ok) { sym_assert(v == ref.front(), "elements leave in the order they entered"); ref.pop_front(); sym_cover("pop"); }
        break;
      }
      case 4: {
        uint32_t v = 77;
        int64_t t0 = rt_now();
        bool ok = q.waitFor(v, 5ll);
        sym_assert(ok == (!ref.empty() && !closed), "a timed wait hands out an element exactly when there is one");
        if (ok) { sym_assert(v == ref.front(), "elements leave in the order they entered"); ref.pop_front(); sym_cover("waitpop"); }
        else if (!closed) { sym_assert(rt_now() - t0 >= 5000000, "a timed wait lasts its full interval when nothing arrives"); sym_cover("timeout"); }
        else sym_assert(rt_now() == t0, "a wait on a closed queue returns at once");
        break;
      }
      case 5: {
        std::vector<uint32_t> got;
        if (sym_choice(2, "cb")) {
          q.clear([&](uint32_t &v) { got.push_back(v); });
          sym_assert(got.size() == ref.size(), "clearing hands every element to the callback");
          for (size_t i = 0; i < got.size() && i < ref.size(); i++) sym_assert(got[i] == ref[i], "clearing hands over the elements in order");
        } else q.clear();
        ref.clear();
        break;
      }
      case 6: q.close(); closed = true; sym_cover("closed"); break;
      case 7: q.reOpen(); closed = false; break;
      default: {
        uint32_t v = 77;
        if (!ref.empty() || closed) {
          bool ok = q.wait(v);
          sym_assert(ok == !closed, "waiting succeeds exactly on an open queue");
          if (ok) { sym_assert(v == ref.front(), "elements leave in the order they entered"); ref.pop_front(); }
        } else {
          bool ok = q.waitUntil(v, std::chrono::steady_clock::now() + std::chrono::milliseconds(3));
          sym_assert(!ok, "nothing is handed out of an empty queue");
        }
      }
    }
    sym_assert(q.size() == ref.size() && q.empty() == ref.empty(), "the reported size is the number of elements");
    sym_assert(q.isClosed() == closed, "closed state");
  }
}
struct Item { uint8_t prio; uint8_t id; };
static bool operator<(const Item &a, const Item &b) { return a.prio < b.prio; }
SYM_ENTRY q01_priority() {
  PriorityQueue<Item> q;
  std::vector<Item> ref;
  uint64_t ops = sym_cfg("ops", 5);
  uint8_t next = 0;
  for (uint64_t k = 0; k < ops; k++) {
    if (sym_choice(2, "op") == 0) { Item i{sym_u8("prio"), next++}; q.push(i); ref.push_back(i); }
    else {
      Item v{0, 99};
      bool ok = sym_choice(2, "how") ? q.tryPop(v) : q.waitFor(v, 1ll);
      sym_assert(ok == !ref.empty(), "an element is handed out exactly when there is one");
      if (ok) {
        bool known = false;
        for (auto &r : ref) {
          sym_assert(!(v.prio < r.prio), "the element with the highest priority leaves first");
          if (r.id == v.id) { known = true; sym_assert(r.prio == v.prio, "elements keep their value"); }
        }
        sym_assert(known, "every element leaves once");
        for (size_t i = 0; i < ref.size(); i++) if (ref[i].id == v.id) { ref.erase(ref.begin() + i); break; }
        sym_cover("pop");
      }
    }
    sym_assert(q.size() == ref.size(), "the reported size is the number of elements");
  }
}
// two producers, consumers in parallel
static void concurrent(int consumers, bool seq) {
  rt_set_preempt((int)sym_cfg("preempt", 2));
  Queue<uint8_t> q;
  int per = (int)sym_cfg("per", 2);
  uint8_t base[2] = {sym_u8("a"), sym_u8("b")};
  sym_assume((uint8_t)(base[0] & 3) == 0 && (uint8_t)(base[1] & 3) == 0 && base[0] != base[1]);
  std::vector<uint8_t> got[2];
  std::vector<std::thread> t;
  for (int p = 0; p < 2; p++)
    t.emplace_back([&, p] {
      if (seq && p == 0) { std::vector<uint8_t> s; for (int i = 0; i < per; i++) s.push_back(base[p] + i); q.push(s); }
      else for (int i = 0; i < per; i++) q.push((uint8_t)(base[p] + i));
    });
  int total = 2 * per;
  if (consumers == 1) {
    for (int i = 0; i < total; i++) { uint8_t v = 0; sym_assert(q.wait(v), "waiting on an open queue succeeds"); got[0].push_back(v); }
  } else {
    t.emplace_back([&] { for (int i = 0; i < per; i++) { uint8_t v = 0; sym_assert(q.wait(v), "waiting on an open queue succeeds"); got[1].push_back(v); } });
    for (int i = 0; i < per; i++) { uint8_t v = 0; sym_assert(q.wait(v), "waiting on an open queue succeeds"); got[0].push_back(v); }
  }
  for (auto &x : t) x.join();
  sym_assert(q.empty() && q.size() == 0, "nothing is left over");
  for (int p = 0; p < 2; p++)
    for (int i = 0; i < per; i++) {
      int n = 0;
      for (auto &g : got) for (auto v : g) if (v == (uint8_t)(base[p] + i)) n++;
      sym_assert(n == 1, "every element is handed out exactly once");
    }
  for (auto &g : got)
    for (size_t i = 0; i < g.size(); i++)
      for (size_t j = i + 1; j < g.size(); j++)
        if ((g[i] & 0xfc) == (g[j] & 0xfc)) sym_assert(g[i] < g[j], "elements of one producer leave in the order they entered");
  sym_cover("end");
}
SYM_ENTRY q01_spsc() { concurrent(1, false); }
SYM_ENTRY q01_two_consumers() { concurrent(2, false); }
SYM_ENTRY q01_sequence_push() { concurrent(2, true); }
// a timed wait meets a late producer
SYM_ENTRY q01_timed() {
  rt_set_preempt((int)sym_cfg("preempt", 2));
  rt_set_timejump(1);
  rt_set_spurious(1);
  Queue<uint8_t> q;
  bool pushed = false;
  std::thread t([&] { q.push((uint8_t)9); pushed = true; });
  uint8_t v = 0;
  int64_t t0 = rt_now();
  int how = (int)sym_choice(3, "how");
  bool ok = how == 0 ? q.waitFor(v, 10ll) : how == 1 ? q.waitFor(v, std::chrono::milliseconds(10)) : q.waitUntil(v, std::chrono::steady_clock::now() + std::chrono::milliseconds(10));
  if (ok) { sym_assert(v == 9 && q.empty(), "the element is handed out"); sym_cover("got"); }
  else { sym_assert(rt_now() - t0 >= 10000000, "a timed wait gives up only after its interval"); sym_cover("gave up"); }
  t.join();
  uint8_t w = 0;
  sym_assert(q.tryPop(w) == !ok && (ok || w == 9), "the element is handed out exactly once");
}
