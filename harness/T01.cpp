// T01: thread pools run every accepted task exactly once and shut down cleanly.
#include "rt/sym.h"
#include <condition_variable>
#include <functional>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>
#include "maf/threading/Runnable.h"
#include "maf/threading/ThreadPoolFactory.h"
using namespace maf::threading;
struct Log {
  int started[8] = {}, stopped[8] = {}, ended[8] = {}, deleted[8] = {};
  std::vector<int> order;
  std::thread::id owner;
  bool isOpen = false;   // tasks with a gate wait until it opens
  std::mutex m;
  std::condition_variable cv;
  void open() { std::lock_guard k(m); isOpen = true; cv.notify_all(); }
  void pass() { std::unique_lock k(m); cv.wait(k, [&] { return isOpen; }); }
  bool down = false;
  int running = 0;
};
struct Task : Runnable {
  Log &l;
  int id;
  bool gated;
  std::function<void()> body;
  Task(Log &l_, int i, bool ad, bool g = false, std::function<void()> b = {}) : l(l_), id(i), gated(g), body(std::move(b)) { if (sym_cfg("setdelete", 1)) setAutoDeleted(ad); }
  ~Task() override { l.deleted[id]++; }
  void run() override {
    sym_assert(!l.down, "no task starts after the shutdown returned");
    sym_assert(l.deleted[id] == 0, "a task is not deleted before it ran");
    l.started[id]++;
    l.running++;
    l.order.push_back(id);
    sym_assert(std::this_thread::get_id() != l.owner, "a task runs on a pool thread");
    rt_yield("task");
    if (gated) l.pass();
    if (body) body();
    rt_yield("task");
    l.running--;
    l.ended[id]++;
  }
  void stop() override { l.stopped[id]++; l.open(); sym_assert(l.deleted[id] == 0, "a deleted task is not stopped"); }
};
static std::shared_ptr<IThreadPool> make(unsigned n) {
  static const PoolType types[] = {StableCount, Priority, DynamicCount};
  return ThreadPoolFactory::createPool(types[sym_choice(3, "type")], n);
}
// tasks from two threads; wait for them; then shut down
static void exactlyOnce(unsigned size, bool two) {
  rt_set_preempt((int)sym_cfg("preempt", 1));
  Log l;
  l.owner = std::this_thread::get_id();
  int n = 3;
  std::vector<std::unique_ptr<Task>> keep;
  {
    auto p = make(size);
    bool ad = two ? true : sym_choice(2, "autodelete");
    std::vector<Task *> t;
    for (int i = 0; i < n; i++) { t.push_back(new Task(l, i, ad)); if (!ad) keep.emplace_back(t.back()); }
    std::thread other;
    if (two) other = std::thread([&] { p->run(t[1], 1); p->run(t[2], 2); });
    else { p->run(t[1], 2); p->run(t[2], 1); }
    p->run(t[0], 1);
    if (two) other.join();
    rt_wait_quiescent();        // workers have nothing left to do
    for (int i = 0; i < n; i++) {
      sym_assert(l.started[i] == 1 && l.ended[i] == 1, "every accepted task runs exactly once");
      sym_assert(l.deleted[i] == (ad ? 1 : 0), "a task that deletes itself is deleted once, others are left alone");
      sym_assert(l.stopped[i] == 0, "a finished task is not stopped");
    }
    sym_assert(p->activeThreadCount() >= 1 && p->activeThreadCount() <= size, "the pool does not exceed its size");
    if (size == 1 && !two) sym_assert(l.running == 0, "one at a time");
    if (sym_choice(2, "explicit")) { p->shutdown(); l.down = true; if (sym_choice(2, "twice")) p->shutdown(); }
  }
  l.down = true;
  sym_assert(rt_live_threads() == 0, "shutting down ends every pool thread");
  sym_cover("end");
}
SYM_ENTRY t01_one_thread() { exactlyOnce(1, false); }
SYM_ENTRY t01_two_threads() { exactlyOnce(2, false); }
SYM_ENTRY t01_two_submitters() { exactlyOnce(2, true); }
// waiting tasks start in priority order (equal priorities in any order)
SYM_ENTRY t01_priority() {
  rt_set_preempt((int)sym_cfg("preempt", 1));
  Log l;
  auto p = ThreadPoolFactory::createPool(Priority, 1);
  unsigned pr[4] = {0, sym_u32("p1"), sym_u32("p2"), sym_u32("p3")};
  Task a(l, 0, false, true), b(l, 1, false), c(l, 2, false), d(l, 3, false);
  p->run(&a, 0);
  rt_wait_quiescent();
  sym_assert(l.started[0] == 1, "a task given to an idle pool starts");
  p->run(&b, pr[1]);
  p->run(&c, pr[2]);
  p->run(&d, pr[3]);
  l.open();
  rt_wait_quiescent();
  sym_assert(l.order.size() == 4, "every accepted task runs exactly once");
  for (size_t i = 2; i < l.order.size(); i++) sym_assert(pr[l.order[i - 1]] >= pr[l.order[i]], "waiting tasks start in priority order");
  sym_cover("end");
}
// shutdown at any point: waits for the running task, drops the waiting ones, never both
SYM_ENTRY t01_shutdown() {
  rt_set_preempt((int)sym_cfg("preempt", 2));
  Log l;
  l.owner = std::this_thread::get_id();
  int n = 3;
  {
    auto p = make(1);
    for (int i = 0; i < n; i++) p->run(new Task(l, i, true), 1);
    p->shutdown();
    l.down = true;
    sym_assert(l.running == 0, "shutting down waits for the running task");
    sym_assert(rt_live_threads() == 0, "shutting down ends every pool thread");
  }
  int ran = 0;
  for (int i = 0; i < n; i++) {
    sym_assert(l.started[i] <= 1 && l.ended[i] == l.started[i], "a task runs at most once and to its end");
    sym_assert(l.deleted[i] == 1, "every task that deletes itself is deleted once, run or not");
    ran += l.started[i];
  }
  sym_cover(ran == 0 ? "none ran" : ran == n ? "all ran" : "some ran");
}
// a task that waits for its stop notice lets the shutdown finish
SYM_ENTRY t01_stop_notice() {
  rt_set_preempt((int)sym_cfg("preempt", 1));
  Log l;
  auto p = make(1);
  Task a(l, 0, false, true), b(l, 1, false);
  p->run(&a, 1);
  rt_wait_quiescent();
  p->run(&b, 1);
  sym_assert(l.started[0] == 1, "a task given to an idle pool starts");
  p->shutdown();
  l.down = true;
  sym_assert(l.stopped[0] == 1 && l.ended[0] == 1, "a running task is told to stop and waited for");
  sym_assert(l.deleted[0] == 0 && l.deleted[1] == 0, "tasks owned by the caller are left alone");
  sym_cover("end");
}
// the same when the shutdown comes while the task is just being taken: it either runs and is told to stop, or never starts
SYM_ENTRY t01_stop_race() {
  rt_set_preempt((int)sym_cfg("preempt", 2));
  Log l;
  auto p = make(1);
  Task a(l, 0, false, true);
  p->run(&a, 1);
  p->shutdown();
  l.down = true;
  sym_assert(l.ended[0] == l.started[0] && l.stopped[0] == l.started[0], "a task that runs into a shutdown is told to stop and waited for");
  sym_cover(l.started[0] ? "ran" : "dropped");
}
// submissions racing with a shutdown, and after it
SYM_ENTRY t01_submit_shutdown() {
  rt_set_preempt((int)sym_cfg("preempt", 2));
  Log l;
  {
    auto p = make(2);
    Task a(l, 0, false), b(l, 1, false), c(l, 2, false);
    std::thread o([&] { p->run(&a, 1); p->run(&b, 2); });
    p->shutdown();
    o.join();
    int s = l.started[0] + l.started[1];
    l.down = true;
    p->run(&c, 1);
    rt_wait_quiescent();
    sym_assert(l.started[2] == 0, "a task given to a pool that is down does not run");
    sym_assert(l.started[0] + l.started[1] == s && l.running == 0, "no task starts after the shutdown");
    sym_assert(l.started[0] <= 1 && l.started[1] <= 1, "a task runs at most once");
    p.reset();
    sym_assert(rt_live_threads() == 0, "destroying the pool ends every pool thread");
  }
  sym_cover("end");
}
// tasks that submit tasks
SYM_ENTRY t01_nested() {
  rt_set_preempt((int)sym_cfg("preempt", 1));
  Log l;
  auto p = make(2);
  Task b(l, 1, false), c(l, 2, false);
  Task a(l, 0, false, false, [&] { p->run(&b, 3); });
  p->run(&a, 1);
  p->run(&c, 1);
  rt_wait_quiescent();
  for (int i = 0; i < 3; i++) sym_assert(l.started[i] == 1 && l.ended[i] == 1, "every accepted task runs exactly once");
  p->run(nullptr, 1);
  rt_wait_quiescent();
  p->shutdown();
  sym_cover("end");
}
// whether a task deletes itself is not left to chance
SYM_ENTRY t01_default_delete() {
  struct R : Runnable { int *n, *d; void run() override { (*n)++; } ~R() override { (*d)++; } };
  int n = 0, d = 0;
  alignas(R) char mem[sizeof(R)];
  sym_bytes(mem, sizeof mem, "garbage");
  {
    auto p = make(1);
    R *r = new (mem) R;
    r->n = &n;
    r->d = &d;
    p->run(r, 1);
    rt_wait_quiescent();
    sym_assert(n == 1, "every accepted task runs exactly once");
    sym_assert(d == 0, "a task is only deleted when it asked for it");
  }
  sym_cover("end");
}
// of two running tasks, of any priorities, exactly the one that has not finished is told to stop
SYM_ENTRY t01_stop_one() {
  rt_set_preempt((int)sym_cfg("preempt", 0));
  Log l[2];
  auto p = make(2);
  Task a(l[0], 0, false, true), b(l[1], 0, false, true);
  p->run(&a, sym_u32("p0"));
  p->run(&b, sym_u32("p1"));
  rt_wait_quiescent();
  sym_assert(l[0].started[0] == 1 && l[1].started[0] == 1, "as many tasks run as there are threads");
  int first = (int)sym_choice(2, "finishes");
  l[first].open();
  rt_wait_quiescent();
  sym_assert(l[first].ended[0] == 1 && l[1 - first].ended[0] == 0, "a task runs to its end");
  p->shutdown();
  sym_assert(l[first].stopped[0] == 0, "a finished task is not stopped");
  sym_assert(l[1 - first].stopped[0] == 1 && l[1 - first].ended[0] == 1, "a running task is told to stop and waited for");
  sym_cover("end");
}
// the number of threads is asked for while the pool grows
SYM_ENTRY t01_count() {
  rt_set_preempt((int)sym_cfg("preempt", 1));
  Log l;
  l.owner = std::this_thread::get_id();
  {
    auto p = ThreadPoolFactory::createPool(DynamicCount, 2);
    std::thread other([&] { for (int i = 0; i < 2; i++) p->run(new Task(l, i, true), 1); });
    unsigned before = p->activeThreadCount();
    sym_assert(before <= 2, "the pool does not exceed its size");
    sym_assert(p->activeThreadCount() >= before && p->activeThreadCount() <= 2, "the pool does not exceed its size");
    other.join();
    rt_wait_quiescent();
    for (int i = 0; i < 2; i++) sym_assert(l.started[i] == 1 && l.ended[i] == 1, "every accepted task runs exactly once");
  }
  sym_cover("end");
}
