// C03: the blocking timer waits its interval unless stopped.
#include "rt/sym.h"
#include <functional>
#include <memory>
#include <thread>
#include "maf/messaging/SyncTimer.h"
#include "maf/utils/DirectExecutor.h"
using namespace maf::messaging;
using ms = std::chrono::milliseconds;
constexpr int64_t MS = 1000000, MAXMS = 50;
static int64_t interval(const char *name, int64_t low = 0) {
  uint64_t v = sym_u16(name);
  sym_assume(v >= (uint64_t)low && v <= (uint64_t)MAXMS);
  return (int64_t)v;
}
struct Run {   // one call of start
  SyncTimer &t;
  int64_t d, began = 0, last = 0, returned = -1;
  bool cyc, began_ = false;
  int fired = 0;
  bool silent = false;   // a stop that follows the start has returned
  std::function<void()> body;
  Run(SyncTimer &t_, int64_t d_, bool c) : t(t_), d(d_), cyc(c) {}
  void go(std::shared_ptr<maf::util::ExecutorIF> ex = {}, bool asMs = false) {
    began_ = true;
    began = last = rt_now();
    auto cb = [this] {
      sym_assert(!silent, "a stopped timer stays silent");
      sym_assert(returned < 0, "the callback runs while start waits");
      sym_assert(rt_now() >= last + d * MS, "the callback does not run before the interval has elapsed");
      last = rt_now();
      sym_assert(++fired == 1 || cyc, "a single-shot timer fires once");
      if (fired > 6) sym_done();
      if (body) body();
    };
    if (asMs) t.start(ms(d), cb, ex); else t.start(d, cb, ex);
    returned = rt_now();
  }
};
// started by one thread, stopped by another at any time
SYM_ENTRY c03_stop() {
  rt_set_preempt((int)sym_cfg("preempt", 2));
  bool cyc = sym_choice(2, "cyclic") != 0, asBuilt = sym_choice(2, "ctor") != 0;
  SyncTimer t(asBuilt ? cyc : !cyc);
  if (!asBuilt) t.setCyclic(cyc);
  Run r(t, interval("interval", cyc ? MAXMS / 2 : 0), cyc);
  sym_assert(!t.running(), "a timer not started is not running");
  auto ex = sym_choice(2, "executor") ? maf::util::directExecutor() : nullptr;
  std::thread a([&] { r.go(ex); });
  int64_t gap = interval("gap");
  if (sym_choice(2, "later")) std::this_thread::sleep_for(ms(gap));
  bool was = t.running();
  int before = r.fired;
  t.stop();
  int64_t at = rt_now();
  bool tooEarly = !r.began_;
  if (was) {
    r.silent = true;
    sym_assert(!t.running(), "a stopped timer is not running");
    a.join();
    sym_assert(r.fired == before || r.returned <= at, "a stopped timer stays silent");
    sym_assert(r.returned <= at, "a stopped start returns promptly");
    if (r.fired == 0) sym_assert(at <= r.began + r.d * MS, "the callback runs once the interval has elapsed");
    sym_cover("stopped");
  } else {
    if (cyc) { rt_wait_quiescent(); t.stop(); }   // the stop came before the start
    a.join();
    if (!cyc && tooEarly) sym_assert(r.fired == 1, "a timer that is not stopped fires");
    if (!cyc && tooEarly) sym_assert(r.returned >= r.began + r.d * MS, "start waits for the interval");
    sym_cover("not stopped");
  }
  sym_assert(!t.running(), "a timer that ended is not running");
  // and it can be started again
  t.setCyclic(false);
  Run again(t, interval("interval"), false);
  again.go();
  sym_assert(again.fired == 1 && again.returned == again.began + again.d * MS, "it can be started again");
}
// nobody stops it: the callback runs exactly when the interval has elapsed, as often as asked, and may stop it
SYM_ENTRY c03_alone() {
  rt_set_preempt(0);
  bool cyc = sym_choice(2, "cyclic") != 0;
  SyncTimer t(cyc);
  Run r(t, interval("interval"), true);
  int n = 1 + (int)sym_choice(3, "times"), how = (int)sym_choice(2, "ends");
  r.body = [&] { if (r.fired >= n) { if (how) t.stop(); else t.setCyclic(false); } else if (!cyc) t.setCyclic(true); };
  auto ex = sym_choice(2, "executor") ? maf::util::directExecutor() : nullptr;
  r.go(ex, sym_choice(2, "ms"));
  sym_assert(r.fired == n, "a timer fires as often as asked");
  sym_assert(r.returned == r.began + n * r.d * MS, "start waits for the interval");
  sym_assert(!t.running(), "a timer that ended is not running");
  std::function<void()> none;
  t.start(5, none);
  sym_assert(!t.running() && rt_now() == r.returned, "an empty callback is refused");
  sym_cover("end");
}
// restarted by another thread while it waits: the interval begins anew
SYM_ENTRY c03_restart() {
  rt_set_preempt((int)sym_cfg("preempt", 1));
  bool cyc = sym_choice(2, "cyclic") != 0;
  SyncTimer t(cyc);
  t.restart();
  sym_assert(!t.running(), "a timer not started is not running");
  Run r(t, interval("interval", cyc ? 5 : 2), cyc);
  int n = 1 + (int)sym_choice(2, "times");
  auto ex = sym_choice(2, "executor") ? maf::util::directExecutor() : nullptr;
  std::thread a([&] { r.go(ex); });
  for (int i = 0; i < n; i++) {
    int64_t gap = interval("gap", 1);
    sym_assume(gap < r.d);
    std::this_thread::sleep_for(ms(gap));
    rt_wait_quiescent();
    sym_assert(r.fired == 0 && t.running(), "the callback does not run before the interval has elapsed");
    r.last = rt_now();
    t.restart();
    sym_assert(t.running(), "a restarted timer goes on running");
  }
  int64_t due = r.last + r.d * MS;
  if (!cyc) {
    a.join();
    sym_assert(r.fired == 1 && r.returned == due, "a restarted timer fires once its interval has elapsed anew");
    sym_cover("single");
  } else {
    std::this_thread::sleep_for(ms(r.d) + ms(1));
    rt_wait_quiescent();
    sym_assert(r.fired == 1 && r.last == due, "a restarted timer fires once its interval has elapsed anew");
    std::this_thread::sleep_for(ms(r.d));
    rt_wait_quiescent();
    sym_assert(r.fired == 2 && r.last == due + r.d * MS, "and it keeps its interval afterwards");
    t.stop();
    r.silent = true;
    a.join();
    sym_cover("cyclic");
  }
}
// restarted by another thread at any moment: what it had waited already does not count
SYM_ENTRY c03_restart_race() {
  rt_set_preempt((int)sym_cfg("preempt", 2));
  SyncTimer t;
  Run r(t, interval("interval", 2), false);
  int64_t gap = interval("gap", 1);
  sym_assume(gap < r.d);
  std::thread a([&] { r.go(); });
  bool was = t.running();
  rt_advance(gap * MS);
  int64_t at = rt_now();
  t.restart();
  if (was) r.last = at;
  bool early = !r.fired;
  a.join();
  sym_assert(r.fired == 1, "a timer that is not stopped fires");
  if (was && early) { sym_assert(r.returned == at + r.d * MS, "a restarted timer fires once its interval has elapsed anew"); sym_cover("restarted"); }
}
// a start by another thread takes over: the first one is stopped, then the second one
SYM_ENTRY c03_takeover() {
  rt_set_preempt((int)sym_cfg("preempt", 2));
  bool cyc = sym_cfg("cyc", 0);
  SyncTimer t(!cyc);
  t.setCyclic(cyc);
  Run r1(t, interval("interval", cyc ? MAXMS / 2 : 0), cyc), r2(t, interval("interval", cyc ? MAXMS / 2 : 0), cyc);
  std::thread a([&] { r1.go(); });
  bool w1 = false;
  std::thread b([&] {
    std::this_thread::sleep_for(ms(interval("gap")));
    w1 = t.running();
    r2.go();
  });
  if (sym_choice(2, "stop")) {
    std::this_thread::sleep_for(ms(interval("gap")));
    rt_wait_quiescent();
    bool was = t.running();
    t.stop();
    int64_t at = rt_now();
    if (was && r1.began && r2.began) {
      r1.silent = r2.silent = true;
      a.join();
      b.join();
      sym_assert(r1.returned <= at && r2.returned <= at, "a stopped start returns promptly");
      sym_cover("stopped");
      return;
    }
  }
  if (!cyc) {
    a.join();
    b.join();
    if (w1 && !r1.fired) sym_assert(r1.returned <= r2.began, "a start that was taken over returns promptly");
    sym_cover("both");
  } else {
    rt_wait_quiescent();
    std::this_thread::sleep_for(ms(MAXMS * 2));
    rt_wait_quiescent();
    sym_assert(t.running(), "running tells whether it waits");
    sym_assert((r1.returned >= 0) != (r2.returned >= 0), "only the latest start goes on");
    t.stop();
    r1.silent = r2.silent = true;
    a.join();
    b.join();
    sym_cover("both");
  }
  sym_assert(!t.running(), "a timer that ended is not running");
}
// an executor that runs the callback later, on another thread, while the timer is made cyclic
SYM_ENTRY c03_executor() {
  rt_set_preempt((int)sym_cfg("preempt", 2));
  struct Later : maf::util::ExecutorIF {
    std::function<void()> f;
    int given = 0;
    bool execute(CallbackType c) noexcept override { given++; sym_assert((bool)c, "the callback is handed over"); f = std::move(c); return true; }
  };
  auto ex = std::make_shared<Later>();
  SyncTimer t;
  int64_t d = interval("interval", MAXMS / 2), began = rt_now();
  int ran = 0;
  std::thread a([&] { t.start(d, [&] { ran++; }, ex); });
  std::this_thread::sleep_for(ms(d));
  if (sym_choice(2, "cyclic")) t.setCyclic(true);
  std::this_thread::sleep_for(ms(1));
  rt_wait_quiescent();
  sym_assert(ex->given == 1, "the callback is handed to the executor");
  ex->f();
  sym_assert(ran == 1, "the callback is handed over");
  t.stop();
  a.join();
  sym_assert(rt_now() >= began + d * MS, "start waits for the interval");
  sym_cover("end");
}
