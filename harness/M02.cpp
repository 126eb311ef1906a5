// M02: stopping a processor is prompt, final and never blocks forever.
#include "rt/sym.h"
#include <functional>
#include <memory>
#include <thread>
#include <vector>
#include "maf/messaging/ProcessorEx.h"
#include "maf/messaging/Routing.h"
using namespace maf::messaging;
using ms = std::chrono::milliseconds;
struct Msg { uint32_t v; };
// stop racing with start, posting and waiting; from another thread (possibly twice) or from inside
SYM_ENTRY m02_race() {
  rt_set_preempt((int)sym_cfg("preempt", 2));
  auto p = Processor::create(sym_choice(2, "name") ? "me" : "");
  int ran = 0, inside = (int)sym_choice(2, "inside");
  bool stopped = false, gone = false;
  int late = 0;
  auto ex = [&] { if (stopped) late++; sym_assert(!gone, "nothing runs after the run call returned"); ran++; rt_yield("execution"); };
  std::thread run([&] { p->run(); gone = true; });
  std::thread poster([&] {
    int a = 0;
    for (int i = 0; i < 2; i++) a += p->executeAsync(ex);
    auto s = p->waitableExecute(ex);
    if (s.valid()) s.wait();
  });
  if (inside) p->executeAsync([&] { p->stop(); sym_assert(!this_processor::executeAsync(ex), "posting to a stopped processor is refused"); });
  else {
    std::thread twice;
    if (sym_choice(2, "twice")) twice = std::thread([&] { p->stop(); });
    p->stop();
    stopped = true;
    if (twice.joinable()) twice.join();
    sym_assert(p->stopped() && !p->executeAsync(ex) && !p->execute(ex) && !p->waitableExecute(std::function<void()>(ex)).valid() && !p->getAsyncExecutor()->execute(ex) && !p->getExecutor()->execute(ex) && !p->getBlockingExecutor()->execute(ex) && !p->post<Msg>(Msg{1}) && !p->waitablePost<Msg>(Msg{1}).valid(), "posting to a stopped processor is refused");
  }
  run.join();
  poster.join();
  sym_assert(late <= 1, "a stopped processor takes no further execution");
  sym_assert(ran <= 3, "no execution runs twice");
  sym_assert(p->pendingCout() == 0, "a stopped processor holds no executions");
  sym_cover(ran == 0 ? "none ran" : ran == 3 ? "all ran" : "some ran");
}
// stop before the run starts: the run returns at once
SYM_ENTRY m02_before() {
  rt_set_preempt((int)sym_cfg("preempt", 2));
  int ran = 0;
  AsyncProcessor p;
  bool pre = sym_choice(2, "pre");
  p->executeAsync([&] { ran++; });
  if (pre) p->stop();
  int init = 0, deinit = 0;
  p.launch([&] { init++; }, [&] { deinit++; });
  if (sym_choice(2, "destroy")) { AsyncProcessor q(std::move(p)); }
  else { p.stopAndWait(); if (sym_choice(2, "again")) p.stopAndWait(); sym_assert(!p.running() && p->stopped(), "stopped"); }
  sym_assert(rt_live_threads() == 0, "stopping ends the processor's thread");
  sym_assert(pre ? ran == 0 : ran <= 1, "a stopped processor starts no execution");
  sym_assert(init == 1 && deinit == 1, "thread functions run once each");
  sym_cover(ran ? "ran" : "did not run");
}
// threads waiting for results of executions that can no longer run
SYM_ENTRY m02_waiters() {
  rt_set_preempt((int)sym_cfg("preempt", 2));
  auto p = Processor::create();
  auto con = p->connect<Msg>([](const Msg &) {});
  bool gate = sym_choice(2, "running");
  int done[3] = {}, ran = 0;
  std::thread run;
  if (gate) run = std::thread([&] { p->run(); });
  std::thread w1([&] { auto s = p->waitableExecute([&] { ran++; }); if (s.valid()) { s.wait(); } done[0] = 1; });
  std::thread w2([&] { if (sym_choice(2, "kind")) { auto s = p->waitablePost<Msg>(Msg{1}); if (s.valid()) s.wait(); } else { bool ok = p->getBlockingExecutor()->execute([&] { done[2] = 1; }); sym_assert(ok == (done[2] == 1), "the blocking executor reports whether the execution ran"); } done[1] = 1; });
  p->stop();
  w1.join();
  w2.join();
  if (gate) run.join();
  sym_assert(done[0] && done[1], "waiters are released");
  sym_assert(ran <= 1 && (gate || ran == 0), "nothing runs without a run call");
  sym_cover("end");
}
// stopping from inside the execution another thread waits for; a processor can be used again
SYM_ENTRY m02_inside_wait() {
  rt_set_preempt((int)sym_cfg("preempt", 2));
  auto p = Processor::create();
  std::thread run([&] { p->run(); });
  int ran = 0;
  std::thread second([&] { auto s = p->waitableExecute([&] { ran++; }); if (s.valid()) s.wait(); });
  auto s = p->waitableExecute([&] { this_processor::stop(); ran += 10; });
  if (s.valid()) { s.get(); sym_assert(ran >= 10, "the execution that stops is completed"); }
  run.join();
  second.join();
  sym_assert(p->stopped() && rt_live_threads() == 0, "stopped");
  p->reuse();
  sym_assert(!p->stopped() && p->executeAsync([&] { ran = 100; p->stop(); }), "a reused processor accepts executions");
  p->run();
  sym_assert(ran == 100, "and runs them");
  sym_cover("end");
}
// timed runs end when stopped
SYM_ENTRY m02_timed() {
  rt_set_preempt((int)sym_cfg("preempt", 2));
  auto p = Processor::create();
  int kind = (int)sym_choice(3, "kind");
  int64_t t0 = rt_now();
  std::thread run([&] { if (kind == 0) p->runFor(std::chrono::hours(1)); else if (kind == 1) p->runOnceFor(std::chrono::hours(1)); else p->runUntil(std::chrono::system_clock::now() + std::chrono::hours(1)); });
  p->stop();
  run.join();
  sym_assert(rt_now() == t0, "a timed run returns as soon as its processor is stopped");
  sym_cover("end");
}
// what dropped executions own may use the processor when it goes away
SYM_ENTRY m02_drop() {
  auto p = Processor::create();
  int gone = 0, ran = 0;
  struct Own { Processor *p; int *gone, *ran; ~Own() { if (!p) return; (*gone)++; p->stop(); sym_assert(!p->executeAsync([r = ran] { (*r)++; }), "posting to a stopped processor is refused"); p->pendingCout(); } Own(Processor *q, int *g, int *r) : p(q), gone(g), ran(r) {} Own(Own &&o) : p(o.p), gone(o.gone), ran(o.ran) { o.p = nullptr; } };
  auto own = std::make_shared<Own>(p.get(), &gone, &ran);
  p->executeAsync([own = std::move(own)] {});
  p->executeAsync([&] { ran++; });
  p->stop();
  sym_assert(gone == 1 && ran == 0, "dropped executions are destroyed, not run");
  p->run();
  sym_assert(ran == 0, "nothing runs after the stop");
  sym_cover("end");
}
