// C02: a stopped timer stays silent, until it is started anew.
#include "C01.h"
// one timer, due or not, meets: busy executions, stop, destruction, restart, a new start, in any order and at any time
SYM_ENTRY c02_silent() {
  rt_set_preempt(0);
  World w;
  w.acts = 0;
  int k = (int)sym_cfg("timers", 2), ops = (int)sym_cfg("ops", 2);
  bool cyc = sym_choice(2, "cyclic") != 0;
  for (int i = 0; i < k; i++) w.add(i == 0 && cyc);
  std::thread run([&] { w.worker = std::this_thread::get_id(); w.p->run(); });
  w.on([&] { for (int i = k; i--;) w.start(i); });
  for (int o = 0; o < ops; o++) {
    std::this_thread::sleep_for(ms(w.interval("gap", false)));
    static const int kind[] = {StopSelf, Destroy, RestartSelf, StartSelf};
    bool busy = sym_choice(2, "busy") != 0;
    int a = kind[sym_choice(4, "op")];
    w.on([&w, a, busy] { if (busy) w.busy(); if (a == Destroy) w.destroy(0); else w.doAct(a, 0, 0); });
  }
  rt_wait_quiescent();
  std::this_thread::sleep_for(ms(w.maxMs + 1));
  rt_wait_quiescent();
  bool ended = false;
  w.on([&] {
    w.check();
    for (int i = 0; i < k; i++) w.destroy(i);
    ended = true;
  });
  rt_wait_quiescent();
  sym_assert(ended, "the processor goes on");
  std::this_thread::sleep_for(ms(w.maxMs + 1));   // nothing fires any more (asserted by the callback)
  rt_wait_quiescent();
  w.p->stop();
  run.join();
  sym_cover("end");
}
// stopped, destroyed or restarted by the callback of another timer that is due at the same time or earlier, or by its own
SYM_ENTRY c02_in_callback() {
  rt_set_preempt(0);
  World w;
  int k = (int)sym_cfg("timers", 2);
  w.acts = 1;
  w.kinds = {StopSelf, StopOther, RestartSelf, RestartOther, Destroy, DestroySelf};
  int cyc = (int)sym_choice(k + 1, "cyclic");
  for (int i = 0; i < k; i++) w.add(i + 1 == cyc);
  std::thread run([&] { w.worker = std::this_thread::get_id(); w.p->run(); });
  w.on([&] { for (int i = 0; i < k; i++) w.start(i); if (sym_choice(2, "busy")) w.busy(); });
  std::this_thread::sleep_for(ms(2 * w.maxMs + 1));
  rt_wait_quiescent();
  w.on([&] { w.check(); for (int i = 0; i < k; i++) w.destroy(i); });
  std::this_thread::sleep_for(ms(w.maxMs + 1));
  rt_wait_quiescent();
  w.p->stop();
  run.join();
  sym_cover("end");
}
// stopping on behalf of the processor from another thread; a restarted timer waits a full interval; one never started stays silent
SYM_ENTRY c02_ways() {
  rt_set_preempt(1);
  World w;
  std::thread run([&] { w.worker = std::this_thread::get_id(); w.p->run(); });
  int way = (int)sym_choice(5, "way"), fired = 0;
  int64_t d = w.interval("interval", false), gap = w.interval("gap", false), from = 0;
  bool silent = false, ended = false;
  auto t = std::make_unique<Timer>();
  auto st = std::make_unique<SignalTimer>();
  auto cb = [&] {
    sym_assert(!silent, "a stopped timer stays silent");
    sym_assert(rt_now() >= from + d * MS, "a timer does not fire before its interval has elapsed");
    fired++;
  };
  st->timeoutSignal.connect(cb);
  if (way < 4) w.on([&] { from = rt_now(); if (way == 2 || way == 3) st->start(d); else t->start(d, cb); });
  std::this_thread::sleep_for(ms(gap));
  switch (way) {
    case 0: t->stop(w.p); w.on([&] { silent = true; sym_assert(!t->running(), "a stopped timer is not running"); }); break;
    case 1: w.on([&] { t->stop(); t->stop(); silent = true; sym_assert(!t->running(), "a stopped timer is not running"); }); break;
    case 2: w.on([&] { if (sym_choice(2, "destroy")) st.reset(); else { st->stop(); sym_assert(!st->running(), "a stopped timer is not running"); } silent = true; }); break;
    case 3: w.on([&] { from = rt_now(); fired = 0; st->restart(); sym_assert(st->running(), "a restarted timer is running"); }); break;
    case 4: w.on([&] { silent = true; t->restart(); st->stop(); t->stop(); sym_assert(!t->running() && !st->running(), "a timer never started is not running"); }); break;
  }
  std::this_thread::sleep_for(ms(2 * w.maxMs));
  rt_wait_quiescent();
  w.on([&] { if (way == 3) sym_assert(fired == 1, "a restarted timer fires"); t.reset(); st.reset(); ended = true; });
  rt_wait_quiescent();
  sym_assert(ended, "the processor goes on");
  w.p->stop();
  run.join();
  sym_cover("end");
}
