// C01: timers fire neither early nor out of order, and as often as promised.
#include "C01.h"
// timers started in any order, then an operation at any time, a callback that does anything, time goes on
SYM_ENTRY c01_model() {
  rt_set_preempt(0);
  World w;
  int k = 1 + (int)sym_choice(sym_cfg("timers", 2), "timers");
  int cyc = (int)sym_choice(k + 1, "cyclic");   // which one is cyclic, if any
  for (int i = 0; i < k; i++) w.add(i + 1 == cyc);
  std::thread run([&] { w.worker = std::this_thread::get_id(); w.p->run(); });
  w.on([&] { for (int i = 0; i < k; i++) w.start(i); if (sym_choice(2, "busy")) w.busy(); });
  for (int o = 0, ops = (int)sym_cfg("ops", 1); o < ops; o++) {
    std::this_thread::sleep_for(ms(w.interval("gap", false)));
    w.on([&] { int i = (int)sym_choice(k, "which"); w.doAct((int)sym_choice(Acts, "op"), i, (i + 1) % k); });
  }
  std::this_thread::sleep_for(ms(w.maxMs + 1));
  rt_wait_quiescent();
  w.on([&] { w.check(); });
  std::this_thread::sleep_for(ms(w.maxMs + 1));
  rt_wait_quiescent();
  bool ended = false;
  w.on([&] {
    w.check();
    for (int i = 0; i < k; i++) if (!w.s[i].cyclic && w.s[i].t && w.s[i].known && w.acts == 1 && sym_cfg("ops", 1) == 0) sym_assert(w.s[i].fired == 1, "a single-shot timer fires once");
    for (int i = 0; i < k; i++) w.destroy(i);
    ended = true;
  });
  rt_wait_quiescent();
  sym_assert(ended, "the processor goes on");
  w.p->stop();
  run.join();
  sym_cover("end");
}
// every way to start one: each fires, no earlier than asked; a cyclic one as often as its interval fits
SYM_ENTRY c01_ways() {
  rt_set_preempt(1);
  World w;
  std::thread run([&] { w.worker = std::this_thread::get_id(); w.p->run(); });
  int way = (int)sym_choice(8, "way"), fired = 0;
  bool cyc = way < 4 && sym_choice(2, "cyclic");
  int64_t d = w.interval("interval", cyc), since = rt_now(), last = since;
  std::unique_ptr<Timer> t;
  std::unique_ptr<SignalTimer> st;
  auto cb = [&] {
    sym_assert(this_processor::instance() == w.p && std::this_thread::get_id() == w.worker, "a timer's callback runs on its processor");
    sym_assert(rt_now() >= last + d * MS, "a timer does not fire before its interval has elapsed");
    last += d * MS;
    fired++;
    sym_assert(cyc || fired == 1, "a single-shot timer fires once");
    if (fired > 8) sym_done();
  };
  auto begin = [&] {
    since = last = rt_now();
    switch (way) {
      case 0: t.reset(new Timer(cyc)); t->start(d, cb); break;
      case 1: t.reset(new Timer); t->setCyclic(cyc); t->start(ms(d), cb); break;
      case 2: st.reset(new SignalTimer); st->setCyclic(cyc); st->timeoutSignal.connect(cb); st->start(d); sym_assert(st->running(), "a started timer is running"); break;
      case 4: Timer::timeoutAfter(d, cb); break;
      case 5: Timer::timeoutAfter(ms(d), cb); break;
    }
  };
  switch (way) {
    case 3: t.reset(new Timer(cyc)); if (sym_choice(2, "ms")) t->start(d, cb, w.p); else t->start(ms(d), cb, w.p); break;
    case 6: Timer::timeoutAfter(d, cb, w.p); break;
    case 7: Timer::timeoutAfter(ms(d), cb, w.p); break;
    default: w.on(begin);
  }
  int64_t total = cyc ? 2 * w.maxMs + w.maxMs / 2 : 2 * w.maxMs;
  std::this_thread::sleep_for(ms(total));
  rt_wait_quiescent();
  bool ended = false;
  w.on([&] {
    if (!cyc) sym_assert(fired == 1, "a single-shot timer fires once");
    else sym_assert((int64_t)fired >= 2 && (rt_now() - since) - fired * d * MS < 2 * d * MS, "a cyclic timer keeps firing");
    if (t) sym_assert(t->running() == cyc, "running tells whether a timer will fire");
    if (st) sym_assert(st->running() == cyc, "running tells whether a timer will fire");
    t.reset();
    st.reset();
    ended = true;
  });
  rt_wait_quiescent();
  sym_assert(ended, "the processor goes on");
  w.p->stop();
  run.join();
  sym_cover("end");
}
// a callback that lets its own timer go on with another callback, or end, keeps what it captured
SYM_ENTRY c01_self() {
  rt_set_preempt(0);
  World w;
  std::thread run([&] { w.worker = std::this_thread::get_id(); w.p->run(); });
  auto t = std::make_unique<Timer>(sym_choice(2, "cyclic") != 0);
  auto state = std::make_shared<int>(7);
  int a = 0, b = 0, how = (int)sym_choice(4, "callback does");
  int64_t d = w.interval("interval", true);
  w.on([&] {
    t->start(d, [&, state] {
      sym_assert(++a == 1, "the callback of the latest start runs");
      if (how == 0) t->start(d, [&b] { b++; });
      if (how == 1) t.reset();
      if (how == 2) { t->stop(); t->start(d, [&b] { b++; }); }
      if (how == 3) t->stop();
      sym_assert(*state == 7, "a running callback keeps its state");
    });
    state.reset();
  });
  std::this_thread::sleep_for(ms(2 * w.maxMs + 1));
  rt_wait_quiescent();
  w.on([&] {
    sym_assert(a == 1 && (b > 0) == (how == 0 || how == 2), "a timer started anew in its callback fires again");
    t.reset();
  });
  rt_wait_quiescent();
  w.p->stop();
  run.join();
  sym_cover("end");
}
// an exception thrown by a callback or an execution reaches the one who runs the processor, once; the other timers still fire
SYM_ENTRY c01_throws() {
  rt_set_preempt(0);
  World w;
  int caught = 0, fired[2] = {0, 0};
  std::thread run([&] {
    w.worker = std::this_thread::get_id();
    for (bool more = true; more;) {
      try { w.p->run(); more = false; } catch (int) { caught++; }
    }
  });
  Timer t[2];
  int64_t d[2] = {w.interval("interval", false), w.interval("interval", false)}, since = 0;
  int which = (int)sym_choice(3, "who throws");
  w.on([&] {
    since = rt_now();
    for (int i = 0; i < 2; i++) t[i].start(d[i], [&, i] {
      sym_assert(rt_now() >= since + d[i] * MS, "a timer does not fire before its interval has elapsed");
      fired[i]++;
      if (i == which) throw 1;
    });
  });
  if (which == 2) {
    std::this_thread::sleep_for(ms(w.interval("gap", false)));
    w.on([] { throw 1; });
  }
  std::this_thread::sleep_for(ms(w.maxMs + 1));
  rt_wait_quiescent();
  sym_assert(caught == 1, "an exception reaches the one who runs the processor");
  sym_assert(fired[0] == 1 && fired[1] == 1, "no started timer is forgotten");
  w.p->stop();
  run.join();
  sym_cover("end");
}
// more timers: started in one order, one of them stopped or restarted; they fire in the order of their deadlines
SYM_ENTRY c01_many() {
  rt_set_preempt(0);
  World w;
  w.acts = 0;
  int n = (int)sym_cfg("timers", 6);
  std::thread run([&] { w.worker = std::this_thread::get_id(); w.p->run(); });
  std::unique_ptr<Timer> t[8];
  int64_t after[8], last = 0, t0 = 0;
  int fired = 0, gone = -1;
  bool off[8] = {};
  w.on([&] {
    std::vector<int> order;   // every order of starting against firing
    for (int i = 0; i < n; i++) order.insert(order.begin() + (long)sym_choice((uint64_t)i + 1, "place"), i);
    for (int i = 0; i < n; i++) { after[order[(size_t)i]] = 1 + i; t[i].reset(new Timer); }
    gone = (int)sym_choice(n, "which");
    bool again = sym_choice(2, "restart") != 0;
    t0 = rt_now();
    for (int i = 0; i < n; i++)
      t[i]->start(after[i], [&, i] {
        sym_assert(!off[i], "a timer that is not started stays silent");
        sym_assert(rt_now() >= t0 + after[i] * MS, "a timer does not fire before its interval has elapsed");
        sym_assert(rt_now() >= last, "time goes on");
        for (int j = 0; j < n; j++) if (!off[j] && j != i) sym_assert(after[j] > after[i], "the earlier deadline fires first");
        off[i] = true;
        fired++;
        last = rt_now();
      });
    if (again) { after[gone] += 16; t[gone]->start(after[gone], [&] { sym_assert(fired == n - 1 && rt_now() >= t0 + after[gone] * MS, "the earlier deadline fires first"); fired++; off[gone] = true; }); }
    else { t[gone]->stop(); off[gone] = true; fired++; }
  });
  std::this_thread::sleep_for(ms(40));
  rt_wait_quiescent();
  sym_assert(fired == n, "no started timer is forgotten");
  w.on([&] { for (auto &x : t) x.reset(); });
  rt_wait_quiescent();
  w.p->stop();
  run.join();
  sym_cover("end");
}
