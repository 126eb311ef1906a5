// A model of timers on one processor; used by C01 and C02.
#include "rt/sym.h"
#include <functional>
#include <memory>
#include <thread>
#include <vector>
#include "maf/messaging/ProcessorEx.h"
#include "maf/messaging/SignalTimer.h"
#include "maf/messaging/Timer.h"
using namespace maf::messaging;
using ms = std::chrono::milliseconds;
constexpr int64_t MS = 1000000;
constexpr int NT = 3;
enum Act { Nothing, StopSelf, StopOther, StartSelf, StartOther, RestartSelf, RestartOther, Busy, Destroy, DestroySelf, Acts };
struct World {
  ProcessorInstance p = Processor::create();
  std::thread::id worker;
  struct T { std::unique_ptr<Timer> t; bool armed = false, cyclic = false, known = false; int64_t deadline = 0, every = 0, started = 0; int fired = 0, gen = 0; } s[NT];
  int n = 0, fires = 0, acts = (int)sym_cfg("acts", 1), maxMs = (int)sym_cfg("ms", 50);
  int actBy = -1;
  std::vector<int> kinds = {Nothing, StopSelf, StopOther, StartSelf, StartOther, RestartSelf, RestartOther, Busy, Destroy, DestroySelf};
  int64_t interval(const char *name, bool cyc) {
    uint64_t v = sym_u16(name);
    sym_assume(v <= (uint64_t)maxMs && v >= (cyc ? (uint64_t)maxMs / 2 : 0));
    return (int64_t)v;
  }
  void add(bool cyclic) { s[n].t.reset(new Timer(cyclic)); s[n].cyclic = cyclic; n++; }
  void start(int i) {
    if (!s[i].t) return;
    int64_t d = interval("interval", s[i].cyclic);
    T &x = s[i];
    x.armed = x.known = true;
    x.every = d * MS;
    x.started = rt_now();
    x.deadline = rt_now() + d * MS;
    int g = ++x.gen;
    x.t->start(d, [this, i, g] { fired(i, g); });
    sym_assert(x.t->running(), "a started timer is running");
  }
  void stop(int i) {
    if (!s[i].t) return;
    s[i].t->stop();
    s[i].armed = false;
    sym_assert(!s[i].t->running(), "a stopped timer is not running");
  }
  void restart(int i) {
    if (!s[i].t) return;
    if (s[i].known) { s[i].armed = true; s[i].started = rt_now(); s[i].deadline = rt_now() + s[i].every; }
    s[i].t->restart();
    sym_assert(s[i].t->running() == s[i].armed, "a restarted timer is running");
  }
  void destroy(int i) { s[i].t.reset(); s[i].armed = false; }
  void busy() { std::this_thread::sleep_for(ms(maxMs / 2)); }
  void fired(int i, int g) {
    T &x = s[i];
    int64_t now = rt_now();
    sym_assert(std::this_thread::get_id() == worker && this_processor::instance() == p, "a timer's callback runs on its processor");
    sym_assert(g == x.gen, "the callback of the latest start runs");
    sym_assert(x.armed, "a timer that is not started stays silent");
    sym_assert(now >= x.started + x.every, "a timer does not fire before its interval has elapsed");
    sym_assert(now >= x.deadline, "a timer does not fire before its deadline");
    for (int j = 0; j < n; j++) if (j != i && s[j].armed) sym_assert(s[j].deadline >= x.deadline, "the earlier deadline fires first");
    if (x.cyclic) x.deadline += x.every; else x.armed = false;
    sym_assert(x.t->running() == x.armed, "running tells whether a timer will fire");
    x.fired++;
    if (++fires > 12) sym_done();
    if (acts > 0 && actBy < 0) {
      acts--;
      actBy = i;
      doAct(kinds[sym_choice(kinds.size(), "callback does")], i, (i + 1 + (n > 2 ? (int)sym_choice(2, "which") : 0)) % n);
    }
  }
  void doAct(int a, int self, int other) {
    switch (a) {
      case StopSelf: stop(self); break;
      case StopOther: stop(other); break;
      case StartSelf: start(self); break;
      case StartOther: start(other); break;
      case RestartSelf: restart(self); break;
      case RestartOther: restart(other); break;
      case Busy: busy(); break;
      case Destroy: destroy(other); break;
      case DestroySelf: destroy(self); break;
    }
  }
  void on(std::function<void()> f) { p->executeAsync(std::move(f)); }
  void check() {
    for (int i = 0; i < n; i++)
      if (s[i].armed) sym_assert(s[i].deadline >= rt_now(), "no started timer is forgotten");
  }
};
