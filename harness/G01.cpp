// G01: emitting a signal calls each connected slot exactly once, in order.
#include "rt/sym.h"
#include <functional>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
#include "maf/utils/DirectExecutor.h"
#include "maf/utils/SignalSlots.h"
using namespace maf::signal_slots;
constexpr int MAXS = 5;
enum Act { None, SelfOff, OtherOff, NewOn, AllOff, OtherOn, Throw, NActs };
template <class Sig, bool Single> struct World {
  Sig sig;
  struct Slot { Connection c; bool live = false; int calls = 0; int seq = 0; } s[MAXS];
  int n = 0, clock = 0, last = 0, live = 0;
  bool emitting = false, thrown = false, acting = false;
  int acts = (int)sym_cfg("acts", 1);
  uint32_t val = 0;
  template <class... A> World(A &&...a) : sig(std::forward<A>(a)...) {}
  void check() {
    sym_assert(sig.connectionCount() == (size_t)live, "the number of connections is the number of live ones");
    sym_assert(sig.connected() == (live > 0), "a signal is connected while it has a live connection");
  }
  void on() {
    if (n == MAXS) return;
    int i = n++;
    s[i].c = sig.connect([this, i, own = std::make_shared<int>(1000 + i)](const uint32_t &v) { called(i, v); sym_assert(*own == 1000 + i, "what a slot holds outlives its run"); });
    bool want = !Single || live == 0;
    sym_assert(s[i].c.connected() == want, want ? "connecting a slot connects it" : "a single-connection signal refuses a second slot");
    if (want) { s[i].live = true; s[i].seq = ++clock; live++; }
  }
  void off(int i) {
    bool was = s[i].live;
    if (was) live--;
    s[i].live = false;
    sym_assert(s[i].c.disconnect() == was, "disconnecting reports whether it ended a connection");
    sym_assert(!s[i].c.connected(), "a disconnected slot is not connected");
  }
  void back(int i) {
    bool can = !s[i].live && s[i].seq && !dropped[i] && (!Single || live == 0);
    bool may = s[i].c.reconnect();
    if (can) sym_assert(may, "a slot that was disconnected through its handle can be connected again");
    if (may) { sym_assert(!s[i].live, "a live connection is not connected twice"); s[i].live = true; s[i].seq = ++clock; live++; }
    sym_assert(s[i].c.connected() == s[i].live, "reconnecting reports whether the slot is connected");
  }
  bool dropped[MAXS] = {};
  void offAll() {
    for (int i = 0; i < n; i++) if (s[i].live) { s[i].live = false; dropped[i] = true; }
    live = 0;
    sig.disconnect();
  }
  void called(int i, uint32_t v) {
    sym_assert(emitting, "a slot only runs during an emission");
    sym_assert(v == val, "a slot receives the emitted value");
    sym_assert(s[i].live, "only connected slots are called");
    sym_assert(s[i].seq > last, "slots are called once each, in connection order");
    last = s[i].seq;
    s[i].calls++;
    int o = (i + 1) % n, p = (i + n - 1) % n;
    int a = acting ? (int)sym_concretize((v >> 3 * i) & 7) : 0;   // the received value tells the slot what to do
    switch (a) {
      case SelfOff: off(i); break;
      case OtherOff: off(sym_choice(2, "which") ? o : p); break;
      case NewOn: on(); break;
      case AllOff: offAll(); break;
      case OtherOn: back(o); break;
      case Throw: thrown = true; break;
    }
    check();
    if (a == Throw) throw 7;
  }
  void emit() {
    val = sym_u32("value");
    bool had[MAXS];
    for (int i = 0; i < MAXS; i++) { had[i] = s[i].live; s[i].calls = 0; }
    int seqs[MAXS];
    for (int i = 0; i < MAXS; i++) seqs[i] = s[i].seq;
    last = 0;
    acting = acts > 0 && live;
    if (acting) acts--;
    emitting = true;
    thrown = false;
    try { if (sym_choice(2, "how")) sig(val); else sig.notify(val); } catch (int x) { sym_assert(x == 7 && thrown, "the exception of a slot"); }
    emitting = false;
    for (int i = 0; i < n; i++) {
      if (!thrown && had[i] && s[i].live && s[i].seq == seqs[i]) sym_assert(s[i].calls == 1, "every connected slot is called");
    }
  }
  void run() {
    int ops = (int)sym_cfg("ops", 3);
    int pre = 1 + (int)sym_choice(Single ? 1 : sym_cfg("slots", 3), "slots");
    for (int i = 0; i < pre; i++) on();
    for (int k = 0; k < ops; k++) {
      switch (sym_choice(5, "op")) {
        case 0: on(); break;
        case 1: off((int)sym_choice(n, "which")); break;
        case 2: emit(); sym_cover("emit"); if (thrown) sym_cover("throw"); break;
        case 3: offAll(); break;
        case 4: back((int)sym_choice(n, "which")); break;
      }
      check();
    }
    emit();
    emit();
    check();
  }
};
SYM_ENTRY g01_plain() { World<SignalST<uint32_t>, false> w; w.run(); }
SYM_ENTRY g01_threadsafe() { World<Signal<uint32_t>, false> w; w.run(); }
SYM_ENTRY g01_shared_mutex() {
  std::recursive_mutex m;
  World<SharedMutexSignal<uint32_t>, false> w{maf::threading::mutexRef(m)};
  w.run();
}
SYM_ENTRY g01_single() { World<SCSignalST<uint32_t>, true> w; w.run(); }
SYM_ENTRY g01_single_threadsafe() { World<SCSignal<uint32_t>, true> w; w.run(); }
SYM_ENTRY g01_single_shared_mutex() {
  std::recursive_mutex m;
  World<SharedMutexSCSignal<uint32_t>, true> w{maf::threading::mutexRef(m)};
  w.run();
}
// every way of connecting delivers the emitted values, in connection order
SYM_ENTRY g01_ways() {
  Signal<int, std::string> sig, fwd;
  std::vector<int> order;
  int a = 0;
  char txt[3] = {};
  sym_bytes(txt, 2, "text");
  std::string want(txt, sym_len(2, "len"));
  auto hit = [&](int id, int v, const std::string &s) { sym_assert(v == a && s == want, "a slot receives the emitted values"); order.push_back(id); };
  struct Obj { std::function<void(int, const std::string &)> f; void on(const int &v, const std::string &s) { f(v, s); } } o1{[&](int v, const std::string &s) { hit(1, v, s); }};
  auto o2 = std::make_shared<Obj>(Obj{[&](int v, const std::string &s) { hit(2, v, s); }});
  auto sp = std::make_shared<std::function<void(const int &, const std::string &)>>([&](const int &v, const std::string &s) { hit(3, v, s); });
  auto ex = maf::util::directExecutor();
  int base = (int)sym_choice(2, "executor");
  Connection c0 = base ? sig.connect([&](const int &v, const std::string &s) { hit(0, v, s); }, ex) : sig.connect([&](const int &v, const std::string &s) { hit(0, v, s); });
  Connection c1 = base ? sig.connect(&o1, &Obj::on, ex) : sig.connect(&o1, &Obj::on);
  Connection c2 = base ? sig.connect(o2, &Obj::on, ex) : sig.connect(o2, &Obj::on);
  Connection c3 = base ? sig.connect(sp, ex) : sig.connect(sp);
  Connection c4 = sig.connect([&](const ConnectionPtr &c, const int &v, const std::string &s) { sym_assert(c && c->connected(), "a slot is handed its own connection"); hit(4, v, s); });
  Connection c5 = sig.connect(fwd);
  Connection c6 = fwd.connect([&](const int &v, const std::string &s) { hit(5, v, s); });
  std::shared_ptr<void> track = std::make_shared<int>(1);
  std::function<void(const int &, const std::string &)> plain = [&](const int &v, const std::string &s) { hit(6, v, s); };
  Connection c7 = base ? sig.connect(track, plain, ex) : sig.connect(track, plain);
  std::function<void(const std::tuple<int, std::string> &)> tp = [&](const std::tuple<int, std::string> &t) { hit(7, std::get<0>(t), std::get<1>(t)); };
  Connection c8 = base ? sig.connect(tp, ex) : sig.connect(tp);
  sym_assert(sig.connectionCount() == 8, "the number of connections is the number of live ones");
  for (int k = 0; k < 2; k++) {
    a = (int)sym_i32("value");
    order.clear();
    sig(a, want);
    sym_assert(order == std::vector<int>({0, 1, 2, 3, 4, 5, 6, 7}), "each slot is called exactly once, in connection order");
  }
  c2.disconnect();
  c5.disconnect();
  order.clear();
  sig(a, want);
  sym_assert(order == std::vector<int>({0, 1, 3, 4, 6, 7}), "only the disconnected slots are gone");
  order.clear();
  fwd(a, want);
  sym_assert(order == std::vector<int>({5}), "a forwarded-to signal keeps its own slots");
  sym_cover("end");
}
// a signal moved to another object keeps its connections; the old object can be destroyed or reused
SYM_ENTRY g01_move() {
  int calls = 0;
  uint32_t v = sym_u32("value"), got = 0;
  auto a = std::make_unique<SignalST<uint32_t>>();
  Connection c = a->connect([&](const uint32_t &x) { calls++; got = x; });
  SignalST<uint32_t> b;
  Connection old = b.connect([&](const uint32_t &) { calls += 100; });
  if (sym_choice(2, "assign")) {
    b = std::move(*a);
    a.reset();
    sym_assert(!old.connected(), "the replaced signal's connections ended");
    b(v);
  } else {
    SignalST<uint32_t> d(std::move(*a));
    a.reset();
    sym_assert(c.connected() && d.connectionCount() == 1, "connections move along with the signal");
    d(v);
  }
  sym_assert(calls == 1 && got == v, "each connected slot is called exactly once");
  sym_cover("end");
}
// emission, disconnection and connection from several threads
SYM_ENTRY g01_threads() {
  rt_set_preempt((int)sym_cfg("preempt", 2));
  struct St { int calls = 0; bool off = false; } s[3];
  Signal<uint32_t> sig;
  uint32_t v = sym_u32("value");
  auto slot = [&](int i) { return [&s, i, v](const uint32_t &x) { sym_assert(!s[i].off, "a slot is not called after its connection ended"); sym_assert(x == v, "a slot receives the emitted value"); s[i].calls++; rt_yield("slot"); sym_assert(!s[i].off, "ending a connection waits for a running call"); }; };
  Connection a = sig.connect(slot(0)), b = sig.connect(slot(1)), c;
  std::thread t1([&] { sig(v); });
  std::thread t2([&] { sig(v); });
  a.disconnect();
  s[0].off = true;
  c = sig.connect(slot(2));
  t1.join();
  t2.join();
  sym_assert(s[1].calls == 2, "a connected slot is called once per emission");
  sym_assert(s[0].calls <= 2 && s[2].calls <= 2, "no slot is called more than once per emission");
  sym_assert(sig.connectionCount() == 2, "the number of connections is the number of live ones");
  sym_cover("end");
}
