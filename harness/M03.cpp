// M03: messages reach exactly the handlers connected for their type.
#include "rt/sym.h"
#include <functional>
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include "maf/messaging/MsgConnectionGroup.h"
#include "maf/messaging/ProcessorEx.h"
#include "maf/messaging/Routing.h"
using namespace maf::messaging;
using ms = std::chrono::milliseconds;
struct A { uint32_t v; };
struct B { uint32_t v; };
struct C { uint32_t v; };
constexpr int MAXS = 5, MAXM = 8;
enum Act { None, SelfOff, OtherOff, NewOn, TypeOff, OtherOn, PostSame, SendOther };
// any history of connecting, disconnecting, posting and delivering, with handlers that do the same
struct World {
  ProcessorInstance p = Processor::create();
  std::thread::id here = std::this_thread::get_id();
  struct Slot { MsgConnection c; int type = 0; bool live = false, dropped = false, empty = false; int calls = 0, seq = 0; } s[MAXS];
  struct Mail { int type; uint32_t v; int delivered; } m[MAXM];
  struct Run { bool on = false; uint32_t val = 0; int last = 0; } run[2];
  int n = 0, nm = 0, head = 0, clock = 0, acts = (int)sym_cfg("acts", 1);
  bool acting = false;
  int liveOf(int t) { int k = 0; for (int i = 0; i < n; i++) k += s[i].live && s[i].type == t; return k; }
  void check() {
    sym_assert(p->connected<A>() == (liveOf(0) > 0) && p->connected<B>() == (liveOf(1) > 0) && !p->connected<C>(), "a message type is connected while it has a live handler");
    for (int i = 0; i < n; i++) sym_assert(s[i].c.connected() == s[i].live, "a connection is connected while its handler is");
  }
  void on(int t) {
    if (n == MAXS) return;
    int i = n++;
    s[i].type = t;
    s[i].empty = i == 1;
    if (s[i].empty) s[i].c = t ? p->connect<B>([this, i] { called(i, 1, run[1].val); }) : p->connect<A>([this, i] { called(i, 0, run[0].val); });
    else s[i].c = t ? p->connect<B>([this, i](const B &b) { called(i, 1, b.v); }) : p->connect<A>([this, i](const A &a) { called(i, 0, a.v); });
    s[i].live = true;
    s[i].seq = ++clock;
  }
  void off(int i) { s[i].live = false; s[i].c.disconnect(); }
  void back(int i) {
    if (s[i].live || s[i].dropped) return;
    s[i].c.reconnect();
    s[i].live = true;
    s[i].seq = ++clock;
  }
  void typeOff(int t) {
    for (int i = 0; i < n; i++) if (s[i].type == t && s[i].live) { s[i].live = false; s[i].dropped = true; }
    if (t) p->disconnect<B>(); else p->disconnect<A>();
  }
  void post(int t) {
    if (nm == MAXM) return;
    uint32_t v = sym_u32("value");
    bool ok = t ? p->post<B>(B{v}) : p->post<A>(A{v});
    sym_assert(ok == (liveOf(t) > 0), "posting is accepted exactly when a handler is connected");
    if (ok) m[nm++] = Mail{t, v, 0};
  }
  void expectRun(int t, uint32_t v, const std::function<void()> &f) {
    bool had[MAXS];
    int seqs[MAXS];
    for (int i = 0; i < MAXS; i++) { had[i] = s[i].live && s[i].type == t; seqs[i] = s[i].seq; if (s[i].type == t) s[i].calls = 0; }
    run[t] = Run{true, v, 0};
    f();
    run[t].on = false;
    for (int i = 0; i < n; i++)
      if (had[i] && s[i].live && s[i].seq == seqs[i]) sym_assert(s[i].calls == 1, "every connected handler of the type is invoked");
  }
  void called(int i, int t, uint32_t v) {
    sym_assert(std::this_thread::get_id() == here && this_processor::instance() == p, "handlers run on the processor's thread");
    sym_assert(s[i].type == t && run[t].on, "a handler is only invoked for a message of its type");
    sym_assert(v == run[t].val, "a handler gets the posted value");
    sym_assert(s[i].live, "only connected handlers are invoked");
    sym_assert(s[i].seq > run[t].last, "handlers are invoked once each, in connection order");
    run[t].last = s[i].seq;
    s[i].calls++;
    if (!acting) return;
    int o = (i + 1) % n, q = (i + n - 1) % n;
    switch (sym_concretize((v >> 3 * i) & 7)) {   // the received value tells the handler what to do
      case SelfOff: off(i); break;
      case OtherOff: off(sym_choice(2, "which") ? o : q); break;
      case NewOn: on((int)sym_choice(2, "type")); break;
      case TypeOff: typeOff((int)sym_choice(2, "type")); break;
      case OtherOn: back(o); break;
      case PostSame: post(t); break;
      case SendOther: {
        if (run[1 - t].on) break;
        bool a = acting;
        acting = false;
        uint32_t w = sym_u32("sent");
        int live = liveOf(1 - t);
        expectRun(1 - t, w, [&] {
          auto sig = t ? this_processor::instance()->waitablePost<A>(A{w}) : this_processor::instance()->waitablePost<B>(B{w});
          sym_assert(sig.valid() == (live > 0), "sending is accepted exactly when a handler is connected");
          if (sig.valid()) sig.get();
        });
        acting = a;
        sym_cover("nested");
        break;
      }
    }
    check();
    sym_assert(!p->post<C>(C{v}) && !this_processor::waitablePost(makeMessage<C>(C{v})).valid(), "posting a type nobody handles is refused");
  }
  void deliver() {
    if (head == nm) { sym_assert(!p->runOnceFor(ms(0)), "nothing is delivered that was not posted"); return; }
    Mail &x = m[head++];
    acting = acts > 0 && liveOf(x.type);
    if (acting) acts--;
    expectRun(x.type, x.v, [&] { sym_assert(p->runOnceFor(ms(0)), "an accepted message is delivered"); });
    acting = false;
  }
};
SYM_ENTRY m03_model() {
  World w;
  int pre = 1 + (int)sym_choice(sym_cfg("slots", 2), "slots");
  for (int i = 0; i < pre; i++) w.on(i == 0 ? 0 : (int)sym_choice(2, "type"));
  w.post(0);
  for (int k = 0, ops = (int)sym_cfg("ops", 2); k < ops; k++) {
    switch (sym_choice(6, "op")) {
      case 0: w.on((int)sym_choice(2, "type")); break;
      case 1: w.off((int)sym_choice(w.n, "which")); break;
      case 2: w.typeOff((int)sym_choice(2, "type")); break;
      case 3: w.back((int)sym_choice(w.n, "which")); break;
      case 4: w.post((int)sym_choice(2, "type")); break;
      case 5: w.deliver(); break;
    }
    w.check();
  }
  while (w.head < w.nm) w.deliver();
  w.deliver();
  w.post(0);
  w.deliver();
  w.check();
  sym_cover("end");
}
// messages of every kind of payload arrive as they were sent
struct Rich { uint32_t a; std::string s; std::shared_ptr<int> p; std::vector<uint16_t> v; };
SYM_ENTRY m03_payload() {
  auto p = Processor::create();
  char txt[4] = {};
  sym_bytes(txt, 3, "text");
  uint32_t a = sym_u32("a");
  uint16_t x = sym_u16("x");
  auto sp = std::make_shared<int>(5);
  int got = 0, ints = 0, strs = 0;
  p->connect<Rich>([&](const Rich &r) { got++; sym_assert(r.a == a && r.s == std::string(txt, 3) && r.p == sp && r.v.size() == 2 && r.v[0] == x && r.v[1] == 9, "a message arrives with the values the sender put in"); });
  p->connect<int>([&](int i) { ints++; sym_assert((uint32_t)i == a, "a message arrives with the values the sender put in"); });
  p->connect<std::string>([&](const std::string &s) { strs++; sym_assert(s == std::string(txt, 3), "a message arrives with the values the sender put in"); });
  sym_assert(p->post<Rich>(a, std::string(txt, 3), sp, std::vector<uint16_t>{x, 9}), "accepted");
  sym_assert(p->post(makeMessage<int>((int)a)) && p->post<std::string>(std::string(txt, 3)), "accepted");
  sym_assert(!p->post<double>(1.0) && !p->post<unsigned>(1u) && !p->post<const char *>("x"), "posting a type nobody handles is refused");
  p->runFor(ms(0));
  sym_assert(got == 1 && ints == 1 && strs == 1, "each message reaches the handler of its type");
  sym_assert(sp.use_count() == 2 || sp.use_count() == 1, "message destroyed after delivery");
  p->disconnect<int>();
  sym_assert(!p->post<int>(1) && !p->waitablePost<int>(1).valid(), "posting a type nobody handles any more is refused");
  sym_cover("end");
}
// groups end all their connections
SYM_ENTRY m03_group() {
  auto p = Processor::create();
  int calls = 0, other = 0;
  uint32_t v = sym_u32("v");
  p->connect<A>([&](const A &a) { other++; sym_assert(a.v == v, "value"); });
  {
    MsgConnectionGroup g;
    g << p->connect<A>([&](const A &a) { calls++; if (a.v == 5) g.disconnect(); });
    g.add(p->connect<A>([&] { calls++; }));
    p->post<A>(A{v});
    p->post<A>(A{v});
    p->runFor(ms(0));
    sym_assert(calls == (v == 5 ? 1 : 4) && other == 2, "grouped connections end together, and only they");
    p->post<A>(A{v});
  }
  p->runFor(ms(0));
  sym_assert(calls == (v == 5 ? 1 : 4) && other == 3, "a group that goes away ends its connections");
  sym_cover(v == 5 ? "inside" : "outside");
}
// a throwing handler ends the run with its exception, the following messages are still delivered
SYM_ENTRY m03_throw() {
  auto p = Processor::create();
  uint32_t v = sym_u32("v");
  std::vector<uint32_t> seen;
  p->connect<A>([&](const A &a) { seen.push_back(a.v); if (a.v == 7) throw 7; });
  p->post<A>(A{v});
  p->post<A>(A{1});
  int thrown = 0;
  for (int k = 0; k < 2; k++) try { p->runFor(ms(0)); } catch (int) { thrown++; }
  sym_assert(thrown == (v == 7) && seen.size() == 2 && seen[0] == v && seen[1] == 1, "delivery goes on after a handler threw");
  sym_assert(p->post<A>(A{2}) && p->runOnceFor(ms(0)) && seen.back() == 2, "the handler stays connected");
  sym_cover(thrown ? "threw" : "did not");
}
// posting from several threads while handlers come and go on another
SYM_ENTRY m03_threads() {
  rt_set_preempt((int)sym_cfg("preempt", 2));
  auto p = Processor::create();
  std::thread::id worker;
  uint32_t x = sym_u32("x"), y = sym_u32("y");
  std::vector<uint32_t> fixed;
  int moving = 0;
  bool ended = false;
  p->connect<A>([&](const A &a) { sym_assert(std::this_thread::get_id() == worker, "handlers run on the processor's thread"); fixed.push_back(a.v); });
  std::thread run([&] { worker = std::this_thread::get_id(); p->run(); });
  std::thread changer([&] {
    auto c = p->connect<A>([&](const A &) { sym_assert(!ended, "a disconnected handler is never invoked again"); moving++; });
    sym_assert(c.connected(), "connected");
    c.disconnect();
    ended = true;
    p->connect<B>([&](const B &) { sym_fail("a handler is only invoked for its type"); });
  });
  sym_assert(p->post<A>(A{x}), "accepted");
  sym_assert(p->post<A>(A{y}), "accepted");
  changer.join();
  rt_wait_quiescent();
  sym_assert(fixed.size() == 2 && fixed[0] == x && fixed[1] == y, "every message reaches a connected handler once, in order");
  sym_assert(moving <= 2, "at most once per message");
  p->stop();
  run.join();
  sym_cover(moving ? "caught some" : "caught none");
}
// handlers that use the processor and routing while other threads do
SYM_ENTRY m03_busy() {
  rt_set_preempt((int)sym_cfg("preempt", 2));
  auto p = Processor::create("p");
  int what = (int)sym_choice(6, "handler does");
  int b = 0, done = 0;
  auto conB = p->connect<B>([&](const B &) { b++; });
  p->connect<A>([&](const A &) {
    switch (what) {
      case 0: this_processor::post<B>(B{1}); break;
      case 1: this_processor::connect<A>([](const A &) {}); break;
      case 2: p->connected<A>(); p->connected<B>(); break;
      case 3: routing::postToAll<B>(B{1}); break;
      case 4: { auto q = Processor::create("q"); if (q) q->stop(); break; }
      case 5: this_processor::disconnect<B>(); break;
    }
    done++;
  });
  AsyncProcessor a(p);
  a.launch();
  p->post<A>(A{1});
  switch (sym_choice(6, "other thread does")) {
    case 0: p->post<A>(A{2}); break;
    case 1: { auto c = p->connect<B>([](const B &) {}); c.disconnect(); break; }
    case 2: p->connect<A>([](const A &) {}); break;
    case 3: routing::postToAll<B>(B{1}); break;
    case 4: { auto q = Processor::create("q"); if (q) { routing::post<A>("p", A{3}); q->stop(); } break; }
    case 5: p->disconnect<B>(); p->connected<A>(); break;
  }
  rt_wait_quiescent();
  sym_assert(done >= 1, "the message is delivered");
  a.stopAndWait();
  sym_cover("end");
}
