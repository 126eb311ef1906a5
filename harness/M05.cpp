// M05: routing finds exactly the live processor with the given identity.
#include "rt/sym.h"
#include <functional>
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include "maf/messaging/ProcessorEx.h"
#include "maf/messaging/Routing.h"
using namespace maf::messaging;
using routing::ProcessorStatusUpdateMsg;
using ms = std::chrono::milliseconds;
struct M { uint32_t v; };
struct Unheard { uint32_t v; };
constexpr int MAXP = 6;
struct World {
  struct P { ProcessorInstance p; int id = -1; bool live = false, hears = false; int got = 0; uint32_t last = 0; } s[MAXP];
  std::string id[3];
  int same[3][3];
  int n = 0;
  ProcessorInstance obs = Processor::create("observer");
  std::vector<std::pair<Processor *, bool>> seen, want;
  World() {
    // identities of one or two characters, equal or not, in any order
    uint8_t c = sym_u8("c"), d = sym_u8("d");
    id[0] = std::string(1, (char)c);
    id[1] = std::string(1, (char)d);
    id[2] = std::string("observer2");
    bool eq = c == d;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) same[i][j] = i == j || (eq && i < 2 && j < 2);
    sym_cover(eq ? "same identity" : "different identities");
    obs->connect<ProcessorStatusUpdateMsg>([this](const ProcessorStatusUpdateMsg &m) {
      sym_assert(m.ready() == (m.status == ProcessorStatusUpdateMsg::Status::Reachable), "status");
      seen.push_back({m.messageprocessor().get(), m.ready()});
    });
  }
  int reachable(int i) { for (int k = 0; k < n; k++) if (s[k].live && same[s[k].id][i]) return k; return -1; }
  void create(int i) {
    if (n == MAXP) return;
    int was = reachable(i);
    auto p = Processor::create(id[i]);
    sym_assert((p == nullptr) == (was >= 0), "a processor is created exactly when no live one has its identity");
    if (!p) return;
    sym_assert(p->id() == id[i], "a processor has the identity it was created with");
    int k = n++;
    s[k].p = p;
    s[k].id = i;
    s[k].live = true;
    if (sym_choice(2, "hears")) {
      s[k].hears = true;
      p->connect<M>([this, k](const M &m) { s[k].got++; s[k].last = m.v; });
    }
    want.push_back({p.get(), true});
  }
  void stop(int k) {
    bool was = s[k].live;
    s[k].p->stop();
    s[k].live = false;
    if (was) want.push_back({s[k].p.get(), false});
  }
  void drop(int k) {   // the creator's handle goes away; routing keeps a live processor
    if (!s[k].live) return;
    Processor *raw = s[k].p.get();
    s[k].p.reset();
    s[k].p = Processor::findProcessor(id[s[k].id]);
    sym_assert(s[k].p.get() == raw, "a live processor stays reachable");
  }
  void pump() {
    for (int k = 0; k < n; k++) if (s[k].live) s[k].p->runFor(ms(0));
    obs->runFor(ms(0));
    sym_assert(seen == want, "observers are told each appearance and disappearance, in order");
  }
  void expect(const std::function<void()> &f, int to, bool all, uint32_t v) {
    for (int k = 0; k < n; k++) s[k].got = 0;
    f();
    pump();
    for (int k = 0; k < n; k++) {
      bool should = s[k].live && s[k].hears && (all || k == to);
      sym_assert(s[k].got == (should ? 1 : 0), all ? "a broadcast reaches every registered processor once" : "a routed message reaches the addressed processor and no other");
      if (should) sym_assert(s[k].last == v, "with the posted values");
    }
  }
  void post(int i) {
    uint32_t v = sym_u32("v");
    int k = reachable(i);
    expect([&] { sym_assert(routing::post<M>(id[i], M{v}) == (k >= 0 && s[k].hears), "routing reports whether the addressed processor takes the message"); }, k, false, v);
  }
  void send(int i) {
    uint32_t v = sym_u32("v");
    int k = reachable(i);
    Processor::CompleteSignal sig;
    expect([&] { sig = routing::send<M>(id[i], M{v}); sym_assert(sig.valid() == (k >= 0 && s[k].hears), "routing reports whether the addressed processor takes the message"); }, k, false, v);
    if (sig.valid()) sig.get();
  }
  void all(bool wait) {
    uint32_t v = sym_u32("v");
    bool any = false;
    for (int k = 0; k < n; k++) any |= s[k].live && s[k].hears;
    Processor::CompleteSignal sig;
    expect([&] {
      if (wait) { sig = routing::sendToAll<M>(M{v}); sym_assert(sig.valid() == any, "a broadcast reports whether anyone took it"); }
      else sym_assert(routing::postToAll<M>(M{v}) == any, "a broadcast reports whether anyone took it");
    }, -1, true, v);
    if (sig.valid()) sig.get();
  }
  void reuse(int k) {
    if (s[k].live) return;
    s[k].p->reuse();
    s[k].p->stop();      // stopping it again must not disturb a successor with the same identity
  }
  void check() {
    for (int i = 0; i < 2; i++) {
      int k = reachable(i);
      auto f = routing::findProcessor(id[i]);
      sym_assert(f == (k >= 0 ? s[k].p : nullptr) && Processor::findProcessor(id[i]) == f, "an identity finds exactly its live processor");
    }
    sym_assert(routing::findProcessor("") == nullptr && routing::findProcessor("observer") == obs, "an identity finds exactly its live processor");
  }
};
SYM_ENTRY m05_model() {
  World w;
  w.create(0);
  int ops = (int)sym_cfg("ops", 3);
  for (int k = 0; k < ops; k++) {
    int i = (int)sym_choice(2, "id");
    switch (sym_choice(7, "op")) {
      case 0: w.create(i); break;
      case 1: if (i < w.n) w.stop(i); break;
      case 2: w.post(i); break;
      case 3: w.all(i); break;
      case 4: if (i < w.n) w.reuse(i); break;
      case 5: w.send(i); break;
      case 6: if (i < w.n) w.drop(i); break;
    }
    w.check();
  }
  w.pump();
  sym_assert(!routing::post<Unheard>(w.id[0], Unheard{1}) && !routing::postToAll<Unheard>(Unheard{1}) && !routing::post<M>("nobody", M{1}) && !routing::send<M>("nobody", M{1}).valid(), "routing to nobody fails");
  w.pump();
  sym_cover("end");
}
// racing creations and stops under one identity
SYM_ENTRY m05_race() {
  rt_set_preempt((int)sym_cfg("preempt", 2));
  ProcessorInstance got[3];
  int live = 0;
  auto go = [&](int i, bool stop) {
    got[i] = Processor::create("p");
    if (got[i]) {
      live++;
      sym_assert(live <= 1, "at most one processor is reachable under an identity");
      auto f = routing::findProcessor("p");
      sym_assert(f == got[i], "an identity finds its live processor");
      if (stop) { live--; got[i]->stop(); sym_assert(routing::findProcessor("p") != got[i], "a stopped processor is not found"); }
    }
  };
  bool s0 = sym_choice(2, "first stops"), s1 = sym_choice(2, "second stops");
  std::thread t([&] { go(1, s1); });
  go(0, s0);
  t.join();
  if (!s0 && !s1) sym_assert((got[0] == nullptr) != (got[1] == nullptr), "exactly one of two creators gets the identity");
  sym_assert(got[0] || got[1], "one of them gets it");
  if (s0 && s1) { go(2, true); sym_assert(got[2] != nullptr, "a free identity can be used again"); }
  sym_cover(got[0] && got[1] ? "one after the other" : "one");
}
// messages routed while the processor goes away
SYM_ENTRY m05_leave() {
  rt_set_preempt((int)sym_cfg("preempt", 2));
  auto p = Processor::create("p"), o = Processor::create("o");
  uint32_t v = sym_u32("v");
  int got = 0, up = 0, down = 0, wrong = 0;
  p->connect<M>([&](const M &m) { got++; sym_assert(m.v == v, "value"); });
  o->connect<M>([&](const M &) { wrong++; });
  o->connect<ProcessorStatusUpdateMsg>([&](const ProcessorStatusUpdateMsg &m) { if (m.ready()) { up++; sym_assert(down == 1, "order"); } else { sym_assert(m.messageprocessor() == p, "who"); down++; } });
  AsyncProcessor run(p), run2(o);
  run.launch();
  run2.launch();
  bool taken = false, sent = false;
  int how = (int)sym_choice(2, "how");
  std::thread t([&] {
    taken = how ? routing::post<M>("p", M{v}) : routing::post<M>("p", v);
    auto s = routing::send<M>("p", M{v});
    if (s.valid()) { try { s.get(); sent = true; } catch (const std::future_error &) {} }
  });
  p->stop();
  sym_assert(routing::findProcessor("p") == nullptr && !routing::post<M>("p", M{v}), "a stopped processor is not reachable");
  auto q = Processor::create("p");
  sym_assert(q != nullptr && routing::findProcessor("p") == q, "its identity is free again");
  t.join();
  run.stopAndWait();
  rt_wait_quiescent();
  sym_assert(got <= 2 && got >= (sent ? 1 : 0), "a routed message is handled at most once");
  sym_assert(wrong == 0, "no other processor gets it");
  sym_assert(down == 1 && up == 1, "observers are told of each appearance and disappearance");
  sym_assert(q->pendingCout() == 0, "no other processor gets it");
  run2.stopAndWait();
  sym_cover(got == 2 ? "both" : got ? "one" : "none");
}
// anonymous processors are never found nor broadcast to
SYM_ENTRY m05_anonymous() {
  auto p = Processor::create(), q = Processor::create();
  int got = 0;
  p->connect<M>([&] { got++; });
  sym_assert(p->id() != q->id(), "anonymous processors have different identities");
  sym_assert(!routing::postToAll<M>(M{1}) && !routing::findProcessor(p->id()) && !routing::post<M>(p->id(), M{1}), "an anonymous processor is not routed to");
  p->runFor(ms(0));
  sym_assert(got == 0, "no other processor gets it");
  sym_cover("end");
}
// whoever waits for a broadcast waits for every receiver
SYM_ENTRY m05_broadcast_wait() {
  rt_set_preempt((int)sym_cfg("preempt", 1));
  auto p = Processor::create("p"), o = Processor::create("o"), deaf = Processor::create("deaf");
  uint32_t v = sym_u32("v");
  int begun = 0, ended = 0;
  bool fromInside = sym_choice(2, "sent by a receiver");
  for (auto &x : {p, o}) x->connect<M>([&](const M &m) { begun++; rt_yield("handling"); sym_assert(m.v == v, "with the posted values"); ended++; });
  auto send = [&] {
    auto sig = sym_choice(2, "how") ? routing::sendToAll<M>(M{v}) : routing::sendToAll<M>(v);
    sym_assert(sig.valid(), "a broadcast reports whether anyone took it");
    if (sym_choice(2, "wait first")) sig.wait();
    sig.get();
    sym_assert(begun == 2 && ended == 2, "a waited for broadcast is over when every receiver has handled it");
  };
  AsyncProcessor run(p), run2(o), run3(deaf);
  run.launch();
  run2.launch();
  run3.launch();
  if (fromInside) p->waitableExecute([&] { send(); }).get();
  else send();
  run.stopAndWait();
  run2.stopAndWait();
  run3.stopAndWait();
  sym_assert(begun == 2 && ended == 2, "a broadcast reaches every registered processor once");
  sym_cover("end");
}
