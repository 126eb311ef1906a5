// P04: registrations are announced, notified and withdrawn exactly.
#include "harness/R.h"
static const char *OP[3] = {"p", "q", "s"};      // two properties and a signal
static bool same(const What &a, const What &b) { return a.kind == b.kind && (a.kind == 0 || (a.kind == 2 ? (uint8_t)a.v == (uint8_t)b.v : a.v == b.v)); }
struct World {
  std::shared_ptr<RecordingClient> client = std::make_shared<RecordingClient>();
  std::shared_ptr<ServiceRequester> r = std::make_shared<ServiceRequester>("svc", client);
  struct Obs { int o; RegID id; bool on; std::vector<What> got; size_t at = 0; std::weak_ptr<int> alive; };
  std::vector<Obs> all;
  bool available = true;
  What cached[2];
  World() { up(*r); all.reserve(16); }
  ~World() { r.reset(); }
  bool observed(int o) { for (auto &x : all) if (x.on && x.o == o) return true; return false; }
  void add(int o) {
    bool first = !observed(o);
    auto res = available && first && sym_choice(2, "fails") ? anyFailure() : ActionCallStatus::Success;
    client->outcome = [&](const CSMessagePtr &) { return res; };
    auto life = std::make_shared<int>(0);
    auto i = all.size();
    all.push_back({o, {}, false, {}, 0, life});
    CSPayloadProcessCallback cb = [this, i, life](const CSPayloadIFPtr &p) { all[i].got.push_back(what(p)); };
    life.reset();
    ActionCallStatus st = ActionCallStatus::FailedUnknown;
    auto id = o == 2 ? r->registerSignal(OP[o], std::move(cb), &st) : r->registerStatus(OP[o], std::move(cb), &st);
    cb = nullptr;
    client->outcome = nullptr;
    if (!available) sym_assert(st == ActionCallStatus::ServiceUnavailable && !id.valid(), "registering at an unavailable service is refused");
    else if (res != ActionCallStatus::Success) sym_assert(st == res && !id.valid(), "a registration that could not be announced is reported so");
    else {
      sym_assert(st == ActionCallStatus::Success && id.valid() && id.opID == OP[o], "a registration is reported so");
      for (auto &x : all) sym_assert(!(x.on && x.id == id), "registrations differ");
      if (first) client->log.expect({{Address(), o == 2 ? OpCode::SignalRegister : OpCode::StatusRegister, OP[o], id.requestID, {}}}, "interest is announced with the first observer");
      else if (o < 2 && cached[o].kind) {
        sym_assert(all[i].got.size() == 1 && same(all[i].got[0], cached[o]), "a new observer is told the last value received");
        all[i].at = 1;
      }
      all[i].id = id;
      all[i].on = true;
    }
  }
  void update(int o, bool plain = false) {
    What w{plain ? 1 : (int)sym_choice(3, "kind"), sym_u32("v")};
    bool other = plain ? false : sym_choice(2, "elsewhere");
    r->onIncomingMessage(answer(OP[o], o == 2 ? OpCode::SignalRegister : OpCode::StatusRegister, sym_u64("number"), w.make(), other ? "svc2" : "svc"));
    if (other) return;
    for (auto &x : all)
      if (x.on && x.o == o) {
        sym_assert(x.got.size() == x.at + 1 && same(x.got.back(), w), "every observer is told each update once, as it was published");
        x.at++;
      }
    if (o < 2 && observed(o)) cached[o] = w;
  }
  void withdrawn(int o, bool any) {
    if (!any || observed(o)) return;
    client->log.expect({{Address(), OpCode::Unregister, OP[o], RequestIDInvalid, {}}}, "interest is withdrawn with the last observer");
    if (o < 2) cached[o] = {};
  }
  void remove() {
    RegID id;
    id.requestID = sym_u64("number");
    int o = sym_choice(3, "which");
    id.opID = OP[o];
    auto st = r->unregister(id);
    bool any = false;
    for (auto &x : all) if (x.on && x.id == id) { x.on = false; any = true; break; }
    if (!CSIDManager::isValidID(id.requestID)) sym_assert(st == ActionCallStatus::InvalidParam, "an invalid registration is refused");
    else if (any) sym_assert(st == ActionCallStatus::Success, "an observer can unregister");
    withdrawn(o, any);
  }
  void removeAll() {
    int o = sym_choice(3, "which");
    bool any = observed(o);
    auto st = r->unregisterAll(OP[o]);
    sym_assert(st == (available ? ActionCallStatus::Success : ActionCallStatus::ServiceUnavailable), "all observers can be unregistered");
    for (auto &x : all) if (x.o == o) x.on = false;
    withdrawn(o, any);
  }
  void look(int o) {
    if (available && !observed(o)) return;
    ActionCallStatus st = ActionCallStatus::FailedUnknown;
    auto got = r->getStatus(OP[o], &st, std::chrono::milliseconds(0));
    sym_assert(st == (available ? ActionCallStatus::Success : ActionCallStatus::ServiceUnavailable), "the state of an observed property is known");
    sym_assert(same(what(got), cached[o]), "the cached value is the last one received");
    int n = 0;
    sym_assert(r->getStatus(OP[o], [&](const CSPayloadIFPtr &p) { n++; sym_assert(same(what(p), cached[o]), "the cached value is the last one received"); }) == st, "the state of an observed property is known");
    sym_assert(n == 1, "a question for a cached value is answered once");
    if (got && what(got).kind == 1) {                    // what was given away is not the cache itself
      auto other = what(r->getStatus(OP[o], nullptr, std::chrono::milliseconds(0)));
      sym_assert(same(other, cached[o]), "the cached value is the last one received");
    }
  }
  void op() {
    switch (sym_choice(6, "op")) {
      case 0: add(sym_choice(3, "which")); break;
      case 1: update(sym_choice(3, "which")); break;
      case 2: remove(); break;
      case 3: removeAll(); break;
      case 4: look(sym_choice(2, "which")); break;
      case 5:
        if (available) { down(*r); for (auto &x : all) x.on = false; }
        else up(*r);
        available = !available;
        break;
    }
    check();
  }
  void check() {
    client->log.expect({}, "nothing is announced or withdrawn otherwise");
    for (auto &x : all) {
      sym_assert(x.got.size() == x.at, "observers are told updates of what they observe only, until they unregister");
      sym_assert(x.on == !x.alive.expired(), "an observer is kept exactly until it has unregistered");
    }
  }
  void finish() {
    for (int o = 0; o < 2; o++) look(o);
    check();
    for (int o = 0; o < 3; o++) update(o, true);
    check();
  }
};
SYM_ENTRY p04_model() {
  rt_set_preempt(0);
  World w;
  for (uint64_t i = 0, n = sym_cfg("ops", 3); i < n; i++) w.op();
  sym_cover("end");
}
// a property with two observers, another with one, and a signal
SYM_ENTRY p04_busy() {
  rt_set_preempt(0);
  World w;
  w.add(0);
  sym_assume(w.all.back().on);
  w.update(0);
  w.add(0);
  w.add(1);
  sym_assume(w.all.back().on);
  w.add(2);
  sym_assume(w.all.back().on);
  for (uint64_t i = 0, n = sym_cfg("ops", 2); i < n; i++) w.op();
  w.finish();
  sym_cover("end");
}
SYM_ENTRY p04_invalid() {
  rt_set_preempt(0);
  auto client = std::make_shared<RecordingClient>();
  auto r = std::make_shared<ServiceRequester>("svc", client);
  up(*r);
  ActionCallStatus st = ActionCallStatus::FailedUnknown;
  sym_assert(!(sym_choice(2, "signal") ? r->registerSignal("x", nullptr, &st) : r->registerStatus("x", nullptr, &st)).valid() && st == ActionCallStatus::InvalidParam, "nobody to tell is refused");
  sym_assert(r->unregister({}) == ActionCallStatus::InvalidParam, "an invalid registration is refused");
  client->log.expect({}, "nothing is announced");
  client.reset();
  sym_assert(!r->registerStatus("p", [](const CSPayloadIFPtr &) {}, &st).valid() && st == ActionCallStatus::ReceiverUnavailable, "without a client nothing can be announced");
}
// observers may use the requester while being told
SYM_ENTRY p04_reentrant() {
  rt_set_preempt(0);
  auto client = std::make_shared<RecordingClient>();
  auto r = std::make_shared<ServiceRequester>("svc", client);
  up(*r);
  uint32_t v = sym_u32("v");
  int n = 0, m = 0, other = 0;
  RegID id;
  auto kind = sym_choice(6, "what");
  bool property = sym_choice(2, "property");
  CSPayloadProcessCallback cb = [&](const CSPayloadIFPtr &p) {
    n++;
    sym_assert(what(p).v == v, "observers are told the value published");
    switch (kind) {
      case 0: r->unregister(id); break;
      case 1: r->unregisterAll("p"); break;
      case 2: { auto c = r->getStatus("p", nullptr, std::chrono::milliseconds(0)); if (property) sym_assert(what(c).kind == 1 && what(c).v == v, "an observer being told finds that value"); break; }
      case 3: if (n == 1) property ? r->registerStatus("p", [&](const CSPayloadIFPtr &) { m++; }, nullptr) : r->registerSignal("p", [&](const CSPayloadIFPtr &) { m++; }, nullptr); break;
      case 4: down(*r); break;
      case 5: r->sendRequestAsync("p", {}, [](const CSPayloadIFPtr &) {}, nullptr); break;
    }
  };
  id = property ? r->registerStatus("p", cb, nullptr) : r->registerSignal("p", cb, nullptr);
  CSPayloadProcessCallback cb2 = [&](const CSPayloadIFPtr &) { other++; };
  if (property) r->registerStatus("q", cb2, nullptr); else r->registerSignal("q", cb2, nullptr);
  auto code = property ? OpCode::StatusRegister : OpCode::SignalRegister;
  r->onIncomingMessage(answer("p", code, 0, pay(v)));
  sym_assert(n == 1, "an observer is told once");
  if (kind == 3) sym_assert(m == property, "an observer registering while another is told gets the cached value only");
  r->onIncomingMessage(answer("p", code, 0, pay(v)));
  sym_assert(n == (kind == 0 || kind == 1 || kind == 4 ? 1 : 2), "an observer is told until it unregisters");
  if (kind == 3) sym_assert(m == property + 1, "a new observer is told the next update");
  r->onIncomingMessage(answer("q", code, 0, pay(v)));
  sym_assert(other == (kind != 4), "others go on");
}
// others come and go while an observer is told
SYM_ENTRY p04_threads() {
  rt_set_preempt(sym_cfg("preempt", 2));
  struct C : RecordingClient {
    std::mutex m;
    ActionCallStatus sendMessageToServer(const CSMessagePtr &msg) override { std::lock_guard l(m); return RecordingClient::sendMessageToServer(msg); }
  };
  auto client = std::make_shared<C>();
  auto r = std::make_shared<ServiceRequester>("svc", client);
  up(*r);
  uint32_t v = sym_u32("v"), u = sym_u32("v");
  std::vector<uint32_t> got;
  std::mutex m;
  std::vector<What> told;
  bool left = false;
  auto id = r->registerStatus("p", [&](const CSPayloadIFPtr &p) { got.push_back(what(p).v); }, nullptr);
  client->log.at = client->log.got.size();
  std::thread t1([&] { r->onIncomingMessage(answer("p", OpCode::StatusRegister, 0, pay(v))); r->onIncomingMessage(answer("p", OpCode::StatusRegister, 0, pay(u))); });
  std::thread t2([&] {
    auto id2 = r->registerStatus("p", [&](const CSPayloadIFPtr &p) { std::lock_guard k(m); told.push_back(what(p)); }, nullptr);
    sym_assert(id2.valid() && id2 != id, "registrations differ");
    if (sym_choice(2, "leave")) { r->unregister(id2); left = true; }
  });
  t1.join();
  t2.join();
  sym_assert(got.size() == 2 && (got[0] == v) & (got[1] == u), "a registered observer is told every update once, in order");
  client->log.expect({}, "nothing is announced or withdrawn while somebody observes");
  sym_assert(told.size() <= 2 && (left || !told.empty()), "an observer that comes meanwhile is told each value once");
  for (size_t i = 0; i < told.size(); i++) sym_assert((told[i].kind == 1) & (told[i].v == (i + 1 < told.size() ? v : left ? told[i].v : u)), "what an observer is told last is the last value received");
  sym_assert(what(r->getStatus("p", nullptr, std::chrono::milliseconds(0))).v == u, "the cached value is the last one received");
  sym_cover("end");
}
// the last observer leaves while another one comes, or several leave at once: interest is announced as long as somebody observes
SYM_ENTRY p04_cross() {
  rt_set_preempt(sym_cfg("preempt", 2));
  struct Service : RecordingClient {   // the other end: who is announced, and the current value for everybody who announces
    std::mutex m;
    ServiceRequester *r = nullptr;
    bool announced = false;
    CSPayloadIFPtr now;
    ActionCallStatus sendMessageToServer(const CSMessagePtr &msg) override {
      bool reg = msg->operationCode() != OpCode::Unregister;
      {
        std::lock_guard l(m);
        RecordingClient::sendMessageToServer(msg);
        announced = reg;
      }
      if (reg && now) r->onIncomingMessage(answer("p", OpCode::StatusRegister, msg->requestID(), now));
      return ActionCallStatus::Success;
    }
  };
  auto client = std::make_shared<Service>();
  auto r = std::make_shared<ServiceRequester>("svc", client);
  client->r = r.get();
  up(*r);
  bool signal = sym_choice(2, "signal");
  uint32_t v = sym_u32("v");
  if (!signal) client->now = pay(v);
  int told = 0;
  auto cb = [](const CSPayloadIFPtr &) {};
  auto observe = [&](CSPayloadProcessCallback f) { return signal ? r->registerSignal("p", std::move(f), nullptr) : r->registerStatus("p", std::move(f), nullptr); };
  int how = (int)sym_choice(4, "how");
  auto a = observe(cb), b = how == 2 ? observe(cb) : RegID{};
  RegID c;
  std::thread t1([&] { if (how == 3) r->unregisterAll("p"); else r->unregister(a); });
  std::thread t2([&] {
    if (how == 2) { r->unregister(b); return; }
    c = observe([&](const CSPayloadIFPtr &p) { told++; if (!signal) sym_assert(what(p).v == v, "an observer is told what was published"); });
    sym_assert(c.valid(), "a registration is reported so");
    if (how == 1) r->unregister(c);
  });
  t1.join();
  t2.join();
  rt_wait_quiescent();
  bool on = how == 0;
  if (how == 3) { on = true; told = 0; r->onIncomingMessage(answer("p", signal ? OpCode::SignalRegister : OpCode::StatusRegister, 0, pay(v))); on = told != 0; }
  if (on || how != 3) sym_assert(client->announced == on, "interest is announced exactly while somebody observes");
  if (!signal && on) {
    sym_assert(told >= 1, "a new observer is told the current value");
    auto s = r->getStatus("p", nullptr, std::chrono::milliseconds(0));
    sym_assert(what(s).kind == 1 && what(s).v == v, "the cached value is the last one received");
  }
  if (on && how == 0) {
    int before = told;
    r->onIncomingMessage(answer("p", signal ? OpCode::SignalRegister : OpCode::StatusRegister, 0, pay(v)));
    sym_assert(told == before + 1, "a registered observer is told every update once");
    r->unregister(c);
    sym_assert(!client->announced, "interest is withdrawn with the last observer");
  }
  sym_cover("end");
}
