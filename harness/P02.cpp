// P02: updates go to exactly the registered clients.
#include "harness/P.h"
#include "maf/messaging/client-server/ServiceProvider.h"
static const Address CLIENT[2] = {Address("c", 1), Address("c", 2)};
static const char *OP[3] = {"p", "q", "s"};      // two properties and a signal
struct World {
  std::shared_ptr<RecordingServer> server = std::make_shared<RecordingServer>();
  std::shared_ptr<ServiceProvider> p = std::make_shared<ServiceProvider>("svc", server);
  bool reg[2][3] = {};
  bool has[2] = {};
  uint32_t value[2] = {};
  maf::signal_slots::Connection con[3];
  bool listening[3] = {};
  std::vector<std::pair<int, What>> heard;
  size_t heardAt = 0;
  CSMessagePtr msg(int o, OpCode code, RequestID id, int c) { return createCSMessage("svc", OP[o], code, id, {}, CLIENT[c]); }
  void registerClient(int c, int o) {
    uint64_t id = sym_u64("number");
    sym_assert(p->onIncomingMessage(msg(o, o == 2 ? OpCode::SignalRegister : OpCode::StatusRegister, id, c)), "a registration is taken");
    reg[c][o] = true;
    if (o < 2 && has[o]) server->log.expect({{CLIENT[c], OpCode::StatusRegister, OP[o], id, {1, value[o]}}}, "a newly registered client is told the current value");
    else server->log.expect({}, "without a current value there is nothing to tell");
  }
  // client 0 may be unable to take messages
  struct Reach { int mode; int busy = 0; };
  void publish(int o, What w, const std::function<ActionCallStatus()> &f, bool expectAny) {
    int mode = reg[0][o] && expectAny ? sym_choice(4, "reach") : 0;
    int tries = 0;
    server->outcome = [&](const Address &a) {
      if (!(a == CLIENT[0])) return ActionCallStatus::Success;
      tries++;
      switch (mode) {
        case 1: return tries == 1 ? ActionCallStatus::ReceiverBusy : ActionCallStatus::Success;
        case 2: return ActionCallStatus::ReceiverBusy;
        case 3: return ActionCallStatus::ReceiverUnavailable;
      }
      return ActionCallStatus::Success;
    };
    auto st = f();
    server->outcome = nullptr;
    if (!expectAny) {
      server->log.expect({}, "an unchanged value is not sent");
      sym_assert(heard.size() == heardAt, "an unchanged value is not told");
      sym_assert(st == ActionCallStatus::NoAction, "an unchanged value is reported as such");
      return;
    }
    std::vector<Sent> want;
    for (int c = 0; c < 2; c++) if (reg[c][o] && (c || mode < 2)) want.push_back({CLIENT[c], o == 2 ? OpCode::SignalRegister : OpCode::StatusRegister, OP[o], RequestIDInvalid, w});
    bool any = !want.empty(), none = !reg[0][o] && !reg[1][o];
    server->log.expectSet(want, "an update goes once, with the value published, to exactly the clients registered for it");
    sym_assert(st == (any || none ? ActionCallStatus::Success : ActionCallStatus::ReceiverUnavailable), "publishing fails only when no registered client could be told");
    if (mode == 3) for (auto &r : reg[0]) r = false;        // a client that is gone is forgotten
    if (listening[o]) {
      sym_assert(heard.size() == heardAt + 1 && heard[heardAt].first == o && heard[heardAt].second.kind == w.kind, "listeners in the service's own process are told each update once");
      sym_assert(w.kind == 0 || heard[heardAt].second.v == w.v, "listeners are told the value published");
      heardAt++;
    } else sym_assert(heard.size() == heardAt, "others are told nothing");
  }
  void set(int o) {
    uint32_t v = sym_u32("v");
    bool changes = !has[o] || value[o] != v;
    if (changes) { has[o] = true; value[o] = v; }
    auto pl = pay(v);
    publish(o, {1, v}, [&] { return p->setStatus(OP[o], pl); }, changes);
  }
  void op() {
    switch (sym_choice(8, "op")) {
      case 0: registerClient(sym_choice(2, "client"), sym_choice(3, "which")); break;
      case 1: {
        int c = sym_choice(2, "client"), o = sym_choice(3, "which");
        p->onIncomingMessage(msg(o, OpCode::Unregister, sym_u64("number"), c));
        reg[c][o] = false;
        break;
      }
      case 2: {
        int c = sym_choice(2, "client");
        p->onIncomingMessage(msg(0, OpCode::UnregisterServiceStatus, RequestIDInvalid, c));
        for (auto &r : reg[c]) r = false;
        break;
      }
      case 3: set(sym_choice(2, "which")); break;
      case 4: {
        What w{(int)sym_choice(2, "kind"), sym_u32("v")};
        publish(2, w, [&] { return p->broadcastSignal(OP[2], w.make()); }, true);
        break;
      }
      case 5: {
        int o = sym_choice(2, "which");
        has[o] = false;
        if (sym_choice(2, "notify")) publish(o, {}, [&] { return p->removeProperty(OP[o], true); }, true);
        else p->removeProperty(OP[o], false);
        break;
      }
      case 6: {
        int c = sym_choice(2, "client"), o = sym_choice(2, "which");
        uint64_t id = sym_u64("number");
        p->onIncomingMessage(msg(o, OpCode::StatusGet, id, c));
        server->log.expect({{CLIENT[c], OpCode::StatusGet, OP[o], id, has[o] ? What{1, value[o]} : What{}}}, "a question for the value is answered once, to whom asked, with the current value");
        break;
      }
      case 7: {
        int o = sym_choice(3, "which");
        if (listening[o]) con[o].disconnect();
        else con[o] = p->registerNotification(OP[o], [this, o](const CSPayloadIFPtr &x) { heard.push_back({o, what(x)}); });
        listening[o] = !listening[o];
        break;
      }
    }
    check();
  }
  void check() {
    server->log.expect({}, "nothing is sent unasked");
    sym_assert(heard.size() == heardAt, "nothing is told unasked");
    for (int o = 0; o < 2; o++) {
      auto w = what(p->getStatus(OP[o]));
      sym_assert(w.kind == has[o], "the service knows whether a property has a value");
      if (has[o]) sym_assert(w.v == value[o], "the service knows a property's value");
    }
  }
};
SYM_ENTRY p02_model() {
  rt_set_preempt(0);
  World w;
  for (uint64_t i = 0, n = sym_cfg("ops", 3); i < n; i++) w.op();
  sym_cover("end");
}
// everybody is registered, and some property has a value
SYM_ENTRY p02_busy() {
  rt_set_preempt(0);
  World w;
  if (sym_choice(2, "before")) w.set(0);
  for (int c = 0; c < 2; c++) for (int o = 0; o < 3; o++) if (!(c == 1 && o == 1)) w.registerClient(c, o);
  for (int o = 0; o < 3; o += 2) {
    w.con[o] = w.p->registerNotification(OP[o], [&w, o](const CSPayloadIFPtr &x) { w.heard.push_back({o, what(x)}); });
    w.listening[o] = true;
  }
  w.check();
  for (uint64_t i = 0, n = sym_cfg("ops", 2); i < n; i++) w.op();
  w.set(0);
  w.set(0);
  w.set(1);
  uint32_t v = sym_u32("v");
  w.publish(2, {1, v}, [&] { return w.p->broadcastSignal("s", pay(v)); }, true);
  w.check();
  sym_cover("end");
}
// after shutdown nobody is registered any more
SYM_ENTRY p02_shutdown() {
  rt_set_preempt(0);
  World w;
  w.set(0);
  w.registerClient(0, 0);
  w.registerClient(1, 2);
  w.p->deinit();
  for (auto &c : w.reg) for (auto &r : c) r = false;
  w.has[0] = false;
  w.check();
  w.set(0);
  w.publish(2, {1, 7}, [&] { return w.p->broadcastSignal("s", pay(7)); }, true);
  w.server.reset();
  w.p->setStatus("p", pay(8));
  sym_cover("end");
}
// registrations of others come and go while values are published
SYM_ENTRY p02_threads() {
  rt_set_preempt(sym_cfg("preempt", 2));
  struct S : RecordingServer {
    std::mutex m;
    ActionCallStatus sendMessageToClient(const CSMessagePtr &msg, const Address &to) override { std::lock_guard l(m); return RecordingServer::sendMessageToClient(msg, to); }
  };
  auto s = std::make_shared<S>();
  auto p = std::make_shared<ServiceProvider>("svc", s);
  auto msg = [](const char *op, OpCode c, int cl) { return createCSMessage("svc", op, c, 1, {}, CLIENT[cl]); };
  p->onIncomingMessage(msg("p", OpCode::StatusRegister, 0));
  p->onIncomingMessage(msg("q", OpCode::StatusRegister, 1));
  uint32_t a = sym_u32("v"), b = sym_u32("v"), c = sym_u32("v");
  sym_assume(a != b);
  std::thread t1([&] { p->setStatus("p", pay(a)); p->setStatus("p", pay(b)); });
  std::thread t2([&] {
    if (sym_choice(2, "publish")) p->setStatus("q", pay(c));
    else { p->onIncomingMessage(msg("p", OpCode::StatusRegister, 1)); p->onIncomingMessage(msg("p", OpCode::Unregister, 1)); }
  });
  t1.join();
  t2.join();
  std::vector<uint32_t> got;
  for (auto &x : s->log.got) {
    sym_assert(x.code == OpCode::StatusRegister && x.w.kind == 1, "only values are sent");
    if (x.to == CLIENT[0]) { sym_assert(x.op == "p", "a client is sent what it registered for only"); got.push_back(x.w.v); }
    else sym_assert(x.op == "q" ? x.w.v == c : (x.w.v == a) | (x.w.v == b), "values are those published");
  }
  sym_assert(got.size() == 2 && (got[0] == a) & (got[1] == b), "a registered client is sent every value, in order");
  sym_assert(what(p->getStatus("p")).v == b, "the last value stays");
  sym_cover("end");
}
// two threads publish one property
SYM_ENTRY p02_publishers() {
  rt_set_preempt(sym_cfg("preempt", 2));
  struct S : RecordingServer {
    std::mutex m;
    ActionCallStatus sendMessageToClient(const CSMessagePtr &msg, const Address &to) override { std::lock_guard l(m); return RecordingServer::sendMessageToClient(msg, to); }
  };
  auto s = std::make_shared<S>();
  auto p = std::make_shared<ServiceProvider>("svc", s);
  uint32_t a = sym_u32("v"), b = sym_u32("v");
  sym_assume(a != b);
  p->onIncomingMessage(createCSMessage("svc", "p", OpCode::StatusRegister, 1, {}, CLIENT[0]));
  std::thread t([&] { p->setStatus("p", pay(b)); });
  p->setStatus("p", pay(a));
  t.join();
  sym_assert(s->log.got.size() == 2, "a client is told each value once");
  sym_assert((s->log.got[0].w.v == a) & (s->log.got[1].w.v == b) || (s->log.got[0].w.v == b) & (s->log.got[1].w.v == a), "a client is told each value once");
  sym_assert(s->log.got[1].w.v == what(p->getStatus("p")).v, "values published at once are told in the order in which they were set");
  sym_cover("end");
}
// a client registers while a value is published
SYM_ENTRY p02_register_race() {
  rt_set_preempt(sym_cfg("preempt", 2));
  struct S : RecordingServer {
    std::mutex m;
    ActionCallStatus sendMessageToClient(const CSMessagePtr &msg, const Address &to) override { std::lock_guard l(m); return RecordingServer::sendMessageToClient(msg, to); }
  };
  auto s = std::make_shared<S>();
  auto p = std::make_shared<ServiceProvider>("svc", s);
  uint32_t a = sym_u32("v"), b = sym_u32("v");
  sym_assume(a != b);
  bool had = sym_choice(2, "had a value");
  if (had) p->setStatus("p", pay(a));
  std::thread t([&] { p->setStatus("p", pay(b)); });
  p->onIncomingMessage(createCSMessage("svc", "p", OpCode::StatusRegister, 1, {}, CLIENT[0]));
  t.join();
  bool told = false;
  sym_assert(s->log.got.size() <= 3, "a new client is told the value and the change at most, before and after it is registered");
  for (auto &x : s->log.got) {
    sym_assert(x.w.kind == 1, "only values are sent");
    told = told | (x.w.v == b);
    sym_assert((x.w.v == b) | (x.w.v == a), "values are those published");
  }
  sym_assert(told, "a client that registers while a value is published is told it");
  sym_assert(s->log.got.back().w.v == b, "what a client is told last is the current value");
  sym_cover("end");
}
// the service goes down while another thread publishes, or while a client registers
SYM_ENTRY p02_down_race() {
  rt_set_preempt(sym_cfg("preempt", 2));
  struct S : RecordingServer {
    std::mutex m;
    ActionCallStatus sendMessageToClient(const CSMessagePtr &msg, const Address &to) override { std::lock_guard l(m); return RecordingServer::sendMessageToClient(msg, to); }
  };
  auto s = std::make_shared<S>();
  auto p = std::make_shared<ServiceProvider>("svc", s);
  uint32_t a = sym_u32("v"), b = sym_u32("v");
  sym_assume(a != b);
  int how = sym_choice(4, "meanwhile");
  for (int i = 0; i < 2; i++) p->onIncomingMessage(createCSMessage("svc", i ? "q" : "p", OpCode::StatusRegister, 1, {}, CLIENT[i]));
  std::thread t([&] {
    if (how == 0) p->setStatus("p", pay(a));
    else if (how == 1) p->broadcastSignal("q", pay(a));
    else p->onIncomingMessage(createCSMessage("svc", "p", how == 2 ? OpCode::Unregister : OpCode::StatusRegister, 1, {}, CLIENT[how - 2]));
  });
  p->deinit();
  t.join();
  sym_assert(s->log.got.size() <= (how < 2), "a client is told each value once");
  for (auto &x : s->log.got) sym_assert(x.w.v == a, "values are those published");
  s->log.got.clear();
  p->setStatus("p", pay(b));
  p->setStatus("q", pay(b));
  for (auto &x : s->log.got) sym_assert(how == 3 && x.w.v == b, "a service that went down has no registered clients");
  sym_assert(s->log.got.size() <= (how == 3), "a service that went down has no registered clients");
  sym_cover("end");
}
// a property is removed while another thread publishes, reads or registers
SYM_ENTRY p02_remove_race() {
  rt_set_preempt(sym_cfg("preempt", 2));
  struct S : RecordingServer {
    std::mutex m;
    ActionCallStatus sendMessageToClient(const CSMessagePtr &msg, const Address &to) override { std::lock_guard l(m); return RecordingServer::sendMessageToClient(msg, to); }
  };
  auto s = std::make_shared<S>();
  auto p = std::make_shared<ServiceProvider>("svc", s);
  uint32_t a = sym_u32("v"), b = sym_u32("v");
  sym_assume(a != b);
  int how = sym_choice(4, "meanwhile");
  bool notify = sym_choice(2, "notify");
  p->setStatus("q", pay(a));
  for (int i = 0; i < 2; i++) p->onIncomingMessage(createCSMessage("svc", i ? "q" : "p", OpCode::StatusRegister, 1, {}, CLIENT[i]));
  s->log.got.clear();
  What read{};
  std::thread t([&] {
    if (how == 0) p->setStatus("p", pay(b));
    else if (how == 1) p->setStatus("q", pay(b));
    else if (how == 2) read = what(p->getStatus("q"));
    else p->onIncomingMessage(createCSMessage("svc", "q", OpCode::StatusRegister, 1, {}, CLIENT[0]));
  });
  p->removeProperty("q", notify);
  t.join();
  int gone[2] = {}, value[2] = {};
  for (auto &x : s->log.got) {
    int k = x.to == CLIENT[0] ? 0 : 1;
    sym_assert(x.code == OpCode::StatusRegister && (x.op == "q") == (k == 1 || how == 3), "a client is told what it registered for only");
    if (x.w.kind) { value[k]++; sym_assert(x.w.v == (how == 3 ? a : b), "values are those published"); }
    else gone[k]++;
  }
  sym_assert(gone[1] == notify, "a client is told once that a property is gone, when it is to be");
  sym_assert(value[1] == (how == 1) && (how == 3 ? value[0] <= 1 : value[0] == (how == 0)), "a client is told each value once");
  sym_assert(how == 3 || !gone[0], "a client is told what it registered for only");
  auto q = what(p->getStatus("q")), last = what(p->getStatus("p"));
  sym_assert(how == 1 ? !q.kind || q.v == b : !q.kind, "a removed property has no value");
  sym_assert(how == 0 ? last.kind == 1 && last.v == b : !last.kind, "another property keeps its value");
  sym_assert(how != 2 || !read.kind || read.v == a, "a value read is one published");
  s->log.got.clear();
  p->setStatus("q", pay(b + 1));
  p->setStatus("p", pay(b + 2));
  int n[2] = {};
  for (auto &x : s->log.got) n[x.to == CLIENT[1]]++;
  sym_assert(n[1] == 1 && n[0] == 1 + (how == 3), "who registered is still told after a property was removed");
  sym_cover("end");
}
// a client takes its registration back while it is being registered, and another registers or goes
SYM_ENTRY p02_withdrawn_race() {
  rt_set_preempt(sym_cfg("preempt", 2));
  struct S : RecordingServer {
    std::mutex m;
    std::function<void()> meanwhile;
    ActionCallStatus sendMessageToClient(const CSMessagePtr &msg, const Address &to) override {
      ActionCallStatus r;
      { std::lock_guard l(m); r = RecordingServer::sendMessageToClient(msg, to); }
      if (to == CLIENT[0]) if (auto f = std::move(meanwhile)) { meanwhile = nullptr; f(); }
      return r;
    }
  };
  auto s = std::make_shared<S>();
  auto p = std::make_shared<ServiceProvider>("svc", s);
  auto msg = [](const char *op, OpCode c, int cl) { return createCSMessage("svc", op, c, 1, {}, CLIENT[cl]); };
  uint32_t a = sym_u32("v"), b = sym_u32("v");
  sym_assume(a != b);
  p->setStatus("p", pay(a));
  bool goes = sym_choice(2, "goes"), all = sym_choice(2, "all");
  if (goes) p->onIncomingMessage(msg("p", OpCode::StatusRegister, 1));
  s->log.got.clear();
  s->meanwhile = [&] { p->onIncomingMessage(all ? msg("", OpCode::UnregisterServiceStatus, 0) : msg("p", OpCode::Unregister, 0)); };
  std::thread t([&] { p->onIncomingMessage(msg("p", goes ? OpCode::Unregister : OpCode::StatusRegister, 1)); });
  p->onIncomingMessage(msg("p", OpCode::StatusRegister, 0));
  t.join();
  int n[2] = {};
  for (auto &x : s->log.got) { n[x.to == CLIENT[1]]++; sym_assert(x.w.kind == 1 && x.w.v == a, "a new client is told the current value"); }
  sym_assert(n[0] == 1 && n[1] == !goes, "a new client is told the current value");
  s->log.got.clear();
  p->setStatus("p", pay(b));
  sym_assert(s->log.got.size() == !goes, "a client that takes its registration back is told nothing further, others are");
  for (auto &x : s->log.got) sym_assert(x.to == CLIENT[1] && x.w.v == b, "others are told what is published");
  sym_cover("end");
}
// a client takes its registration back, or goes, while it is told the value it registered for
SYM_ENTRY p02_withdrawn() {
  rt_set_preempt(0);
  struct S : RecordingServer {
    std::function<void()> meanwhile;
    ActionCallStatus sendMessageToClient(const CSMessagePtr &msg, const Address &to) override {
      auto r = RecordingServer::sendMessageToClient(msg, to);
      if (auto f = std::move(meanwhile)) { meanwhile = nullptr; f(); }
      return r;
    }
  };
  auto s = std::make_shared<S>();
  auto p = std::make_shared<ServiceProvider>("svc", s);
  uint32_t a = sym_u32("v"), b = sym_u32("v"), c = sym_u32("v");
  sym_assume(a != b && b != c && a != c);
  p->setStatus("p", pay(a));
  bool changes = sym_choice(2, "changes"), other = sym_choice(2, "another");
  int how = sym_choice(4, "how");
  if (other) { p->onIncomingMessage(createCSMessage("svc", "p", OpCode::StatusRegister, 1, {}, CLIENT[1])); s->log.got.clear(); }
  s->meanwhile = [&] {
    if (changes) p->setStatus("p", pay(b));
    if (how == 0) p->onIncomingMessage(createCSMessage("svc", "p", OpCode::Unregister, 1, {}, CLIENT[0]));
    else if (how == 1) p->onIncomingMessage(createCSMessage("svc", "", OpCode::UnregisterServiceStatus, 1, {}, CLIENT[0]));
    else if (how == 2) p->deinit();
  };
  p->onIncomingMessage(createCSMessage("svc", "p", OpCode::StatusRegister, 1, {}, CLIENT[0]));
  auto told = [&](int k) { int n = 0; for (auto &x : s->log.got) n += x.to == CLIENT[k]; return n; };
  sym_assert(told(0) >= 1 && told(1) == (other && changes), "a new client is told the current value");
  s->log.got.clear();
  p->setStatus("p", pay(c));
  sym_assert(told(0) == (how == 3), "a client that takes its registration back while it is being registered is told nothing further");
  sym_assert(told(1) == (other && how != 2), "other clients are still told");
  for (auto &x : s->log.got) sym_assert(x.w.v == c, "values are those published");
  sym_cover("end");
}
