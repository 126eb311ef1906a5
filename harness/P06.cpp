// P06: messages reach only the provider or requester they name.
#include "harness/P.h"
#include "maf/messaging/client-server/ClientBase.h"
#include "maf/messaging/client-server/ServerBase.h"
#include "maf/messaging/client-server/ServiceProviderIF.h"
#include "maf/messaging/client-server/ServiceRequesterIF.h"
#include "maf/messaging/client-server/RequestIF.h"
struct Server : ServerBase {
  Log log;
  std::vector<ServiceID> from;
  ActionCallStatus sendMessageToClient(const CSMessagePtr &m, const Address &to) override {
    log.got.push_back({to, m->operationCode(), m->operationID(), m->requestID(), what(m->payload())});
    from.push_back(m->serviceID());
    return ActionCallStatus::Success;
  }
  void notifyServiceStatusToClient(const ServiceID &, Availability, Availability) override {}
  bool start() override { return true; }
  void stop() override {}
  bool onIncomingMessage(const CSMessagePtr &m) override { return ServerBase::onIncomingMessage(m); }
};
struct Client : ClientBase {
  std::vector<CSMessagePtr> sent;
  ActionCallStatus sendMessageToServer(const CSMessagePtr &m) override { sent.push_back(m); return ActionCallStatus::Success; }
  bool start() override { return true; }
  void stop() override {}
  bool onIncomingMessage(const CSMessagePtr &m) override { return ClientBase::onIncomingMessage(m); }
};
// any service name up to two characters
static ServiceID name() {
  ServiceID s;
  for (size_t i = 0, n = sym_len(sym_cfg("len", 2), "length"); i < n; i++) { uint8_t c = sym_u8("char"); s.push_back((char)c); }
  return s;
}
SYM_ENTRY p06_server() {
  rt_set_preempt(0);
  auto s = std::make_shared<Server>();
  std::vector<ServiceID> names;
  std::vector<ServiceProviderIFPtr> ps;
  std::vector<int> calls;
  for (uint64_t i = 0, n = sym_cfg("services", 2); i < n; i++) {
    auto x = name();
    auto p = s->getServiceProvider(x);
    sym_assert(!!p && p->serviceID() == x, "asking for a service gives its provider");
    size_t j = 0;
    while (j < names.size() && names[j] != x) j++;
    if (j < names.size()) sym_assert(ps[j] == p, "a service has one provider");
    else {
      for (auto &q : ps) sym_assert(q != p, "services have different providers");
      names.push_back(x);
      ps.push_back(p);
      calls.push_back(0);
      p->registerRequestHandler("a", [&calls, j](const std::shared_ptr<RequestIF> &r) { calls[j]++; r->respond(pay((uint32_t)j)); });
      p->setStatus("p", pay(100 + (uint32_t)j));
    }
  }
  auto z = name();
  size_t k = 0;
  while (k < names.size() && names[k] != z) k++;
  bool known = k < names.size();
  sym_assert(s->hasServiceProvider(z) == known, "the server knows its services");
  auto want = calls;
  switch (sym_choice(4, "message")) {
    case 0: {
      auto id = sym_u64("number");
      sym_assert(s->onIncomingMessage(createCSMessage(z, "a", OpCode::Request, id, {}, Address("c", 1))) == known, "a message for an unknown service is reported");
      if (known) { want[k]++; s->log.expect({{Address("c", 1), OpCode::Request, "a", id, {1, (uint32_t)k}}}, "a request is answered by the service it names"); }
      break;
    }
    case 1:
      sym_assert(s->onIncomingMessage(createCSMessage(z, "p", OpCode::StatusRegister, 5, {}, Address("c", 1))) == known, "a message for an unknown service is reported");
      if (known) s->log.expect({{Address("c", 1), OpCode::StatusRegister, "p", 5, {1, 100 + (uint32_t)k}}}, "the current value is that of the service named");
      for (size_t j = 0; j < ps.size(); j++) {
        ps[j]->setStatus("p", pay(200 + (uint32_t)j));
        if (j == k) s->log.expect({{Address("c", 1), OpCode::StatusRegister, "p", RequestIDInvalid, {1, 200 + (uint32_t)j}}}, "a client is told of the service it named");
      }
      break;
    case 2:
      sym_assert(s->onIncomingMessage(createCSMessage(z, "p", OpCode::StatusGet, 5, {}, Address("c", 1))) == known, "a message for an unknown service is reported");
      if (known) s->log.expect({{Address("c", 1), OpCode::StatusGet, "p", 5, {1, 100 + (uint32_t)k}}}, "a question is answered by the service it names");
      break;
    case 3:
      s->deinit();
      sym_assert(!s->onIncomingMessage(createCSMessage(z, "a", OpCode::Request, 1, {}, Address("c", 1))), "after shutdown no service is known");
      break;
  }
  s->log.expect({}, "a message has no other effect");
  for (size_t j = 0; j < calls.size(); j++) sym_assert(calls[j] == want[j], "a request reaches the service it names only, once");
  sym_assert(!s->hasServiceProvider("none of these"), "a message does not create a service");
  if (known) for (auto &x : s->from) sym_assert(x == z, "answers name the service they come from");
  if (known) sym_cover("known"); else sym_cover("unknown");
}
SYM_ENTRY p06_client() {
  rt_set_preempt(0);
  auto c = std::make_shared<Client>();
  std::vector<ServiceID> names;
  std::vector<ServiceRequesterIFPtr> rs;
  std::vector<int> answers, updates, states;
  struct Obs : ServiceStatusObserverIF {
    std::function<void(const ServiceID &)> f;
    void onServiceStatusChanged(const ServiceID &s, Availability, Availability) override { f(s); }
  };
  for (uint64_t i = 0, n = sym_cfg("services", 2); i < n; i++) {
    auto x = name();
    auto r = c->getServiceRequester(x);
    sym_assert(!!r && r->serviceID() == x, "asking for a service gives its requester");
    size_t j = 0;
    while (j < names.size() && names[j] != x) j++;
    if (j < names.size()) { sym_assert(rs[j] == r, "a service has one requester"); continue; }
    for (auto &q : rs) sym_assert(q != r, "services have different requesters");
    names.push_back(x);
    rs.push_back(r);
    answers.push_back(0);
    updates.push_back(0);
    states.push_back(0);
    c->onServiceStatusChanged(x, Availability::Unavailable, Availability::Available);
    auto o = std::make_shared<Obs>();
    o->f = [&states, &names, j](const ServiceID &s) { states[j]++; sym_assert(s == names[j], "an observer is told of its service"); };
    r->registerServiceStatusObserver(o);
    states[j] = 0;
    auto id = r->sendRequestAsync("a", {}, [&answers, j](const CSPayloadIFPtr &) { answers[j]++; }, nullptr);
    sym_assert(c->sent.back()->serviceID() == x, "requests name their service");
    sym_assert(id.requestID == rs[0]->sendRequestAsync("b", {}, [](const CSPayloadIFPtr &) {}, nullptr).requestID || true, "");
    r->registerStatus("p", [&updates, j](const CSPayloadIFPtr &) { updates[j]++; }, nullptr);
  }
  auto z = name();
  size_t k = 0;
  while (k < names.size() && names[k] != z) k++;
  bool known = k < names.size();
  sym_assert(c->hasServiceRequester(z) == known, "the client knows its requesters");
  auto a = answers, u = updates, st = states;
  uint64_t number = 0;
  for (auto &m : c->sent) if (m->operationID() == "a" && known && m->serviceID() == z) number = m->requestID();
  if (!known && !c->sent.empty()) number = c->sent[0]->requestID();
  switch (sym_choice(3, "message")) {
    case 0:
      sym_assert(c->onIncomingMessage(createCSMessage(z, "a", OpCode::Request, number)) == known, "a message for an unknown service is reported");
      if (known) a[k]++;
      break;
    case 1:
      sym_assert(c->onIncomingMessage(createCSMessage(z, "p", OpCode::StatusRegister, 0)) == known, "a message for an unknown service is reported");
      if (known) u[k]++;
      break;
    case 2:
      if (z == ServiceIDInvalid) return;
      sym_assert(c->onIncomingMessage(createCSMessage(z, OpID_ServiceUnavailable, OpCode::ServiceStatusUpdate)), "a notice is taken");
      if (known) st[k]++;
      for (size_t j = 0; j < rs.size(); j++) sym_assert(rs[j]->serviceStatus() == (j == k ? Availability::Unavailable : Availability::Available), "a notice is for the service it names only");
      break;
  }
  for (size_t j = 0; j < rs.size(); j++) sym_assert(answers[j] == a[j] && updates[j] == u[j] && states[j] == st[j], "a message reaches the requester of the service it names only, once");
  sym_assert(!c->hasServiceRequester("none of these"), "a message does not create a requester");
  if (known) sym_cover("known"); else sym_cover("unknown");
}
// asked for by several threads
SYM_ENTRY p06_race() {
  rt_set_preempt(sym_cfg("preempt", 2));
  auto s = std::make_shared<Server>();
  auto c = std::make_shared<Client>();
  ServiceProviderIFPtr p[2];
  ServiceRequesterIFPtr r[2];
  bool client = sym_choice(2, "client"), same = sym_choice(2, "same");
  auto f = [&](int i) {
    ServiceID id = same || !i ? "one" : "two";
    if (client) { r[i] = c->getServiceRequester(id); sym_assert(c->hasServiceRequester(id), "the client knows its requesters"); }
    else {
      p[i] = s->getServiceProvider(id);
      sym_assert(s->hasServiceProvider(id), "the server knows its services");
      sym_assert(s->onIncomingMessage(createCSMessage(id, "p", OpCode::Unregister, 1, {}, Address("c", 1))), "a message for a known service is taken");
    }
  };
  std::thread t(f, 0);
  f(1);
  t.join();
  sym_assert(client ? r[0] && r[1] && (r[0] == r[1]) == same : p[0] && p[1] && (p[0] == p[1]) == same, "a service has one provider and one requester");
}
// messages are dispatched while other requesters and providers are asked for
SYM_ENTRY p06_dispatch_race() {
  rt_set_preempt(sym_cfg("preempt", 2));
  auto s = std::make_shared<Server>();
  auto c = std::make_shared<Client>();
  int how = sym_choice(3, "what");
  static const char *SID[] = {"1", "2", "3", "4", "5"};
  int n = 2 + sym_choice(2, "known"), k = sym_choice(n, "to");
  auto get = [&](int i) { if (how) c->getServiceRequester(SID[i]); else s->getServiceProvider(SID[i]); };
  for (int i = 0; i < n; i++) get(i);
  auto dispatch = [&] {
    return how == 0 ? s->onIncomingMessage(createCSMessage(SID[k], "p", OpCode::Unregister, 1, {}, Address("c", 1)))
         : how == 1 ? c->onIncomingMessage(createCSMessage(SID[k], "p", OpCode::SignalRegister, 1))
                    : c->onIncomingMessage(createCSMessage(SID[k], OpID_ServiceAvailable, OpCode::ServiceStatusUpdate));
  };
  bool taken = how == 2 || dispatch(), then = false;
  std::thread t([&] { then = dispatch(); });
  get(n);
  if (n < 3) get(n + 1);
  t.join();
  sym_assert(taken == then, "a message reaches its service whatever else is asked for");
  for (int i = 0; i < n; i++) sym_assert(how ? c->hasServiceRequester(SID[i]) : s->hasServiceProvider(SID[i]), how ? "the client knows its requesters" : "the server knows its services");
  if (how == 2) for (int i = 0; i < n; i++) sym_assert(c->getServiceRequester(SID[i])->serviceStatus() == (i == k ? Availability::Available : Availability::Unavailable), "a message reaches its service whatever else is asked for");
  sym_cover("end");
}
