// P03: each request's callback gets the answers to that request, once.
#include "harness/R.h"
#include <chrono>
#include <future>
static const char *OP[2] = {"a", "b"};
struct World {
  std::shared_ptr<RecordingClient> client = std::make_shared<RecordingClient>();
  std::shared_ptr<ServiceRequester> r = std::make_shared<ServiceRequester>("svc", client);
  struct Pending { int op; RegID id; bool open; std::vector<What> got; size_t at = 0; std::weak_ptr<int> alive; };
  std::vector<Pending> all;
  bool available = true;
  World() { up(*r); }
  ~World() { r.reset(); }
  CSPayloadProcessCallback callback(size_t i, const std::shared_ptr<int> &life) {
    return [this, i, life](const CSPayloadIFPtr &p) { all[i].got.push_back(what(p)); };
  }
  void request(int op, bool question) {
    What in{(int)(question ? 0 : sym_choice(2, "payload")), sym_u32("v")};
    auto res = ActionCallStatus::Success;
    if (available && sym_choice(2, "fails")) res = anyFailure();
    client->outcome = [&](const CSMessagePtr &) { return res; };
    auto life = std::make_shared<int>(0);
    std::weak_ptr<int> alive = life;
    auto i = all.size();
    all.push_back({op, {}, false, {}, 0, alive});
    RegID id;
    ActionCallStatus st = ActionCallStatus::FailedUnknown;
    if (question) st = r->getStatus(OP[op], callback(i, life));
    else id = r->sendRequestAsync(OP[op], in.make(), callback(i, life), &st);
    life.reset();
    client->outcome = nullptr;
    if (!available) {
      sym_assert(st == ActionCallStatus::ServiceUnavailable && !id.valid(), "a request to an unavailable service is refused");
      client->log.expect({}, "a request to an unavailable service is not sent");
      if (question) { sym_assert(all[i].got.size() == 1 && all[i].got[0].kind == 0, "without a service there is no value"); all[i].at = 1; }
    } else if (res != ActionCallStatus::Success) {
      sym_assert(st == res && !id.valid(), "a request that could not be sent is reported so");
      client->log.expect({}, "nothing else is sent");
    } else {
      sym_assert(st == ActionCallStatus::Success, "a request that was sent is reported so");
      sym_assert(client->log.got.size() == client->log.at + 1, "a request is sent once");
      auto n = client->log.got.back().id;
      for (auto &p : all) sym_assert(!p.open || p.id.requestID != n, "pending requests have different numbers");
      if (!question) sym_assert(id.valid() && id.requestID == n && id.opID == OP[op], "the caller is given the number of its request");
      client->log.expect({{Address(), question ? OpCode::StatusGet : OpCode::Request, OP[op], n, in}}, "a request is sent with its operation, number and input");
      id.requestID = n;
      id.opID = OP[op];
      all[i].id = id;
      all[i].open = true;
    }
  }
  void respond() {
    int op = sym_choice(2, "which"), code = sym_choice(3, "answer");
    uint64_t n = sym_u64("number");
    What w{(int)sym_choice(3, "kind"), sym_u32("v")};
    bool other = code == 0 && sym_choice(2, "elsewhere");
    static const OpCode CODE[3] = {OpCode::Request, OpCode::PartialRequestUpdate, OpCode::StatusGet};
    sym_assert(r->onIncomingMessage(answer(OP[op], CODE[code], n, w.make(), other ? "svc2" : "svc")), "an answer is taken");
    if (other) return check();
    for (auto &p : all)
      if (p.open && p.op == op && p.id.requestID == n) {
        sym_assert(p.got.size() == p.at + 1, "the callback of the request answered is invoked, once");
        auto &g = p.got.back();
        sym_assert(g.kind == w.kind && (w.kind == 0 || (w.kind == 2 ? (uint8_t)g.v == (uint8_t)w.v : g.v == w.v)), "the callback is given the answer's payload");
        p.at++;
        if (code != 1) p.open = false;
        break;
      }
    check();
  }
  void abort() {
    RegID id;
    id.requestID = sym_u64("number");
    id.opID = OP[sym_choice(2, "which")];
    auto res = sym_choice(2, "fails") ? anyFailure() : ActionCallStatus::Success;
    client->outcome = [&](const CSMessagePtr &) { return res; };
    ActionCallStatus st = ActionCallStatus::FailedUnknown;
    r->abortRequest(id, &st);
    client->outcome = nullptr;
    if (!CSIDManager::isValidID(id.requestID)) sym_assert(st == ActionCallStatus::InvalidParam, "an invalid request cannot be aborted");
    else {
      bool found = false;
      for (auto &p : all)
        if (p.open && p.id == id) {
          found = true;
          p.open = false;
          if (res == ActionCallStatus::Success) client->log.expect({{Address(), OpCode::Abort, id.opID, id.requestID, {}}}, "the service is told of an abort, once");
          sym_assert(st == res, "an abort reports whether the service could be told");
          break;
        }
      if (!found) sym_assert(st == ActionCallStatus::NoAction, "what is not pending cannot be aborted");
    }
    check();
  }
  void op() {
    switch (sym_choice(5, "op")) {
      case 0: request(sym_choice(2, "which"), false); break;
      case 1: request(sym_choice(2, "which"), true); break;
      case 2: respond(); break;
      case 3: abort(); break;
      case 4:
        if (available) { down(*r); for (auto &p : all) p.open = false; }
        else up(*r);
        available = !available;
        break;
    }
    check();
  }
  void check() {
    client->log.expect({}, "nothing is sent unasked");
    for (auto &p : all) {
      sym_assert(p.got.size() == p.at, "no callback is invoked for another's answer, after an abort, or twice");
      sym_assert(p.open == !p.alive.expired(), "a callback is kept exactly until its request has ended");
    }
  }
};
SYM_ENTRY p03_model() {
  rt_set_preempt(0);
  World w;
  w.all.reserve(16);
  for (uint64_t i = 0, n = sym_cfg("ops", 3); i < n; i++) w.op();
  sym_cover("end");
}
// several are pending
SYM_ENTRY p03_pending() {
  rt_set_preempt(0);
  World w;
  w.all.reserve(16);
  for (int i = 0; i < 3; i++) {
    auto life = std::make_shared<int>(0);
    std::weak_ptr<int> alive = life;
    w.all.push_back({i == 2, {}, true, {}, 0, alive});
    w.all[i].id = w.r->sendRequestAsync(OP[i == 2], pay(i), w.callback(i, life), nullptr);
    w.client->log.expect({{Address(), OpCode::Request, OP[i == 2], w.all[i].id.requestID, {1, (uint32_t)i}}}, "a request is sent with its operation, number and input");
  }
  w.check();
  for (uint64_t i = 0, n = sym_cfg("ops", 2); i < n; i++) w.op();
  w.client.reset();
  ActionCallStatus st = ActionCallStatus::Success;
  auto id = w.r->sendRequestAsync("a", {}, [](const CSPayloadIFPtr &) { sym_fail("there is nobody to answer"); }, &st);
  sym_assert(!id.valid() && st == (w.available ? ActionCallStatus::ReceiverUnavailable : ActionCallStatus::ServiceUnavailable), "without a client nothing can be sent");
  w.r->deinit();
  for (auto &p : w.all) sym_assert(p.alive.expired(), "shutdown lets go of every callback");
  sym_cover("end");
}
// callbacks may use the requester
SYM_ENTRY p03_reentrant() {
  rt_set_preempt(0);
  auto client = std::make_shared<RecordingClient>();
  auto r = std::make_shared<ServiceRequester>("svc", client);
  up(*r);
  int first = 0, second = 0;
  RegID id2;
  auto kind = sym_choice(5, "what");
  struct Guard { std::function<void()> f; ~Guard() { if (f) f(); } };
  RegID id = r->sendRequestAsync("a", {}, [&](const CSPayloadIFPtr &) {
    first++;
    switch (kind) {
      case 0: r->sendRequestAsync("a", {}, [&](const CSPayloadIFPtr &) { second++; }, nullptr); break;
      case 1: r->abortRequest(id2, nullptr); break;
      case 2: r->onIncomingMessage(answer("a", OpCode::Request, id2.requestID, {})); break;
      case 3: down(*r); break;
      case 4: { ActionCallStatus st; r->abortRequest(id, &st); sym_assert(st == ActionCallStatus::NoAction, "what has been answered cannot be aborted"); break; }
    }
  }, nullptr);
  id2 = r->sendRequestAsync("a", {}, [&](const CSPayloadIFPtr &) { second++; }, nullptr);
  r->onIncomingMessage(answer("a", OpCode::Request, id.requestID, {}));
  r->onIncomingMessage(answer("a", OpCode::Request, id.requestID, {}));
  sym_assert(first == 1, "the callback is invoked once");
  r->onIncomingMessage(answer("a", OpCode::Request, id2.requestID, {}));
  sym_assert(second == (kind == 1 || kind == 3 ? 0 : 1), "the other's callback is invoked once unless it was aborted or dropped");
  sym_cover("end");
}
// answers and an abort race
SYM_ENTRY p03_race() {
  rt_set_preempt(sym_cfg("preempt", 2));
  struct C : RecordingClient {
    std::mutex m;
    ActionCallStatus sendMessageToServer(const CSMessagePtr &msg) override { std::lock_guard l(m); return RecordingClient::sendMessageToServer(msg); }
  };
  auto client = std::make_shared<C>();
  auto r = std::make_shared<ServiceRequester>("svc", client);
  up(*r);
  uint32_t v = sym_u32("v"), u = sym_u32("v");
  std::atomic<int> n1 = 0, n2 = 0;
  auto kind = sym_choice(3, "what");
  auto id = r->sendRequestAsync("a", {}, [&](const CSPayloadIFPtr &p) { n1++; sym_assert(what(p).v == v, "the callback is given its own answer"); }, nullptr);
  auto id2 = r->sendRequestAsync("a", {}, [&](const CSPayloadIFPtr &p) { n2++; sym_assert(what(p).v == u, "the callback is given its own answer"); }, nullptr);
  client->log.at = client->log.got.size();
  std::thread t1([&] { r->onIncomingMessage(answer("a", OpCode::Request, id.requestID, pay(v))); });
  std::thread t2([&] {
    if (kind == 0) r->onIncomingMessage(answer("a", OpCode::Request, id.requestID, pay(v)));
    else if (kind == 1) r->abortRequest(id, nullptr);
    else down(*r);
    if (kind < 2) r->onIncomingMessage(answer("a", OpCode::Request, id2.requestID, pay(u)));
  });
  t1.join();
  t2.join();
  bool told = client->log.got.size() != client->log.at;
  if (kind == 0) sym_assert(n1 == 1 && !told, "an answer that comes twice is given once");
  if (kind == 1) sym_assert(n1 + told == 1, "a request is either answered or aborted");
  if (kind == 2) sym_assert(n1 <= 1 && !told, "a dropped request is answered at most once");
  sym_assert(n2 == (kind < 2), "the other request gets its answer");
  if (n1) sym_cover("answered"); else sym_cover("ended");
}
// a waiting call returns the final answer, or tells why there is none
SYM_ENTRY p03_wait() {
  rt_set_preempt(sym_cfg("preempt", 1));
  auto client = std::make_shared<RecordingClient>();
  auto r = std::make_shared<ServiceRequester>("svc", client);
  up(*r);
  uint32_t v = sym_u32("v"), u = sym_u32("v"), in = sym_u32("v");
  bool question = sym_choice(2, "question"), limited = sym_choice(2, "limited");
  auto res = sym_choice(2, "fails") ? anyFailure() : ActionCallStatus::Success;
  std::atomic<uint64_t> number = 0;
  std::atomic<bool> sent = false, aborted = false;
  client->outcome = [&](const CSMessagePtr &m) {
    if (m->operationCode() == OpCode::Abort) { aborted = true; sym_assert(m->requestID() == number, "the request that expired is aborted"); }
    else { number = m->requestID(); sent = true; sym_assert(what(m->payload()).kind == !question && (question || what(m->payload()).v == in), "a request is sent with its input"); }
    return res;
  };
  CSPayloadIFPtr got;
  ActionCallStatus st = ActionCallStatus::FailedUnknown;
  std::thread t([&] {
    std::chrono::milliseconds limit(limited ? 5 : 0);
    got = question ? r->getStatus("a", &st, limit) : r->sendRequest("a", pay(in), &st, limit);
  });
  int kind = 5;
  if (res == ActionCallStatus::Success) {
    rt_wait_quiescent();
    if (sent) kind = sym_choice(limited ? 6 : 5, "then");
    if (kind == 0) r->onIncomingMessage(answer("a", OpCode::PartialRequestUpdate, number, pay(u)));
    if (kind == 1) r->onIncomingMessage(answer("a", question ? OpCode::StatusGet : OpCode::Request, number + 1, pay(u)));
    if (kind < 2 || kind == 2) r->onIncomingMessage(answer("a", question ? OpCode::StatusGet : OpCode::Request, number, pay(v)));
    if (kind == 3) down(*r);
    if (kind == 4) r->deinit();
  }
  t.join();
  if (st == ActionCallStatus::Success) {
    sym_assert(kind <= 2, "a call succeeds with an answer only");
    sym_assert(what(got).kind == 1 && what(got).v == v, "a waiting call returns the final answer to its request");
    sym_assert(!aborted, "an answered request is not aborted");
    sym_cover("answered");
  } else {
    sym_assert(!got, "without an answer nothing is returned");
    if (res != ActionCallStatus::Success) sym_assert(st == res && !aborted, "a request that could not be sent is reported so");
    else if (st == ActionCallStatus::Timeout) { sym_assert(limited, "only limited waits expire"); sym_assert(aborted || kind < 5, "an expired request is aborted"); sym_cover("expired"); }
    else { sym_assert(st == ActionCallStatus::ActionBroken && (kind == 3 || kind == 4) && !aborted, "a waiting call is released when the service is lost"); sym_cover("broken"); }
  }
}
// a service is lost while a request is being made
SYM_ENTRY p03_lost() {
  rt_set_preempt(sym_cfg("preempt", 3));
  auto client = std::make_shared<RecordingClient>();
  auto r = std::make_shared<ServiceRequester>("svc", client);
  up(*r);
  ActionCallStatus st = ActionCallStatus::FailedUnknown;
  std::thread t1([&] { sym_assert(!r->sendRequest("a", {}, &st, std::chrono::milliseconds(0)), "without an answer nothing is returned"); });
  std::thread t2([&] { down(*r); });
  t2.join();
  t1.join();
  sym_assert(st == ActionCallStatus::ServiceUnavailable || st == ActionCallStatus::ActionBroken, "a call to a lost service is refused or released");
  if (st == ActionCallStatus::ServiceUnavailable) sym_cover("refused"); else sym_cover("released");
}
// an answer and the end of the waiting time race
SYM_ENTRY p03_expire() {
  rt_set_preempt(sym_cfg("preempt", 2));
  rt_set_timejump(1);
  auto client = std::make_shared<RecordingClient>();
  auto r = std::make_shared<ServiceRequester>("svc", client);
  up(*r);
  uint32_t v = sym_u32("v");
  std::promise<uint64_t> sent;
  uint64_t number = 0;
  std::atomic<int> aborted = 0;
  client->outcome = [&](const CSMessagePtr &m) {
    if (m->operationCode() == OpCode::Abort) { aborted++; sym_assert(m->requestID() == number, "the request that expired is aborted"); }
    else sent.set_value(number = m->requestID());
    return ActionCallStatus::Success;
  };
  std::thread t([&] {
    ActionCallStatus st = ActionCallStatus::FailedUnknown;
    auto got = r->sendRequest("a", {}, &st, std::chrono::milliseconds(5));
    if (st == ActionCallStatus::Success) { sym_assert(what(got).kind == 1 && what(got).v == v && !aborted, "a waiting call returns the answer to its request"); sym_cover("answered"); }
    else { sym_assert(st == ActionCallStatus::Timeout && !got && aborted <= 1, "an expired call returns nothing"); sym_cover("expired"); }
  });
  r->onIncomingMessage(answer("a", OpCode::Request, sent.get_future().get(), pay(v)));
  t.join();
}
