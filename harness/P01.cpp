// P01: a provider answers each request exactly once, to whom it came from.
#include "harness/P.h"
#include "maf/messaging/client-server/RequestIF.h"
#include "maf/messaging/client-server/ServiceProvider.h"
static const Address CLIENT[2] = {Address("c", 1), Address("c", 2)};
struct Req {
  int c;
  RequestID id;
  OpID op;
  uint32_t v;
  std::shared_ptr<RequestIF> r;
  int state = 0;          // 0 pending, 1 answered, 2 aborted
  bool cb = false;
  int aborted = 0;
};
struct World {
  std::shared_ptr<RecordingServer> server = std::make_shared<RecordingServer>();
  std::shared_ptr<ServiceProvider> p = std::make_shared<ServiceProvider>("svc", server);
  std::vector<std::shared_ptr<Req>> reqs;
  RequestID next[2] = {sym_u64("number"), sym_u64("number")};       // numbers are unique per client only
  bool handled[2] = {true, false};
  int invoked[2] = {0, 0};
  int handlers = 0, current[2] = {0, 0};
  std::shared_ptr<RequestIF> last;
  void handler(int o) {
    bool was = handled[o];
    int mine = ++handlers;
    bool ok = p->registerRequestHandler(o ? "b" : "a", [this, o, mine](const std::shared_ptr<RequestIF> &r) { invoked[o]++; last = r; sym_assert(mine == current[o], "only the registered handler is invoked"); });
    sym_assert(ok == !was, "one handler per operation");
    if (!was) current[o] = mine;
    handled[o] = true;
  }
  int kinds = 2;
  bool mayFail = true;
  ~World() { p.reset(); }
  World() { handled[0] = false; handler(0); }
  CSMessagePtr msg(const OpID &op, OpCode code, RequestID id, int c, CSPayloadIFPtr pl = {}) { return createCSMessage("svc", op, code, id, std::move(pl), CLIENT[c]); }
  void request(int c, int o) {
    auto q = std::make_shared<Req>();
    q->c = c; q->id = next[c]++; q->op = o ? "b" : "a"; q->v = sym_u32("in");
    int before = invoked[o];
    last.reset();
    sym_assert(p->onIncomingMessage(msg(q->op, OpCode::Request, q->id, c, pay(q->v))), "a request is taken");
    if (handled[o]) {
      sym_assert(invoked[o] == before + 1 && last, "a request invokes the handler of its operation once");
      q->r = last;
      sym_assert(last->getRequestID() == q->id && last->getOperationID() == q->op && last->getOperationCode() == OpCode::Request && last->valid(), "the handler is given that request");
      auto w = what(last->getInput());
      sym_assert(w.kind == 1 && w.v == q->v, "the handler is given the input that was sent");
      server->log.expect({}, "nothing is answered before the handler does");
      reqs.push_back(q);
    } else {
      sym_assert(invoked[o] == before, "only a registered handler is invoked");
      server->log.expect({{CLIENT[c], OpCode::Request, q->op, q->id, {2, 0}, false}}, "a request nobody handles is answered with an error");
    }
  }
  void reply(Req &q, bool partial, What w) {
    bool fail = mayFail && sym_choice(2, "receiver gone");
    auto outcome = fail ? anyFailure() : ActionCallStatus::Success;
    server->outcome = [=](const Address &) { return outcome; };
    auto st = partial ? q.r->update(w.make()) : q.r->respond(w.make());
    server->outcome = nullptr;
    if (q.state == 0) {
      sym_assert(st == outcome, "the outcome of sending an answer is reported");
      if (fail) server->log.expect({}, "nothing reaches a client that is gone");
      else server->log.expect({{CLIENT[q.c], partial ? OpCode::PartialRequestUpdate : OpCode::Request, q.op, q.id, w}}, "the answer goes to the client that asked, with its request number and the value given");
      if (!partial) q.state = 1;
    } else {
      sym_assert(st != ActionCallStatus::Success, "answering a finished request is refused");
      server->log.expect({}, "a finished request is not answered again");
    }
  }
  void abort(int c, RequestID id, const OpID &op) {
    p->onIncomingMessage(msg(op, OpCode::Abort, id, c));
    for (auto &q : reqs) if (q->c == c && q->id == id && q->op == op && q->state == 0) q->state = 2;
  }
  void onAborted(std::shared_ptr<Req> q) {
    auto raw = q.get();
    q->r->onAborted([raw] { raw->aborted++; raw->r->valid(); });
    q->cb = true;
  }
  void check() {
    server->log.expect({}, "nothing is sent unasked");
    for (auto &q : reqs) {
      sym_assert(q->r->valid() == (q->state == 0), "a request is valid until it is answered or aborted");
      auto in = what(q->r->getInput());
      sym_assert(in.kind == 1 && in.v == q->v && q->r->getOperationCode() == OpCode::Request, "answering does not change what was asked");
      sym_assert(q->aborted == (q->cb && q->state == 2 ? 1 : 0), "an abort is told once, and only to the handler of the aborted request");
    }
  }
  void op() {
    switch (sym_choice(5, "op")) {
      case 0: request(sym_choice(2, "client"), 0); break;
      case 1: request(0, 1); break;
      case 2: {
        int o = sym_choice(2, "of");
        if (sym_choice(2, "add")) handler(o);
        else { sym_assert(p->unregisterRequestHandler(o ? "b" : "a") == handled[o], "unregistering a handler"); handled[o] = false; }
        break;
      }
      case 3: {
        if (reqs.empty()) break;
        auto q = reqs[sym_choice(reqs.size(), "which")];
        switch (sym_choice(3, "do")) {
          case 0: reply(*q, sym_choice(2, "partial"), {kinds == 3 ? (int)sym_choice(3, "kind") : 1 + (int)sym_choice(2, "kind"), sym_u32("out")}); break;
          case 1: abort(q->c, q->id, q->op); break;
          case 2: if (!q->cb && q->state != 1) onAborted(q); break;
        }
        break;
      }
      case 4: {
        if (sym_choice(2, "shutdown")) {
          p->deinit();
          for (auto &q : reqs) if (q->state == 0) q->state = 2;
        } else abort(sym_choice(2, "client"), sym_u64("number"), sym_choice(2, "b") ? "b" : "a");
        break;
      }
    }
    check();
  }
};
// histories from the start
SYM_ENTRY p01_model() {
  rt_set_preempt(0);
  World w;
  w.handler(1);
  w.p->unregisterRequestHandler("b");
  w.handled[1] = false;
  for (uint64_t i = 0, n = sym_cfg("ops", 4); i < n; i++) w.op();
  sym_cover("end");
}
// two clients with the same request number and one with two requests are pending already
SYM_ENTRY p01_pending() {
  rt_set_preempt(0);
  World w;
  w.request(0, 0);
  w.request(1, 0);
  w.request(sym_choice(2, "client"), 0);
  if (sym_choice(2, "watch")) for (auto &q : w.reqs) w.onAborted(q);
  w.check();
  w.kinds = 3;
  for (uint64_t i = 0, n = sym_cfg("ops", 2); i < n; i++) w.op();
  w.mayFail = false;
  for (auto &q : w.reqs) { w.reply(*q, false, {1, sym_u32("out")}); w.check(); }
  for (auto &q : w.reqs) w.reply(*q, false, {1, sym_u32("out")});
  sym_cover("end");
}
// the provider is gone
SYM_ENTRY p01_gone() {
  rt_set_preempt(0);
  auto w = std::make_unique<World>();
  w->request(0, 0);
  w->request(1, 0);
  w->onAborted(w->reqs[1]);
  auto q = w->reqs;
  auto server = w->server;
  if (sym_choice(2, "which")) w->p.reset(); else w->server.reset(), w->p->deinit();
  for (auto &r : q) {
    auto st = sym_choice(2, "partial") ? r->r->update(pay(1)) : r->r->respond(pay(1));
    sym_assert(st != ActionCallStatus::Success, "answering after shutdown is refused");
  }
  sym_assert(q[1]->aborted == 1, "shutdown aborts the pending requests");
  server->log.expect({}, "nothing is sent after shutdown");
  sym_cover("end");
}
// answers, aborts and shutdown at the same time
SYM_ENTRY p01_race() {
  rt_set_preempt(sym_cfg("preempt", 2));
  World w;
  w.request(0, 0);
  w.request(1, 0);
  auto q = w.reqs[0], other = w.reqs[1];
  int mode = sym_choice(4, "mode");       // second answer, abort, shutdown, abort with a late abort handler
  bool late = mode == 3;
  if (late) mode = 1;
  if (!late) { w.onAborted(q); }
  ActionCallStatus s1 = ActionCallStatus::FailedUnknown, s2 = ActionCallStatus::FailedUnknown;
  std::thread a([&] { if (!late) s1 = q->r->respond(pay(1)); else w.onAborted(q); });
  std::thread b([&] {
    if (mode == 0) s2 = q->r->respond(pay(2));
    else if (mode == 1) w.p->onIncomingMessage(w.msg("a", OpCode::Abort, q->id, 0));
    else w.p->deinit();
  });
  a.join();
  b.join();
  int answers = 0;
  for (auto &s : w.server->log.got) {
    answers++;
    sym_assert(s.to == CLIENT[0] && s.id == q->id && s.code == OpCode::Request, "the answer goes to the client that asked");
  }
  if (mode == 0) sym_assert(answers == 1 && (s1 == ActionCallStatus::Success) + (s2 == ActionCallStatus::Success) == 1 && q->aborted == 0, "of two answers exactly one is sent, and the other is refused");
  else if (late) sym_assert(answers == 0 && q->aborted == 1, "an abort is told once, however late the handler asks for it");
  else {
    sym_assert(answers + q->aborted == 1, "a request is either answered or aborted");
    sym_assert((s1 == ActionCallStatus::Success) == (answers == 1), "an answer is reported sent exactly when it was");
    sym_cover(answers ? "answered" : "aborted");
  }
  sym_assert(!q->r->valid() && (mode == 2 || other->r->valid()), "other requests are not affected");
}
// requests of two clients handled at the same time
SYM_ENTRY p01_requests_race() {
  rt_set_preempt(sym_cfg("preempt", 2));
  auto server = std::make_shared<RecordingServer>();
  std::mutex m;
  std::vector<Sent> got;
  auto p = std::make_shared<ServiceProvider>("svc", server);
  server->outcome = [&](const Address &) { return ActionCallStatus::Success; };
  struct S : RecordingServer {
    std::mutex m;
    ActionCallStatus sendMessageToClient(const CSMessagePtr &msg, const Address &to) override { std::lock_guard l(m); return RecordingServer::sendMessageToClient(msg, to); }
  };
  auto s = std::make_shared<S>();
  p = std::make_shared<ServiceProvider>("svc", s);
  std::atomic<int> calls{0};
  p->registerRequestHandler("a", [&](const std::shared_ptr<RequestIF> &r) { calls++; r->respond(pay(what(r->getInput()).v + 1)); });
  uint32_t v[2] = {sym_u32("v"), sym_u32("v")};
  auto go = [&](int c) { p->onIncomingMessage(createCSMessage("svc", "a", OpCode::Request, 5, pay(v[c]), CLIENT[c])); };
  std::thread a([&] { go(0); }), b([&] { go(1); });
  a.join();
  b.join();
  sym_assert(calls == 2, "each request invokes the handler once");
  s->log.expectSet({{CLIENT[0], OpCode::Request, "a", 5, {1, v[0] + 1}}, {CLIENT[1], OpCode::Request, "a", 5, {1, v[1] + 1}}}, "each client gets the answer to its request");
  sym_cover("end");
}
