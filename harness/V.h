// Typed requests, properties and signals driven through either transport: shared by P07 (one process) and P08 (local transport).
#pragma once
#include "harness/W.h"
#include "maf/messaging/client-server/SingleThreadPool.h"
struct Itc {
  using Trait = maf::messaging::itc::ParamTrait;
  static auto stub(maf::util::ExecutorIFPtr e) { return maf::messaging::itc::createStub("service", std::move(e)); }
  static auto proxy(maf::util::ExecutorIFPtr e) { return maf::messaging::itc::createProxy("service", std::move(e)); }
};
struct Ipc {
  using Trait = maf::messaging::ipc::local::ParamTrait;
  static auto stub(maf::util::ExecutorIFPtr e) { return maf::messaging::ipc::local::createStub(Address{"server", 0}, "service", std::move(e)); }
  static auto proxy(maf::util::ExecutorIFPtr e) { return maf::messaging::ipc::local::createProxy(Address{"server", 0}, "service", std::move(e)); }
};
template <class C> constexpr bool Ipc_ = std::is_same_v<C, Ipc>;
// everything under way has ended, and is visible here
template <class C> void settle() {
  if (!Ipc_<C>) return;
  rt_wait_quiescent();
  std::promise<void> p;
  auto f = p.get_future();
  maf::messaging::single_threadpool::submit([&] { p.set_value(); });
  f.wait();
  rt_wait_quiescent();
}
// what a callback or a waiting call gets
struct Answer {
  int kind = 0;                 // 0 nothing, 1 value, 2 empty output, 3 error
  uint32_t v = 0;
  std::string s;
  CSErrorCode code = CSErrorCode::Unknown;
};
template <class R> Answer answer(const R &r) {
  Answer a;
  sym_assert(r.hasValue() == (r.isError() || r.isOutput()), "a response has a value exactly when it is an error or an output");
  sym_assert((r.isError() || !r.getError()) && (r.isOutput() || !r.getOutput()), "a response gives out what it holds only");
  if (r.isError()) {
    a.kind = 3;
    a.code = r.getError()->code();
    a.s = r.getError()->description();
  } else if (r.isOutput()) {
    auto o = r.getOutput();
    a.kind = o ? 1 : 2;
    if (o) a.v = o->get_r(), a.s = o->get_s();
  }
  return a;
}
static bool equals(const Answer &a, const Answer &b) {
  if (a.kind != b.kind) return false;
  if (a.kind == 1) return (a.v == b.v) & same(a.s, b.s);
  if (a.kind == 3) return (a.code == b.code) & (b.code == CSErrorCode::ResponseIgnored || same(a.s, b.s));
  return true;
}
using Out = sum_request::output;
using In = sum_request::input;
template <class C> struct World {
  using Stub = BasicStub<typename C::Trait>;
  using Proxy = BasicProxy<typename C::Trait>;
  using Req = typename Stub::template Request<In>;
  using Resp = typename Proxy::template Response<Out>;
  std::shared_ptr<Stub> stub;
  std::shared_ptr<Proxy> proxy;
  std::vector<std::pair<uint32_t, std::string>> seen;   // inputs as the handler saw them
  std::vector<ActionCallStatus> replies;
  std::vector<Answer> got;
  std::vector<Req> kept;
  std::mutex lock;
  std::condition_variable more;
  int how = 0;
  uint32_t v1 = 0, v2 = 0;
  std::string s1;
  int code = 0;
  void handle(Req r) {
    auto in = r.getInput();
    sym_assert(in != nullptr, "a request's input reaches the handler");
    seen.push_back({in->get_a(), in->get_s()});
    switch (how) {
      case 0: replies.push_back(r.template respond<Out>(v1, s1)); break;
      case 1: replies.push_back(r.error(s1, (CSErrorCode)code)); break;
      case 2: replies.push_back(r.respond()); break;
      case 3: break;                                        // forgotten
      case 4: replies.push_back(r.template update<Out>(v2, s1)); replies.push_back(r.template respond<Out>(v1, s1)); break;
      case 5: replies.push_back(r.template respond<Out>(v1, s1)); r.template respond<Out>(v2, s1); r.error("late"); break;
      case 6: { std::lock_guard l(lock); kept.push_back(std::move(r)); more.notify_all(); break; }
      case 8: r.template respond<Out>(in->get_a() + 1, in->get_s()); break;
      case 7: { Req other; other = std::move(r); Req third{std::move(other)}; replies.push_back(third.respond(sum_request::make_output(v1, s1))); break; }
    }
  }
  // the answers the caller of this request must get
  std::vector<Answer> expected(bool waiting) const {
    Answer value{1, v1, s1, CSErrorCode::Unknown};
    switch (how) {
      case 1: return {Answer{3, 0, s1, (CSErrorCode)code}};
      case 2: return {Answer{2, 0, "", CSErrorCode::Unknown}};
      case 3: return {Answer{3, 0, "", CSErrorCode::ResponseIgnored}};
      case 4: if (!waiting) return {Answer{1, v2, s1, CSErrorCode::Unknown}, value};
      default: return {value};
    }
  }
  void start(maf::util::ExecutorIFPtr se, maf::util::ExecutorIFPtr pe) {
    if (Ipc_<C>) wire::start();
    stub = C::stub(std::move(se));
    proxy = C::proxy(std::move(pe));
    sym_assert(stub && proxy, "a stub and a proxy can be made");
    sym_assert(stub->template registerRequestHandler<In>([this](Req r) { handle(std::move(r)); }), "a handler can be registered");
    stub->startServing();
    settle<C>();
    sym_assert(proxy->serviceStatus() == Availability::Available && stub->availability() == Availability::Available, "a served service is available");
  }
};
template <class W> void pick(W &w) {
  w.v1 = sym_u32("value");
  w.v2 = sym_u32("progress");
  w.s1 = text("text");
  w.code = sym_u8("code") & 0x7f;
}
// requests one after another, each answered in any way, asked in any way
template <class C> void requests() {
  rt_set_preempt(sym_cfg("order", 1) ? 0 : -1);
  World<C> w;
  w.start(maf::util::directExecutor(), maf::util::directExecutor());
  size_t n = sym_cfg("requests", 2);
  for (size_t i = 0; i < n; i++) {
    pick(w);
    uint32_t a = sym_u32("input");
    std::string s = text("input text");
    w.how = (int)sym_choice(8, "reply");
    bool waiting = w.how != 6 && sym_choice(2, "waiting");
    w.got.clear();
    w.seen.clear();
    w.replies.clear();
    ActionCallStatus st = ActionCallStatus::FailedUnknown;
    if (waiting) {
      auto r = w.proxy->template sendRequest<Out>(sum_request::make_input(a, s), &st);
      w.got.push_back(answer(r));
    } else {
      auto id = w.proxy->template sendRequestAsync<Out>(sum_request::make_input(a, s), [&w](typename World<C>::Resp r) { w.got.push_back(answer(r)); }, &st);
  settle<C>();
      sym_assert(id.valid(), "a sent request has a registration");
    }
    sym_assert(st == ActionCallStatus::Success, "a request is sent");
    sym_assert(w.seen.size() == 1, "the handler is invoked once per request");
    sym_assert((w.seen[0].first == a) & same(w.seen[0].second, s), "the handler sees exactly the input the caller passed");
    if (w.how == 6) {
      sym_assert(w.got.empty(), "nothing is answered before the handler replies");
      sym_assert(w.kept.back().respond(sum_request::make_output(w.v1, w.s1)) == ActionCallStatus::Success, "a request can be answered later");
      settle<C>();
      w.kept.clear();
    }
    auto e = w.expected(waiting);
    sym_assert(w.got.size() == e.size(), "the caller is answered exactly once");
    for (size_t k = 0; k < e.size(); k++) sym_assert(equals(w.got[k], e[k]), "the caller sees exactly what the handler replied");
    for (auto r : w.replies) sym_assert(r == ActionCallStatus::Success, "a reply is reported as sent");
  }
  sym_cover("end");
}
// requests without input or output, unanswerable ones, aborted ones
template <class C> void bare() {
  rt_set_preempt(sym_cfg("order", 1) ? 0 : -1);
  World<C> w;
  w.start(maf::util::directExecutor(), maf::util::directExecutor());
  using Req = typename World<C>::Stub::template Request<poke_request>;
  using Resp = typename World<C>::Proxy::template Response<poke_request>;
  int pokes = 0, aborts = 0, answers = 0, errors = 0;
  std::shared_ptr<Req> kept;
  bool keep = false;
  auto cb = [&](Resp r) { r.isError() ? errors++ : answers++; };
  ActionCallStatus st;
  if (sym_choice(2, "before the handler")) {
    w.proxy->template sendRequestAsync<poke_request>(cb, &st);
  settle<C>();
    sym_assert(errors == 1 && answers == 0, "a request nobody handles is answered with an error");
    errors = 0;
  }
  w.stub->template registerRequestHandler<poke_request>([&](Req r) {
    pokes++;
    r.onAborted([&] { aborts++; }, maf::util::directExecutor());
    if (keep) kept = std::make_shared<Req>(std::move(r));
    else r.respond();
  });
  w.proxy->template sendRequestAsync<poke_request>(cb, &st);
  settle<C>();
  sym_assert(pokes == 1 && answers == 1 && errors == 0 && st == ActionCallStatus::Success, "a bare request is answered");
  auto r = w.proxy->template sendRequest<poke_request>(&st);
  settle<C>();
  sym_assert(pokes == 2 && !r.isError() && st == ActionCallStatus::Success, "a bare waiting request is answered");
  keep = true;
  auto id = w.proxy->template sendRequestAsync<poke_request>(cb, &st);
  settle<C>();
  sym_assert(pokes == 3 && answers == 1 && kept && kept->valid(), "a kept request is pending");
  switch (sym_choice(4, "end")) {
    case 0:
      w.proxy->abortRequest(id, &st);
  settle<C>();
      sym_assert(st == ActionCallStatus::Success && aborts == 1 && !kept->valid(), "an abort reaches the handler");
      sym_assert(kept->respond() != ActionCallStatus::Success, "an aborted request cannot be answered");
      sym_assert(answers == 1 && errors == 0, "an aborted request's callback is not invoked");
      break;
    case 1:
      kept->respond();
      settle<C>();
      sym_assert(answers == 2 && aborts == 0, "a kept request is answered");
      w.proxy->abortRequest(id, &st);
  settle<C>();
      sym_assert(aborts == 0 && st == ActionCallStatus::NoAction, "an answered request cannot be aborted");
      break;
    case 2:
      kept.reset();
      settle<C>();
      sym_assert(answers == 1 && errors == 1, "a forgotten request is answered with an error");
      break;
    case 3:
      *kept = Req{};
      settle<C>();
      sym_assert(answers == 1 && errors == 1, "a replaced request is answered with an error");
      break;
  }
  kept.reset();
  keep = false;
  int before = pokes;
  w.stub->template unregisterRequestHandler<poke_request>();
  int wereErrors = errors;
  w.proxy->template sendRequestAsync<poke_request>(cb, &st);
  settle<C>();
  sym_assert(pokes == before && errors == wereErrors + 1, "an unregistered handler is not invoked");
  sym_cover("end");
}
struct Value {
  bool set = false;
  uint32_t v = 0;
  std::string s;
};
static bool equals(const Value &a, const Value &b) { return a.set == b.set && (!a.set || ((a.v == b.v) & same(a.s, b.s))); }
// property changes and signals, observers that come and go
template <class C> void updates() {
  rt_set_preempt(sym_cfg("order", 1) ? 0 : -1);
  World<C> w;
  w.start(maf::util::directExecutor(), maf::util::directExecutor());
  Value cur;
  struct Obs { RegID id; bool live = false; std::vector<Value> got; int ticks = 0; };
  Obs obs[4];                      // 0, 1: property; 2: signal; 3: bare signal
  auto status = [](const std::shared_ptr<level_property::status> &p) { return p ? Value{true, p->get_v(), p->get_s()} : Value{}; };
  auto attrs = [](const std::shared_ptr<beep_signal::attributes> &p) { return p ? Value{true, p->get_v(), p->get_s()} : Value{}; };
  auto expect = [&](int k, const std::vector<Value> &e, const char *msg) {
    sym_assert(obs[k].got.size() == e.size(), msg);
    for (size_t i = 0; i < e.size(); i++) sym_assert(equals(obs[k].got[i], e[i]), msg);
    obs[k].got.clear();
  };
  size_t ops = sym_cfg("ops", 4);
  for (size_t i = 0; i < ops; i++) {
    ActionCallStatus st = ActionCallStatus::FailedUnknown;
    switch (sym_choice(7, "operation")) {
      case 0: {  // an observer comes
        int k = (int)sym_choice(4, "which");
        if (obs[k].live) break;
        auto &o = obs[k];
        o.live = true;
        if (k < 2) o.id = w.proxy->template registerStatus<level_property::status>([&o, &status](const std::shared_ptr<level_property::status> &p) { o.got.push_back(status(p)); }, &st);
        else if (k == 2) o.id = w.proxy->template registerSignal<beep_signal::attributes>([&o, &attrs](const std::shared_ptr<beep_signal::attributes> &p) { o.got.push_back(attrs(p)); }, &st);
        else o.id = w.proxy->template registerSignal<tick_signal>([&o] { o.ticks++; }, &st);
      settle<C>();
        sym_assert(st == ActionCallStatus::Success && o.id.valid(), "an observer can register");
        if (k < 2 && cur.set) expect(k, {cur}, "a new observer is told the current value");
        else if (k < 3) {
          // a property never set is told as absent at most
          for (auto &g : o.got) sym_assert(k < 2 && !g.set, "a new observer is told no value that was not published");
          o.got.clear();
        }
        break;
      }
      case 1: {  // an observer goes
        int k = (int)sym_choice(4, "which");
        if (!obs[k].live) break;
        sym_assert(w.proxy->unregister(obs[k].id) == ActionCallStatus::Success, "an observer can unregister");
      settle<C>();
        obs[k].live = false;
        break;
      }
      case 2: {  // the property is set
        Value n{true, sym_u32("value"), text("text")};
        bool changed = !equals(n, cur);
        if (sym_choice(2, "way")) w.stub->setStatus(level_property::make_status(n.v, n.s));
        else w.stub->template setStatus<level_property::status>(n.v, n.s);
      settle<C>();
        for (int k = 0; k < 2; k++) expect(k, obs[k].live && changed ? std::vector<Value>{n} : std::vector<Value>{}, "every observer is told each change of the property once, with its value");
        cur = n;
        break;
      }
      case 3: {  // a signal
        Value n{true, sym_u32("value"), text("text")};
        if (sym_choice(2, "way")) w.stub->broadcastSignal(beep_signal::make_attributes(n.v, n.s));
        else w.stub->template broadcastSignal<beep_signal::attributes>(n.v, n.s);
      settle<C>();
        expect(2, obs[2].live ? std::vector<Value>{n} : std::vector<Value>{}, "every observer is told each signal once, with its values");
        break;
      }
      case 4: {
        w.stub->template broadcastSignal<tick_signal>();
      settle<C>();
        sym_assert(obs[3].ticks == (obs[3].live ? 1 : 0), "a bare signal reaches its observer once");
        obs[3].ticks = 0;
        break;
      }
      case 5: {  // both sides are asked
        auto a = w.stub->template getStatus<level_property::status>();
        sym_assert(equals(a ? Value{true, a->get_v(), a->get_s()} : Value{}, cur), "the stub knows its current value");
        auto c = w.stub->template cloneStatus<level_property::status>();
        sym_assert(c && (!cur.set || equals(Value{true, c->get_v(), c->get_s()}, cur)), "a clone has the current value");
        c->set_v(c->get_v() + 1);
        auto b = w.proxy->template getStatus<level_property::status>(&st);
        sym_assert(equals(status(b), cur), "asking gives the current value");
        int n = 0;
        Value v;
        auto r = w.proxy->template getStatus<level_property::status>([&](const std::shared_ptr<level_property::status> &p) { n++; v = status(p); });
      settle<C>();
        sym_assert(r == ActionCallStatus::Success && n == 1 && equals(v, cur), "asking with a callback gives the current value once");
        break;
      }
      case 6: {  // the property is removed
        bool tell = sym_choice(2, "tell");
        w.stub->template removeProperty<level_property>(tell);
      settle<C>();
        for (int k = 0; k < 2; k++) expect(k, obs[k].live && tell ? std::vector<Value>{Value{}} : std::vector<Value>{}, "observers are told of the removal, if asked");
        cur = Value{};
        if (!tell) { sym_cover("removed silently"); return; }
        break;
      }
    }
    for (auto &o : obs) sym_assert(o.got.empty() && o.ticks == 0, "nobody else is told anything");
  }
  sym_cover("end");
}
// the service ends and starts again
template <class C> void service() {
  rt_set_preempt(sym_cfg("order", 1) ? 0 : -1);
  World<C> w;
  w.start(maf::util::directExecutor(), maf::util::directExecutor());
  std::vector<std::pair<Availability, Availability>> told;
  auto obs = w.proxy->onServiceStatusChanged([&](Availability o, Availability n) { told.push_back({o, n}); });
  sym_assert(told.size() == 1 && told[0].second == Availability::Available, "an observer is told of an available service");
  w.how = 6;
  int called = 0;
  w.proxy->template sendRequestAsync<Out>(sum_request::make_input(1u, std::string("x")), [&](typename World<C>::Resp) { called++; });
  w.stub->stopServing();
  settle<C>();
  sym_assert(told.size() == 2 && told[1].second == Availability::Unavailable, "an observer is told when the service ends");
  sym_assert(w.proxy->serviceStatus() == Availability::Unavailable, "a service that ended is unavailable");
  ActionCallStatus st;
  auto r = w.proxy->template sendRequest<Out>(sum_request::make_input(1u, std::string("x")), &st);
  settle<C>();
  sym_assert(st != ActionCallStatus::Success && r.isError() && w.seen.size() == 1, "a request to a service that ended is refused");
  w.kept.clear();
  int was = called;
  sym_assert(was <= 1, "a pending request is answered at most once");
  w.stub->startServing();
  settle<C>();
  sym_assert(told.size() == 3 && told[2].second == Availability::Available, "an observer is told when the service is back");
  w.how = 0;
  w.v1 = sym_u32("value");
  auto r2 = w.proxy->template sendRequest<Out>(sum_request::make_input(2u, std::string("y")), &st);
  settle<C>();
  sym_assert(st == ActionCallStatus::Success && r2.isOutput() && r2.getOutput()->get_r() == w.v1 && called == was, "a service that is back answers");
  w.proxy->unregisterServiceStatusObserver(obs);
  w.stub->stopServing();
  settle<C>();
  sym_assert(told.size() == 3, "an observer that unregistered is not told");
  sym_cover("end");
}
// listeners on the stub itself
template <class C> void local() {
  rt_set_preempt(sym_cfg("order", 1) ? 0 : -1);
  World<C> w;
  w.start(maf::util::directExecutor(), maf::util::directExecutor());
  std::vector<Value> got[2];
  int ticks = 0;
  auto c0 = w.stub->template registerNotification<level_property::status>([&](const std::shared_ptr<level_property::status> &p) { got[0].push_back(Value{true, p->get_v(), p->get_s()}); });
  auto c1 = w.stub->template registerNotification<beep_signal::attributes>([&](const std::shared_ptr<beep_signal::attributes> &p) { got[1].push_back(Value{true, p->get_v(), p->get_s()}); });
  auto c2 = w.stub->template registerNotification<tick_signal>([&] { ticks++; });
  bool on = true;
  Value last;
  for (size_t i = 0; i < 2; i++) {
    Value n{true, sym_u32("value"), text("text")};
    bool changed = !equals(n, last);
    w.stub->template setStatus<level_property::status>(n.v, n.s);
    last = n;
    w.stub->template broadcastSignal<beep_signal::attributes>(n.v, n.s);
    w.stub->template broadcastSignal<tick_signal>();
    settle<C>();
    sym_assert(got[0].size() == (on && changed ? 1 : 0) && got[1].size() == (on ? 1 : 0) && ticks == (on ? 1 : 0), "a stub's listener is told once of each publication while connected");
    for (auto &g : got) {
      for (auto &x : g) sym_assert(equals(x, n), "a stub's listener is told what was published");
      g.clear();
    }
    ticks = 0;
    if (sym_choice(2, "leave")) c0.disconnect(), c1.disconnect(), c2.disconnect(), on = false;
  }
  sym_cover("end");
}
// two callers at once, and handlers on a thread of their own
template <class C> void threads(int preempt) {
  rt_set_preempt(sym_cfg("order", 1) ? 0 : -1);
  World<C> w;
  auto proc = maf::messaging::Processor::create();
  std::thread runner([&] { proc->run(); });
  w.how = sym_choice(sym_cfg("ways", 2), "late") ? 6 : 8;
  w.start(proc->getAsyncExecutor(), maf::util::directExecutor());
  uint32_t in[2] = {sym_u32("input"), sym_u32("input")};
  Answer a[2];
  ActionCallStatus st[2];
  rt_set_preempt(preempt);
  auto call = [&](int i) { a[i] = answer(w.proxy->template sendRequest<Out>(sum_request::make_input(in[i], std::string(1, (char)('a' + i))), &st[i])); };
  std::thread other(call, 1);
  std::thread late;
  if (w.how == 6) late = std::thread([&] {
    for (size_t done = 0; done < 2; done++) {
      std::unique_lock l(w.lock);
      w.more.wait(l, [&] { return !w.kept.empty(); });
      auto r = std::move(w.kept.back());
      w.kept.pop_back();
      l.unlock();
      auto i = r.getInput();
      r.template respond<Out>(i->get_a() + 1, i->get_s());
    }
  });
  call(0);
  other.join();
  if (late.joinable()) late.join();
  rt_set_preempt(sym_cfg("order", 1) ? 0 : -1);
  for (int i = 0; i < 2; i++) {
    sym_assert(st[i] == ActionCallStatus::Success && a[i].kind == 1, "each caller is answered");
    sym_assert((a[i].v == (uint32_t)(in[i] + 1)) & same(a[i].s, std::string(1, (char)('a' + i))), "each caller gets the answer to its own request");
  }
  proc->stop();
  runner.join();
  sym_cover("end");
}

// an executor that keeps what it was given until it is told to work
struct Later : maf::util::ExecutorIF {
  std::vector<CallbackType> tasks;
  bool execute(CallbackType t) noexcept override { tasks.push_back(std::move(t)); return true; }
  size_t work() {
    auto t = std::move(tasks);
    tasks.clear();
    for (auto &x : t) x();
    return t.size();
  }
};
// every callback runs where its proxy or stub says, and nowhere else
template <class C> void executors() {
  rt_set_preempt(sym_cfg("order", 1) ? 0 : -1);
  World<C> w;
  w.start(maf::util::directExecutor(), maf::util::directExecutor());
  auto pe = std::make_shared<Later>(), se = std::make_shared<Later>();
  std::shared_ptr<typename World<C>::Proxy> p;
  std::shared_ptr<typename World<C>::Stub> s;
  if (sym_choice(2, "how")) {
    p = w.proxy->with(pe);
    s = w.stub->with(se);
    sym_assert(w.proxy->getExecutor() == maf::util::directExecutor() && w.stub->getExecutor() == maf::util::directExecutor(), "the original keeps its executor");
  } else {
    p = w.proxy, s = w.stub;
    p->setExecutor(pe);
    s->setExecutor(se);
  }
  sym_assert(p && s && p->getExecutor() == pe && s->getExecutor() == se, "a proxy or stub uses the executor it was given");
  sym_assert(p->getRequester() == w.proxy->getRequester() && p->serviceID() == "service" && s->serviceID() == "service", "the same service is used");
  uint32_t v = sym_u32("value");
  auto t = text("text");
  int ran = 0;
  ActionCallStatus st = ActionCallStatus::FailedUnknown;
  auto ranBy = [&](Later &e, size_t n, const char *msg) {
    settle<C>();
    sym_assert(ran == 0 && e.tasks.size() == n, msg);
    sym_assert((&e == pe.get() ? se : pe)->tasks.empty(), msg);
    e.work();
    settle<C>();
    sym_assert(ran == (int)n, msg);
    ran = 0;
  };
  switch (sym_choice(8, "what")) {
    case 7: {  // waiting for the service
      auto sig = serviceStatusSignal(p);
      auto r = sig->waitIfNot(Availability::Available, 0);
      sym_assert(r.isReady() && sig->currentStatus() == Availability::Available, "a signal made for a proxy knows an available service");
      s->stopServing();
      settle<C>();
      sym_assert(sig->waitIfNot(Availability::Unavailable, 0).isReady() && sig->waitIfNot(Availability::Available, 5).isTimeout(), "a signal follows the service");
      s->startServing();
      settle<C>();
      sym_assert(sig->waitIfNot(Availability::Available, 0).isReady(), "a signal follows the service");
      break;
    }
    case 0: {  // a status, told twice, to one registered twice
      auto cb = [&](const std::shared_ptr<level_property::status> &x) { ran++; sym_assert(x && (x->get_v() == v) & same(x->get_s(), t), "an observer is told what was set"); };
      auto a = p->template registerStatus<level_property::status>(cb, &st);
      auto b = p->template registerStatus<level_property::status>(cb, &st);
      settle<C>();
      pe->tasks.clear();
      s->template setStatus<level_property::status>(v, t);
      ranBy(*pe, 2, "observers are told on the proxy's executor");
      v = v + 1;
      s->template setStatus<level_property::status>(v, t);
      ranBy(*pe, 2, "observers are told on the proxy's executor each time");
      if (sym_choice(2, "all")) {
        sym_assert(p->unregisterAll(level_property::status::operationID()) == ActionCallStatus::Success, "all observers can be unregistered");
        s->template setStatus<level_property::status>(v + 1, t);
        ranBy(*pe, 0, "observers that were all unregistered are not told");
      } else {
        p->unregister(a);
        v = v + 1;
        s->template setStatus<level_property::status>(v, t);
        ranBy(*pe, 1, "an observer that stays is told");
      }
      sym_assert(b.valid(), "a registration is valid");
      break;
    }
    case 1: {  // signals with and without values
      p->template registerSignal<beep_signal::attributes>([&](const std::shared_ptr<beep_signal::attributes> &x) { ran++; sym_assert(x && (x->get_v() == v) & same(x->get_s(), t), "an observer is told the signal's values"); }, &st);
      p->template registerSignal<tick_signal>([&] { ran++; }, &st);
      settle<C>();
      for (int i = 0; i < 2; i++) {
        s->template broadcastSignal<beep_signal::attributes>(v, t);
        ranBy(*pe, 1, "signals are told on the proxy's executor");
        s->template broadcastSignal<tick_signal>();
        ranBy(*pe, 1, "bare signals are told on the proxy's executor");
      }
      break;
    }
    case 2: {  // a request handled and answered, each at its own place; an update before
      int handled = 0;
      bool update = sym_choice(2, "update");
      s->template registerRequestHandler<poke_request>([&](typename World<C>::Stub::template Request<poke_request> r) {
        handled++;
        sym_assert(r.valid() && r.getOperationID() == poke_request::operationID(), "a request knows what it asks");
        if (update) sym_assert(r.update() == ActionCallStatus::Success, "progress can be told");
        sym_assert(r.respond() == ActionCallStatus::Success, "a request can be answered");
      });
      for (int i = 0; i < 2; i++) {
        p->template sendRequestAsync<poke_request>([&](typename World<C>::Proxy::template Response<poke_request> r) { ran++; sym_assert(!r.isError() && !r.getOutput(), "a bare answer is an answer"); }, &st);
        settle<C>();
        sym_assert(st == ActionCallStatus::Success && handled == i && se->tasks.size() == 1, "a request is handled on the stub's executor");
        se->work();
        sym_assert(handled == i + 1, "a request is handled on the stub's executor once");
        ranBy(*pe, update ? 2 : 1, "an answer is told on the proxy's executor");
      }
      break;
    }
    case 3: {  // asking for a property
      auto r = p->template getStatus<level_property::status>([&](const std::shared_ptr<level_property::status> &x) { ran++; sym_assert(!x, "a property that was not set has no value"); });
      sym_assert(r == ActionCallStatus::Success, "a property can be asked for");
      ranBy(*pe, 1, "a property's value is told on the proxy's executor");
      sym_assert(!p->template getStatus<level_property::status>(&st) && st == ActionCallStatus::Success, "a property that was not set has no value");
      s->template setStatus<level_property::status>(v, t);
      p->template getStatus<level_property::status>([&](const std::shared_ptr<level_property::status> &x) { ran++; sym_assert(x && (x->get_v() == v) & same(x->get_s(), t), "a property's value is told"); });
      ranBy(*pe, 1, "a property's value is told on the proxy's executor");
      break;
    }
    case 4: {  // listeners on the stub
      s->template registerNotification<level_property::status>([&](const std::shared_ptr<level_property::status> &x) { ran++; sym_assert(x && (x->get_v() == v) & same(x->get_s(), t), "a stub's listener is told what was set"); });
      s->template registerNotification<tick_signal>([&] { ran++; });
      for (int i = 0; i < 2; i++) {
        v = v + 1;
        s->template setStatus<level_property::status>(v, t);
        ranBy(*se, 1, "a stub's listener is told on the stub's executor");
        s->template broadcastSignal<tick_signal>();
        ranBy(*se, 1, "a stub's listener is told on the stub's executor");
      }
      break;
    }
    case 5: {  // an abort told here or elsewhere, also to one that asks late
      auto ae = std::make_shared<Later>();
      bool elsewhere = sym_choice(2, "elsewhere"), late = sym_choice(2, "late");
      using Req = typename World<C>::Stub::template Request<poke_request>;
      std::shared_ptr<Req> kept;
      auto ask = [&] { elsewhere ? kept->onAborted([&] { ran++; }, ae) : kept->onAborted([&] { ran++; }); };
      s->template registerRequestHandler<poke_request>([&](Req r) { kept = std::make_shared<Req>(std::move(r)); });
      auto id = p->template sendRequestAsync<poke_request>({}, &st);
      settle<C>();
      se->work();
      sym_assert(kept && kept->valid(), "the request is pending");
      if (!late) ask();
      p->abortRequest(id, &st);
      settle<C>();
      sym_assert(st == ActionCallStatus::Success && !kept->valid(), "the request is aborted");
      if (late) ask();
      sym_assert(ran == (elsewhere ? 0 : 1) && ae->work() == (elsewhere ? 1 : 0) && ran == 1, "an abort is told once, where it was asked to");
      ran = 0;
      kept.reset();
      ranBy(*pe, 0, "an aborted request is not answered");
      break;
    }
    case 6: {  // the service's comings and goings
      std::vector<std::pair<Availability, Availability>> told;
      auto o = p->onServiceStatusChanged([&](Availability a, Availability b) { ran++; told.push_back({a, b}); });
      ranBy(*pe, 1, "an observer of the service is told on the proxy's executor");
      s->stopServing();
      ranBy(*pe, 1, "an observer of the service is told on the proxy's executor");
      s->startServing();
      ranBy(*pe, 1, "an observer of the service is told on the proxy's executor");
      sym_assert(told[1].first == Availability::Available && told[1].second == Availability::Unavailable && told[2].first == Availability::Unavailable && told[2].second == Availability::Available, "an observer is told both states");
      break;
    }
  }
  sym_cover("end");
}
// what cannot work is refused and says so; what takes too long is given up
template <class C> void refusals() {
  rt_set_preempt(sym_cfg("order", 1) ? 0 : -1);
  World<C> w;
  w.start(maf::util::directExecutor(), maf::util::directExecutor());
  using Level = level_property::status;
  using Beep = beep_signal::attributes;
  ActionCallStatus st = ActionCallStatus::Success;
  int ran = 0;
  switch (sym_choice(3, "what")) {
    case 0: {  // nobody to run a callback
      w.proxy->setExecutor({});
      sym_assert(!w.proxy->template registerStatus<Level>([&](const std::shared_ptr<Level> &) { ran++; }, &st).valid() && st == ActionCallStatus::InvalidParam, "a registration without executor is refused");
      st = ActionCallStatus::Success;
      sym_assert(!w.proxy->template registerSignal<Beep>([&](const std::shared_ptr<Beep> &) { ran++; }, &st).valid() && st == ActionCallStatus::InvalidParam, "a registration without executor is refused");
      st = ActionCallStatus::Success;
      sym_assert(!w.proxy->template registerSignal<tick_signal>([&] { ran++; }, &st).valid() && st == ActionCallStatus::InvalidParam, "a registration without executor is refused");
      sym_assert(w.proxy->template getStatus<Level>([&](const std::shared_ptr<Level> &) { ran++; }) == ActionCallStatus::InvalidParam, "asking without executor is refused");
      sym_assert(!w.proxy->onServiceStatusChanged([&](Availability, Availability) { ran++; }), "observing without executor is refused");
      break;
    }
    case 1: {  // no callback
      sym_assert(!w.proxy->template registerStatus<Level>({}, &st).valid() && st == ActionCallStatus::InvalidParam, "a registration without callback is refused");
      st = ActionCallStatus::Success;
      sym_assert(!w.proxy->template registerSignal<Beep>(typename World<C>::Proxy::template NotificationProcessingCallback<Beep>{}, &st).valid() && st == ActionCallStatus::InvalidParam, "a registration without callback is refused");
      st = ActionCallStatus::Success;
      sym_assert(!w.proxy->template registerSignal<tick_signal>(std::function<void()>{}, &st).valid() && st == ActionCallStatus::InvalidParam, "a registration without callback is refused");
      sym_assert(w.proxy->template getStatus<Level>(typename World<C>::Proxy::template NotificationProcessingCallback<Level>{}) == ActionCallStatus::InvalidParam, "asking without callback is refused");
      sym_assert(w.proxy->unregister(RegID{}) == ActionCallStatus::InvalidParam, "an invalid registration cannot be withdrawn");
      break;
    }
    case 2: {  // an answer that does not come in time
      uint32_t ms = sym_u32("patience");
      sym_assume(ms >= 1 && ms <= 60000);
      w.how = 6;
      auto before = (uint64_t)rt_now();
      bool status = sym_choice(2, "a property");
      if (status) {
        if (!Ipc_<C>) sym_done();
        std::function<bool(const std::string &, maf::srz::Buffer &)> spoil = [](const std::string &, maf::srz::Buffer &) { return false; };
        wire::spoil = &spoil;
        auto r = w.proxy->template getStatus<Level>(&st, RequestTimeoutMs{ms});
        sym_assert(!r, "a property not told in time has no value");
      } else {
        auto r = w.proxy->template sendRequest<Out>(sum_request::make_input(1u, std::string("x")), &st, RequestTimeoutMs{ms});
        sym_assert(r.isError(), "a call not answered in time fails");
      }
      auto took = (uint64_t)rt_now() - before;
      sym_assert(st == ActionCallStatus::Timeout, "a call not answered in time says so");
      sym_assert((took >= ms * 1000000ull) & (took <= ms * 1000000ull + 1000000000ull), "a call is given up when its time is over");
      wire::spoil = nullptr;
      w.kept.clear();
      break;
    }
  }
  sym_assert(ran == 0, "a refused callback is not invoked");
  sym_cover("end");
}
// a status without content among others: whatever that means, what is published next arrives
template <class C> void nothing() {
  rt_set_preempt(-1);
  World<C> w;
  w.start(maf::util::directExecutor(), maf::util::directExecutor());
  using Level = level_property::status;
  std::vector<std::pair<bool, uint32_t>> got, local;
  auto id = w.proxy->template registerStatus<Level>([&](const std::shared_ptr<Level> &p) { got.push_back({!!p, p ? p->get_v() : 0}); });
  auto con = w.stub->template registerNotification<Level>([&](const std::shared_ptr<Level> &p) { local.push_back({!!p, p ? p->get_v() : 0}); });
  settle<C>();
  uint32_t v = sym_u32("first"), x = sym_u32("last");
  sym_assume(v != x);
  size_t n = sym_choice(3, "before"), m = sym_choice(3, "between");
  while (n--) w.stub->setStatus(std::shared_ptr<Level>{});
  settle<C>();
  got.clear();
  local.clear();
  w.stub->template setStatus<Level>(v, std::string("a"));
  settle<C>();
  sym_assert(got.size() == 1 && local.size() == 1 && got[0].first && local[0].first && (got[0].second == v) & (local[0].second == v), "observers are told a new status with its values");
  while (m--) w.stub->setStatus(std::shared_ptr<Level>{});
  settle<C>();
  for (auto &g : got) sym_assert(!g.first || g.second == v, "with the published values");
  got.clear();
  local.clear();
  w.stub->template setStatus<Level>(x, std::string("a"));
  settle<C>();
  sym_assert(got.size() == 1 && local.size() == 1 && got[0].first && local[0].first && (got[0].second == x) & (local[0].second == x), "observers are told a new status with its values");
  auto b = w.proxy->template getStatus<Level>();
  sym_assert(b && b->get_v() == x, "asking gives the current value");
  w.proxy->unregister(id);
  con.disconnect();
  settle<C>();
  sym_cover("end");
}
