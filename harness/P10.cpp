// P10: connections are made once per address and kept apart.
#include "harness/V.h"
#include <chrono>
using namespace std::chrono_literals;
namespace loc = maf::messaging::ipc::local;
static void later() {
  settle<Ipc>();
  std::this_thread::sleep_for(600ms);
  settle<Ipc>();
}
template <class Trait> struct Side {
  using Stub = BasicStub<Trait>;
  using Proxy = BasicProxy<Trait>;
  using Req = typename Stub::template Request<In>;
  using Resp = typename Proxy::template Response<Out>;
  std::shared_ptr<Stub> stub;
  std::vector<std::shared_ptr<Proxy>> proxies;
  uint32_t tag = 0;
  bool served = false;
  std::vector<uint32_t> seen, levels, beeps;
  int aborts = 0;
  std::vector<std::shared_ptr<Req>> kept;
  bool keep = false;
  void host(std::shared_ptr<Stub> s) {
    stub = std::move(s);
    sym_assert(stub != nullptr, "a stub can be made at a free address");
    tag = sym_u32("tag");
    sym_assert(stub->template registerRequestHandler<In>([this](Req r) {
      seen.push_back(r.getInput()->get_a());
      if (keep) { kept.push_back(std::make_shared<Req>(std::move(r))); kept.back()->onAborted([this] { aborts++; }); }
      else r.template respond<Out>(seen.back() + tag, "");
    }), "every service takes its own handler");
  }
  void join(std::shared_ptr<Proxy> p) {
    sym_assert(p != nullptr, "a proxy can be made for any address");
    proxies.push_back(std::move(p));
  }
  void watch() {
    for (auto &p : proxies) {
      bool a = p->template registerStatus<level_property::status>([this](const std::shared_ptr<level_property::status> &x) { if (x) levels.push_back(x->get_v()); }).valid();
      bool b = p->template registerSignal<beep_signal::attributes>([this](const std::shared_ptr<beep_signal::attributes> &x) { if (x) beeps.push_back(x->get_v()); }).valid();
      sym_assert(a == served && b == served, "a service can be observed while it is served");
    }
    settle<Ipc>();
  }
  void serve() { stub->startServing(); served = true; }
  size_t events() const { return seen.size() + levels.size() + beeps.size() + aborts; }
};
using L = Side<loc::ParamTrait>;
using D = Side<maf::messaging::itc::ParamTrait>;
static auto direct() { return maf::util::directExecutor(); }
static const char *const names[2] = {"alpha", "beta"}, *const services[2] = {"one", "two"};
struct All {
  L l[4];
  D d;
  void stubs() {
    for (int i = 0; i < 4; i++) l[i].host(loc::createStub(Address{names[i / 2], 0}, services[i % 2], direct()));
    d.host(maf::messaging::itc::createStub("one", direct()));
  }
  void proxies() {
    for (int i = 0; i < 4; i++) l[i].join(loc::createProxy(Address{names[i / 2], 0}, services[i % 2], direct()));
    l[1].join(loc::createProxy(Address{names[0], 0}, services[1], direct()));
    d.join(maf::messaging::itc::createProxy("one", direct()));
  }
  size_t events() const { size_t n = d.events(); for (auto &x : l) n += x.events(); return n; }
  template <class S> void use(S &s) {
    for (auto &p : s.proxies) {
      uint32_t a = sym_u32("input");
      size_t was = s.seen.size(), all = events();
      ActionCallStatus st = ActionCallStatus::FailedUnknown;
      auto r = answer(p->template sendRequest<Out>(sum_request::make_input(a, std::string()), &st));
      if (s.served) sym_assert(st == ActionCallStatus::Success && r.kind == 1 && s.seen.size() == was + 1 && (s.seen.back() == a) & (r.v == (uint32_t)(a + s.tag)), "a request is answered by the service named at the address named");
      else sym_assert(st != ActionCallStatus::Success && r.kind != 1, "a request to a service not served is refused");
      sym_assert(events() == all + s.served, "no other service or proxy is involved");
    }
    uint32_t v = sym_u32("status"), w = sym_u32("signal");
    sym_assume(v != 0);
    size_t all, n = s.served ? s.proxies.size() : 0;
    s.levels.clear();
    s.beeps.clear();
    all = events();
    s.stub->template setStatus<level_property::status>(v, std::string());
    settle<Ipc>();
    if (s.served) {
      s.stub->template broadcastSignal<beep_signal::attributes>(w, std::string());
      settle<Ipc>();
      sym_assert(s.levels.size() == n && s.beeps.size() == n, "every observer at the address is told, through whichever proxy it registered");
      for (size_t i = 0; i < n; i++) sym_assert((s.levels[i] == v) & (s.beeps[i] == w), "with the published values");
      sym_assert(events() == all + 2 * n, "no other service or proxy is involved");
    }
  }
};
// two addresses with two services each, one of them used by two proxies, and a service of the process itself by the same name
SYM_ENTRY p10_apart() {
  rt_set_preempt(-1);
  wire::start();
  All w;
  bool first = sym_choice(2, "proxies first");
  if (first) w.proxies();
  if (first && sym_choice(2, "known as missing")) later();
  w.stubs();
  if (!first) w.proxies();
  sym_assert(wire::ends->size() == 4, "an address is connected to once");
  int away = (int)sym_choice(6, "not served");
  for (int i = 0; i < 4; i++) if (i != away) w.l[i].serve();
  if (away != 4) w.d.serve();
  later();
  for (auto &x : w.l) for (auto &p : x.proxies) sym_assert((p->serviceStatus() == Availability::Available) == x.served, "each proxy knows whether its own service is served");
  for (auto &p : w.d.proxies) sym_assert((p->serviceStatus() == Availability::Available) == w.d.served, "each proxy knows whether its own service is served");
  for (auto &x : w.l) x.watch();
  w.d.watch();
  int t = (int)sym_choice(5, "used");
  if (t < 4) w.use(w.l[t]); else w.use(w.d);
  // one service ends: the others go on
  if (t < 4 && w.l[t].served) {
    w.l[t].keep = true;
    int errors = 0;
    w.l[t].proxies[0]->sendRequestAsync<Out>(sum_request::make_input(1, std::string()), [&](L::Resp r) { errors += r.isError(); });
    settle<Ipc>();
    sym_assert(w.l[t].kept.size() == 1, "a request is answered by the service named at the address named");
    size_t all = w.events();
    w.l[t].stub->stopServing();
    w.l[t].served = false;
    settle<Ipc>();
    sym_assert(errors <= 1, "a pending request ends at most once");
    for (auto &x : w.l) for (auto &p : x.proxies) sym_assert((p->serviceStatus() == Availability::Available) == x.served, "each proxy knows whether its own service is served");
    sym_assert(w.events() - all <= 1, "no other service or proxy is involved");
    int o = t ^ (int)(1 + sym_choice(3, "then"));
    if (o != away) w.use(w.l[o]);
  }
  sym_cover("end");
  sym_done();
}
// an address that cannot be had yields nothing, harms nobody and can be had later
SYM_ENTRY p10_refused() {
  rt_set_preempt(-1);
  wire::start();
  wire::End foreign;
  int what = (int)sym_choice(4, "what");
  L other, mine;
  other.host(loc::createStub(Address{"beta", 0}, "one", direct()));
  other.join(loc::createProxy(Address{"beta", 0}, "one", direct()));
  other.serve();
  std::string taken = what == 0 ? "alpha" : "alpha" + std::to_string(wire::pid);
  { std::lock_guard l(*wire::lock); wire::ends->emplace(taken, &foreign); }
  size_t tries = 1 + sym_choice(2, "tries");
  for (size_t i = 0; i < tries; i++) switch (what) {
    case 0: sym_assert(!loc::createStub(Address{"alpha", 0}, "one", direct()), "no stub is made at an address that is taken"); break;
    case 1: sym_assert(!loc::createProxy(Address{"alpha", 0}, "one", direct()), "no proxy is made without a connection"); break;
    case 2: sym_assert(!L::Stub::createStub("no such kind", Address{"alpha", 0}, "one", direct()), "no stub is made for an unknown kind of connection"); break;
    case 3: sym_assert(!L::Proxy::createProxy("no such kind", Address{"alpha", 0}, "one", direct()), "no proxy is made for an unknown kind of connection"); break;
  }
  later();
  auto ask = [](L &s) {
    uint32_t a = sym_u32("input");
    ActionCallStatus st = ActionCallStatus::FailedUnknown;
    auto r = answer(s.proxies.back()->sendRequest<Out>(sum_request::make_input(a, std::string()), &st));
    sym_assert(st == ActionCallStatus::Success && r.kind == 1 && (r.v == (uint32_t)(a + s.tag)) & (s.seen.back() == a), "a request is answered by the service named at the address named");
  };
  ask(other);
  { std::lock_guard l(*wire::lock); wire::ends->erase(taken); }
  if (sym_choice(2, "proxy first")) {
    mine.join(loc::createProxy(Address{"alpha", 0}, "one", direct()));
    mine.host(loc::createStub(Address{"alpha", 0}, "one", direct()));
  } else {
    mine.host(loc::createStub(Address{"alpha", 0}, "one", direct()));
    mine.join(loc::createProxy(Address{"alpha", 0}, "one", direct()));
  }
  mine.serve();
  later();
  ask(mine);
  ask(other);
  sym_assert(mine.seen.size() == 1 && other.seen.size() == 2, "no other service or proxy is involved");
  sym_cover("end");
  sym_done();
}
// two threads make proxies or stubs for one address at once
SYM_ENTRY p10_race() {
  rt_set_preempt(-1);
  wire::start();
  L one, two;
  bool stubs = sym_cfg("stubs", 1), same = sym_choice(2, "same service");
  std::shared_ptr<L::Stub> s[2];
  std::shared_ptr<L::Proxy> p[2];
  if (!stubs) s[0] = loc::createStub(Address{"alpha", 0}, "one", direct()), s[1] = same ? s[0] : loc::createStub(Address{"alpha", 0}, "two", direct());
  else p[0] = loc::createProxy(Address{"alpha", 0}, "one", direct()), p[1] = same ? p[0] : loc::createProxy(Address{"alpha", 0}, "two", direct());
  rt_set_preempt((int)sym_cfg("preempt", 1));
  auto make = [&](int i) {
    if (stubs) s[i] = loc::createStub(Address{"alpha", 0}, i && !same ? "two" : "one", direct());
    else p[i] = loc::createProxy(Address{"alpha", 0}, i && !same ? "two" : "one", direct());
  };
  std::thread t([&] { make(1); });
  make(0);
  t.join();
  rt_set_preempt(-1);
  sym_assert(s[0] && s[1] && p[0] && p[1], "both are made");
  sym_assert(wire::ends->size() == 2, "an address is connected to once");
  one.host(s[0]);
  one.join(p[0]);
  one.serve();
  if (same) { one.join(p[1]); one.stub = s[1]; }
  else { two.host(s[1]); two.join(p[1]); two.serve(); }
  later();
  for (int i = 0; i < 2; i++) {
    uint32_t a = sym_u32("input");
    ActionCallStatus st = ActionCallStatus::FailedUnknown;
    auto r = answer(p[i]->sendRequest<Out>(sum_request::make_input(a, std::string()), &st));
    auto &x = i && !same ? two : one;
    sym_assert(st == ActionCallStatus::Success && r.kind == 1 && (r.v == (uint32_t)(a + x.tag)) & (x.seen.back() == a), "a request is answered by the service named at the address named");
  }
  sym_assert(one.seen.size() == (same ? 2u : 1u) && two.seen.size() == (same ? 0u : 1u), "no other service or proxy is involved");
  sym_cover("end");
  sym_done();
}
