// P09: shutting down servers and clients leaves nobody waiting, and servers can be set up again.
#include "harness/V.h"
#include <chrono>
#include <maf/messaging/client-server/CSMgmt.h>
using namespace std::chrono_literals;
static void later() {
  settle<Ipc>();
  std::this_thread::sleep_for(600ms);
  settle<Ipc>();
}
using W9 = World<Ipc>;
static void shut(int what) {
  switch (what) {
    case 0: csmgmt::shutdownAllServers(); break;
    case 1: csmgmt::shutdownAllClients(); break;
    default: csmgmt::shutdownAll(); break;
  }
}
// a pending request, a waiting call and an observer while everything is shut down
SYM_ENTRY p09_shutdown() {
  rt_set_preempt(0);
  W9 w;
  w.how = 6;
  w.start(maf::util::directExecutor(), maf::util::directExecutor());
  std::vector<std::pair<Availability, Availability>> told;
  auto obs = w.proxy->onServiceStatusChanged([&](Availability o, Availability n) { told.push_back({o, n}); });
  told.clear();
  int answered = 0, aborted = 0;
  bool pending = sym_choice(2, "pending"), waiting = sym_choice(2, "waiting");
  uint32_t v = sym_u32("value");
  if (pending) {
    w.proxy->sendRequestAsync<Out>(sum_request::make_input(v, std::string("x")), [&](W9::Resp) { answered++; });
    settle<Ipc>();
    sym_assert(w.kept.size() == 1, "the request is pending");
    w.kept[0].onAborted([&] { aborted++; });
  }
  std::thread caller;
  Answer a;
  ActionCallStatus st = ActionCallStatus::FailedUnknown;
  if (waiting) {
    caller = std::thread([&] { a = answer(w.proxy->sendRequest<Out>(sum_request::make_input(v, std::string("y")), &st)); });
    std::unique_lock l(w.lock);
    size_t n = 1 + pending;
    w.more.wait(l, [&] { return w.kept.size() == n; });
  }
  rt_set_preempt((int)sym_cfg("preempt", 1));
  int what = sym_choice(3, "what");
  shut(what);
  if (waiting) {
    caller.join();
    sym_assert(a.kind != 1, "a waiting call ends without a value");
  }
  rt_set_preempt(0);
  later();
  bool servers = what != 1, clients = what != 0;
  if (servers) {
    sym_assert(w.stub->availability() == Availability::Unavailable, "a service of a server that is shut down is not served");
    sym_assert(aborted == (pending ? 1 : 0), "a request under way is aborted once");
    for (auto &r : w.kept) sym_assert(!r.valid(), "a request of a server that is shut down is not valid");
    if (!clients) {
      sym_assert(told.size() == 1 && told[0].second == Availability::Unavailable, "observers are told once that the service ended");
      sym_assert(w.proxy->serviceStatus() == Availability::Unavailable, "the service is known to be gone");
    }
  }
  int were = answered;
  sym_assert(were <= 1, "a pending request ends at most once");
  w.kept.clear();
  settle<Ipc>();
  if (sym_choice(2, "twice")) shut(what);
  settle<Ipc>();
  sym_assert(answered <= 1, "a pending request ends at most once");
  sym_cover("end");
  sym_done();
}
// servers that were shut down are set up again
SYM_ENTRY p09_again() {
  rt_set_preempt(sym_cfg("order", 1) ? 0 : -1);
  W9 w;
  w.start(maf::util::directExecutor(), maf::util::directExecutor());
  size_t n = sym_cfg("rounds", 2);
  for (size_t i = 0; i < n; i++) {
    bool ask = sym_choice(2, "ask before");
    pick(w);
    uint32_t in = sym_u32("input");
    w.how = 8;
    ActionCallStatus st;
    if (ask) {
      auto r = answer(w.proxy->sendRequest<Out>(sum_request::make_input(in, w.s1), &st));
      sym_assert(st == ActionCallStatus::Success && r.kind == 1 && r.v == (uint32_t)(in + 1), "a served service answers");
    }
    csmgmt::shutdownAllServers();
    later();
    auto r = answer(w.proxy->sendRequest<Out>(sum_request::make_input(in, w.s1), &st));
    sym_assert(st != ActionCallStatus::Success && r.kind == 3, "a request to a server that is shut down is refused");
    w.stub = Ipc::stub(maf::util::directExecutor());
    sym_assert(w.stub != nullptr, "a server can be set up where one was shut down");
    w.stub->registerRequestHandler<In>([&w](W9::Req r) { w.handle(std::move(r)); });
    if (sym_choice(2, "known first")) later();
    w.stub->startServing();
    later();
    sym_assert(w.proxy->serviceStatus() == Availability::Available, "a client finds the new server");
    auto q = answer(w.proxy->sendRequest<Out>(sum_request::make_input(in, w.s1), &st));
    sym_assert(st == ActionCallStatus::Success && q.kind == 1 && (q.v == (uint32_t)(in + 1)) & same(q.s, w.s1), "the new server answers");
  }
  sym_cover("end");
  sym_done();
}
// calls made while the servers are shut down
SYM_ENTRY p09_race() {
  rt_set_preempt(0);
  W9 w;
  w.how = sym_choice(2, "late") ? 6 : 8;
  w.start(maf::util::directExecutor(), maf::util::directExecutor());
  uint32_t in = sym_u32("input");
  int what = sym_choice((int)sym_cfg("kinds", 1), "what");
  bool async = sym_choice(2, "with a callback");
  int answered = 0;
  Answer a;
  ActionCallStatus st = ActionCallStatus::FailedUnknown;
  rt_set_preempt((int)sym_cfg("preempt", 1));
  std::thread caller([&] {
    if (async) w.proxy->sendRequestAsync<Out>(sum_request::make_input(in, std::string("x")), [&](W9::Resp r) { answered++; a = answer(r); }, &st);
    else a = answer(w.proxy->sendRequest<Out>(sum_request::make_input(in, std::string("y")), &st));
  });
  shut(what);
  caller.join();
  rt_set_preempt(0);
  later();
  sym_assert(a.kind != 1 || (w.how == 8 && a.v == (uint32_t)(in + 1)), "a call gets its own answer or none");
  if (!async) sym_assert((st == ActionCallStatus::Success) || a.kind == 3, "a call that fails says so");
  sym_assert(w.seen.size() <= 1 && answered <= 1, "a request is handled and answered at most once");
  for (auto &r : w.kept) sym_assert(!r.valid(), "a request of a server that is shut down is not valid");
  sym_cover("end");
  sym_done();
}
