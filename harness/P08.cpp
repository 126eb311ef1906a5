// P08: services over the local transport are found, followed and answered.
#include "harness/V.h"
SYM_ENTRY p08_requests() { requests<Ipc>(); sym_done(); }
SYM_ENTRY p08_bare() { bare<Ipc>(); sym_done(); }
SYM_ENTRY p08_updates() { updates<Ipc>(); sym_done(); }
SYM_ENTRY p08_service() { service<Ipc>(); sym_done(); }
SYM_ENTRY p08_local() { local<Ipc>(); sym_done(); }
SYM_ENTRY p08_executors() { executors<Ipc>(); sym_done(); }
SYM_ENTRY p08_refusals() { refusals<Ipc>(); sym_done(); }
SYM_ENTRY p08_nothing() { nothing<Ipc>(); sym_done(); }
SYM_ENTRY p08_threads() { threads<Ipc>((int)sym_cfg("preempt", 1)); sym_done(); }
#include <chrono>
namespace local = maf::messaging::ipc::local;
using namespace std::chrono_literals;

// long enough for a client to look for its server
static void later() {
  settle<Ipc>();
  std::this_thread::sleep_for(600ms);
  settle<Ipc>();
}
struct Net {
  static const int C = 2, S = 2;
  std::shared_ptr<ServerIF> server;
  std::shared_ptr<ClientIF> client[C];
  std::vector<std::shared_ptr<ServiceRequesterIF>> req[C];
  bool serving[S] = {};
  const Address at{"server", 0};
  std::string SID[S];
  Net() {
    wire::start();
    for (auto &s : SID) s = std::string(1, (char)sym_u8("service name"));
    sym_assume(SID[0][0] != SID[1][0]);
  }
  void serverUp() {
    server = local::makeServer();
    sym_assert(server->init(at), "a server can be set up at a free address");
    server->start();
  }
  // an orderly end, or one where nobody is told
  void serverDown(bool orderly) {
    server->stop();
    if (orderly) server->deinit();
    server.reset();
    for (auto &s : serving) s = false;
  }
  void clientUp(int c) {
    wire::pid = 100 + c;
    client[c] = local::makeClient();
    sym_assert(client[c]->init(at), "a client can be set up");
    client[c]->start();
  }
  void serve(int s, bool on) {
    auto p = server->getServiceProvider(SID[s]);
    on ? p->startServing() : p->stopServing();
    serving[s] = on;
  }
  std::shared_ptr<ServiceRequesterIF> requester(int c, int s) { return client[c]->getServiceRequester(SID[s]); }
  void check() {
    for (int c = 0; c < C; c++)
      for (int s = 0; s < S && client[c]; s++)
        sym_assert(requester(c, s)->serviceStatus() == (server && serving[s] ? Availability::Available : Availability::Unavailable),
                   "a client knows which services of its server are available");
  }
};
// servers, services and clients come and go
SYM_ENTRY p08_follow() {
  rt_set_preempt((int)sym_cfg("order", 1) ? 0 : -1);
  Net n;
  size_t ops = sym_cfg("ops", 4);
  for (size_t i = 0; i < ops; i++) {
    switch (sym_choice(5, "operation")) {
      case 0: if (n.server) sym_done(); n.serverUp(); if (sym_choice(2, "at once")) n.serve(0, true); break;
      case 1: if (!n.server) sym_done(); n.serverDown(sym_choice(2, "orderly")); break;
      case 2: {
        int s = sym_choice(2, "service");
        if (!n.server) sym_done();
        n.serve(s, !n.serving[s]);
        settle<Ipc>();
        n.check();
        continue;
      }
      case 3: {
        int c = n.client[0] ? 1 : 0;
        if (n.client[c]) sym_done();
        n.clientUp(c);
        // what a client asks of its server may be refused for a while
        if (sym_choice(2, "busy")) (*wire::busy)["server"] = 1;
        break;
      }
      case 4: {
        int s = sym_choice(2, "service");
        if (!n.client[0]) sym_done();
        n.requester(0, s);
        break;
      }
    }
    later();
    n.check();
  }
  sym_cover("end");
  sym_done();
}
// two clients, of which one leaves, comes back or is busy while services come and go
SYM_ENTRY p08_crowd() {
  rt_set_preempt(-1);
  Net n;
  n.serverUp();
  n.serve(0, sym_choice(2, "serving"));
  n.clientUp(0);
  n.clientUp(1);
  settle<Ipc>();
  n.check();
  size_t ops = sym_cfg("ops", 3);
  for (size_t i = 0; i < ops; i++) {
    int c = sym_choice(2, "client");
    switch (sym_choice(3, "operation")) {
      case 0:                    // a client leaves, in order or not, or comes back
        if (n.client[c]) {
          n.client[c]->stop();
          if (sym_choice(2, "orderly")) n.client[c]->deinit();
          n.client[c].reset();
        } else {
          n.clientUp(c);
        }
        break;
      case 1: {
        int s = sym_choice(2, "service");
        // a client too busy to be told of a change is told of the next one
        if (n.client[c] && sym_choice(2, "busy")) {
          (*wire::busy)["server" + std::to_string(100 + c)] = 1;
          n.serve(s, !n.serving[s]);
          settle<Ipc>();
          n.serve(s, !n.serving[s]);
          settle<Ipc>();
        }
        n.serve(s, !n.serving[s]);
        break;
      }
      case 2: n.serve(0, !n.serving[0]); n.serve(1, !n.serving[1]); break;
    }
    settle<Ipc>();
    n.check();
  }
  sym_cover("end");
  sym_done();
}
// a client finds its server while the service starts or stops
SYM_ENTRY p08_race() {
  rt_set_preempt(0);
  Net n;
  n.serverUp();
  bool on = sym_choice(2, "serving");
  if (on) n.serve(0, true);
  n.clientUp(0);
  rt_set_preempt((int)sym_cfg("preempt", 2));
  n.serve(0, !on);
  if (sym_choice(2, "again")) n.serve(0, on);
  settle<Ipc>();
  rt_set_preempt(0);
  n.check();
  sym_cover("end");
  sym_done();
}
// a message cut short on its way is never taken for a value
SYM_ENTRY p08_cut() {
  rt_set_preempt(0);
  World<Ipc> w;
  int handled = 0, whole = 0, answered = 0, valued = 0, told = 0, toldValue = 0;
  using Req = World<Ipc>::Req;
  wire::start();
  w.stub = Ipc::stub(maf::util::directExecutor());
  w.proxy = Ipc::proxy(maf::util::directExecutor());
  w.stub->registerRequestHandler<In>([&](Req r) {
    handled++;
    if (auto in = r.getInput()) whole++;
    r.respond<Out>(7u, std::string("ok"));
  });
  w.stub->startServing();
  settle<Ipc>();
  w.proxy->registerStatus<level_property::status>([&](const std::shared_ptr<level_property::status> &p) { told++; toldValue += p != nullptr; });
  settle<Ipc>();
  told = 0;
  // what is cut: a request, its response, or a property's update
  int what = sym_choice(3, "what");
  size_t size = 1 + 4 + sizeof(maf::srz::SizeType) + 2;    // present, a number, a text of two bytes
  uint32_t cut = sym_u32("bytes cut");
  sym_assume(cut >= 1 && cut <= size);
  size_t n = sym_concretize(cut);
  int seen = 0;
  std::function<bool(const std::string &, maf::srz::Buffer &)> spoil = [&](const std::string &to, maf::srz::Buffer &b) {
    if ((to == "server") == (what == 0) && !seen++) b.resize(b.size() - n);
    return true;
  };
  uint32_t v = sym_u32("value");
  std::string s(2, 'x');
  wire::spoil = &spoil;
  if (what < 2) {
    auto r = w.proxy->sendRequest<Out>(sum_request::make_input(v, s));
    answered++;
    valued += r.isOutput() && r.getOutput() != nullptr;
  } else {
    w.stub->setStatus<level_property::status>(v, s);
  }
  settle<Ipc>();
  sym_assert(seen >= 1, "the message was cut");
  switch (what) {
    case 0: sym_assert(handled == 1 && whole == 0 && valued == 1, "an input cut short is not taken for an input"); break;
    case 1: sym_assert(handled == 1 && whole == 1 && valued == 0, "an output cut short is not taken for an output"); break;
    case 2: sym_assert(toldValue == 0, "a value cut short is not told as a value"); break;
  }
  sym_cover("end");
  sym_done();
}
