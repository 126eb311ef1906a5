// P05: availability of services is tracked, and told exactly on change.
#include "harness/R.h"
#include "maf/messaging/client-server/ClientBase.h"
#include "maf/messaging/client-server/ServerBase.h"
#include "maf/messaging/client-server/ServiceProviderIF.h"
#include "maf/messaging/client-server/ServiceStatusObserverDelegater.h"
#include "maf/messaging/client-server/ServiceStatusSignal.h"
#include "maf/messaging/client-server/AsyncServiceStatusObserver.h"
#include <condition_variable>
using Told = std::vector<std::pair<std::string, std::pair<Availability, Availability>>>;
struct Observer : ServiceStatusObserverIF {
  Told told;
  size_t at = 0;
  bool gone = false;
  std::function<void(Availability)> then;
  void onServiceStatusChanged(const ServiceID &s, Availability o, Availability n) override {
    if (gone) { gone = false; at++; told.push_back({s, {o, n}}); throw UnavailableException{}; }
    told.push_back({s, {o, n}});
    if (then) then(n);
  }
  void expect(const char *sid, Availability o, Availability n, const char *msg) {
    sym_assert(told.size() == at + 1, msg);
    sym_assert(told[at].first == sid && told[at].second == std::make_pair(o, n), msg);
    at++;
  }
};
// one requester
struct World {
  std::shared_ptr<RecordingClient> client = std::make_shared<RecordingClient>();
  std::shared_ptr<ServiceRequester> r = std::make_shared<ServiceRequester>("svc", client);
  std::shared_ptr<Observer> ob[2] = {std::make_shared<Observer>(), std::make_shared<Observer>()};
  bool on[2] = {};
  bool available = false;
  void notice() {
    char sid[4] = {};
    sym_bytes(sid, 3, "service");
    bool other = sid[0] != 's' | sid[1] != 'v' | sid[2] != 'c';
    Availability state = sym_bool("available") ? UP : DOWN, before = sym_bool("before") ? UP : DOWN;
    bool now = state == UP;
    sym_assume(before != state);
    bool willLeave = now != available && !other && on[0] && sym_choice(2, "gone");
    if (willLeave) ob[0]->gone = true;
    r->onServiceStatusChanged(std::string(sid, 3), before, state);
    if (!other && now != available) {
      available = now;
      if (willLeave) on[0] = false;
      for (int i = 0; i < 2; i++) if (on[i]) ob[i]->expect("svc", now ? DOWN : UP, now ? UP : DOWN, "observers are told each change once, with the old and the new state");
    }
  }
  void op() {
    switch (sym_choice(4, "op")) {
      case 0: notice(); break;
      case 1: {
        int i = sym_choice(2, "who");
        if (on[i]) break;
        bool gone = available && sym_choice(2, "gone");
        ob[i]->gone = gone;
        r->registerServiceStatusObserver(ob[i]);
        on[i] = !gone;
        if (available && !gone) ob[i]->expect("svc", UNKNOWN, UP, "a new observer is told when the service is available");
        break;
      }
      case 2: {
        int i = sym_choice(2, "who");
        r->unregisterServiceStatusObserver(ob[i]);
        on[i] = false;
        break;
      }
      case 3: {
        ActionCallStatus st = ActionCallStatus::FailedUnknown;
        RegID id;
        CSPayloadIFPtr got;
        bool none = false;
        switch (sym_choice(5, "ask")) {
          case 0: id = r->sendRequestAsync("a", {}, [](const CSPayloadIFPtr &) {}, &st); break;
          case 1: id = r->registerStatus("p", [](const CSPayloadIFPtr &) {}, &st); if (id.valid()) { none = true; r->unregisterAll("p"); } break;
          case 2: id = r->registerSignal("s", [](const CSPayloadIFPtr &) {}, &st); if (id.valid()) { none = true; r->unregisterAll("s"); } break;
          case 3: if (available) return; got = r->sendRequest("a", {}, &st, std::chrono::milliseconds(0)); break;
          case 4: if (available) return; got = r->getStatus("a", &st, std::chrono::milliseconds(0)); break;
        }
        if (!available) {
          sym_assert(st == ActionCallStatus::ServiceUnavailable && !id.valid() && !got, "requests to an unavailable service are refused");
          client->log.expect({}, "requests to an unavailable service are not sent");
        } else {
          sym_assert(st == ActionCallStatus::Success && id.valid(), "requests to an available service are accepted");
          sym_assert(client->log.got.size() == client->log.at + 1 + none, "requests to an available service are sent once");
          client->log.at = client->log.got.size();
        }
        break;
      }
    }
    check();
  }
  void check() {
    sym_assert(r->serviceStatus() == (available ? UP : DOWN), "the state known is the last one told");
    for (auto &o : ob) sym_assert(o->told.size() == o->at, "observers are told of changes only, while they observe");
    client->log.expect({}, "nothing is sent unasked");
  }
};
SYM_ENTRY p05_model() {
  rt_set_preempt(0);
  World w;
  w.check();
  for (uint64_t i = 0, n = sym_cfg("ops", 4); i < n; i++) w.op();
  sym_cover("end");
}
// observers may use the requester when told
SYM_ENTRY p05_reentrant() {
  rt_set_preempt(0);
  auto client = std::make_shared<RecordingClient>();
  auto r = std::make_shared<ServiceRequester>("svc", client);
  auto a = std::make_shared<Observer>(), b = std::make_shared<Observer>(), c = std::make_shared<Observer>();
  int asked = 0;
  auto kind = sym_choice(5, "what");
  a->then = [&](Availability n) {
    sym_assert(r->serviceStatus() == n, "who is told of a change finds it so");
    switch (kind) {
      case 0: r->unregisterServiceStatusObserver(a); break;
      case 1: r->unregisterServiceStatusObserver(b); break;
      case 2: if (n == UP) r->registerServiceStatusObserver(c); break;
      case 3: { ActionCallStatus st; r->sendRequestAsync("a", {}, [&](const CSPayloadIFPtr &) {}, &st); sym_assert(st == (n == UP ? ActionCallStatus::Success : ActionCallStatus::ServiceUnavailable), "requests are accepted when available"); asked++; break; }
      case 4: r->registerStatus("p", [&](const CSPayloadIFPtr &) {}, nullptr); break;
    }
  };
  r->registerServiceStatusObserver(a);
  r->registerServiceStatusObserver(b);
  up(*r);
  up(*r);
  down(*r);
  down(*r);
  sym_assert(a->told.size() == (kind == 0 ? 1 : 2), "an observer is told each change once until it unregisters");
  sym_assert(b->told.size() == (kind == 1 ? 0 : 2), "an observer is told each change once until it unregisters");
  sym_assert(c->told.size() == (kind == 2 ? 2 : 0), "an observer registered by another when told is told once");
  if (kind == 2) sym_assert(c->told[0].second == std::make_pair(UNKNOWN, UP) && c->told[1].second == std::make_pair(UP, DOWN), "an observer registered when told finds the new state");
  sym_cover("end");
}
// registering, changing and unregistering race
SYM_ENTRY p05_race() {
  rt_set_preempt(sym_cfg("preempt", 2));
  auto client = std::make_shared<RecordingClient>();
  auto r = std::make_shared<ServiceRequester>("svc", client);
  struct Slow : ServiceStatusObserverIF {
    std::mutex m;
    std::vector<Availability> told;
    void onServiceStatusChanged(const ServiceID &, Availability, Availability n) override { std::lock_guard l(m); told.push_back(n); }
  };
  auto a = std::make_shared<Slow>(), b = std::make_shared<Slow>();
  r->registerServiceStatusObserver(a);
  std::thread t1([&] { up(*r); });
  std::thread t2([&] { r->registerServiceStatusObserver(b); if (sym_choice(2, "again")) up(*r); });
  t1.join();
  t2.join();
  sym_assert(a->told.size() == 1 && a->told[0] == UP, "an observer is told a change once");
  sym_assert(b->told.size() == 1 && b->told[0] == UP, "an observer registering while the state changes is told once");
  sym_assert(r->serviceStatus() == UP, "the state known is the last one told");
}
// every request waiting when the service is lost is released
SYM_ENTRY p05_waiting() {
  rt_set_preempt(0);
  auto client = std::make_shared<RecordingClient>();
  auto r = std::make_shared<ServiceRequester>("svc", client);
  up(*r);
  std::atomic<int> released = 0;
  auto wait = [&](bool question) {
    ActionCallStatus st = ActionCallStatus::Success;
    auto limit = std::chrono::milliseconds(sym_choice(2, "limited") ? 100 : 0);
    auto got = question ? r->getStatus("p", &st, limit) : r->sendRequest("a", {}, &st, limit);
    sym_assert(!got && st == ActionCallStatus::ActionBroken, "a waiting call is released when the service is lost");
    released++;
  };
  std::thread t1(wait, false), t2(wait, true);
  rt_wait_quiescent();
  sym_assert(released == 0, "calls wait for their answer");
  down(*r);
  t1.join();
  t2.join();
  sym_assert(released == 2, "every waiting call is released");
}
// a client with several services
struct Client : ClientBase {
  std::vector<std::pair<std::string, OpCode>> sent;
  ActionCallStatus sendMessageToServer(const CSMessagePtr &m) override { sent.push_back({m->serviceID(), m->operationCode()}); return ActionCallStatus::Success; }
  bool start() override { return true; }
  void stop() override {}
  bool onIncomingMessage(const CSMessagePtr &m) override { return ClientBase::onIncomingMessage(m); }
};
SYM_ENTRY p05_client() {
  rt_set_preempt(0);
  auto c = std::make_shared<Client>();
  static const char *SID[2] = {"1", "2"};
  bool available[2] = {};
  ServiceRequesterIFPtr r[2];
  std::shared_ptr<Observer> ob[2] = {std::make_shared<Observer>(), std::make_shared<Observer>()};
  for (uint64_t i = 0, n = sym_cfg("ops", 4); i < n; i++) {
    std::string sid(1, (char)sym_int(8, "service"));
    int k = sid[0] == '1' ? 0 : sid[0] == '2' ? 1 : 2;
    if (k < 2) sid = SID[k];
    else if (i + 1 != n) return;            // a service unknown to the client: in the last step
    switch (sym_choice(4, "op")) {
      case 0: case 1: {
        bool now = sym_bool("available");
        if (sym_choice(2, "message"))
          sym_assert(c->onIncomingMessage(createCSMessage(sid, now ? OpID_ServiceAvailable : OpID_ServiceUnavailable, OpCode::ServiceStatusUpdate)), "a notice is taken");
        else c->onServiceStatusChanged(sid, now ? DOWN : UP, now ? UP : DOWN);
        if (k == 2) break;
        if (r[k] && now != available[k]) ob[k]->expect(SID[k], now ? DOWN : UP, now ? UP : DOWN, "observers are told each change once, with the old and the new state");
        available[k] = now;
        break;
      }
      case 2: {
        bool server = sym_choice(2, "server");
        c->onServerStatusChanged(server ? DOWN : UP, server ? UP : DOWN);
        if (!server) for (int j = 0; j < 2; j++) {
          if (r[j] && available[j]) ob[j]->expect(SID[j], UP, DOWN, "observers are told when the server with their service is lost");
          available[j] = false;
        }
        break;
      }
      case 3: {
        if (k == 2) break;
        auto x = c->getServiceRequester(sid);
        sym_assert(x && (!r[k] || x == r[k]) && x->serviceID() == SID[k], "a service has one requester");
        if (!r[k]) {
          r[k] = x;
          x->registerServiceStatusObserver(ob[k]);
          if (available[k]) ob[k]->expect(SID[k], UNKNOWN, UP, "a new observer is told when the service is available");
        }
        break;
      }
    }
    for (int j = 0; j < 2; j++) {
      sym_assert(c->getServiceStatus(SID[j]) == (available[j] ? UP : DOWN), "the state known is the last one told");
      sym_assert(c->hasServiceRequester(SID[j]) == !!r[j], "the client knows its requesters");
      if (r[j]) sym_assert(r[j]->serviceStatus() == (available[j] ? UP : DOWN), "the state known is the last one told");
      sym_assert(ob[j]->told.size() == ob[j]->at, "observers are told of changes only");
      if (r[j]) {
        auto at = c->sent.size();
        r[j]->sendRequestAsync("a", {}, [](const CSPayloadIFPtr &) {}, nullptr);
        sym_assert(c->sent.size() == at + available[j] && (!available[j] || (c->sent.back().first == SID[j] && c->sent.back().second == OpCode::Request)), "requests are sent to available services only");
      }
    }
  }
  sym_cover("end");
}
// a service is looked for while notices about it come
SYM_ENTRY p05_found() {
  rt_set_preempt(sym_cfg("preempt", 2));
  struct Slow : ServiceStatusObserverIF {
    std::mutex m;
    std::vector<Availability> told;
    void onServiceStatusChanged(const ServiceID &, Availability, Availability n) override { std::lock_guard l(m); told.push_back(n); }
  };
  struct Quiet : Client {
    ActionCallStatus sendMessageToServer(const CSMessagePtr &) override { return ActionCallStatus::Success; }
  };
  auto c = std::make_shared<Quiet>();
  bool before = sym_choice(2, "known before"), lost = sym_choice(2, "lost");
  int n = 1 + sym_choice(2, "notices");
  auto notice = [&](bool now) { c->onIncomingMessage(createCSMessage("1", now ? OpID_ServiceAvailable : OpID_ServiceUnavailable, OpCode::ServiceStatusUpdate)); };
  if (before) notice(true);
  std::thread t([&] {
    for (int i = 0; i < n; i++) {
      if (lost) c->onServerStatusChanged(UP, DOWN);
      else notice(i % 2 == before);
    }
  });
  // whether it is available: what it was, or what the notices say
  bool last = lost ? false : n % 2 ? !before : before;
  auto st = c->getServiceStatus("1");
  sym_assert(st == UP || st == DOWN, "the state known is one that was told");
  auto r = c->getServiceRequester("1");
  auto o = std::make_shared<Slow>();
  r->registerServiceStatusObserver(o);
  t.join();
  sym_assert(c->getServiceStatus("1") == (last ? UP : DOWN) && r->serviceStatus() == (last ? UP : DOWN), "the state known is the last one told");
  sym_assert(o->told.empty() ? !last : (o->told.back() == UP) == last, "what an observer is told last is the state known");
  for (size_t i = 1; i < o->told.size(); i++) sym_assert(o->told[i] != o->told[i - 1], "observers are told each change once");
  sym_cover("end");
}
// what a server tells
struct Server : ServerBase {
  Told told;
  size_t at = 0;
  ActionCallStatus sendMessageToClient(const CSMessagePtr &, const Address &) override { return ActionCallStatus::Success; }
  void notifyServiceStatusToClient(const ServiceID &s, Availability o, Availability n) override { told.push_back({s, {o, n}}); }
  bool start() override { return true; }
  void stop() override {}
};
SYM_ENTRY p05_server() {
  rt_set_preempt(0);
  auto s = std::make_shared<Server>();
  static const char *SID[2] = {"one", "two"};
  bool available[2] = {};
  ServiceProviderIFPtr p[2];
  auto look = [&](int k, bool now) {
    sym_assert(s->told.size() == s->at + 1 && s->told[s->at].first == SID[k] && s->told[s->at].second == std::make_pair(now ? DOWN : UP, now ? UP : DOWN), "clients are told when a service starts and stops, with the old and the new state");
    s->at++;
  };
  for (uint64_t i = 0, n = sym_cfg("ops", 4); i < n; i++) {
    int k = sym_choice(2, "service");
    if (!p[k]) {
      p[k] = s->getServiceProvider(SID[k]);
      sym_assert(p[k]->availability() == DOWN, "a service has to be started");
    } else if (available[k]) {
      p[k]->stopServing();
      look(k, available[k] = false);
    } else {
      p[k]->startServing();
      look(k, available[k] = true);
    }
    for (int j = 0; j < 2; j++) if (p[j]) sym_assert(p[j]->availability() == (available[j] ? UP : DOWN), "a service knows its state");
    sym_assert(s->told.size() == s->at, "clients are told of changes only");
  }
  s->deinit();
  for (int j = 0; j < 2; j++) {
    int n = 0;
    for (auto i = s->at; i < s->told.size(); i++) if (s->told[i].first == SID[j]) { n++; sym_assert(s->told[i].second.second == DOWN, "a service that ends is told so"); }
    sym_assert(available[j] ? n == 1 : n <= 1, "clients are told when a service ends with its server");
    if (p[j]) sym_assert(p[j]->availability() == DOWN, "a service ends with its server");
    sym_assert(!s->hasServiceProvider(SID[j]), "a service ends with its server");
  }
}
// waiting for a state
SYM_ENTRY p05_signal() {
  rt_set_preempt(sym_cfg("preempt", 2));
  auto s = serviceStatusSignal();
  auto kind = sym_choice(3, "what");
  int got = -1;
  std::thread t([&] {
    auto w = kind == 2 ? s->waitIfNot(UP, 5) : s->waitIfNot(UP);
    got = w.isReady() ? 0 : w.isInterrupted() ? 1 : 2;
    if (got == 0) sym_assert(s->currentStatus() == UP, "a state waited for has come");
  });
  if (kind == 0) s->onServiceStatusChanged("svc", DOWN, UP);
  if (kind == 1) s->stop();
  t.join();
  sym_assert(got == (int)kind, "waiting for a state ends when it has come, is stopped or expires");
}
// several wait, for one state or another; a state that had come and a signal that was stopped
SYM_ENTRY p05_waiters() {
  rt_set_preempt(0);
  auto s = serviceStatusSignal();
  Availability last = DOWN;
  if (sym_choice(2, "was up")) s->onServiceStatusChanged("svc", DOWN, UP), last = UP;
  bool stopped = sym_choice(2, "stopped before");
  if (stopped) s->stop();
  rt_set_preempt((int)sym_cfg("preempt", 1));
  rt_set_spurious((int)sym_cfg("spurious", 1));
  Availability want[2] = {sym_choice(2, "first waits for") ? UP : DOWN, sym_choice(2, "second waits for") ? UP : DOWN};
  int got[2] = {-1, -1};
  bool timed = sym_choice(2, "timed"), flip = sym_choice(2, "changes"), stop = sym_choice(2, "stop");
  if (!timed && !stop) sym_assume(want[0] == want[1]);
  std::vector<std::thread> t;
  for (int i = 0; i < 2; i++) t.emplace_back([&, i] {
    auto w = timed ? s->waitIfNot(want[i], 5) : s->waitIfNot(want[i]);
    got[i] = w.isReady() ? 0 : w.isInterrupted() ? 1 : 2;
    sym_assert(w.isReady() + w.isInterrupted() + w.isTimeout() == 1, "a wait has one outcome");
  });
  if (flip) s->onServiceStatusChanged("svc", last, last == UP ? DOWN : UP);
  if (stop) s->stop();
  if (flip) last = last == UP ? DOWN : UP;
  // what no stop and no time ends, the state does
  if (!timed && !stop && !stopped && want[0] != last) s->onServiceStatusChanged("svc", last, want[0]);
  for (auto &x : t) x.join();
  for (int i = 0; i < 2; i++) {
    if (stopped) sym_assert(got[i] == 1, "waiting on a stopped signal is interrupted");
    else if (!stop) sym_assert(got[i] != 1, "waiting is interrupted by a stop only");
    if (!stopped && !stop && (!timed || want[i] == last)) sym_assert(got[i] == 0, "a state that has come and stays ends the waiting");
    if (!stopped && !stop && !flip && timed && want[i] != last) sym_assert(got[i] == 2, "a state that does not come ends no waiting before its time");
    if (!stopped && stop && !flip && !timed && want[i] != last) sym_assert(got[i] == 1, "a stop ends the waiting");
  }
  sym_cover("end");
}
// the executor of an observer decides whether it is still there
SYM_ENTRY p05_executor() {
  rt_set_preempt(0);
  struct Ex : maf::util::ExecutorIF {
    bool alive = true;
    std::vector<CallbackType> q;
    bool execute(CallbackType c) noexcept override { if (alive) q.push_back(std::move(c)); return alive; }
  };
  auto ex = std::make_shared<Ex>();
  auto client = std::make_shared<RecordingClient>();
  auto r = std::make_shared<ServiceRequester>("svc", client);
  Told told;
  auto other = std::make_shared<Observer>();
  std::weak_ptr<ServiceStatusObserverIF> w;
  {
    auto d = std::make_shared<ServiceStatusObserverDelegater>(ex, [&](Availability o, Availability n) { told.push_back({"", {o, n}}); });
    w = d;
    r->registerServiceStatusObserver(d);
  }
  r->registerServiceStatusObserver(other);
  up(*r);
  down(*r);
  sym_assert(told.empty() && ex->q.size() == 2, "an observer is told through its executor");
  for (auto &c : ex->q) c();
  ex->q.clear();
  sym_assert(told.size() == 2 && told[0].second == std::make_pair(DOWN, UP) && told[1].second == std::make_pair(UP, DOWN), "an observer is told each change with the old and the new state");
  ex->alive = false;
  up(*r);
  sym_assert(w.expired(), "an observer whose executor is gone is dropped");
  down(*r);
  sym_assert(other->told.size() == 4, "others go on");
  sym_assert(told.size() == 2, "nothing else is told");
}
// observers that leave a message to a processor
SYM_ENTRY p05_async() {
  rt_set_preempt(0);
  auto p = Processor::create();
  auto client = std::make_shared<RecordingClient>();
  auto r = std::make_shared<ServiceRequester>("svc", client);
  Told told;
  int others = 0;
  p->connect<ServiceStatusMsg>([&](const ServiceStatusMsg &m) { told.push_back({m.serviceID, {m.oldStatus, m.newStatus}}); });
  p->connect<int>([&](int) { others++; });
  bool was = sym_choice(2, "up before");
  if (was) up(*r);
  auto o = asyncServiceStatusObserver(p);
  r->registerServiceStatusObserver(o);
  Told want;
  if (was) want.push_back({"svc", {UNKNOWN, UP}});
  bool gone = false, on = true, now = was;
  for (uint64_t i = 0, n = sym_cfg("ops", 3); i < n; i++) {
    switch (sym_choice(5, "op")) {
      case 0: case 1: {
        bool next = sym_bool("available");
        r->onServiceStatusChanged("svc", next ? DOWN : UP, next ? UP : DOWN);
        if (next != now && on && !gone) want.push_back({"svc", {now ? UP : DOWN, next ? UP : DOWN}});
        now = next;
        break;
      }
      case 2: if (!gone) { while (p->runOnceFor(std::chrono::milliseconds(0))); sym_assert(told == want, "a processor is told each change once, in order, when it runs"); } break;
      case 3: r->unregisterServiceStatusObserver(o); on = false; break;
      case 4: if (!gone) { gone = true; while (p->runOnceFor(std::chrono::milliseconds(0))); p.reset(); } break;
    }
  }
  if (!gone) while (p->runOnceFor(std::chrono::milliseconds(0)));
  sym_assert(told == want && others == 0, "a processor is told each change once, in order");
  sym_cover("end");
}
// two threads tell of changes at once
SYM_ENTRY p05_notices_race() {
  rt_set_preempt(sym_cfg("preempt", 2));
  struct Slow : ServiceStatusObserverIF {
    std::mutex m;
    std::vector<std::pair<Availability, Availability>> told;
    void onServiceStatusChanged(const ServiceID &, Availability o, Availability n) override { std::lock_guard l(m); told.push_back({o, n}); }
  };
  struct Quiet : Client {
    ActionCallStatus sendMessageToServer(const CSMessagePtr &) override { return ActionCallStatus::Success; }
  };
  auto c = std::make_shared<Quiet>();
  auto notice = [&](int what) {
    if (what == 2) c->onServerStatusChanged(UP, DOWN);
    else c->onIncomingMessage(createCSMessage("1", what ? OpID_ServiceAvailable : OpID_ServiceUnavailable, OpCode::ServiceStatusUpdate));
  };
  bool before = sym_choice(2, "known before");
  if (before) notice(1);
  auto r = c->getServiceRequester("1");
  auto o = std::make_shared<Slow>();
  r->registerServiceStatusObserver(o);
  sym_assert(o->told.size() == before, "a new observer is told that the service is available");
  int what[3];
  for (auto &w : what) w = sym_choice(3, "notice");
  std::thread t([&] { notice(what[0]); });
  notice(what[1]);
  notice(what[2]);
  t.join();
  bool now = r->serviceStatus() == UP;
  sym_assert(now ? what[0] == 1 || what[2] == 1 : what[0] != 1 || what[2] != 1, "the state known is the last one told");
  sym_assert(o->told.empty() ? !now : (o->told.back().second == UP) == now, "what an observer is told last is the state known");
  for (size_t i = 1; i < o->told.size(); i++) sym_assert(o->told[i].first == o->told[i - 1].second && o->told[i].second != o->told[i].first, "observers are told each change once, in order");
  sym_cover("end");
}
