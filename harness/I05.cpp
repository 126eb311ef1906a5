// I05: what one end of the local transport sends, the other end is given: whole, once, in order, and nothing else.
#include "harness/T.h"
#include "harness/live.h"
#include <chrono>
#include <maf/messaging/client-server/CSMgmt.h>
#include "maf/messaging/client-server/ipc/LocalIPCBufferReceiver.h"
#include "maf/messaging/client-server/ipc/LocalIPCBufferSender.h"
using namespace maf::messaging::ipc;
using namespace maf::messaging::ipc::local;
namespace loc = maf::messaging::ipc::local;
struct Box : BytesComeObserver {
  std::mutex m;
  std::vector<std::string> got;
  void onBytesCome(maf::srz::Buffer &&b) override { std::lock_guard l(m); got.push_back(std::string(b.begin(), b.end())); }
};
// the first byte tells the sender, the second the number, the rest is arbitrary
static std::string payload(int sender, int number) {
  std::string s{(char)('a' + sender), (char)('0' + number)};
  for (size_t k = sym_len(sym_cfg("len", 1), "length"); k--;) s.push_back((char)sym_u8("content"));
  return s;
}
// senders at once, every message arrives
SYM_ENTRY i05_deliver() {
  rt_set_preempt(-1);
  net::start();
  size_t senders = sym_cfg("senders", 2), each = sym_cfg("each", 2);
  std::vector<std::vector<std::string>> sent(senders);
  for (size_t i = 0; i < senders; i++) for (size_t k = 0; k < each; k++) sent[i].push_back(payload((int)i, (int)k));
  net::pieces = (int)sym_cfg("pieces", 1);
  net::cuts = (int)sym_cfg("cuts", 0);
  Box box;
  std::vector<std::vector<bool>> done(senders, std::vector<bool>(each));
  {
    LocalIPCBufferReceiver rx;
    LocalIPCBufferSender tx;
    const Address to{"here", 1};
    sym_assert(tx.checkReceiverStatus(to) == Availability::Unavailable && tx.send("x", to) == ActionCallStatus::ReceiverUnavailable, "nobody is there before the receiver is set up");
    sym_assert(rx.init(to) && rx.address() == to && !rx.running(), "a receiver can be set up");
    rx.setObserver(&box);
    LocalIPCBufferReceiver other;
    sym_assert(!other.init(to), "an address is taken once");
    rt_set_preempt((int)sym_cfg("preempt", 1));
    std::thread r([&] { rx.start(); });
    std::vector<std::thread> t;
    auto work = [&](size_t i, LocalIPCBufferSender &x) {
      for (size_t k = 0; k < each; k++) done[i][k] = x.send(maf::srz::Buffer{sent[i][k].begin(), sent[i][k].end()}, to) == ActionCallStatus::Success;
    };
    for (size_t i = 1; i < senders; i++) t.emplace_back([&, i] { LocalIPCBufferSender own; work(i, own); });
    work(0, tx);
    for (auto &x : t) x.join();
    rt_set_preempt(-1);
    rt_wait_quiescent();
    sym_assert(tx.checkReceiverStatus(to) == Availability::Available, "a running receiver is there");
    rt_wait_quiescent();
    sym_assert(rx.running(), "a receiver runs until it is stopped");
    rx.stop();
    r.join();
    sym_assert(!rx.running(), "a stopped receiver does not run");
    sym_assert(tx.checkReceiverStatus(to) == Availability::Unavailable && tx.send("x", to) == ActionCallStatus::ReceiverUnavailable, "nobody is there after the receiver was stopped");
  }
  size_t lost = 0;
  for (size_t i = 0; i < senders; i++) {
    size_t k = 0;
    for (auto &g : box.got) {
      if (g.size() < 2 || g[0] != (char)('a' + i)) continue;
      while (k < each && !done[i][k]) k++, lost++;
      sym_assert(k < each && g[1] == (char)('0' + k) && same(g, sent[i][k]), "what was sent arrives whole, once and in order");
      k++;
    }
    while (k < each && !done[i][k]) k++, lost++;
    sym_assert(k == each, "what was sent arrives");
  }
  sym_assert(box.got.size() + lost == senders * each, "nothing else arrives");
  sym_assert(net::cuts > 0 || sym_cfg("cuts", 0) || !lost, "a message is sent when no call fails");
  sym_assert(net::openFds() == 0, "every descriptor is closed");
  if (lost) sym_cover("cut");
  sym_cover("end");
  sym_done();
}
// the receiver is stopped, or destroyed, while messages come
SYM_ENTRY i05_stopped() {
  rt_set_preempt(-1);
  net::start();
  std::string m[2] = {payload(0, 0), payload(0, 1)};
  net::pieces = (int)sym_cfg("pieces", 1);
  Box box;
  bool done[2] = {};
  int before = (int)sym_choice(2, "sent before");
  {
    LocalIPCBufferReceiver rx;
    const Address to{"here", 1};
    sym_assert(rx.init(to), "a receiver can be set up");
    rx.setObserver(&box);
    std::thread r([&] { rx.start(); });
    LocalIPCBufferSender tx;
    auto send = [&](int k) { done[k] = tx.send(maf::srz::Buffer{m[k].begin(), m[k].end()}, to) == ActionCallStatus::Success; };
    if (before) { send(0); rt_wait_quiescent(); sym_assert(done[0] && box.got.size() == 1, "what was sent arrives"); }
    rt_set_preempt((int)sym_cfg("preempt", 2));
    std::thread s([&] { for (int k = before; k < 2; k++) send(k); });
    rx.stop();
    r.join();
    s.join();
  }
  size_t k = 0;
  for (auto &g : box.got) {
    while (k < 2 && g[1] != (char)('0' + k)) k++;
    sym_assert(k < 2 && same(g, m[k]) && done[k], "what arrives was sent, whole, once and in order");
    k++;
  }
  sym_assert(net::openFds() == 0, "every descriptor is closed");
  sym_cover("end");
  sym_done();
}
// a receiver that is not set up, or no longer is; and one set up again
SYM_ENTRY i05_life() {
  rt_set_preempt(-1);
  net::start();
  std::string m = payload(0, 0);
  const Address to{"here", 1}, second{"there", 2};
  struct Watch : Box {
    LocalIPCBufferReceiver *rx;
    void onBytesCome(maf::srz::Buffer &&b) override { sym_assert(rx->running(), "a receiver runs until it is stopped"); Box::onBytesCome(std::move(b)); }
  } box;
  {
    LocalIPCBufferReceiver rx;
    box.rx = &rx;
    LocalIPCBufferSender tx;
    auto send = [&](const Address &a) { return tx.send(maf::srz::Buffer{m.begin(), m.end()}, a); };
    rx.setObserver(&box);
    int how = sym_choice(4, "how");
    if (how == 0) {  // never set up, or set up in vain
      if (sym_choice(2, "in vain")) sym_assert(!rx.init(Address{std::string(200, 'x'), 0}), "no receiver at an address that is too long");
      sym_assert(!rx.running() && !rx.start() && !rx.running(), "a receiver that is not set up does not start");
      sym_assert(send(to) == ActionCallStatus::ReceiverUnavailable, "nobody is there before the receiver is set up");
    } else if (how == 1) {  // stopped before it starts
      sym_assert(rx.init(to) && !rx.running(), "a receiver that was set up does not run yet");
      rx.stop();
      rx.start();
      sym_assert(!rx.running(), "a receiver that was stopped does not start");
    } else {
      sym_assert(rx.init(to), "a receiver can be set up");
      std::thread r([&] { sym_assert(rx.start(), "a receiver that was set up starts"); });
      rt_wait_quiescent();
      sym_assert(rx.running(), "a receiver runs until it is stopped");
      sym_assert(!rx.start() && rx.running(), "a receiver starts once");
      sym_assert(send(to) == ActionCallStatus::Success, "a message is sent when no call fails");
      rt_wait_quiescent();
      rx.stop();
      r.join();
      sym_assert(!rx.running() && !rx.start() && !rx.running(), "a stopped receiver does not start");
      sym_assert(box.got.size() == 1 && same(box.got[0], m), "what was sent arrives");
    }
    if (how != 2) {
      auto &a = how == 3 ? second : to;
      LocalIPCBufferReceiver other;
      other.setObserver(&box);
      auto &x = how == 1 ? other : rx;
      if (how == 1) sym_assert(!other.init(to), "an address is taken once");
      else {
        sym_assert(x.init(a) && x.address() == a && !x.running(), "a receiver can be set up again");
        std::thread r([&] { sym_assert(x.start(), "a receiver that was set up starts"); });
        rt_wait_quiescent();
        sym_assert(x.running(), "a receiver runs until it is stopped");
        box.got.clear();
        sym_assert(send(a) == ActionCallStatus::Success, "a message is sent when no call fails");
        sym_assert(how == 0 || send(to) == ActionCallStatus::ReceiverUnavailable, "nobody is at an address that was given up");
        rt_wait_quiescent();
        x.stop();
        r.join();
        sym_assert(box.got.size() == 1 && same(box.got[0], m) && !x.running(), "what was sent arrives");
      }
    }
  }
  sym_assert(net::openFds() == 0, "every descriptor is closed");
  sym_cover("end");
  sym_done();
}
// the whole stack over sockets: a typed call, an update and a signal
SYM_ENTRY i05_stack() {
  rt_set_preempt(-1);
  net::start();
  net::pieces = (int)sym_cfg("pieces", 1);
  uint32_t a = sym_u32("input"), b = sym_u32("output"), v = sym_u32("value");
  std::string in = text("input text"), out = text("output text");
  {
    auto stub = loc::createStub(Address{"here", 0}, "svc", maf::util::directExecutor());
    auto proxy = loc::createProxy(Address{"here", 0}, "svc", maf::util::directExecutor());
    sym_assert(stub && proxy, "a stub and a proxy can be made");
    using In = sum_request::input;
    using Out = sum_request::output;
    int calls = 0, levels = 0, beeps = 0;
    stub->registerRequestHandler<In>([&](typename std::decay_t<decltype(*stub)>::Request<In> r) {
      calls++;
      auto i = r.getInput();
      sym_assert(i && (i->get_a() == a) & same(i->get_s(), in), "the handler sees the input");
      r.respond<Out>(b, out);
    });
    stub->startServing();
    for (int i = 0; i < 4 && proxy->serviceStatus() != Availability::Available; i++) std::this_thread::sleep_for(std::chrono::milliseconds(300));
    sym_assert(proxy->serviceStatus() == Availability::Available, "a served service is available");
    ActionCallStatus st = ActionCallStatus::FailedUnknown;
    proxy->registerStatus<level_property::status>([&](const std::shared_ptr<level_property::status> &x) { if (x) { levels++; sym_assert(x->get_v() == v, "an observer is told the value"); } }, &st);
    sym_assert(st == ActionCallStatus::Success, "an observer can register");
    proxy->registerSignal<beep_signal::attributes>([&](const std::shared_ptr<beep_signal::attributes> &x) { beeps++; sym_assert(x && (x->get_v() == v) & same(x->get_s(), in), "an observer is told the signal"); });
    auto r = proxy->sendRequest<Out>(sum_request::make_input(a, in), &st);
    sym_assert(st == ActionCallStatus::Success && calls == 1 && r.isOutput() && r.getOutput() && (r.getOutput()->get_r() == b) & same(r.getOutput()->get_s(), out), "the caller sees the answer");
    stub->setStatus<level_property::status>(v, out);
    stub->broadcastSignal<beep_signal::attributes>(v, in);
    std::this_thread::sleep_for(std::chrono::milliseconds(100));
    sym_assert(levels == 1 && beeps == 1, "an update and a signal arrive once");
    stub->stopServing();
    std::this_thread::sleep_for(std::chrono::milliseconds(100));
    sym_assert(proxy->serviceStatus() == Availability::Unavailable, "a service no longer served is unavailable");
    rt_set_preempt((int)sym_cfg("end", -1));
    if (sym_choice(2, "servers first")) { csmgmt::shutdownAllServers(); csmgmt::shutdownAllClients(); }
    else { csmgmt::shutdownAllClients(); csmgmt::shutdownAllServers(); }
  }
  sym_assert(net::openFds() == 0, "a shutdown leaves no descriptor open");
  sym_cover("end");
  sym_done();
}
