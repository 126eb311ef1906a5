C = 'src/common/maf/messaging/client-server/'
FAKE_SERVER = '''
#include <maf/messaging/client-server/ServiceProvider.h>
#include <maf/messaging/client-server/ServerIF.h>
#include <maf/messaging/client-server/CSMessage.h>
#include <functional>
#include <memory>
#include <vector>
using namespace maf::messaging;
struct FakeServer : ServerIF {
  std::vector<std::pair<OpCode, Address>> sent;
  std::function<ActionCallStatus(const Address &)> outcome;
  ActionCallStatus sendMessageToClient(const CSMessagePtr &m, const Address &a) override {
    auto r = outcome ? outcome(a) : ActionCallStatus::Success;
    if (r == ActionCallStatus::Success) sent.push_back({m->operationCode(), a});
    return r;
  }
  ServiceProviderIFPtr getServiceProvider(const ServiceID &) override { return {}; }
  bool hasServiceProvider(const ServiceID &) override { return true; }
  bool init(const Address &) override { return true; }
  bool start() override { return true; }
  void stop() override {}
  void deinit() override {}
  bool onIncomingMessage(const CSMessagePtr &) override { return false; }
  void onServiceStatusChanged(const ServiceID &, Availability, Availability) override {}
};
'''
FAKE_CLIENT = '''
#include <maf/messaging/client-server/ServiceRequester.h>
#include <maf/messaging/client-server/ClientIF.h>
#include <maf/messaging/client-server/CSMessage.h>
#include <chrono>
#include <functional>
#include <memory>
#include <vector>
using namespace maf::messaging;
struct FakeClient : ClientIF {
  std::vector<OpCode> sent;
  bool fail = false;
  ActionCallStatus sendMessageToServer(const CSMessagePtr &m) override {
    if (fail) return ActionCallStatus::ReceiverBusy;
    sent.push_back(m->operationCode());
    return ActionCallStatus::Success;
  }
  bool hasServiceRequester(const ServiceID &) override { return true; }
  ServiceRequesterIFPtr getServiceRequester(const ServiceID &) override { return {}; }
  Availability getServiceStatus(const ServiceID &) override { return Availability::Unavailable; }
  bool init(const Address &) override { return true; }
  bool start() override { return true; }
  void stop() override {}
  void deinit() override {}
  bool onIncomingMessage(const CSMessagePtr &) override { return false; }
  void onServiceStatusChanged(const ServiceID &, Availability, Availability) override {}
  void onServerStatusChanged(Availability, Availability) noexcept override {}
};
'''
SEEDS = [
 dict(id='p02-all-again', property='P02',
  edits=[(C + 'ServiceProvider.cpp', '      busyReceivers = trySendToDestinations(busyReceivers);', '      busyReceivers = trySendToDestinations(addresses);')],
  needs='two clients of which one is busy at the first attempt', breaks='the other one receives the update twice',
  demo=FAKE_SERVER + '''
int main() {
  auto server = std::make_shared<FakeServer>();
  auto p = std::make_shared<ServiceProvider>("svc", server);
  Address a("a", 1), b("b", 1);
  for (auto &x : {a, b}) p->onIncomingMessage(createCSMessage("svc", "sig", OpCode::SignalRegister, 1, {}, x));
  server->sent.clear();
  int asked = 0;
  server->outcome = [&](const Address &x) { return x == a && asked++ == 0 ? ActionCallStatus::ReceiverBusy : ActionCallStatus::Success; };
  p->broadcastSignal("sig", {});
  int toA = 0, toB = 0;
  for (auto &s : server->sent) (s.second == a ? toA : toB)++;
  return toA == 1 && toB == 1 ? 0 : 1;
}
'''),
 dict(id='p01-quiet-end', property='P01',
  edits=[(C + 'ServiceProvider.cpp', '''    for (auto &request : requests) {
      request->invalidate();
      if (auto abortCallback = request->getAbortCallback()) {
        abortCallback();
      }
    }''', '''    for (auto &request : requests) {
      auto abortCallback = request->getAbortCallback();
      if (request->invalidate() && abortCallback && requests.size() == 1) {
        abortCallback();
      }
    }''')],
  needs='two requests for one operation under way when the service ends', breaks='their handlers are not told',
  demo=FAKE_SERVER + '''
#include "maf/messaging/client-server/Request.h"
int main() {
  auto server = std::make_shared<FakeServer>();
  auto p = std::make_shared<ServiceProvider>("svc", server);
  std::vector<std::shared_ptr<RequestIF>> open;
  int told = 0;
  p->registerRequestHandler("op", [&](const std::shared_ptr<RequestIF> &r) { r->onAborted([&] { told++; }); open.push_back(r); });
  for (int i = 1; i <= 2; i++) p->onIncomingMessage(createCSMessage("svc", "op", OpCode::Request, i, {}, Address("a", 1)));
  p->deinit();
  return told == 2 ? 0 : 1;
}
'''),
 dict(id='p03-not-withdrawn', property='P03',
  edits=[(C + 'ServiceRequester.cpp', '''          abortRequest(regID, nullptr);

''', '''          if (opCode == OpCode::StatusGet) {
            abortRequest(regID, nullptr);
          }

''')],
  needs='a waiting request that expires', breaks='the request is not withdrawn from the service',
  demo=FAKE_CLIENT + '''
int main() {
  auto client = std::make_shared<FakeClient>();
  auto r = std::make_shared<ServiceRequester>("svc", client);
  r->onServiceStatusChanged("svc", Availability::Unavailable, Availability::Available);
  ActionCallStatus st = ActionCallStatus::Success;
  r->sendRequest("op", {}, &st, std::chrono::milliseconds(20));
  return st == ActionCallStatus::Timeout && client->sent.size() == 2 && client->sent[1] == OpCode::Abort ? 0 : 1;
}
'''),
 dict(id='p04-failed-stays', property='P04',
  edits=[(C + 'ServiceRequester.cpp', '''    if (status != ActionCallStatus::Success) {
      removeRegEntry(registerEntriesMap_, regID);
      regID.clear();''', '''    if (status != ActionCallStatus::Success) {
      if (status == ActionCallStatus::ReceiverUnavailable) {
        removeRegEntry(registerEntriesMap_, regID);
      }
      regID.clear();''')],
  needs='a service that is busy when the first observer registers, and a second attempt', breaks='the second registration is not announced',
  demo=FAKE_CLIENT + '''
int main() {
  auto client = std::make_shared<FakeClient>();
  auto r = std::make_shared<ServiceRequester>("svc", client);
  r->onServiceStatusChanged("svc", Availability::Unavailable, Availability::Available);
  ActionCallStatus st = ActionCallStatus::Success;
  client->fail = true;
  r->registerSignal("sig", [](const CSPayloadIFPtr &) {}, &st);
  client->fail = false;
  auto id = r->registerSignal("sig", [](const CSPayloadIFPtr &) {}, &st);
  return id.valid() && client->sent.size() == 1 && client->sent[0] == OpCode::SignalRegister ? 0 : 1;
}
'''),
 dict(id='p05-stale-service', property='P05',
  edits=[(C + 'ClientBase.cpp', '''    _serviceStatusMap.atomic()->clear();
''', '''    for (auto &[sid, status] : *_serviceStatusMap.atomic()) {
      if (_requestersMap.atomic()->count(sid) != 0) {
        status = newStatus;
      }
    }
''')],
  needs='a service known to the client without a requester when the server is lost, and a requester made for it then', breaks='it is taken for available',
  demo='''
#include "maf/messaging/client-server/ClientBase.h"
#include <maf/messaging/client-server/CSMessage.h>
#include <memory>
using namespace maf::messaging;
struct C : ClientBase {
  ActionCallStatus sendMessageToServer(const CSMessagePtr &) override { return ActionCallStatus::Success; }
  bool start() override { return true; }
  void stop() override {}
};
int main() {
  auto c = std::make_shared<C>();
  c->onServiceStatusChanged("svc", Availability::Unavailable, Availability::Available);
  c->onServerStatusChanged(Availability::Available, Availability::Unavailable);
  auto r = c->getServiceRequester("svc");
  return r->serviceStatus() != Availability::Available && c->getServiceStatus("svc") != Availability::Available ? 0 : 1;
}
'''),
 dict(id='m05-first-signal', property='M05',
  edits=[('src/common/maf/messaging/Router.cpp', '''          for (auto &sig : sigs) {
            sig.get();
          }
''', '''          sigs.back().get();
''')],
  needs='a broadcast whose sender waits while another receiver than the last is slow', breaks='the wait ends before all are done',
  demo='''
#include <maf/messaging/ProcessorEx.h>
#include <maf/messaging/Routing.h>
#include <atomic>
#include <chrono>
#include <thread>
using namespace maf::messaging;
int main() {
  std::atomic<int> done{0};
  AsyncProcessor a{"a"}, b{"b"}, c{"c"};
  for (auto *p : {&a, &b, &c}) {
    bool slow = p != &c;
    (*p)->connect<int>([&done, slow](int) { if (slow) std::this_thread::sleep_for(std::chrono::milliseconds(300)); done++; });
    p->launch();
  }
  routing::sendToAll<int>(1).wait();
  int n = done;
  for (auto *p : {&a, &b, &c}) p->stopAndWait();
  return n == 3 ? 0 : 1;
}
'''),
 dict(id='s04-fresh-view', property='S04',
  edits=[('include/maf/utils/serialization/IByteStream.h', '''      : BasicIByteStream<const Buffer &>(ibs.buffer(), ibs.readingPos(),
                                         ibs.state()) {}''', '''      : BasicIByteStream<const Buffer &>(ibs.buffer(), ibs.readingPos()) {}''')],
  needs='a view taken of a stream that has failed, with bytes left', breaks='the view reads on as if nothing had happened',
  demo='''
#include <maf/utils/serialization/IByteStream.h>
using namespace maf::srz;
int main() {
  IByteStream is(Buffer("abc"));
  char c[8];
  is.read(c, 8);
  IByteStreamView v(is);
  bool was = v.good();
  v.read(c, 1);
  return !is.good() && is.fail() && !was && v.fail() ? 0 : 1;
}
'''),
 dict(id='i03-other-address', property='I03',
  edits=[('src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp', '  if (destination != destAddr) {', '  if (destination.get_name().size() != destAddr.get_name().size()) {')],
  needs='asking, on one thread, after two addresses whose names are equally long', breaks='the second one is reported as the first one is',
  demo='''
#include <maf/messaging/client-server/Address.h>
#include "maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.h"
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>
#include <cstdio>
#include <cstring>
#include <string>
using namespace maf::messaging;
int main() {
  std::string there = "maf-demo-i03-" + std::to_string(getpid()) + "-a", absent = there;
  absent.back() = 'b';
  int fd = socket(AF_UNIX, SOCK_STREAM, 0);
  sockaddr_un a;
  memset(&a, 0, sizeof a);
  a.sun_family = AF_UNIX;
  memcpy(a.sun_path + 1, there.data(), there.size());
  if (bind(fd, (sockaddr *)&a, sizeof a) != 0 || listen(fd, 5) != 0) return 3;
  ipc::local::LocalIPCBufferSenderImpl s;
  auto first = s.checkReceiverStatus(Address(there, 0)), second = s.checkReceiverStatus(Address(absent, 0));
  if (first != Availability::Available) return 3;
  return second == Availability::Unavailable ? 0 : 1;
}
'''),
 dict(id='p10-refused-kept', property='P10',
  edits=[(C + 'ClientFactory.cpp', '''      if ((client = makeClient(connectionType)) && client->init(addr)) {
        (*_clientMap)[connectionType].emplace(addr, client);
        client->start();''', '''      if ((client = makeClient(connectionType)) &&
          (*_clientMap)[connectionType].emplace(addr, client).second &&
          client->init(addr)) {
        client->start();''')],
  needs='a client whose own address is taken when it is first made, and a second attempt', breaks='the second attempt is given the client that was never set up',
  demo='''
#include "maf/messaging/client-server/ClientFactory.h"
#include <maf/messaging/client-server/Address.h>
#include <maf/messaging/client-server/ipc/local/ConnectionType.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>
#include <cstring>
#include <string>
using namespace maf::messaging;
int main() {
  std::string server = "maf-demo-p10-" + std::to_string(getpid()) + "-", own = server + std::to_string(getpid());
  int fd = socket(AF_UNIX, SOCK_STREAM, 0);
  sockaddr_un a;
  memset(&a, 0, sizeof a);
  a.sun_family = AF_UNIX;
  memcpy(a.sun_path + 1, own.data(), own.size());
  if (bind(fd, (sockaddr *)&a, sizeof a) != 0) return 3;
  ClientFactory f;
  bool one = f.getClient(ipc::local::connection_type, Address(server, 0)) != nullptr;
  bool two = f.getClient(ipc::local::connection_type, Address(server, 0)) != nullptr;
  _exit(!one && !two ? 0 : 1);
}
''', srcs=['src/common/maf/messaging/Timer.cpp']),
]
