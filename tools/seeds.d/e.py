C = 'src/common/maf/messaging/client-server/'
SEEDS = [
 dict(id='a01-any-port', property='A01',
  edits=[(C + 'Address.cpp', '  return name_ == other.name_ && port_ == other.port_;', '  return name_ == other.name_ && (port_ == other.port_ || port_ == INVALID_PORT);')],
  needs='an address without a port compared with one of the same name that has one', breaks='it equals the other, which does not equal it',
  demo='''
#include <maf/messaging/client-server/Address.h>
using namespace maf::messaging;
int main() {
  Address a("a"), b("a", 1);
  return (a == b) == (b == a) && a != b && b == Address("a", 1) && a == Address("a") ? 0 : 1;
}
'''),
 dict(id='p06-nearest', property='P06',
  edits=[(C + 'ClientBase.cpp', '_requestersMap->find(msg->serviceID());', '_requestersMap->lower_bound(msg->serviceID());')],
  needs='a message for an unknown service whose name sorts before a known one', breaks='it is handed to the requester of the other service',
  demo='''
#include "maf/messaging/client-server/ClientBase.h"
#include "maf/messaging/client-server/ServiceRequester.h"
#include <maf/messaging/client-server/CSMessage.h>
using namespace maf::messaging;
struct Client : ClientBase {
  ActionCallStatus sendMessageToServer(const CSMessagePtr &) override { return ActionCallStatus::Success; }
  bool start() override { return true; }
  void stop() override {}
  using ClientBase::onIncomingMessage;
};
int main() {
  auto c = std::make_shared<Client>();
  c->onIncomingMessage(createCSMessage("service 2", OpID_ServiceAvailable, OpCode::ServiceStatusUpdate));
  int told = 0;
  c->getServiceRequester("service 2")->registerSignal("sig", [&](const CSPayloadIFPtr &) { told++; }, nullptr);
  bool other = c->onIncomingMessage(createCSMessage("service 1", "sig", OpCode::SignalRegister, 1));
  if (other || told) return 1;
  c->onIncomingMessage(createCSMessage("service 2", "sig", OpCode::SignalRegister, 1));
  return told == 1 ? 0 : 1;
}
'''),
 dict(id='i01-nameless-error', property='I01',
  edits=[(C + 'ipc/LocalIPCMessage.cpp', '  return sr << error->description() << error->code();', '  return sr << error->description() << (error->description().empty() ? CSError::ErrorCode::Unknown : error->code());')],
  needs='an error that has a code and no description', breaks='its code is lost on the way',
  demo='''
#include "maf/messaging/client-server/ipc/LocalIPCMessage.h"
#include <maf/messaging/client-server/CSError.h>
using namespace maf::messaging;
static bool kept(const char *d) {
  ipc::local::LocalIPCMessage a, b;
  a.setServiceID("s");
  a.setOperationID("o");
  a.setOperationCode(OpCode::Request);
  a.setRequestID(1);
  a.setSourceAddress(Address("c", 1));
  a.setPayload(std::make_shared<CSError>(d, CSErrorCode::RequestRejected));
  if (!b.fromBytes(a.toBytes())) return false;
  auto e = std::static_pointer_cast<CSError>(b.payload());
  return e->description() == d && e->code() == CSErrorCode::RequestRejected;
}
int main() { return kept("no") && kept("") ? 0 : 1; }
'''),
]
