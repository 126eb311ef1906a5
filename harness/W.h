// An in-process wire under the local transport: a buffer sent to an address is delivered whole and once to the receiver
// set up there, in order, or refused - what I02, I03 and I04 establish for the sockets below.
#pragma once
#include "harness/T.h"
#include <maf/messaging/client-server/ClientIF.h>
#include <maf/messaging/client-server/ServerIF.h>
#include <maf/utils/Process.h>
#include "maf/messaging/client-server/ClientBase.h"
#include "maf/messaging/client-server/ipc/LocalIPCBufferReceiver.h"
#include "maf/messaging/client-server/ipc/LocalIPCBufferSender.h"
#include "maf/messaging/client-server/ipc/LocalIPCClient.h"
#include "maf/messaging/client-server/ipc/LocalIPCMessage.h"
#include "maf/messaging/client-server/ipc/LocalIPCServer.h"
#include "maf/messaging/client-server/ServiceProviderIF.h"
#include "maf/messaging/client-server/ServiceRequesterIF.h"
namespace wire {
struct End;
inline std::map<std::string, End *> *ends;
inline std::mutex *lock;
inline int pid = 4242;
inline std::vector<std::pair<std::string, maf::srz::Buffer>> *sent;    // when kept
inline std::function<bool(const std::string &, maf::srz::Buffer &)> *spoil;  // may change or lose a buffer
inline std::map<std::string, int> *busy;                               // sends to this address that are refused for now
struct End {
  std::deque<maf::srz::Buffer> q;
  std::condition_variable cv;
  bool stopping = false;
  maf::messaging::ipc::BytesComeObserver *observer = nullptr;
};
static void start() {
  ends = new std::map<std::string, End *>;
  lock = new std::mutex;
  busy = new std::map<std::string, int>;
}
}  // namespace wire
namespace maf { namespace util { namespace process { ProcessID pid() { return wire::pid; } } } }
namespace maf { namespace messaging { namespace ipc { namespace local {
class LocalIPCBufferReceiverImpl {
 public:
  wire::End end;
  Address addr;
  bool init(const Address &a) {
    std::lock_guard l(*wire::lock);
    addr = a;
    return wire::ends->emplace(a.get_name(), &end).second;
  }
  bool start() {
    std::unique_lock l(*wire::lock);
    while (true) {
      end.cv.wait(l, [this] { return end.stopping || !end.q.empty(); });
      if (end.stopping) break;
      auto b = std::move(end.q.front());
      end.q.pop_front();
      l.unlock();
      end.observer->onBytesCome(std::move(b));
      l.lock();
    }
    return true;
  }
  void drop() {
    auto it = wire::ends->find(addr.get_name());
    if (it != wire::ends->end() && it->second == &end) wire::ends->erase(it);
  }
  void stop() {
    std::lock_guard l(*wire::lock);
    end.stopping = true;
    drop();
    end.cv.notify_all();
  }
  ~LocalIPCBufferReceiverImpl() { std::lock_guard l(*wire::lock); drop(); }
};
LocalIPCBufferReceiver::LocalIPCBufferReceiver() : _impl{std::make_unique<LocalIPCBufferReceiverImpl>()} {}
LocalIPCBufferReceiver::~LocalIPCBufferReceiver() = default;
bool LocalIPCBufferReceiver::init(const Address &a) { return _impl->init(a); }
bool LocalIPCBufferReceiver::start() { return _impl->start(); }
void LocalIPCBufferReceiver::stop() { _impl->stop(); }
bool LocalIPCBufferReceiver::running() const { return !_impl->end.stopping; }
void LocalIPCBufferReceiver::deinit() {}
const Address &LocalIPCBufferReceiver::address() const { return _impl->addr; }
void LocalIPCBufferReceiver::setObserver(BytesComeObserver *o) { _impl->end.observer = o; }
class LocalIPCBufferSenderImpl {};
LocalIPCBufferSender::LocalIPCBufferSender() {}
LocalIPCBufferSender::~LocalIPCBufferSender() = default;
ActionCallStatus LocalIPCBufferSender::send(const srz::Buffer &b, const Address &to) {
  std::lock_guard l(*wire::lock);
  auto it = wire::ends->find(to.get_name());
  if (it == wire::ends->end()) return ActionCallStatus::ReceiverUnavailable;
  if ((*wire::busy)[to.get_name()]) { (*wire::busy)[to.get_name()]--; return ActionCallStatus::ReceiverBusy; }
  srz::Buffer copy(b);
  if (wire::spoil && !(*wire::spoil)(to.get_name(), copy)) return ActionCallStatus::Success;
  it->second->q.push_back(std::move(copy));
  it->second->cv.notify_all();
  return ActionCallStatus::Success;
}
Availability LocalIPCBufferSender::checkReceiverStatus(const Address &to) const {
  std::lock_guard l(*wire::lock);
  return wire::ends->count(to.get_name()) ? Availability::Available : Availability::Unavailable;
}
}}}}  // namespace maf::messaging::ipc::local
