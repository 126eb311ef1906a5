// I03: a send succeeds exactly when the receiver was given the whole frame.
#include "net.h"
#include "maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.h"
using namespace maf::messaging;
using namespace maf::messaging::ipc;
using namespace maf::messaging::ipc::local;
static std::string prefix(uint32_t n) { return std::string(reinterpret_cast<char *>(&n), sizeof n); }
static bool same(const std::string &a, const std::string &b) {
  if (a.size() != b.size()) return false;
  bool r = true;
  for (size_t i = 0; i < a.size(); i++) r = r & (a[i] == b[i]);
  return r;
}
struct World {
  std::string sent;
  bool connected = false, there = true;
  int attempts = 0;
  explicit World(int first = 500) {
    net::start(first);
    lastSent = &sent;
    *net::reachable = [this](const sockaddr_un &) { attempts++; return there && !net::fault("connect fails"); };
    *net::onConnect = [this] { connected = true; };
  }
  ~World() { lastSent = nullptr; }
};
// any payload, any split into writes, any call may fail, the receiver may go away at any time
static void one(size_t most, int faults, int first) {
  std::string body;
  size_t n = net::some(0, most, "length");
  for (size_t i = 0; i < n; i++) body.push_back((char)sym_u8("byte"));
  {
    World w(first);
    net::faults = faults;
    w.there = sym_bool("receiver there");
    LocalIPCBufferSenderImpl s;
    auto r = s.send(body, Address{"you", 1});
    if (!w.connected) {
      sym_assert(r == ActionCallStatus::ReceiverUnavailable, "an absent receiver is reported as such");
      sym_cover("absent");
    } else {
      bool whole = same(w.sent, prefix((uint32_t)n) + body);
      sym_assert((r == ActionCallStatus::Success) <= whole, "a send that succeeds gave the receiver the whole frame");
      sym_assert(r == ActionCallStatus::Success || net::faults < faults, "a send fails only when something failed");
      sym_assert(w.sent.size() <= 4 + n, "nothing follows the frame");
      if (r == ActionCallStatus::Success) { sym_assert(*net::path == "you", "the frame goes to the address it is for"); sym_cover("sent"); }
      else sym_cover("failed");
    }
  }
  net::finish("every outcome leaves no connection open");
}
SYM_ENTRY i03_send() { one(sym_cfg("len", 3), sym_cfg("faults", 1), sym_choice(2, "descriptor 0 is free") ? 0 : 500); }
SYM_ENTRY i03_large() {
  net::pieces = 4;
  std::string body(70000, 'm');
  for (uint32_t i : {0u, 1u, 34999u, 35000u, 69998u, 69999u}) body[i] = (char)sym_u8("byte");
  {
    World w;
    net::faults = sym_cfg("faults", 1);
    LocalIPCBufferSenderImpl s;
    auto r = s.send(body, Address{"you", 1});
    bool whole = w.connected && w.sent.size() == 70004;
    if (whole) {
      whole = same(w.sent.substr(0, 4), prefix(70000));
      bool ok = true;
      for (uint32_t i = 0; i < 70000; i += i < 2 || (i > 34990 && i < 35010) || i > 69990 ? 1 : 7) ok = ok & (w.sent[4 + i] == body[i]);
      whole = whole & ok;
    }
    sym_assert((r == ActionCallStatus::Success) <= whole, "a large send that succeeds gave the receiver the whole frame");
    sym_cover(r == ActionCallStatus::Success ? "sent" : "failed");
  }
  net::finish("every outcome leaves no connection open");
}
// several sends, each over its own connection
SYM_ENTRY i03_repeated() {
  std::string a(1, (char)sym_u8("byte")), b(2, (char)sym_u8("byte"));
  {
    World w;
    net::faults = 2;
    LocalIPCBufferSenderImpl s;
    bool up = sym_bool("receiver there");
    w.there = up;
    auto r1 = s.send(a, Address{"one", 1});
    if (r1 == ActionCallStatus::Success) sym_assert(same(w.sent, prefix(1) + a) && *net::path == "one", "the first frame goes out whole");
    sym_assert(net::openFds() == 0, "a send leaves no connection open");
    w.there = true;
    w.connected = false;
    w.sent.clear();
    int before = net::faults;
    auto r2 = s.send(b, Address{"other", 1});
    if (r2 == ActionCallStatus::Success) sym_assert(same(w.sent, prefix(2) + b) && *net::path == "other", "the second frame goes out whole");
    sym_assert(r2 == ActionCallStatus::Success || net::faults < before, "a failed send does not spoil the next");
    sym_cover(r2 == ActionCallStatus::Success ? "sent" : "failed");
  }
  net::finish("every outcome leaves no connection open");
}
// asking whether a receiver is there
SYM_ENTRY i03_status() {
  {
    World w(sym_choice(2, "descriptor 0 is free") ? 0 : 500);
    net::faults = 1;
    LocalIPCBufferSenderImpl s;
    static const char *names[] = {"one", "other", ""};
    for (int i = 0; i < 3; i++) {
      int k = (int)sym_choice(3, "who");
      w.there = sym_bool("receiver there");
      int before = net::faults;
      bool was = w.attempts;
      w.attempts = 0;
      w.connected = false;
      auto r = s.checkReceiverStatus(Address{names[k], (Address::Port)1});
      (void)was;
      sym_assert((r == Availability::Available) == w.connected, "a receiver is available exactly when it can be connected to");
      if (w.connected || w.attempts) sym_assert(*net::path == names[k], "the receiver asked about is the one tried");
      sym_assert(r == Availability::Available || !w.there || net::faults < before, "a receiver that is there is reported as such");
      sym_assert(r == Availability::Available || r == Availability::Unavailable, "the answer is definite");
      sym_assert(net::openFds() == 0, "asking leaves no connection open");
    }
    sym_cover("end");
  }
  net::finish("every outcome leaves no connection open");
}
