// I04: names stay within the address size, and descriptors are closed exactly once by their owner.
#include "net.h"
#include "maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.h"
#include "maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.h"
using namespace maf::messaging;
using namespace maf::messaging::ipc;
using namespace maf::messaging::ipc::local;
// every length around the limit, each with its own characters
static std::string name() {
  static const size_t lengths[] = {0, 1, 2, 54, 104, 105, 106, 107, 108, 109, 110, 111, 112, 160, 300};
  size_t n = lengths[sym_choice(sizeof lengths / sizeof *lengths, "length")];
  std::string s;
  for (size_t i = 0; i < n; i++) {
    char c = i < 2 || i + 3 > n ? (char)sym_u8("character") : (char)('a' + i % 26);
    sym_assume(c != 0);
    s.push_back(c);
  }
  return s;
}
static bool same(const std::string &a, const std::string &b) {
  if (a.size() != b.size()) return false;
  bool r = true;
  for (size_t i = 0; i < a.size(); i++) r = r & (a[i] == b[i]);
  return r;
}
static const size_t LIMIT = sizeof(sockaddr_un::sun_path) - 1;
// the three ways a name becomes an address
SYM_ENTRY i04_name() {
  std::string n = name();
  int way = (int)sym_choice(3, "way");
  {
    net::start();
    bool used = false;
    *net::reachable = [&](const sockaddr_un &) { used = true; return true; };
    bool ok;
    if (way == 0) {
      LocalIPCBufferReceiverImpl r;
      ok = r.init(Address{n, 1});
      used = ok;
      if (ok) sym_assert(r.address() == Address(n, 1), "a receiver keeps its address");
      else sym_assert(!r.start(), "a receiver that could not be set up does not start");
    } else {
      LocalIPCBufferSenderImpl s;
      ok = way == 1 ? s.send("x", Address{n, 1}) == ActionCallStatus::Success : s.checkReceiverStatus(Address{n, 1}) == Availability::Available;
    }
    sym_assert(ok == (n.size() <= LIMIT), "exactly the names that fit are accepted");
    sym_assert(used == ok, "a name that does not fit reaches nobody");
    if (ok) { sym_assert(same(*net::path, n), "the address is the whole name"); sym_cover("fits"); }
    else sym_cover("refused");
  }
  net::finish("every descriptor is closed");
}
// a name that does not fit is followed by one that does
SYM_ENTRY i04_names() {
  {
    net::start();
    *net::reachable = [](const sockaddr_un &) { return true; };
    LocalIPCBufferSenderImpl s;
    for (int i = 0; i < 3; i++) {
      std::string n = sym_choice(2, "fits") ? std::string(1 + sym_choice(2, "length"), 'q') : std::string(140, 'z');
      bool ok = s.checkReceiverStatus(Address{n, (Address::Port)sym_choice(2, "port")}) == Availability::Available;
      sym_assert(ok == (n.size() <= LIMIT), "a name is judged by itself");
      if (ok) sym_assert(*net::path == n, "the address is that of the name asked for");
    }
    sym_cover("end");
  }
  net::finish("every descriptor is closed");
}
// every call of setting up, serving and ending may fail
SYM_ENTRY i04_receiver() {
  static const int first[] = {500, 0, 1022, 1023, 1024};
  int f = first[sym_choice(5, "free descriptors from")];
  {
    net::start(f);
    int waits = 0;
    LocalIPCBufferReceiverImpl r;
    r.setObserver([](maf::srz::Buffer &&) {});
    *net::onConnect = [] { net::pending->push_back(-1); };
    auto pick = [&](fd_set *s, int nfds) {
      if (++waits > 12) { r.stop(); FD_ZERO(s); return 0; }
      std::vector<int> ready;
      for (auto &d : *net::fds)
        if (d.open && d.fd < nfds && FD_ISSET(d.fd, s) && (d.kind == net::Accepted || !net::pending->empty())) ready.push_back(d.fd);
      FD_ZERO(s);
      if (ready.empty()) { r.stop(); return 0; }
      size_t k = sym_choice(ready.size(), "ready");
      FD_SET(ready[k], s);
      return 1;
    };
    *net::selector = pick;
    net::faults = sym_cfg("faults", 2);
    bool ok = r.init(Address{"me", 1});
    if (sym_choice(2, "set up again")) ok = r.init(Address{"me", 2});
    if (!ok) {
      sym_assert(net::faults < (int)sym_cfg("faults", 2) || f >= 1023, "a receiver is set up when no call fails");
      sym_assert(net::openFds() == 0, "a receiver that could not be set up holds no descriptor");
      sym_assert(!r.start(), "a receiver that could not be set up does not start");
      sym_cover("not set up");
    } else {
      sym_assert(net::openFds() == 1, "a receiver that is set up holds its own descriptor only");
      int n = (int)sym_choice(3, "connections");
      for (int i = 0; i < n; i++) {
        net::Peer p;
        p.bytes = i ? std::string("\1\0\0\0x", 5) : std::string("\1\0", 2);
        net::peers->push_back(p);
        net::pending->push_back(i);
      }
      net::fragment = false;
      bool start = sym_choice(2, "start");
      if (start) { r.start(); sym_assert(net::openFds() == 0, "a receiver that ended holds no descriptor"); sym_cover("ended"); }
    }
  }
  net::fragment = true;
  net::finish("every descriptor is closed");
}
// the descriptor guard
SYM_ENTRY i04_guard() {
  net::start(sym_choice(2, "descriptor 0 is free") ? 0 : 500);
  {
    using Guard = AutoCloseFD<SockFD>;
    int owner[2] = {-1, -1};                     // which descriptor each guard owns
    // storage that held something else before
    alignas(Guard) unsigned char raw[2][sizeof(Guard)];
    int other = socket(AF_UNIX, SOCK_STREAM, 0);
    for (auto &x : raw) for (size_t i = 0; i + sizeof(int) <= sizeof(Guard); i += sizeof(int)) memcpy(x + i, &other, sizeof other);
    Guard *g[2] = {new (raw[0]) Guard, nullptr};
    size_t ops = sym_cfg("ops", 4);
    for (size_t i = 0; i < ops; i++) {
      switch (sym_choice(6, "operation")) {
        case 0: { int k = (int)sym_choice(2, "which"); if (!g[k]) break; int n = socket(AF_UNIX, SOCK_STREAM, 0); *g[k] = n; owner[k] = n; break; }
        case 1: if (!g[1]) { g[1] = new (raw[1]) Guard(std::move(*g[0])); owner[1] = owner[0]; owner[0] = -1; } break;
        case 2: if (g[1]) { g[1]->~Guard(); g[1] = nullptr; owner[1] = -1; memcpy(raw[1], &other, sizeof other); } break;
        case 3: if (g[1]) { *g[0] = std::move(*g[1]); owner[0] = owner[1]; owner[1] = -1; } break;
        case 4: { Guard &x = *g[0]; x = std::move(*g[0]); break; }
        case 5: g[0]->reset(); owner[0] = -1; break;
      }
      for (int k = 0; k < 2; k++) {
        if (!g[k]) continue;
        sym_assert((int)*g[k] == owner[k], "a guard holds the descriptor it was given last");
        if (owner[k] >= 0) sym_assert(net::find(owner[k]), "a descriptor stays open while its guard holds it");
      }
      sym_assert(net::openFds() == 1 + (owner[0] >= 0) + (owner[1] >= 0), "a descriptor is closed as soon as no guard holds it");
      sym_assert(net::find(other), "a descriptor no guard was given stays open");
    }
    g[0]->~Guard();
    if (g[1]) g[1]->~Guard();
    sym_assert(net::openFds() == 1, "ending guards close their descriptors");
    close(other);
    sym_cover("end");
  }
  net::finish("every descriptor is closed");
}
