// I02: the receiver hands over exactly the frames that were sent, whatever the network does.
#include "net.h"
#include <atomic>
#include <thread>
#include "maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.h"
using namespace maf::messaging;
using namespace maf::messaging::ipc;
using namespace maf::messaging::ipc::local;
static std::string prefix(uint32_t n) { return std::string(reinterpret_cast<char *>(&n), sizeof n); }
static bool same(const std::string &a, const std::string &b) {
  if (a.size() != b.size()) return false;
  bool r = true;
  for (size_t i = 0; i < a.size(); i++) r = r & (a[i] == b[i]);
  return r;
}
struct World {
  LocalIPCBufferReceiverImpl r;
  std::vector<std::string> got;
  int waits = 0, limit = 40, rounds = 0;
  bool subsets = true, stopped = false;
  std::function<bool()> more;                  // called when nothing is left to do
  explicit World(int firstFd = 500) {
    net::start(firstFd);
    *net::selector = [this](fd_set *s, int n) { return select(s, n); };
    *net::onConnect = [] { net::pending->push_back(-1); };
  }
  bool init() {
    r.setObserver([this](maf::srz::Buffer &&b) { got.push_back(std::move(b)); });
    return r.init(Address{"me", 1});
  }
  void add(std::string bytes) {
    net::Peer p;
    p.bytes = std::move(bytes);
    net::peers->push_back(p);
    net::pending->push_back((int)net::peers->size() - 1);
  }
  int select(fd_set *s, int nfds) {
    sym_assert(++waits < limit, "the receiver never spins");
    std::vector<int> ready;
    int accepted = 0, listener = -1;
    for (auto &f : *net::fds) {
      if (!f.open) continue;
      if (f.kind == net::Accepted) {
        accepted++;
        sym_assert(f.fd < nfds && FD_ISSET(f.fd, s), "every connection is waited for");
        ready.push_back(f.fd);
      }
      if (f.kind == net::Listener) listener = f.fd;
    }
    bool watched = listener >= 0 && listener < nfds && FD_ISSET(listener, s);
    sym_assert(watched || accepted >= (int)MAXCLIENTS, "new connections are waited for while there is room");
    if (watched && !net::pending->empty()) ready.push_back(listener);
    if (net::fault("select fails")) return -1;
    FD_ZERO(s);
    if (ready.empty()) {
      if (more && more()) return 0;
      stopped = true;
      r.stop();
      if (watched && !net::pending->empty() && sym_choice(2, "woken")) { FD_SET(listener, s); return 1; }
      return 0;
    }
    uint64_t which = (1u << ready.size()) - 1;
    if (subsets && ready.size() > 1) which = 1 + sym_choice(which, "ready");
    int count = 0;
    for (size_t i = 0; i < ready.size(); i++)
      if (which >> i & 1) FD_SET(ready[i], s), count++;
    for (auto &f : *net::fds)
      if (f.open && f.kind == net::Accepted && f.peer >= 0) (*net::peers)[f.peer].silent = !FD_ISSET(f.fd, s);
    return count;
  }
  void run() {
    bool ok = r.start();
    sym_assert(stopped, "the receiver serves until it is stopped");
    sym_assert(ok && !r.running(), "a stopped receiver has ended");
  }
};
// one connection: any announced length, any number of bytes that come, any split into reads, any read may fail
SYM_ENTRY i02_fragments() {
  uint32_t L = sym_u32("announced");
  const size_t most = sym_cfg("len", 2);
  sym_assume(L <= most);
  std::string frame = prefix(L), body;
  for (size_t i = 0; i < most + 1; i++) body.push_back((char)sym_u8("byte"));
  frame += body;
  size_t T = net::some(0, frame.size(), "bytes that come");
  frame.resize(T);
  {
    World w;
    sym_assert(w.init(), "a receiver can be set up");
    net::faults = sym_cfg("faults", 1);
    w.add(frame);
    w.run();
    auto &p = (*net::peers)[0];
    if (T >= 4 + (size_t)L && !p.failed) {
      sym_assert(w.got.size() == 1 && w.got[0].size() == L && same(w.got[0], body.substr(0, w.got[0].size())), "a frame is delivered once, exactly as it was sent");
      sym_cover("whole");
    } else {
      sym_assert(w.got.empty(), "a frame that did not come whole is not delivered");
      sym_cover("cut short");
    }
  }
  net::finish("every descriptor is closed");
}
// an announced length that nothing follows for is no reason to obtain memory for it
SYM_ENTRY i02_huge() {
  uint32_t L = sym_choice(2, "announced") ? 0xffffffffu : 0x7fffffffu;
  size_t T = sym_len(3, "bytes that come");
  {
    World w;
    sym_assert(w.init(), "a receiver can be set up");
    sym_alloc_limit(1 << 24);
    w.add(prefix(L) + std::string(T, 'x'));
    w.add(prefix(1) + "y");
    w.subsets = false;
    w.run();
    sym_assert(w.got.size() == 1 && w.got[0] == "y", "a frame that never comes whole does not end the service");
    sym_cover("end");
  }
  net::finish("every descriptor is closed");
}
// several connections at once, ready in any order; one of them may break
SYM_ENTRY i02_several() {
  size_t n = sym_cfg("peers", 2);
  {
    World w;
    sym_assert(w.init(), "a receiver can be set up");
    std::vector<std::string> body;
    for (size_t i = 0; i < n; i++) {
      body.push_back(std::string(1, (char)sym_u8("byte")) + (char)('a' + i));
      bool whole = sym_choice(2, "whole");
      w.add(prefix(2) + (whole ? body[i] : body[i].substr(0, 1)));
    }
    net::fragment = false;
    net::faults = sym_cfg("faults", 1);
    w.run();
    sym_assert(net::pending->empty() || (*net::pending)[0] < 0, "later connections are still served");
    size_t expected = 0;
    for (size_t i = 0; i < n; i++) {
      auto &p = (*net::peers)[i];
      size_t times = 0;
      for (auto &g : w.got) times += g.size() == 2 && g[1] == body[i][1] && g[0] == body[i][0];
      bool whole = p.bytes.size() == 6 && !p.failed;
      sym_assert(times == whole, "each connection's frame is delivered exactly once, if it came whole");
      expected += whole;
    }
    sym_assert(w.got.size() == expected, "nothing else is delivered");
    sym_cover("end");
  }
  net::fragment = true;
  net::finish("every descriptor is closed");
}
// more connections than the receiver has room for: the others wait
SYM_ENTRY i02_many() {
  int n = 28 + (int)sym_choice(6, "connections");
  {
    World w;
    sym_assert(w.init(), "a receiver can be set up");
    w.limit = 200;
    w.subsets = false;
    for (int i = 0; i < n; i++) w.add(prefix(1) + (char)('A' + i));
    net::fragment = false;
    bool holding = true;                       // at first all connect and nobody sends
    *net::selector = [&](fd_set *s, int nfds) {
      int listener = -1, accepted = 0;
      for (auto &f : *net::fds) {
        if (f.open && f.kind == net::Listener) listener = f.fd;
        if (f.open && f.kind == net::Accepted) accepted++;
      }
      if (holding && FD_ISSET(listener, s) && !net::pending->empty()) {
        for (auto &p : *net::peers) p.silent = true;
        sym_assert(++w.waits < w.limit, "the receiver never spins");
        FD_ZERO(s);
        FD_SET(listener, s);
        return 1;
      }
      holding = false;
      return w.select(s, nfds);
    };
    w.run();
    sym_assert((int)w.got.size() == n, "everybody who connected is served, however many there are");
    std::vector<bool> seen(n);
    for (auto &g : w.got) {
      sym_assert(g.size() == 1 && g[0] >= 'A' && g[0] < 'A' + n && !seen[g[0] - 'A'], "each frame is delivered once");
      seen[g[0] - 'A'] = true;
    }
    sym_cover(n > 30 ? "more than fit" : "all fit");
  }
  net::fragment = true;
  net::finish("every descriptor is closed");
}
// a frame much larger than one read
SYM_ENTRY i02_large() {
  static const uint32_t sizes[] = {65535, 65536, 65537, 131072, 140001};
  uint32_t L = sizes[sym_choice(sym_cfg("sizes", 3), "announced")];
  std::string body(L, 'm');
  for (uint32_t i : {0u, 1u, L / 2, 65534u, L - 2, L - 1}) body[i] = (char)sym_u8("byte");
  bool cut = sym_choice(2, "one byte missing");
  {
    World w;
    sym_assert(w.init(), "a receiver can be set up");
    w.add(prefix(L) + body.substr(0, L - cut));
    net::fragment = false;
    net::faults = 0;
    size_t stops = 0;
    w.run();
    (void)stops;
    sym_assert(w.got.size() == (cut ? 0u : 1u), "a large frame is delivered once, if it came whole");
    if (!cut) {
      sym_assert(w.got[0].size() == L, "a large frame keeps its length");
      bool ok = true;
      for (uint32_t i = 0; i < L; i++) ok = ok & (w.got[0][i] == body[i]);
      sym_assert(ok, "a large frame is delivered exactly as it was sent");
      sym_cover("end");
    }
  }
  net::fragment = true;
  net::finish("every descriptor is closed");
}
// stopping ends the receiver whenever it comes
SYM_ENTRY i02_stop() {
  rt_set_preempt((int)sym_cfg("preempt", 2));
  {
    World w;
    std::mutex m;
    std::condition_variable cv;
    bool wake = false;
    sym_assert(w.init(), "a receiver can be set up");
    *net::onConnect = [&] {
      std::lock_guard l(m);
      net::pending->push_back(-1);
      wake = true;
      cv.notify_all();
    };
    *net::selector = [&](fd_set *s, int) {
      std::unique_lock l(m);
      cv.wait_for(l, std::chrono::seconds(1), [&] { return wake; });
      wake = false;
      FD_ZERO(s);
      return 0;
    };
    bool result = false;
    std::thread t([&] { result = w.r.start(); });
    w.r.stop();
    if (sym_choice(2, "twice")) w.r.stop();
    t.join();
    sym_assert(!w.r.running(), "a stopped receiver does not run");
    sym_assert(!w.r.start(), "a stopped receiver does not start again by itself");
    sym_cover(result ? "was running" : "had not started");
    if (sym_choice(2, "set up anew")) {
      sym_assert(w.init(), "a receiver can be set up again");
      sym_assert(!w.r.running(), "a receiver that was not started does not run");
    }
  }
  net::finish("every descriptor is closed");
}
