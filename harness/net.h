// A model of local stream sockets behind the system calls: everything the network may do is a choice.
// The definitions replace libc's, in the symbolic run and in the native replay alike.
#pragma once
#include "rt/sym.h"
#include <cerrno>
#include <condition_variable>
#include <cstring>
#include <deque>
#include <functional>
#include <mutex>
#include <string>
#include <vector>
#include <fcntl.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/uio.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>
namespace net {
struct Peer {                     // somebody who connects to the listener and sends these bytes, then closes
  std::string bytes;
  size_t at = 0;
  bool failed = false;            // the connection broke while it was read
  bool silent = false;            // connects, but sends nothing until released
  size_t whole() const { return bytes.size(); }
};
enum Kind { Plain, Listener, Accepted, Connected };
struct Fd {
  int fd;
  bool open = true;
  Kind kind = Plain;
  int peer = -1;                  // Accepted: which peer
  std::string sent;               // Connected: what was written to it
  bool bound = false, gone = false;
};
static bool on = false;
static std::vector<Fd> *fds;
static std::vector<Peer> *peers;
static std::deque<int> *pending;  // peers waiting to be accepted (-1: nobody in particular)
static int firstFd = 500;
static int faults = 0;            // how many calls may still fail
static int delivered = 0;
static bool fragment = true;      // reads and writes may be partial
static int pieces = 1 << 30;      // how many of them
static std::string *path;         // the address connected or bound to last
static std::function<bool(const sockaddr_un &)> *reachable;
static std::function<int(fd_set *, int)> *selector;
static std::function<void()> *onConnect;
static bool fault(const char *what) {
  if (faults <= 0) return false;
  if (!sym_bool(what)) return false;
  faults--;
  return true;
}
// any number in the range; large ranges only by their ends, the middle and a few more
static size_t some(size_t lo, size_t hi, const char *name) {
  uint64_t v = sym_u64(name);
  sym_assume((v >= lo) & (v <= hi));
  if (hi - lo > 16) sym_assume((v <= lo + 1) | (v >= hi - 1) | (v == lo + (hi - lo) / 2));
  return sym_concretize(v);
}
static Fd *find(int fd) {
  for (auto &f : *fds) if (f.open && f.fd == fd) return &f;
  return nullptr;
}
static int openFds() { int n = 0; for (auto &f : *fds) n += f.open; return n; }
static int allocate(Kind k) {     // the lowest free number, as the system does
  int n = firstFd;
  while (find(n)) n++;
  Fd f;
  f.fd = n;
  f.kind = k;
  fds->push_back(f);
  return n;
}
static void start(int first = 500) {
  fds = new std::vector<Fd>;
  peers = new std::vector<Peer>;
  pending = new std::deque<int>;
  path = new std::string;
  reachable = new std::function<bool(const sockaddr_un &)>;
  selector = new std::function<int(fd_set *, int)>;
  onConnect = new std::function<void()>;
  fds->reserve(64);
  firstFd = first;
  on = true;
}
static void finish(const char *msg) {
  sym_assert(openFds() == 0, msg);
  on = false;
  delete fds; delete peers; delete pending; delete path; delete reachable; delete selector; delete onConnect;
}
static void checkAddress(const sockaddr *a, socklen_t len) {
  sym_assert(a && len == sizeof(sockaddr_un) && a->sa_family == AF_UNIX, "a local address is passed whole");
  auto u = reinterpret_cast<const sockaddr_un *>(a);
  sym_assert(u->sun_path[0] == 0, "addresses are abstract, no file is touched");
  size_t n = 0;
  for (size_t i = 1; i < sizeof(u->sun_path); i++) if (u->sun_path[i]) n = i;
  path->assign(u->sun_path + 1, n);
}
static int broke(int e) { errno = e; return -1; }
}
extern "C" {
int socket(int domain, int type, int) {
  if (!net::on) return net::broke(EACCES);
  sym_assert(domain == AF_UNIX && (type & 0xf) == SOCK_STREAM, "local stream sockets are used");
  if (net::fault("socket fails")) return net::broke(EMFILE);
  return net::allocate(net::Plain);
}
int setsockopt(int fd, int, int, const void *, socklen_t) {
  if (!net::on) return net::broke(EBADF);
  sym_assert(net::find(fd), "an option is set on an open descriptor");
  if (net::fault("setsockopt fails")) return net::broke(ENOMEM);
  return 0;
}
int bind(int fd, const sockaddr *a, socklen_t len) {
  if (!net::on) return net::broke(EBADF);
  auto f = net::find(fd);
  sym_assert(f, "an open descriptor is bound");
  net::checkAddress(a, len);
  if (net::fault("bind fails")) return net::broke(EADDRINUSE);
  f->bound = true;
  return 0;
}
int listen(int fd, int) {
  if (!net::on) return net::broke(EBADF);
  auto f = net::find(fd);
  sym_assert(f && f->bound, "a bound descriptor listens");
  if (net::fault("listen fails")) return net::broke(EADDRINUSE);
  f->kind = net::Listener;
  return 0;
}
int accept(int fd, sockaddr *, socklen_t *) {
  if (!net::on) return net::broke(EBADF);
  auto f = net::find(fd);
  sym_assert(f && f->kind == net::Listener, "connections are accepted from the listening descriptor");
  sym_assert(!net::pending->empty(), "nobody waits to be accepted: the receiver would hang");
  if (net::fault("accept fails")) return net::broke(EMFILE);     // the connection stays in line
  int p = net::pending->front();
  net::pending->pop_front();
  int n = net::allocate(net::Accepted);
  net::find(n)->peer = p;
  return n;
}
int connect(int fd, const sockaddr *a, socklen_t len) {
  if (!net::on) return net::broke(EBADF);
  auto f = net::find(fd);
  sym_assert(f && f->kind == net::Plain && !f->bound, "a fresh descriptor is connected");
  net::checkAddress(a, len);
  if (*net::reachable && !(*net::reachable)(*reinterpret_cast<const sockaddr_un *>(a))) return net::broke(ECONNREFUSED);
  f->kind = net::Connected;
  if (*net::onConnect) (*net::onConnect)();
  return 0;
}
int select(int nfds, fd_set *r, fd_set *w, fd_set *e, timeval *t) {
  if (!net::on) return net::broke(EBADF);
  sym_assert(nfds >= 0 && nfds <= FD_SETSIZE, "select is given no more descriptors than fit");
  sym_assert(!w && !e, "only reading is waited for");
  sym_assert(t && t->tv_sec >= 0 && t->tv_sec < 60, "waiting is bounded");
  for (int i = 0; i < nfds; i++)
    if (FD_ISSET(i, r)) {
      auto f = net::find(i);
      sym_assert(f && (f->kind == net::Listener || f->kind == net::Accepted), "only descriptors of the receiver are waited for");
    }
  for (int i = nfds; i < FD_SETSIZE; i++) sym_assert(!FD_ISSET(i, r), "every descriptor in the set is waited for");
  return (*net::selector)(r, nfds);
}
ssize_t read(int fd, void *buf, size_t n) {
  if (!net::on) return net::broke(EBADF);
  auto f = net::find(fd);
  sym_assert(f && f->kind == net::Accepted, "an accepted descriptor is read");
  if (f->peer < 0) return 0;
  auto &p = (*net::peers)[f->peer];
  sym_assert(!p.silent, "the receiver reads from a connection that has nothing to read: it would hang");
  sym_assert(n > 0, "a read of nothing tells nothing");
  if (net::fault("read fails")) { p.failed = true; return net::broke(ECONNRESET); }
  size_t left = p.bytes.size() - p.at;
  if (left == 0) return 0;
  size_t most = left < n ? left : n;
  if (net::fragment && net::pieces-- > 0) most = net::some(1, most, "bytes read");
  memcpy(buf, p.bytes.data() + p.at, most);
  p.at += most;
  return most;
}
ssize_t recv(int fd, void *buf, size_t n, int) { return read(fd, buf, n); }
static ssize_t net_write(int fd, const void *buf, size_t n, bool signals) {
  auto f = net::find(fd);
  sym_assert(f && f->kind == net::Connected, "a connected descriptor is written");
  if (f->gone || (net::faults > 0 && net::fault("the receiver goes away"))) {
    f->gone = true;
    sym_assert(!signals, "writing to a receiver that went away ends the process");
    return net::broke(EPIPE);
  }
  if (net::fault("write fails")) return net::broke(EIO);
  if (n == 0) return 0;
  size_t most = n;
  if (net::fragment && net::pieces-- > 0) most = net::some(1, most, "bytes written");
  f->sent.append(static_cast<const char *>(buf), most);
  return most;
}
ssize_t write(int fd, const void *buf, size_t n) {
  if (!net::on) return net::broke(EBADF);
  return net_write(fd, buf, n, true);
}
ssize_t send(int fd, const void *buf, size_t n, int flags) {
  if (!net::on) return net::broke(EBADF);
  return net_write(fd, buf, n, !(flags & MSG_NOSIGNAL));
}
#include "netalt.h"
int shutdown(int fd, int) { sym_assert(net::find(fd), "an open descriptor is shut down"); return 0; }
static std::string *lastSent;
int close(int fd) {
  if (!net::on) return net::broke(EBADF);
  auto f = net::find(fd);
  sym_assert(f, "a descriptor that is not open here is closed");
  if (f->kind == net::Connected && lastSent) *lastSent = f->sent;
  f->open = false;
  if (net::fault("close fails")) return net::broke(EIO);
  return 0;
}
}
