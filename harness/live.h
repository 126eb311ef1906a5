// A model of local stream sockets that connects threads of one process: what is written at one end can be read at the
// other, in pieces of any size; calls block as the system's do.
#pragma once
#include "rt/sym.h"
#include <cerrno>
#include <condition_variable>
#include <cstring>
#include <deque>
#include <map>
#include <mutex>
#include <string>
#include <vector>
#include <fcntl.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <unistd.h>
namespace net {
struct Pipe {
  std::string bytes;
  size_t at = 0;
  bool writerGone = false, readerGone = false;
  bool readable() const { return at < bytes.size() || writerGone; }
};
enum Kind { Plain, Listener, Reader, Writer };
struct Fd {
  Kind kind = Plain;
  std::string path;
  bool bound = false, closed = false;
  std::deque<Pipe *> waiting;      // Listener: connected, not accepted
  Pipe *pipe = nullptr;
  size_t backlog = 0;
};
static bool on = false;
static std::map<int, Fd> *fds;
static std::mutex *lock;
static std::condition_variable *change;
static int pieces = 0;              // how many reads and writes may be partial
static int cuts = 0;                // how many connections may break while they are written
static int connects = 0;
static int broke(int e) { errno = e; return -1; }
static void start() {
  fds = new std::map<int, Fd>;
  lock = new std::mutex;
  change = new std::condition_variable;
  on = true;
}
static Fd *find(int fd) { auto i = fds->find(fd); return i == fds->end() ? nullptr : &i->second; }
static Fd *listener(const std::string &path) {
  for (auto &f : *fds) if (f.second.kind == Listener && f.second.path == path) return &f.second;
  return nullptr;
}
static int openFds() { return (int)fds->size(); }
static int allocate() {
  int n = 3;
  while (fds->count(n)) n++;
  (*fds)[n];
  return n;
}
static std::string name(const sockaddr *a, socklen_t len) {
  sym_assert(a && len == sizeof(sockaddr_un) && a->sa_family == AF_UNIX, "a local address is passed whole");
  auto u = reinterpret_cast<const sockaddr_un *>(a);
  return std::string(u->sun_path, sizeof(u->sun_path));
}
static size_t some(size_t most, const char *what) {
  if (most < 2 || pieces <= 0) return most;
  size_t n = 1 + sym_choice(most, what);
  if (n < most) pieces--;
  return n;
}
}
extern "C" {
int socket(int domain, int type, int) {
  if (!net::on) return net::broke(EACCES);
  std::lock_guard l(*net::lock);
  sym_assert(domain == AF_UNIX && (type & 0xf) == SOCK_STREAM, "local stream sockets are used");
  return net::allocate();
}
int setsockopt(int, int, int, const void *, socklen_t) { return 0; }
int bind(int fd, const sockaddr *a, socklen_t len) {
  std::lock_guard l(*net::lock);
  auto f = net::find(fd);
  sym_assert(f, "an open descriptor is bound");
  auto path = net::name(a, len);
  for (auto &o : *net::fds) if (o.second.bound && o.second.path == path) return net::broke(EADDRINUSE);
  f->bound = true;
  f->path = path;
  return 0;
}
int listen(int fd, int backlog) {
  std::lock_guard l(*net::lock);
  auto f = net::find(fd);
  sym_assert(f && f->bound, "a bound descriptor listens");
  f->kind = net::Listener;
  f->backlog = (size_t)(backlog < 0 ? 0 : backlog) + 1;
  return 0;
}
int accept(int fd, sockaddr *, socklen_t *) {
  std::unique_lock l(*net::lock);
  auto f = net::find(fd);
  sym_assert(f && f->kind == net::Listener, "connections are accepted from the listening descriptor");
  while (f->waiting.empty()) net::change->wait(l);
  auto p = f->waiting.front();
  f->waiting.pop_front();
  int n = net::allocate();
  auto g = net::find(n);
  g->kind = net::Reader;
  g->pipe = p;
  net::change->notify_all();
  return n;
}
int connect(int fd, const sockaddr *a, socklen_t len) {
  std::unique_lock l(*net::lock);
  auto f = net::find(fd);
  sym_assert(f && f->kind == net::Plain && !f->bound, "a fresh descriptor is connected");
  auto path = net::name(a, len);
  for (;;) {
    auto t = net::listener(path);
    if (!t) return net::broke(ECONNREFUSED);
    if (t->waiting.size() < t->backlog) {
      f->kind = net::Writer;
      f->pipe = new net::Pipe;
      t->waiting.push_back(f->pipe);
      net::connects++;
      net::change->notify_all();
      return 0;
    }
    net::change->wait(l);
  }
}
int select(int nfds, fd_set *r, fd_set *w, fd_set *e, timeval *t) {
  std::unique_lock l(*net::lock);
  sym_assert(nfds >= 0 && nfds <= FD_SETSIZE && !w && !e, "only reading is waited for");
  auto until = t ? std::chrono::steady_clock::now() + std::chrono::seconds(t->tv_sec) + std::chrono::microseconds(t->tv_usec) : std::chrono::steady_clock::time_point::max();
  for (;;) {
    fd_set ready;
    FD_ZERO(&ready);
    int n = 0;
    for (int i = 0; i < nfds; i++)
      if (FD_ISSET(i, r)) {
        auto f = net::find(i);
        if (!f) return net::broke(EBADF);
        if (f->kind == net::Listener ? !f->waiting.empty() : f->kind == net::Reader && f->pipe->readable()) { FD_SET(i, &ready); n++; }
      }
    if (n) { *r = ready; return n; }
    if (t && net::change->wait_until(l, until) == std::cv_status::timeout) { FD_ZERO(r); return 0; }
    if (!t) net::change->wait(l);
  }
}
ssize_t read(int fd, void *buf, size_t n) {
  std::unique_lock l(*net::lock);
  auto f = net::find(fd);
  sym_assert(f && f->kind == net::Reader, "an accepted descriptor is read");
  auto p = f->pipe;
  while (!p->readable()) net::change->wait(l);
  size_t left = p->bytes.size() - p->at;
  if (!left || !n) return 0;
  size_t k = net::some(left < n ? left : n, "bytes read");
  memcpy(buf, p->bytes.data() + p->at, k);
  p->at += k;
  return (ssize_t)k;
}
ssize_t recv(int fd, void *buf, size_t n, int) { return read(fd, buf, n); }
static ssize_t net_write(int fd, const void *buf, size_t n, bool signals) {
  std::lock_guard l(*net::lock);
  auto f = net::find(fd);
  sym_assert(f && f->kind == net::Writer, "a connected descriptor is written");
  auto p = f->pipe;
  if (p->readerGone) { sym_assert(!signals, "writing to a receiver that went away ends the process"); return net::broke(EPIPE); }
  if (net::cuts > 0 && sym_choice(2, "the connection breaks")) { net::cuts--; return net::broke(EIO); }
  size_t k = net::some(n, "bytes written");
  p->bytes.append(static_cast<const char *>(buf), k);
  net::change->notify_all();
  return (ssize_t)k;
}
ssize_t write(int fd, const void *buf, size_t n) { return net_write(fd, buf, n, true); }
ssize_t send(int fd, const void *buf, size_t n, int flags) { return net_write(fd, buf, n, !(flags & MSG_NOSIGNAL)); }
#include "netalt.h"
static void net_end(net::Pipe *p, bool writer) {
  (writer ? p->writerGone : p->readerGone) = true;
  if (p->writerGone && p->readerGone) delete p;
}
int shutdown(int fd, int) { sym_assert(net::find(fd), "an open descriptor is shut down"); return 0; }
int close(int fd) {
  std::lock_guard l(*net::lock);
  auto f = net::find(fd);
  sym_assert(f, "a descriptor that is not open here is closed");
  if (f->kind == net::Listener) for (auto p : f->waiting) net_end(p, false);
  else if (f->pipe) net_end(f->pipe, f->kind == net::Writer);
  net::fds->erase(fd);
  net::change->notify_all();
  return 0;
}
}
