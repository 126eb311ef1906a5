// other system calls to the same end as accept, read, write and select; they follow those of the model that includes this
int accept4(int fd, sockaddr *a, socklen_t *l, int) { return accept(fd, a, l); }
ssize_t recvfrom(int fd, void *buf, size_t n, int, sockaddr *, socklen_t *) { return read(fd, buf, n); }
ssize_t sendto(int fd, const void *buf, size_t n, int flags, const sockaddr *a, socklen_t) {
  if (!net::on) return net::broke(EBADF);
  if (a) return net::broke(EISCONN);
  return net_write(fd, buf, n, !(flags & MSG_NOSIGNAL));
}
static ssize_t net_writev(int fd, const iovec *v, int n, bool signals) {
  std::string all;
  for (int i = 0; i < n; i++) all.append(static_cast<const char *>(v[i].iov_base), v[i].iov_len);
  return net_write(fd, all.data(), all.size(), signals);
}
static ssize_t net_readv(int fd, const iovec *v, int n) {
  size_t all = 0;
  for (int i = 0; i < n; i++) all += v[i].iov_len;
  std::string b(all, 0);
  ssize_t got = read(fd, b.data(), all);
  size_t at = 0;
  for (int i = 0; i < n && got > 0 && at < (size_t)got; i++) {
    size_t k = v[i].iov_len < got - at ? v[i].iov_len : got - at;
    memcpy(v[i].iov_base, b.data() + at, k);
    at += k;
  }
  return got;
}
ssize_t writev(int fd, const iovec *v, int n) { return net::on ? net_writev(fd, v, n, true) : net::broke(EBADF); }
ssize_t readv(int fd, const iovec *v, int n) { return net_readv(fd, v, n); }
ssize_t sendmsg(int fd, const msghdr *m, int flags) { return net::on ? net_writev(fd, m->msg_iov, m->msg_iovlen, !(flags & MSG_NOSIGNAL)) : net::broke(EBADF); }
ssize_t recvmsg(int fd, msghdr *m, int) { return net_readv(fd, m->msg_iov, m->msg_iovlen); }
int poll(pollfd *p, nfds_t n, int ms) {
  fd_set r;
  FD_ZERO(&r);
  int top = -1;
  for (nfds_t i = 0; i < n; i++)
    if (p[i].fd >= 0) {
      sym_assert(p[i].fd < FD_SETSIZE && !(p[i].events & ~(POLLIN | POLLPRI | POLLRDHUP | POLLRDNORM)), "only reading is waited for");
      FD_SET(p[i].fd, &r);
      if (p[i].fd > top) top = p[i].fd;
    }
  sym_assert(ms >= 0 && ms < 60000, "waiting is bounded");
  timeval t{ms / 1000, ms % 1000 * 1000};
  int got = select(top + 1, &r, nullptr, nullptr, &t);
  for (nfds_t i = 0; i < n; i++) p[i].revents = got > 0 && p[i].fd >= 0 && FD_ISSET(p[i].fd, &r) ? POLLIN : 0;
  return got;
}
