// G03: observables notify exactly when their value changes.
#include "rt/sym.h"
#include <functional>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
#include "maf/utils/DirectExecutor.h"
#include "maf/utils/Observable.h"
using namespace maf::signal_slots;
template <class T> T any(const char *n);
template <> uint32_t any<uint32_t>(const char *n) { return sym_u32(n); }
template <> int8_t any<int8_t>(const char *n) { return (int8_t)sym_u8(n); }
template <> std::string any<std::string>(const char *n) { char b[2]; sym_bytes(b, 2, n); return std::string(b, sym_len(2, "len")); }
struct Pt { uint16_t x = 0, y = 0; bool operator==(const Pt &o) const { return x == o.x && y == o.y; } bool operator!=(const Pt &o) const { return !(*this == o); } };
template <> Pt any<Pt>(const char *n) { Pt p; p.x = sym_u16(n); p.y = sym_u16(n); return p; }
// one observable of one value
template <class O, class T> struct Single {
  O o;
  T ref{};
  int expected = 0, got = 0, got2 = 0;
  T seen{};
  template <class... A> Single(A &&...a) : o(std::forward<A>(a)...) {}
  void changed(const T &v) { if (v != ref) expected++; ref = v; }
  void check() {
    sym_assert(got == expected, "observers are notified exactly when the value changes");
    sym_assert(o.get() == ref, "the value is the one last assigned");
    if (got) sym_assert(!(seen != ref), "observers are given the new value");
  }
  void run(bool multi) {
    int how = (int)sym_choice(2, "connect");
    auto slot = [&](const T &v) { got++; seen = v; sym_assert(o.get() == v, "the new value can be read inside the notification"); sym_assert(*o.immutable() == v, "the new value can be read inside the notification"); };
    Connection c = how ? o.connect(slot) : o.silentlyConnect(slot);
    expected = how;
    sym_assert(got == expected, "a new observer is told the current value unless connected silently");
    seen = ref;
    int ops = (int)sym_cfg("ops", 2);
    for (int k = 0; k < ops; k++) {
      T v = any<T>("v");
      switch (sym_choice(7, "op")) {
        case 0: o = v; changed(v); break;
        case 1: o.set(v); changed(v); break;
        case 2: *o.silentMutable() = v; ref = v; seen = v; break;
        case 3: { auto h = o.mutable_(); *h = v; sym_assert(got == expected, "nothing is told before the handle is released"); T w = any<T>("w"); if (sym_choice(2, "twice")) { *h = w; v = w; } sym_assert(*h == v, "an edited value is stored"); changed(v); break; }
        case 4: { const O &co = o; sym_assert(*co.immutable() == ref && co.get() == ref, "reading gives the value and tells nobody"); break; }
        case 5:
          if (multi) {
            int n = 0;
            Connection d = o.connect([&](const T &x) { n++; sym_assert(x == ref, "a new observer is given the current value"); });
            sym_assert(n == 1, "a new observer is told the current value once");
            o = ref;
            sym_assert(n == 1, "assigning an equal value tells nobody");
            d.disconnect();
          }
          break;
        case 6: { auto h = o.mutable_(); T old = *h; *h = v; *h = old; break; }
      }
      if (sym_cfg("each", 1)) check();
    }
    check();
    c.disconnect();
    T v = any<T>("v");
    o = v;
    ref = v;
    sym_assert(got == expected && o.get() == v, "a disconnected observer is not told");
    sym_cover("end");
  }
};
SYM_ENTRY g03_plain() { Single<ObservableST<uint32_t>, uint32_t> s; s.run(true); }
SYM_ENTRY g03_threadsafe() { Single<Observable<Pt>, Pt> s; s.run(true); }
SYM_ENTRY g03_string() { Single<ObservableST<std::string>, std::string> s; s.run(true); }
SYM_ENTRY g03_single() { Single<SCObservableST<uint32_t>, uint32_t> s; s.run(false); }
SYM_ENTRY g03_single_threadsafe() { Single<SCObservable<Pt>, Pt> s; s.run(false); }
SYM_ENTRY g03_shared_mutex() {
  std::recursive_mutex m;
  Single<SharedMutexObservable<uint32_t>, uint32_t> s{maf::threading::mutexRef(m)};
  s.run(true);
}
SYM_ENTRY g03_single_shared_mutex() {
  std::recursive_mutex m;
  Single<SharedMutexSCObservable<uint32_t>, uint32_t> s{maf::threading::mutexRef(m)};
  s.run(false);
  Connection a = s.o.connect([](const uint32_t &) {}), b = s.o.connect([](const uint32_t &) {});
  sym_assert(a.connected() && !b.connected(), "a single-observer observable accepts one observer");
}
// arithmetic on the observable itself and on its handle
SYM_ENTRY g03_arithmetic() {
  Observable<uint32_t> o;
  uint32_t a = sym_u32("a"), b = sym_u32("b");
  o = a;
  int got = 0;
  uint32_t seen = 0;
  auto c = o.silentlyConnect([&](const uint32_t &v) { got++; seen = v; });
  uint32_t want = a, ret = 0, wantRet = 0;
  bool h = sym_choice(2, "handle");
  sym_assume(b != 0);
  unsigned sh = b & 31;
#define OP(EXPR, W) do { if (h) { auto m = o.mutable_(); auto &x = m; ret = EXPR; } else { auto &x = o; ret = EXPR; } want = W; wantRet = W; } while (0)
  switch (sym_choice(12, "op")) {
    case 0: OP(x += b, a + b); break;
    case 1: OP(x -= b, a - b); break;
    case 2: OP(x *= b, a * b); break;
    case 3: OP(x /= b, a / b); break;
    case 4: OP(x %= b, a % b); break;
    case 5: OP(x |= b, a | b); break;
    case 6: OP(x &= b, a & b); break;
    case 7: OP(x ^= b, a ^ b); break;
    case 8: OP(x <<= sh, a << sh); break;
    case 9: OP(x >>= sh, a >> sh); break;
    case 10: OP(++x, a + 1); break;
    case 11: OP(x++, a + 1); wantRet = a; break;
  }
  sym_assert(o.get() == want, "the edited value is stored");
  sym_assert(ret == wantRet, "the operator gives the usual result");
  sym_assert(got == (want != a ? 1 : 0), "observers are notified exactly when the value changes");
  if (got) sym_assert(seen == want, "observers are given the new value");
  sym_cover("end");
}
// several values in one observable
template <class O> static void compound() {
  O o;
  uint32_t r0 = 0;
  Pt r1;
  int got = 0, expected = 0;
  auto c = o.silentlyConnect([&](const uint32_t &a, const Pt &b) { got++; sym_assert(a == r0 && b == r1, "observers are given the new values"); sym_assert(std::get<0>(o.get()) == a && o.template get<1>() == b, "the new values can be read inside the notification"); });
  int ops = (int)sym_cfg("ops", 2);
  for (int k = 0; k < ops; k++) {
    uint32_t a = sym_u32("a");
    Pt b = any<Pt>("b");
    int op = (int)sym_choice(11, "op");
    if (op == 1 || op == 5) b = r1;
    if (op == 2) a = r0;
    bool tell = op != 3 && op != 6 && op != 9 && (a != r0 || b != r1);
    if (tell) expected++;
    r0 = a;
    r1 = b;
    switch (op) {
      case 0: o.set(a, b); break;
      case 1: o.template set<0>(a); break;
      case 2: o.template set<1>(b); break;
      case 3: o.silentSet(a, b); break;
      case 4: { auto h = o.mutable_(); h.template get<0>() = a; h.template get<1>() = b; break; }
      case 5: { auto h = o.template mutable_<0>(); *h = a; break; }
      case 6: o.template silentSet<0>(a); o.template silentSet<1>(b); break;
      case 7: o.template set<0, 1>(a, b); break;
      case 8: o.template set<1, 0>(b, a); break;
      case 9: o.template silentSet<0, 1>(a, b); break;
      case 10: o = std::make_tuple(a, b); break;
    }
    sym_assert(got == expected, "observers are notified exactly when a value changes");
    sym_assert(o.get() == std::make_tuple(r0, r1) && o.template get<0>() == r0 && o.template get<1>() == r1, "the values are the ones last assigned");
  }
  sym_cover("end");
}
SYM_ENTRY g03_values() { compound<ObservableST<uint32_t, Pt>>(); }
SYM_ENTRY g03_values_threadsafe() { compound<Observable<uint32_t, Pt>>(); }
// observers that join while others watch
SYM_ENTRY g03_silent() {
  ObservableST<uint32_t> o;
  uint32_t v = sym_u32("v"), w = sym_u32("w");
  o = v;
  int others = (int)sym_len(3, "others"), got = 0, told = 0;
  std::vector<Connection> c;
  for (int i = 0; i < others; i++) c.push_back(o.silentlyConnect([&](uint32_t) { got++; }));
  sym_assert(got == 0, "a silent observer is not told the value there is");
  auto a = o.connect([&](uint32_t x) { told++; sym_assert(x == o.get(), "an observer is told the value there is"); });
  sym_assert(told == 1 && got == 0, "a new observer is told the value there is, and nobody else is");
  auto b = o.silentlyConnect([&](uint32_t) { got++; });
  sym_assert(told == 1 && got == 0, "a silent observer is not told the value there is");
  o = w;
  int n = v != w;
  sym_assert(told == 1 + n && got == n * (others + 1), "observers are notified exactly when a value changes");
  sym_cover("end");
}
// three values, any of them changed at once
SYM_ENTRY g03_triple() {
  Observable<uint32_t, uint32_t, uint32_t> o;
  uint32_t r[3] = {0, 0, 0};
  int got = 0, expected = 0;
  auto c = o.silentlyConnect([&](uint32_t a, uint32_t b, uint32_t d) { got++; sym_assert(a == r[0] && b == r[1] && d == r[2], "observers are given the new values"); });
  for (int k = 0; k < (int)sym_cfg("ops", 2); k++) {
    uint32_t n[3] = {sym_u32("a"), sym_u32("b"), sym_u32("c")};
    int how = sym_choice(5, "how");
    if (how == 1) n[0] = r[0], n[1] = r[1];
    if (how == 2) n[2] = r[2];
    if (how == 3) n[1] = r[1];
    if (how == 4) n[0] = r[0];
    if (n[0] != r[0] || n[1] != r[1] || n[2] != r[2]) expected++;
    for (int i = 0; i < 3; i++) r[i] = n[i];
    switch (how) {
      case 0: o.set(n[0], n[1], n[2]); break;
      case 1: o.set<2>(n[2]); break;
      case 2: o.set<0, 1>(n[0], n[1]); break;
      case 3: o.set<2, 0>(n[2], n[0]); break;
      case 4: o.set<1, 2>(n[1], n[2]); break;
    }
    sym_assert(got == expected, "observers are notified exactly when a value changes");
    sym_assert(o.get<0>() == r[0] && o.get<1>() == r[1] && o.get<2>() == r[2], "the values are the ones last assigned");
  }
  sym_cover("end");
}
// an observable joined from others follows them
template <class A, class B, class J> static void joined(A &a, B &b, J j, bool aliveParts) {
  uint32_t ra = a.get();
  Pt rb = b.get();
  int got = 0, expected = 0;
  auto c = j.silentlyConnect([&](const uint32_t &x, const Pt &y) { got++; sym_assert(x == ra && y == rb, "observers are given the new values"); });
  sym_assert(j.template get<0>() == ra && j.template get<1>() == rb, "a joined observable starts with the values of its parts");
  for (int k = 0; k < (int)sym_cfg("ops", 2); k++) {
    if (sym_choice(2, "which")) { uint32_t x = sym_u32("x"); if (x != ra) expected++; ra = x; a = x; }
    else { Pt y = any<Pt>("y"); if (y != rb) expected++; rb = y; b = y; }
    sym_assert(got == expected, "observers of the joined value are notified exactly when a part changes");
    sym_assert(j.template get<0>() == ra && j.template get<1>() == rb, "a joined observable follows its parts");
  }
}
SYM_ENTRY g03_join() {
  st::Observable<uint32_t> a;
  st::Observable<Pt> b;
  a = sym_u32("a0");
  b = any<Pt>("b0");
  if (sym_choice(2, "executor")) joined(a, b, st::join(maf::util::directExecutor(), a, b), true);
  else joined(a, b, st::join(a, b), true);
  sym_assert(a.connectionCount() == 0 && b.connectionCount() == 0, "a joined observable leaves its parts when it goes");
  a = 1;
  sym_cover("end");
}
SYM_ENTRY g03_join_threadsafe() {
  mt::Observable<uint32_t> a;
  mt::Observable<Pt> b;
  a = sym_u32("a0");
  b = any<Pt>("b0");
  joined(a, b, mt::join(a, b), true);
  sym_assert(a.connectionCount() == 0 && b.connectionCount() == 0, "a joined observable leaves its parts when it goes");
  a = 1;
  sym_cover("end");
}
// assignments from several threads
SYM_ENTRY g03_threads() {
  rt_set_preempt((int)sym_cfg("preempt", 2));
  Observable<uint32_t> o;
  uint32_t v = sym_u32("v"), w = sym_u32("w"), add = sym_u32("add");
  bool arith = sym_choice(2, "arithmetic");
  std::vector<uint32_t> log;
  bool busy = false;
  auto c = o.silentlyConnect([&](const uint32_t &x) { sym_assert(!busy, "notifications do not overlap"); busy = true; rt_yield("slot"); busy = false; log.push_back(x); });
  std::thread t1([&] { if (arith) o += add; else o = v; });
  std::thread t2([&] { o = w; });
  o += add;
  t1.join();
  t2.join();
  uint32_t last = 0;
  for (uint32_t x : log) { sym_assert(x != last, "observers are notified only when the value changes"); last = x; }
  sym_assert(o.get() == last, "the last notification carried the final value");
  sym_assert(log.size() <= 3, "observers are notified at most once per assignment");
  if (arith) sym_assert(last == w || last == w + add || last == w + add + add, "no edit is lost");
  sym_cover("end");
}
// initial values
SYM_ENTRY g03_init() {
  uint32_t a = sym_u32("a");
  Pt b = any<Pt>("b");
  int got = 0;
  Observable<uint32_t> o(uint32_t{a});
  ObservableST<Pt> p(Pt{b});
  ObservableST<uint32_t, Pt> q(uint32_t{a}, Pt{b});
  sym_assert(o.get() == a && p.get() == b && q.get<0>() == a && q.get<1>() == b, "an observable starts with the value it was given");
  auto c = o.silentlyConnect([&](const uint32_t &) { got++; });
  auto d = p.silentlyConnect([&](const Pt &) { got++; });
  auto e = q.silentlyConnect([&](const uint32_t &, const Pt &) { got++; });
  o = a;
  p = b;
  q.set(a, b);
  sym_assert(got == 0, "assigning the initial value again tells nobody");
  sym_cover("end");
}
