// G02: connections end safely: handles, scoped handles, tracked owners.
#include "rt/sym.h"
#include <functional>
#include <memory>
#include <mutex>
#include <optional>
#include <string>
#include <thread>
#include <vector>
#include "maf/utils/DirectExecutor.h"
#include "maf/utils/SignalSlots.h"
using namespace maf::signal_slots;
// What a slot owns lives inside it, so that a slot destroyed while it runs is caught reading itself.
struct Canary {
  uint32_t alive = 0x600dcafe;
  std::shared_ptr<int> own = std::make_shared<int>(42);
  ~Canary() { alive = 0; }
  void check() const { sym_assert(alive == 0x600dcafe && own && *own == 42, "a slot stays intact while it runs"); }
};
enum Kind { Plain, Scoped, TrackedSlot, TrackedMethod, Aware, AwareTracked, NKinds };
template <class Sig> struct World {
  std::unique_ptr<Sig> sig = std::make_unique<Sig>();
  struct Obj { World *w; int i; Canary c; void on(const uint32_t &v) { w->called(i, v); c.check(); } };
  struct Slot {
    int kind = 0;
    bool live = false;
    Connection c;
    std::optional<ScopedConnection> sc;
    std::shared_ptr<void> owner;
    std::shared_ptr<Obj> obj;
    int calls = 0;
  } s[3];
  int n = 0;
  bool emitting = false, thrown = false, acting = false, self = false;
  uint32_t val = 0;
  void connect(int kind) {
    int i = n++;
    auto &x = s[i];
    x.kind = kind;
    auto plain = [this, i, c = Canary{}](const uint32_t &v) { called(i, v); c.check(); };
    std::function<void(const uint32_t &)> fn = plain;
    switch (kind) {
      case Plain: x.c = sig->connect(plain); break;
      case Scoped: x.sc.emplace(sig->connect(plain)); break;
      case TrackedSlot: x.owner = std::make_shared<int>(i); x.c = sig->connect(x.owner, fn); break;
      case TrackedMethod: x.obj = std::make_shared<Obj>(Obj{this, i, {}}); x.c = sig->connect(x.obj, &Obj::on); break;
      case Aware:
        x.c = sig->connect([this, i, c = Canary{}](const ConnectionPtr &con, const uint32_t &v) {
          called(i, v);
          c.check();
          if (sym_bool("leave")) { if (s[i].live) { sym_assert(con->disconnect(), "a slot can end its own connection"); s[i].live = false; } c.check(); }
        });
        break;
      case AwareTracked: {
        x.owner = std::make_shared<int>(i);
        auto sp = std::make_shared<std::function<void(const uint32_t &)>>(fn);
        x.owner = sp;
        x.c = sig->connect(sp);   // tracked only through the connection when the slot pointer is of another type
        break;
      }
    }
    x.live = true;
  }
  // ends the connection of slot i in one of the ways its kind allows
  void end(int i) {
    auto &x = s[i];
    bool was = x.live;
    x.live = false;
    switch (x.kind) {
      case Plain: case Aware: case AwareTracked: sym_assert(x.c.disconnect() == (was && sig != nullptr), "disconnecting reports whether it ended a connection"); break;
      case Scoped: x.sc.reset(); break;
      case TrackedSlot: if (sym_choice(2, "owner")) x.owner.reset(); else x.c.disconnect(); break;
      case TrackedMethod: if (sym_choice(2, "owner")) x.obj.reset(); else x.c.disconnect(); break;
    }
  }
  void dead() {
    for (int i = 0; i < n; i++) {
      s[i].live = false;
      sym_assert(!s[i].c.connected(), "no connection outlives its signal");
    }
  }
  void called(int i, uint32_t v) {
    sym_assert(emitting && s[i].live, "a slot is not called after its connection ended");
    sym_assert(v == val, "a slot receives the emitted value");
    sym_assert(++s[i].calls == 1, "no slot is called twice in an emission");
    if (!acting) return;
    int t = (int)((v >> 3 * i) & 7);
    if (t == 1) end(i);
    else if (t == 2) end((i + 1) % n);
    else if (t == 3) { sig.reset(); dead(); }
    else if (t == 4) { sig->disconnect(); for (auto &x : s) x.live = false; }
    else if (t == 5) { thrown = true; throw 7; }
    else if (t == 6) for (int k = 0; k < n; k++) end(k);
  }
  void emit(bool act) {
    if (!sig) return;
    val = sym_u32("value");
    acting = act;
    bool had[3];
    for (int i = 0; i < 3; i++) { had[i] = s[i].live; s[i].calls = 0; }
    emitting = true;
    thrown = false;
    try { (*sig)(val); } catch (int x) { sym_assert(x == 7 && thrown, "the exception of a slot"); }
    emitting = false;
    for (int i = 0; i < n; i++) {
      if (!thrown && had[i] && s[i].live) sym_assert(s[i].calls == 1, "a connection that was not ended still works");
      if (sig && s[i].kind != Scoped && s[i].kind != TrackedSlot && s[i].kind != TrackedMethod) sym_assert(s[i].c.connected() == s[i].live, "exactly the ended connections are ended");
    }
  }
  void run() {
    int slots = (int)sym_cfg("slots", 2);
    for (int i = 0; i < slots; i++) connect((int)sym_choice(NKinds, "kind"));
    emit(true);
    switch (sym_choice(3, "then")) {
      case 0: break;
      case 1: end((int)sym_choice(n, "which")); break;
      case 2: sig.reset(); dead(); end((int)sym_choice(n, "which")); break;
    }
    emit(false);
    emit(false);
    if (sig) {
      int live = 0;
      for (int i = 0; i < n; i++) live += s[i].live;
      sym_assert(sig->connectionCount() == (size_t)live, "after an emission exactly the ended connections are gone");
    }
    if (sym_choice(2, "order")) { sig.reset(); dead(); }
    sym_cover("end");
  }
};
SYM_ENTRY g02_plain() { World<SignalST<uint32_t>> w; w.run(); }
SYM_ENTRY g02_threadsafe() { World<Signal<uint32_t>> w; w.run(); }
SYM_ENTRY g02_single() { World<SCSignalST<uint32_t>> w; w.run(); }
// handles: moved, assigned over, ended twice, used after the signal is gone
SYM_ENTRY g02_handles() {
  int a = 0, b = 0;
  auto sig = std::make_unique<Signal<uint32_t>>();
  Connection c1 = sig->connect([&](const uint32_t &) { a++; }), c2 = sig->connect([&](const uint32_t &) { b++; }), none;
  sym_assert(!none.connected() && !none.disconnect() && !none.reconnect(), "an empty handle does nothing");
  Connection m = std::move(c1);
  sym_assert(m.connected() && !c1.connected() && !c1.disconnect() && m.connected(), "a moved handle takes its connection along");
  if (sym_choice(2, "gone")) sig.reset();
  bool on = sig != nullptr;
  sym_assert(m.disconnect() == on && !m.disconnect() && !m.connected() && c2.connected() == on, "ending a connection ends that one only, once");
  if (on) { (*sig)(1); sym_assert(a == 0 && b == 1, "only ended connections are silent"); }
  if (sym_choice(2, "gone later")) sig.reset();
  bool on2 = sig != nullptr;
  sym_assert(m.reconnect() == on2, "a disconnected slot can be connected again while its signal exists");
  sym_assert(!m.reconnect(), "a live connection is not connected twice");
  if (on2) { (*sig)(1); sym_assert(a == 1 && b == 2, "a reconnected slot is called"); }
  {
    ScopedConnection s1(std::move(m)), s2;
    if (sym_choice(2, "move")) s2 = std::move(s1);
    if (on2) { (*sig)(1); sym_assert(a == 2 && b == 3, "a scoped connection lives as long as its handle"); }
  }
  if (on2) { (*sig)(1); sym_assert(a == 2 && b == 4, "a scoped connection ends with its handle"); }
  if (on2) {
    ScopedConnection s(sig->connect([&](const uint32_t &) { a += 10; }));
    s = ScopedConnection(std::move(c2));
    (*sig)(1);
    sym_assert(a == 2 && b == 5, "a scoped handle assigned over ends its former connection");
  }
  if (on2) {
    {
      ScopedConnectionGroup g;
      g << sig->connect([&](const uint32_t &) { a++; });
      g << sig->connect([&](const uint32_t &) { b++; });
      g.bind(*sig).with([&](const uint32_t &) { a += 20; });
      int a0 = a, b0 = b;
      (*sig)(1);
      sym_assert(a == a0 + 21 && b == b0 + 1, "connections of a group work");
      sym_assert(sig->connectionCount() == 3, "three of them");
      ScopedConnectionGroup h = std::move(g);
      sym_assert(sig->connectionCount() == 3, "a moved group keeps them");
    }
    sym_assert(sig->connectionCount() == 0, "a group ends its connections");
  }
  sym_cover("end");
}
// a slot that owns the handle of another connection of the same signal
SYM_ENTRY g02_owned_handle() {
  auto sig = std::make_unique<Signal<uint32_t>>();
  int a = 0, b = 0;
  bool before = sym_choice(2, "before");
  Connection own;
  auto connectB = [&] { return std::make_shared<ScopedConnection>(sig->connect([&b](const uint32_t &) { b++; })); };
  std::shared_ptr<ScopedConnection> hb;
  if (before) hb = connectB();
  auto box = std::make_shared<std::shared_ptr<ScopedConnection>>();
  own = sig->connect([&a, box](const uint32_t &) { a++; });
  if (!before) hb = connectB();
  *box = std::move(hb);
  box.reset();
  (*sig)(1);
  sym_assert(a == 1 && b == 1, "both slots are called");
  switch (sym_choice(3, "end")) {
    case 0: sig.reset(); break;
    case 1: sig->disconnect(); sym_assert(sig->connectionCount() == 0, "all connections ended"); (*sig)(1); break;
    case 2: own.disconnect(); own = Connection{}; (*sig)(1); sym_assert(sig->connectionCount() == 0, "the owned connection ended with its owner"); break;
  }
  sym_assert(a == 1 && b == 1, "no slot is called after its connection ended");
  sym_cover("end");
}
// the owner may go away in another thread while the signal is emitted
SYM_ENTRY g02_owner_thread() {
  rt_set_preempt((int)sym_cfg("preempt", 2));
  struct Obj { uint32_t alive = 0x600dcafe; int calls = 0; bool *gone; ~Obj() { alive = 0; *gone = true; } void on(const uint32_t &) { sym_assert(alive == 0x600dcafe, "the owner exists while its slot runs"); rt_yield("slot"); sym_assert(alive == 0x600dcafe, "the owner exists while its slot runs"); calls++; } };
  bool gone = false;
  Signal<uint32_t> sig;
  auto o = std::make_shared<Obj>();
  o->gone = &gone;
  std::function<void(const uint32_t &)> fn = [p = o.get()](const uint32_t &v) { p->on(v); };
  Connection c;
  if (sym_choice(2, "method")) c = sig.connect(o, &Obj::on); else c = sig.connect(std::shared_ptr<void>(o), fn);
  std::thread t([&] { sig(1); sig(2); });
  o.reset();
  t.join();
  sym_assert(gone, "the signal does not keep the owner alive");
  sig(3);
  sym_assert(sig.connectionCount() == 0 && !c.connected(), "the connection ended with its owner");
  sym_cover("end");
}
// a one-shot wait on a signal
SYM_ENTRY g02_waitable() {
  rt_set_preempt((int)sym_cfg("preempt", 1));
  Signal<uint32_t> sig;
  uint32_t v = sym_u32("value"), got = 0;
  int calls = 0;
  {
    auto w = waitableConnect(static_cast<details::BasicSignal<maf::threading::AtomicObject<details::MultiSlotKeeper<uint32_t>, std::recursive_mutex>, uint32_t> &>(sig), std::function<void(const uint32_t &)>([&](const uint32_t &x) { calls++; got = x; }));
    sym_assert(w.valid() && sig.connectionCount() == 1, "a wait is connected");
    int how = (int)sym_choice(3, "how");
    if (how == 0) {
      std::thread t([&] { sig(v); sig(v + 1); });
      sym_assert(w.wait(), "the wait ends with the emission");
      t.join();
      sym_assert(calls == 1 && got == v, "the wait delivers the first emitted value once");
      sym_assert(sig.connectionCount() == 0, "a wait is for one emission");
      sym_cover("emitted");
    } else if (how == 1) {
      sym_assert(!w.waitFor(std::chrono::milliseconds(5)) && calls == 0, "no emission, no callback");
      sym_cover("timeout");
    } else { w.cancel(); sig(v); sym_assert(calls == 0 && !w.waitFor(std::chrono::milliseconds(5)), "a cancelled wait is silent"); sym_cover("cancelled"); }
  }
  sym_assert(sig.connectionCount() == 0, "a wait that is given up is disconnected");
}
// every way of connecting, with and without an executor: ended by its handle, its owner or its signal, it is silent and lets its owner go
SYM_ENTRY g02_ways() {
  struct Obj { int *n; Canary c; void on(const uint32_t &v) { ++*n; c.check(); } };
  int n = 0, m = 0;
  auto sig = std::make_unique<Signal<uint32_t>>();
  Connection other = sig->connect([&m](const uint32_t &) { m++; });
  auto ex = sym_choice(2, "executor") ? maf::util::directExecutor() : nullptr;
  auto obj = std::make_shared<Obj>(Obj{&n, {}});
  std::shared_ptr<void> owner = obj;
  std::weak_ptr<Obj> ref = obj;
  std::function<void(const uint32_t &)> fn = [p = obj.get()](const uint32_t &v) { p->on(v); };
  auto sp = std::make_shared<std::function<void(const uint32_t &)>>(fn);
  std::function<void(ConnectionPtr, uint32_t)> aware = [p = obj.get()](const ConnectionPtr &c, const uint32_t &v) { sym_assert(c && c->connected(), "a slot is handed its own connection"); p->on(v); };
  Connection c;
  bool tracks = false;
  switch (sym_choice(6, "way")) {
    case 0: c = ex ? sig->connect(fn, ex) : sig->connect(fn); break;
    case 1: tracks = true; c = ex ? sig->connect(obj, &Obj::on, ex) : sig->connect(obj, &Obj::on); break;
    case 2: tracks = true; c = ex ? sig->connect(owner, fn, ex) : sig->connect(owner, fn); break;
    case 3: c = ex ? sig->connect(sp, ex) : sig->connect(sp); break;
    case 4: c = ex ? sig->connect(aware, ex) : sig->connect(aware); break;
    case 5: c = ex ? sig->connect(obj.get(), &Obj::on, ex) : sig->connect(obj.get(), &Obj::on); break;
  }
  uint32_t v = sym_u32("value");
  for (int k = (int)sym_choice(3, "before"); k--;) { (*sig)(v); sym_assert(n == m, "a connected slot is called"); }
  int before = n, how = (int)sym_choice(tracks ? 5 : 4, "end");
  switch (how) {
    case 0: sym_assert(c.disconnect(), "disconnecting reports whether it ended a connection"); break;
    case 1: { ScopedConnection s(std::move(c)); } break;
    case 2: sig->disconnect(); break;
    case 3: sig.reset(); break;
    case 4: break;
  }
  if (how == 4 || sym_choice(2, "owner goes")) {
    obj.reset();
    owner.reset();
    sym_assert(ref.expired(), "a connection does not keep the owner of its slot alive");
  }
  if (sig) {
    int m0 = m;
    (*sig)(v);
    sym_assert(m == m0 + (how != 2), "other connections are not touched");
    sym_assert(sig->connectionCount() == (how != 2 ? 1u : 0u), "exactly that connection ended");
  }
  sym_assert(n == before, "a slot is not called after its connection ended");
  sym_assert(!c.connected(), "an ended connection is not connected");
  sym_cover("end");
}
