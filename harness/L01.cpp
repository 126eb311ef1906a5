// L01: guarded objects are accessed by one thread at a time and never left locked.
#include "rt/sym.h"
#include <memory>
#include <stdexcept>
#include <thread>
#include <vector>
#include "maf/threading/AtomicObject.h"
#include "maf/threading/Lockable.h"
#include "maf/threading/Locker.h"
#include "maf/threading/MutexRef.h"
#include "maf/threading/ThreadJoiner.h"
using namespace maf::threading;
struct Pair {
  uint32_t a = 0, b = 0;
  void bump(uint32_t by) { uint32_t x = a; rt_yield("inside"); a = x + by; rt_yield("inside"); b = b + by; }
  void boom(uint32_t by) { a += by; rt_yield("inside"); b += by; throw std::runtime_error("x"); }
};
template <class Obj, class Bump, class Read, class Get> void scenario(Obj &o, Bump bump, Read read, Get get, bool thr) {
  rt_set_preempt((int)sym_cfg("preempt", 2));
  uint32_t x = sym_u32("x"), y = sym_u32("y"), z = sym_u32("z");
  int consistent = 0;
  std::thread t1([&] { bump(o, x, false); if (thr) { try { bump(o, y, true); } catch (const std::runtime_error &) {} } else bump(o, y, false); });
  std::thread t2([&] { if (read(o)) consistent++; });
  bump(o, z, false);
  t1.join();
  t2.join();
  sym_assert(consistent == 1, "a reader never sees a half-made change");
  sym_assert(get(o) == x + y + z, "no update is lost");
  bump(o, 1, false);                       // a leaked lock would block here
  sym_assert(get(o) == x + y + z + 1, "the object stays usable");
  sym_cover("end");
}
SYM_ENTRY l01_atomic_object() {
  AtomicObject<Pair> o;
  bool deref = sym_choice(2, "through a reference");
  scenario(o, [deref](auto &o, uint32_t v, bool t) { if (t) o->boom(v); else if (sym_cfg("variant", 0)) o.atomic()->bump(v); else if (deref) (*o.atomic()).bump(v); else o->bump(v); },
           [](auto &o) { auto r = o.atomic(); uint32_t a = r->a; rt_yield("r"); return a == r->b; }, [](auto &o) { return o->a; }, sym_choice(2, "throw"));
}
SYM_ENTRY l01_atomic_const() {
  AtomicObject<Pair> o;
  scenario(o, [](auto &o, uint32_t v, bool t) { auto r = *o; if (t) r->boom(v); else r->bump(v); },
           [](auto &o) { const auto &c = o; auto r = *c; uint32_t a = r->a; rt_yield("r"); return a == r->b; }, [](auto &o) { const auto &c = o; return c->a; }, sym_choice(2, "throw"));
}
SYM_ENTRY l01_atomic_assign() {
  rt_set_preempt(3);
  AtomicObject<Pair> o;
  uint32_t x = sym_u32("x"), y = sym_u32("y");
  std::thread t([&] { o = Pair{x, x}; });
  o = Pair{y, y};
  bool ok;
  { auto r = o.atomic(); uint32_t a = r->a; rt_yield("r"); ok = a == r->b; }
  t.join();
  sym_assert(ok, "assignment is atomic");
  { auto r = o.atomic(); sym_assert((r->a == x) | (r->a == y), "the last assignment stays"); }
  uint32_t z = sym_u32("z");
  *o.atomic() = Pair{z, z};
  auto now = *o.atomic();
  sym_assert(now.a == z && now.b == z, "the object can be replaced through a session");
  sym_cover("end");
}
SYM_ENTRY l01_atomic_pointer() {
  AtomicObject<std::shared_ptr<Pair>> o{std::make_shared<Pair>()};
  scenario(o, [](auto &o, uint32_t v, bool t) { if (t) o->boom(v); else o->bump(v); },
           [](auto &o) { auto r = o.atomic(); uint32_t a = r->a; rt_yield("r"); return a == (*r).b; }, [](auto &o) { return o->a; }, sym_choice(2, "throw"));
}
SYM_ENTRY l01_atomic_moved_session() {
  AtomicObject<Pair> o;
  rt_set_preempt(2);
  uint32_t x = sym_u32("x");
  std::thread t([&] { o->bump(x); });
  { auto r = o.atomic(); auto r2 = std::move(r); r2->bump(1); }   // moved session releases once
  t.join();
  auto f = o.atomic();
  sym_assert(f->a == x + 1 && f->b == x + 1, "no update is lost");
  sym_cover("end");
}
// a session taken over by another one: each guard is released once, neither stays held
SYM_ENTRY l01_atomic_session_assign() {
  AtomicObject<Pair> o, q;
  rt_set_preempt(2);
  uint32_t x = sym_u32("x"), y = sym_u32("y");
  bool back = sym_choice(2, "back");
  std::thread t([&] { o->bump(x); q->bump(y); });
  {
    auto r = o.atomic();
    (*r).bump(1);
    r = q.atomic();
    (*r).bump(2);
    if (back) { auto s = std::move(r); s->bump(4); r = std::move(s); r->bump(8); }
  }
  t.join();
  uint32_t more = back ? 14 : 2;
  auto oo = o.lockee(), qq = q.lockee();
  sym_assert(oo.a == x + 1 && oo.b == x + 1, "no update is lost");
  sym_assert(qq.a == y + more && qq.b == y + more, "no update is lost");
  o->bump(1);
  q->bump(1);
  sym_cover("end");
}
SYM_ENTRY l01_lockable() {
  Lockable<Pair> o;
  scenario(o, [](auto &o, uint32_t v, bool t) {
      if (t) o.atomic()->boom(v);
      else if (v & 0) {}
      else o.atomic()->bump(v); },
           [](auto &o) { const auto &c = o; auto r = c.atomic(); uint32_t a = r->a; rt_yield("r"); return a == (*r).b; }, [](auto &o) { return o.atomic()->a; }, sym_choice(2, "throw"));
}
SYM_ENTRY l01_lockable_guard() {
  Lockable<Pair> o;
  scenario(o, [](auto &o, uint32_t v, bool t) { std::lock_guard l(o); if (t) o->boom(v); else o->bump(v); },
           [](auto &o) { std::unique_lock l(o, std::try_to_lock); if (!l.owns_lock()) l.lock(); uint32_t a = o->a; rt_yield("r"); return a == (*o).b; }, [](auto &o) { return o->a; }, sym_choice(2, "throw"));
}
SYM_ENTRY l01_lockable_assign() {
  rt_set_preempt(3);
  Lockable<Pair> o;
  uint32_t x = sym_u32("x"), y = sym_u32("y");
  std::thread t([&] { o = Pair{x, x}; });
  o = Pair{y, y};
  bool ok;
  { auto r = o.atomic(); uint32_t a = r->a; rt_yield("r"); ok = a == r->b; }
  t.join();
  sym_assert(ok, "assignment is atomic");
  sym_cover("end");
}
struct WithLocker { Pair p; Locker<> lock; };
SYM_ENTRY l01_locker() {
  WithLocker o;
  scenario(o, [](auto &o, uint32_t v, bool t) { auto s = o.lock(o.p); if (t) s->boom(v); else (*s).bump(v); },
           [](auto &o) { std::unique_lock l(o.lock, std::try_to_lock); if (!l.owns_lock()) l.lock(); uint32_t a = o.p.a; rt_yield("r"); return a == o.p.b; }, [](auto &o) { return o.p.a; }, sym_choice(2, "throw"));
}
struct WithRef { Pair p; std::mutex m; };
SYM_ENTRY l01_mutexref() {
  WithRef o;
  scenario(o, [](auto &o, uint32_t v, bool t) { auto r = mutexRef(o.m); std::lock_guard l(r); if (t) o.p.boom(v); else o.p.bump(v); },
           [](auto &o) { Locker<MutexReference<std::mutex>> k{mutexRef(o.m)}; auto s = k(o.p); uint32_t a = s->a; rt_yield("r"); return a == s->b; }, [](auto &o) { return o.p.a; }, sym_choice(2, "throw"));
}
// a joiner waits for its threads on every way out
SYM_ENTRY l01_joiner() {
  rt_set_preempt(2);
  int done = 0;
  bool thr = sym_choice(2, "throw");
  try {
    std::vector<std::thread> v;
    ThreadJoiner<std::vector<std::thread>> j(v);
    for (int i = 0; i < 3; i++) v.emplace_back([&] { rt_yield("w"); done++; });
    if (sym_choice(2, "joined")) v[1].join();
    if (thr) throw 1;
  } catch (int) {}
  sym_assert(done == 3, "leaving the scope waits for every thread");
  {
    std::thread t([&] { rt_yield("w"); done++; });
    ThreadJoiner<std::thread> j(t);
  }
  sym_assert(done == 4, "leaving the scope waits for the thread");
  sym_cover("end");
}
