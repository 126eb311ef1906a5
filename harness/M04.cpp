// M04: waiting for an execution gives its outcome exactly.
#include "rt/sym.h"
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include "maf/messaging/ProcessorEx.h"
#include "maf/messaging/Routing.h"
using namespace maf::messaging;
using ms = std::chrono::milliseconds;
struct M { uint32_t v; };
struct Other { uint32_t v; };
struct Pair { uint32_t a; uint16_t b; bool operator==(const Pair &o) const { return a == o.a && b == o.b; } };
enum How { Typed, TypedString, TypedPair, Void, This, Post, RouteSend, SendAll, Blocking, Will, Hows };
// one blocking call; the value decides whether the execution throws
struct Call {
  ProcessorInstance p;
  std::thread::id at;      // where executions must run; not checked when it is unset
  int started = 0, done = 0;
  uint32_t v = 0;
  bool thrown = false;
  uint32_t body() {
    if (at != std::thread::id{}) sym_assert(std::this_thread::get_id() == at, "the execution runs on the processor's thread");
    sym_assert(this_processor::instance() == p, "the execution runs on its processor");
    started++;
    rt_yield("execution");
    uint32_t r = v;
    done++;
    if (r == 5) throw (int)r;
    if (r == 6) throw std::runtime_error("six");
    return r;
  }
  // returns whether the call could be made
  bool make(int how, bool own) {
    bool throws = v == 5 || v == 6;
    int got = 0;
    try {
      switch (how) {
        case Typed: { uint32_t r = p->waitableExecute([&] { return body(); }); sym_assert(r == v, "the value the execution returned"); break; }
        case TypedString: { auto r = p->waitableExecute([&] { uint32_t x = body(); return std::string(2, (char)x); }); sym_assert(r.size() == 2 && r[0] == (char)v && r[1] == (char)v, "the value the execution returned"); break; }
        case TypedPair: { auto r = p->waitableExecute([&] { uint32_t x = body(); return Pair{x, (uint16_t)(x + 1)}; }); sym_assert((r == Pair{v, (uint16_t)(v + 1)}), "the value the execution returned"); break; }
        case Void: { auto s = p->waitableExecute([&] { body(); }); sym_assert(s.valid(), "accepted"); if (own) sym_assert(done == 1, "from the processor's own thread it runs immediately"); s.get(); break; }
        case This: { if (!own) return false; auto s = this_processor::waitableExecute([&] { body(); }); sym_assert(done == 1, "from the processor's own thread it runs immediately"); s.get(); break; }
        case Post: { auto s = p->waitablePost<M>(M{v}); sym_assert(s.valid(), "accepted"); if (own) sym_assert(done == 1, "from the processor's own thread it runs immediately"); s.get(); break; }
        case RouteSend: { auto s = routing::send<M>(p->id(), M{v}); sym_assert(s.valid(), "accepted"); s.get(); break; }
        case SendAll: { auto s = routing::sendToAll<M>(M{v}); sym_assert(s.valid(), "accepted"); s.get(); break; }
        case Blocking: { bool ok = p->getBlockingExecutor()->execute([&] { body(); }); sym_assert(ok, "a blocking executor reports that the execution ran"); got = throws ? -1 : 0; break; }
        case Will: p->willBlockingExecuteOnThis([&] { body(); })(); got = throws ? -1 : 0; break;
      }
    } catch (int x) { got = 5; sym_assert(x == 5, "the exception the execution threw"); }
    catch (const std::runtime_error &e) { got = 6; sym_assert(std::string(e.what()) == "six", "the exception the execution threw"); }
    sym_assert(started == 1 && done == 1, "a blocking call returns after its execution ran, once");
    if (got != -1) sym_assert(throws ? v == (uint32_t)got : got == 0, "the exception the execution threw reaches the caller");
    return true;
  }
};
// from another thread, or from the processor's own
SYM_ENTRY m04_outcome() {
  rt_set_preempt((int)sym_cfg("preempt", 1));
  Call c;
  c.p = Processor::create("p");
  c.v = sym_u32("value");
  auto con = c.p->connect<M>([&](const M &m) { sym_assert(m.v == c.v, "the message's values"); c.body(); });
  int how = (int)sym_choice(Hows, "how");
  bool own = sym_choice(2, "own");
  std::thread run([&] { c.at = std::this_thread::get_id(); c.p->run(); });
  int more = 0, later = 0;
  // other executions may already be waiting in line; they keep their turn
  bool line = sym_choice(2, "others in line");
  auto other = [&] { sym_assert(own ? c.done == 1 : c.started == 0, "an execution in line keeps its turn"); later++; };
  if (own) { c.p->executeAsync([&] { if (line) c.p->executeAsync(other); c.make(how, true); sym_assert(later == 0, "an execution in line keeps its turn"); }); rt_wait_quiescent(); }
  else { if (line) c.p->executeAsync(other); c.make(how, false); }
  c.p->waitableExecute([&] { more++; }).get();
  sym_assert(more == 1, "the processor goes on");
  sym_assert(later == (line ? 1 : 0), "an execution in line keeps its turn");
  c.p->stop();
  run.join();
  sym_cover(own ? "own" : "other");
}
// two threads waiting at the same time, on different and on the same processor
SYM_ENTRY m04_two() {
  rt_set_preempt((int)sym_cfg("preempt", 1));
  Call a, b;
  a.p = Processor::create();
  b.p = sym_choice(2, "same") ? a.p : Processor::create("b");
  a.v = sym_u32("a");
  b.v = sym_u32("b");
  sym_assume(a.v != 5 && b.v != 6);
  int ha = sym_choice(2, "how") ? Typed : Blocking, hb = Void;
  std::thread ra([&] { a.p->run(); }), rb;
  if (b.p != a.p) rb = std::thread([&] { b.p->run(); });
  std::thread other([&] { b.make(hb, false); });
  a.make(ha, false);
  other.join();
  a.p->stop();
  b.p->stop();
  ra.join();
  if (rb.joinable()) rb.join();
  sym_cover("end");
}
// an execution on one processor waiting for another one, which in turn runs something nested
SYM_ENTRY m04_chain() {
  rt_set_preempt((int)sym_cfg("preempt", 1));
  auto a = Processor::create("a"), b = Processor::create();
  uint32_t x = sym_u32("x");
  AsyncProcessor pa(a), pb(b);
  pa.launch();
  pb.launch();
  int steps = 0;
  a->connect<Other>([&](const Other &o) { steps++; sym_assert(o.v == x + 2, "value"); });
  uint32_t r = a->waitableExecute([&] {
    uint32_t y = b->waitableExecute([&] { uint32_t z = b->waitableExecute([&] { steps++; return x + 1; }); return z + 1; });
    this_processor::waitablePost(makeMessage<Other>(Other{y})).get();
    return this_processor::instance()->waitableExecute([&] { return y + 1; });
  });
  sym_assert(r == x + 3 && steps == 2, "values are carried back through nested waits");
  pa.stopAndWait();
  pb.stopAndWait();
  sym_cover("end");
}
// several handlers of one message: the sender waits for all of them
SYM_ENTRY m04_handlers() {
  rt_set_preempt((int)sym_cfg("preempt", 1));
  auto a = Processor::create("a"), b = Processor::create("b");
  int done = 0;
  uint32_t x = sym_u32("x");
  auto h = [&](const M &m) { rt_yield("handler"); sym_assert(m.v == x, "value"); done++; };
  a->connect<M>(h);
  a->connect<M>(h);
  b->connect<M>(h);
  AsyncProcessor pa(a), pb(b);
  pa.launch();
  pb.launch();
  bool all = sym_choice(2, "all");
  auto s = all ? routing::sendToAll<M>(M{x}) : routing::send<M>("a", M{x});
  sym_assert(s.valid(), "accepted");
  s.get();
  sym_assert(done == (all ? 3 : 2), "waiting for a message returns after every handler finished");
  sym_assert(!routing::send<Other>("a", Other{1}).valid() && !routing::sendToAll<Other>(Other{1}).valid() && !routing::send<M>("c", M{1}).valid(), "a message nobody handles is not waited for");
  sym_cover(all ? "all" : "one");
}
// waiting on a processor that is not run, or stopped, never gives a made-up outcome
SYM_ENTRY m04_none() {
  auto p = Processor::create();
  p->connect<M>([](const M &) { sym_fail("nothing runs"); });
  p->stop();
  bool threw = false;
  int ran = 0;
  try { p->waitableExecute([&] { ran++; return 5; }); } catch (const std::future_error &) { threw = true; }
  sym_assert(threw && ran == 0, "waiting for a value that cannot be produced fails");
  sym_assert(!p->waitableExecute([&] { ran++; }).valid() && !p->waitablePost<M>(M{1}).valid() && !p->getBlockingExecutor()->execute([&] { ran++; }), "refused");
  sym_assert(ran == 0, "nothing ran");
  auto q = Processor::create();
  auto s = q->waitableExecute([&] { ran++; });
  sym_assert(s.valid() && s.waitFor(ms(5)) == std::future_status::timeout, "an execution that did not run is not reported as finished");
  q->runFor(ms(0));
  s.get();
  sym_assert(ran == 1, "ran");
  sym_cover("end");
}
