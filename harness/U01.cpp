// U01: continuations on upcoming values run once, when asked for, with exactly the produced outcome.
#include "rt/sym.h"
#include <future>
#include <memory>
#include <stdexcept>
#include <thread>
#include "maf/threading/Upcoming.h"
using namespace maf::threading;
struct Boom : std::runtime_error { uint32_t v; explicit Boom(uint32_t v_) : std::runtime_error("boom"), v(v_) {} };
// attach before or after the value exists; value, exception or broken promise; asked for by get or wait then get
SYM_ENTRY u01_single() {
  uint32_t v = sym_u32("v");
  auto p = std::make_unique<std::promise<uint32_t>>();
  Upcoming<uint32_t> u{p->get_future()};
  sym_assert(u.valid(), "an upcoming value is valid");
  auto outcome = sym_choice(3, "outcome");
  auto produce = [&] {
    if (outcome == 0) p->set_value(v);
    else if (outcome == 1) p->set_exception(std::make_exception_ptr(Boom{v}));
    else p.reset();
  };
  bool before = sym_choice(2, "before") == 0;
  int runs = 0;
  auto cont = [&runs](uint32_t x) { runs++; return (uint64_t)x + 1; };
  if (!before) produce();
  auto n = u.then(cont);
  sym_assert(!u.valid() && n.valid(), "attaching hands the value over to the continuation");
  if (before) produce();
  sym_assert(runs == 0, "a continuation runs when its result is asked for");
  if (sym_choice(2, "wait")) { n.wait(); sym_assert(runs == (outcome == 0), "waiting runs the continuation"); }
  if (outcome == 0) {
    auto r = n.get();
    sym_assert(r.has_value() && *r == (uint64_t)v + 1 && runs == 1, "the continuation gets the value and its result is returned");
    sym_cover("value");
  } else if (outcome == 1) {
    bool caught = false;
    try { n.get(); } catch (const Boom &b) { caught = b.v == v; }
    sym_assert(caught && runs == 0, "the exception produced instead reaches whoever asks");
    sym_cover("exception");
  } else {
    auto r = n.get();
    sym_assert(!r.has_value() && runs == 0, "a value that will never be produced gives an empty result");
    sym_cover("broken");
  }
  sym_assert(!n.valid(), "the result is handed out once");
  auto again = n.get();
  sym_assert(!again.has_value() && runs <= 1, "asking again gives nothing and runs nothing");
  Upcoming<uint32_t> none;
  sym_assert(!none.valid() && !none.get().has_value(), "an empty upcoming value has nothing");
  sym_assert(!none.then([](uint32_t x) { return x; }).valid(), "a continuation on nothing is nothing");
}
SYM_ENTRY u01_chain() {
  uint32_t v = sym_u32("v");
  std::promise<uint32_t> p;
  Upcoming<uint32_t> u{p.get_future()};
  int order = 0;
  uint32_t s1 = 0, s3 = 0;
  int thrower = (int)sym_choice(4, "thrower");   // 0: none
  bool before = sym_choice(2, "before");
  if (!before) p.set_value(v);
  auto w = u.then([&](uint32_t x) { sym_assert(order++ == 0, "first continuation first"); s1 = x; if (thrower == 1) throw Boom{x}; return x * 3; })
               .then([&](uint32_t x) { sym_assert(order++ == 1, "second continuation second"); sym_assert(x == v * 3, "a continuation gets the previous result"); if (thrower == 2) throw Boom{x}; });
  auto z = w.then([&] { sym_assert(order++ == 2, "third continuation third"); s3 = 7; if (thrower == 3) throw Boom{1}; return v + 5; });
  if (before) p.set_value(v);
  try {
    auto r = z.get();
    sym_assert(thrower == 0 && r && *r == v + 5 && order == 3 && s1 == v && s3 == 7, "the chain produces the last result");
    sym_cover("value");
  } catch (const Boom &b) {
    sym_assert(thrower != 0 && order == thrower, "an exception stops the chain where it is thrown");
    sym_assert(b.v == (thrower == 1 ? v : thrower == 2 ? v * 3 : 1), "the exception reaches whoever asks");
    sym_cover("exception");
  }
}
SYM_ENTRY u01_void() {
  std::promise<void> p;
  Upcoming<void> u{p.get_future()};
  int runs = 0;
  bool fail = sym_choice(2, "fail");
  auto n = u.then([&] { runs++; return 5; });
  if (fail) p.set_exception(std::make_exception_ptr(Boom{3})); else p.set_value();
  try { auto r = n.get(); sym_assert(!fail && r && *r == 5 && runs == 1, "a continuation without input runs once"); sym_cover("value"); }
  catch (const Boom &b) { sym_assert(fail && runs == 0 && b.v == 3, "the exception reaches whoever asks"); sym_cover("exception"); }
  sym_assert(!Upcoming<void>{}.then([] { return 1; }).valid(), "a continuation on nothing is nothing");
}
// the producer is another thread
SYM_ENTRY u01_threads() {
  rt_set_preempt((int)sym_cfg("preempt", 3));
  uint32_t v = sym_u32("v");
  auto p = std::make_shared<std::promise<uint32_t>>();
  auto outcome = sym_choice(3, "outcome");
  Upcoming<uint32_t> u{p->get_future()};
  int runs = 0;
  std::thread t([&, p = std::move(p)]() mutable {
    if (outcome == 0) p->set_value(v);
    else if (outcome == 1) p->set_exception(std::make_exception_ptr(Boom{v}));
    else p.reset();
  });
  auto n = u.then([&](uint32_t x) { runs++; return x ^ 1; });
  try {
    auto r = n.get();
    if (outcome == 0) { sym_assert(r && *r == (v ^ 1) && runs == 1, "the continuation gets the value once"); sym_cover("value"); }
    else { sym_assert(outcome == 2 && !r && runs == 0, "a value that will never be produced gives an empty result"); sym_cover("broken"); }
  } catch (const Boom &b) { sym_assert(outcome == 1 && b.v == v && runs == 0, "the exception reaches whoever asks"); sym_cover("exception"); }
  t.join();
}
// waiting with a timeout
SYM_ENTRY u01_timeout() {
  std::promise<uint8_t> p;
  Upcoming<uint8_t> u{p.get_future()};
  uint8_t v = sym_u8("v");
  bool ready = sym_choice(2, "ready");
  if (ready) p.set_value(v);
  int64_t t0 = rt_now();
  auto st = sym_choice(2, "until") ? u.waitUntil(std::chrono::steady_clock::now() + std::chrono::milliseconds(20)) : u.waitFor(std::chrono::milliseconds(20));
  if (ready) sym_assert(st == std::future_status::ready && rt_now() == t0, "a value that is there is ready at once");
  else { sym_assert(st == std::future_status::timeout && rt_now() - t0 >= 20000000, "waiting gives up after the interval"); p.set_value(v); }
  auto r = u.get();
  sym_assert(r && *r == v, "the value is handed out");
  sym_cover("end");
}
