// U02: small helpers: run at the end of a scope, measure time, bind calls, chain functions, look up, compare.
#include "rt/sym.h"
#include <bitset>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "maf/utils/CallOnExit.h"
#include "maf/utils/ProcessorChain.h"
#include "maf/utils/TimeMeasurement.h"
#include "maf/utils/containers/Map.h"
#include "maf/utils/containers/Map2D.h"
#include "maf/utils/cppextension/Invoker.h"
#include "maf/utils/cppextension/TupleDiff.h"
#include "maf/utils/cppextension/TupleManip.h"
using namespace maf::util;
using std::chrono::microseconds;

SYM_ENTRY u02_exit() {
  int ran = 0, order = 0;
  bool thrown = sym_choice(2, "throws"), none = sym_choice(2, "none");
  try {
    CallOnExit a([&] { sym_assert(order == 1, "the last registered runs first"); ran++; });
    CallOnExit b([&] { order = 1; });
    CallOnExit::CallbackType f;
    if (!none) f = [&] { ran++; };
    CallOnExit c(f);
    sym_assert(ran == 0 && order == 0, "nothing runs before the scope ends");
    if (thrown) throw 1;
  } catch (int) {}
  sym_assert(ran == (none ? 1 : 2), "a call for the end of a scope runs exactly once, however the scope ends");
  sym_cover("end");
}
// a report that fails, or that comes back to its measurement, is not made again
SYM_ENTRY u02_report() {
  int reports = 0;
  bool throws = sym_choice(2, "throws"), again = sym_choice(2, "again"), caught = false;
  {
    TimeMeasurement *p = nullptr;
    TimeMeasurement m([&](microseconds) {
      reports++;
      sym_assert(reports == 1, "a measurement reports once");
      if (again) sym_choice(2, "how") ? p->stop() : p->abort();
      if (throws) throw 1;
    });
    p = &m;
    try { m.stop(); } catch (int) { caught = true; }
    sym_assert(caught == throws && reports == 1, "a report that fails is told to who stopped the measurement");
  }
  sym_assert(reports == 1, "a measurement reports once");
  sym_cover("end");
}
// every short history of a measurement; reports happen once, with the time passed
SYM_ENTRY u02_measure() {
  std::vector<int64_t> told;
  int64_t t0;
  int64_t want = -1;
  int reports = 0;
  bool armed = true;
  {
    TimeMeasurement m([&](microseconds d) { told.push_back(d.count()); });
    std::unique_ptr<TimeMeasurement> other;
    TimeMeasurement *cur = &m;
    t0 = rt_now();
    int ops = (int)sym_cfg("ops", 3);
    for (int k = 0; k < ops; k++) {
      rt_advance((int64_t)(1 + sym_choice(2, "ms")) * 1000000);
      int64_t expect = (rt_now() - t0) / 1000;
      switch (sym_choice(5, "op")) {
        case 0: {
          auto d = cur->stop();
          sym_assert(d.count() >= expect && d.count() < expect + 900, "stopping gives the time since the start");
          if (armed) { reports++; want = d.count(); }
          armed = false;
          break;
        }
        case 1: {
          auto d = cur->abort();
          sym_assert(d.count() >= expect && d.count() < expect + 900, "aborting gives the time since the start");
          armed = false;
          break;
        }
        case 2: cur->restart(); t0 = rt_now(); break;
        case 3: {
          auto d = cur->elapsedTime<std::chrono::milliseconds>();
          sym_assert(d.count() == expect / 1000, "the time passed is told in the unit asked for");
          break;
        }
        case 4:
          if (!other) { other = std::make_unique<TimeMeasurement>(std::move(*cur)); cur = other.get(); }
          break;
      }
      sym_assert((int)told.size() == reports && (!reports || told.back() == want), "a measurement reports when it is stopped, once");
    }
    rt_advance(5000000);
    want = (rt_now() - t0) / 1000;
  }
  sym_assert((int)told.size() == reports + (armed ? 1 : 0), "a measurement that goes away reports unless it was stopped or aborted");
  if (armed) sym_assert(told.back() >= want && told.back() < want + 900, "the report tells the time since the start");
  sym_cover("end");
}
// arguments are kept as values until the call
SYM_ENTRY u02_invoker() {
  uint32_t a = sym_u32("a"), b = sym_u32("b"), got = 0, gotp = 0;
  std::string s(1, (char)sym_u8("c")), gots;
  auto f = [&](uint32_t x, std::string t, std::unique_ptr<uint32_t> p) { got = x; gots = std::move(t); gotp = *p; };
  uint32_t x = a;
  std::string keep = s;
  auto inv = makeInvoker(std::move(f), std::move(x), std::move(s), std::make_unique<uint32_t>(b));
  x = ~a;
  s = "changed";
  inv.invoke();
  sym_assert(got == a && gotp == b, "a bound call gets the values it was made with");
  sym_assert(gots.size() == keep.size() && gots[0] == keep[0], "a bound call gets the values it was made with");
  struct S { uint32_t v; uint32_t *to; void put(uint32_t d) { *to = v + d; } };
  uint32_t r = 0;
  makeInvoker(&S::put, S{a, &r}, uint32_t(b)).invoke();
  sym_assert(r == a + b, "a bound member call runs on the object given");
  sym_cover("end");
}
SYM_ENTRY u02_chain() {
  uint32_t x = sym_u32("x"), k = sym_u32("k");
  int calls = 0;
  auto c = ProcessorChain<uint32_t>().then([&](uint32_t v) { sym_assert(calls++ == 0, "stages run once each, in order"); return v + k; }).then([&](uint32_t v) { sym_assert(calls++ == 1, "stages run once each, in order"); return (uint64_t)v * 3; });
  sym_assert(c.valid(), "a chain can be called");
  uint64_t r = c(x);
  sym_assert(r == (uint64_t)(uint32_t)(x + k) * 3 && calls == 2, "a chain passes each result to the next stage");
  auto i = ProcessorChain<uint32_t>();
  sym_assert(i(x) == x, "an empty chain gives back what it is given");
  uint32_t seen = 0;
  auto last = ProcessorChain<uint32_t>().then([&](uint32_t v) { seen = v; });
  last(x);
  sym_assert(seen == x, "a chain may end without a result");
  sym_cover("end");
}
SYM_ENTRY u02_find() {
  Map2D<uint8_t, uint8_t, uint32_t> m;
  std::map<uint8_t, uint32_t> flat;
  struct { uint8_t a, b; uint32_t v; } e[3];
  int n = (int)sym_len(3, "n");
  for (int i = 0; i < n; i++) {
    e[i] = {sym_u8("k1"), sym_u8("k2"), sym_u32("v")};
    m[e[i].a][e[i].b] = e[i].v;
    flat[e[i].a] = e[i].v;
  }
  uint8_t a = sym_u8("a"), b = sym_u8("b");
  uint32_t want = 0, wantFlat = 0;
  for (int i = 0; i < n; i++) { if (e[i].a == a && e[i].b == b) want = e[i].v; if (e[i].a == a) wantFlat = e[i].v; }
  size_t before = m.size();
  sym_assert(maf::util::find(m, a, b) == want, "a lookup gives the value stored last under both keys, or nothing");
  sym_assert(maf::util::get(flat, a) == wantFlat, "a lookup gives the value stored last, or nothing");
  sym_assert(m.size() == before, "a lookup changes nothing");
  sym_cover("end");
}
SYM_ENTRY u02_diff() {
  using T = std::tuple<uint8_t, uint32_t, std::string, int64_t>;
  auto mk = [](const char *n) { uint8_t a = sym_u8(n); uint32_t b = sym_u32(n); std::string s(sym_len(2, n), (char)sym_u8(n)); return T(a, b, s, sym_i64(n)); };
  T x = mk("x"), y = mk("y");
  auto d = tuple_diff(x, y);
  sym_assert(d[0] == (std::get<0>(x) != std::get<0>(y)) && d[1] == (std::get<1>(x) != std::get<1>(y)) && d[3] == (std::get<3>(x) != std::get<3>(y)), "a comparison of tuples marks exactly the parts that differ");
  sym_assert(d[2] == (std::get<2>(x) != std::get<2>(y)), "a comparison of tuples marks exactly the parts that differ");
  int i = 0;
  uint64_t sum = 0;
  maf::nstl::tuple_for_each(x, [&](auto &v) { using V = std::decay_t<decltype(v)>; if constexpr (std::is_integral_v<V>) sum += (uint64_t)v * (i + 1); i++; });
  sym_assert(i == 4 && sum == (uint64_t)std::get<0>(x) + 2 * (uint64_t)std::get<1>(x) + 4 * (uint64_t)std::get<3>(x), "every part of a tuple is visited once, in order");
  sym_cover("end");
}
