// M01: a processor runs each accepted execution once, in order, on its own thread.
#include "rt/sym.h"
#include <functional>
#include <memory>
#include <thread>
#include <vector>
#include "maf/messaging/ProcessorEx.h"
#include "maf/messaging/Routing.h"
using namespace maf::messaging;
using ms = std::chrono::milliseconds;
struct Log {
  std::vector<int> order;
  int running = 0;
  std::thread::id thread;
  ProcessorInstance p;
  bool anyThread = false;
  void enter(int id) {
    sym_assert(running == 0, "executions run one at a time");
    running++;
    if (!anyThread) sym_assert(std::this_thread::get_id() == thread, "executions run on the processor's thread");
    sym_assert(this_processor::instance() == p && this_processor::id() == p->id(), "an execution knows its processor");
    for (int o : order) sym_assert(o != id, "no execution runs twice");
    order.push_back(id);
    rt_yield("execution");
    running--;
  }
  Execution ex(int id) { return [this, id] { enter(id); }; }
};
// the ways of handing an execution over; all of them report acceptance
static bool give(const ProcessorInstance &p, int how, Execution e) {
  switch (how) {
    case 0: return p->executeAsync(std::move(e));
    case 1: return p->execute(std::move(e));
    case 2: return p->getAsyncExecutor()->execute(std::move(e));
    case 3: return p->getExecutor()->execute(std::move(e));
    case 4: p->willAsyncExecuteOnThis(std::move(e))(); return true;
    case 5: p->willExecuteOnThis(std::move(e))(); return true;
    default: { auto s = p->waitableExecute(std::move(e)); return s.valid(); }
  }
}
SYM_ENTRY m01_threads() {
  rt_set_preempt((int)sym_cfg("preempt", 2));
  Log l;
  auto p = l.p = Processor::create(sym_choice(2, "name") ? "me" : "");
  sym_assert(p != nullptr, "a processor is created");
  int how = (int)sym_choice(7, "how");
  std::thread run([&] { l.thread = std::this_thread::get_id(); p->run(); });
  std::thread other([&] { sym_assert(give(p, how, l.ex(0)), "a running processor accepts executions"); sym_assert(give(p, 0, l.ex(1)), "a running processor accepts executions"); });
  sym_assert(give(p, 0, l.ex(2)), "a running processor accepts executions");
  sym_assert(give(p, how, l.ex(3)), "a running processor accepts executions");
  other.join();
  rt_wait_quiescent();
  sym_assert(l.order.size() == 4, "every accepted execution runs");
  int at[4];
  for (int i = 0; i < 4; i++) at[l.order[i]] = i;
  sym_assert(at[0] < at[1] && at[2] < at[3], "executions run in the order in which they were accepted");
  sym_assert(p->pendingCout() == 0, "nothing is left over");
  p->stop();
  run.join();
  sym_cover("end");
}
// executions handed over from inside executions
SYM_ENTRY m01_nested() {
  rt_set_preempt((int)sym_cfg("preempt", 1));
  Log l;
  auto p = l.p = Processor::create();
  int how = (int)sym_choice(6, "how");
  bool inl = how == 1 || how == 3 || how == 5;   // these run at once when already on the processor's thread
  std::vector<int> marks;
  std::thread run([&] { l.thread = std::this_thread::get_id(); p->run(); });
  p->executeAsync([&] {
    marks.push_back(0);
    give(p, how, [&] { marks.push_back(1); });
    if (inl) sym_assert(marks.back() == 1, "execute() on the processor's own thread runs at once");
    else sym_assert(marks.back() == 0, "executeAsync() never runs at once");
    this_processor::executeAsync([&] { marks.push_back(2); });
    this_processor::execute([&] { marks.push_back(3); });
    sym_assert(marks.back() == 3, "execute() on the processor's own thread runs at once");
    give(this_processor::instance(), how, [&] { marks.push_back(4); });
    marks.push_back(5);
  });
  rt_wait_quiescent();
  std::vector<int> want = inl ? std::vector<int>{0, 1, 3, 4, 5, 2} : std::vector<int>{0, 3, 5, 1, 2, 4};
  sym_assert(marks == want, "executions run once each, in the order in which they were accepted");
  p->stop();
  run.join();
  sym_cover("end");
}
// what an execution owns may hand over further executions when it goes away
SYM_ENTRY m01_owned() {
  rt_set_preempt((int)sym_cfg("preempt", 1));
  Log l;
  auto p = l.p = Processor::create();
  struct Last { Log &l; explicit Last(Log &x) : l(x) {} Last(const Last &) = delete; ~Last() { l.p->executeAsync(l.ex(7)); } };
  std::thread run([&] { l.thread = std::this_thread::get_id(); p->run(); });
  p->executeAsync([&l, last = std::make_shared<Last>(l)]() mutable { l.enter(1); });
  p->executeAsync(l.ex(2));
  rt_wait_quiescent();
  sym_assert(l.order == std::vector<int>({1, 2, 7}) || l.order == std::vector<int>({1, 7, 2}) || l.order == std::vector<int>({7, 1, 2}), "every accepted execution runs");
  p->stop();
  run.join();
  sym_cover("end");
}
// run in slices: any sequence of posting, running and advancing time
SYM_ENTRY m01_slices() {
  Log l;
  auto p = l.p = Processor::create();
  l.thread = std::this_thread::get_id();
  int next = 0, done = 0;
  int ops = (int)sym_cfg("ops", 4);
  for (int k = 0; k < ops; k++) {
    int64_t t0 = rt_now();
    switch (sym_choice(6, "op")) {
      case 0: sym_assert(p->executeAsync(l.ex(next++)), "a processor that is not stopped accepts executions"); break;
      case 1: sym_assert(p->execute(l.ex(next++)), "a processor that is not stopped accepts executions"); break;
      case 2: sym_assert(p->runOnceFor(ms(5)) == (done < next), "running once runs one execution if there is one"); if (done < next) { done++; sym_assert(rt_now() == t0, "and returns at once then"); } else sym_assert(rt_now() - t0 >= 5000000, "and waits its time otherwise"); break;
      case 3: sym_assert(p->runOnceUntil(std::chrono::system_clock::now() + ms(5)) == (done < next), "running once runs one execution if there is one"); if (done < next) done++; break;
      case 4: p->runFor(ms(3)); done = next; sym_assert(rt_now() - t0 >= 3000000, "running for a time lasts that time"); break;
      case 5: p->runUntil(std::chrono::system_clock::now() + ms(3)); done = next; break;
    }
    sym_assert((int)l.order.size() == done && (int)p->pendingCout() == next - done, "accepted executions run once each");
    for (int i = 0; i < done; i++) sym_assert(l.order[i] == i, "executions run in the order in which they were accepted");
    sym_assert(this_processor::instance() == nullptr && this_processor::id().empty(), "outside of a run no processor is current");
  }
  sym_cover("end");
}
// an execution that throws ends the run with its exception; the others stay in line
SYM_ENTRY m01_throw() {
  Log l;
  auto p = l.p = Processor::create();
  l.thread = std::this_thread::get_id();
  uint32_t bad = sym_u32("which");
  for (uint32_t i = 0; i < 3; i++) p->executeAsync([&, i] { l.enter((int)i); if (i == bad) throw 7; });
  p->executeAsync([&] { p->stop(); });
  int thrown = 0;
  for (int k = 0; k < 2; k++) {
    try { if (sym_choice(2, "how")) p->run(); else p->runFor(ms(1)); } catch (int x) { thrown += x; sym_assert((uint32_t)l.order.back() == bad, "the run ends with the exception of the execution that threw"); }
    sym_assert(this_processor::instance() == nullptr, "outside of a run no processor is current");
  }
  sym_assert(thrown == (bad < 3 ? 7 : 0), "the exception reaches the caller of run once");
  sym_assert(l.order == std::vector<int>({0, 1, 2}), "an execution that throws does not lose the following ones");
  sym_assert(p->stopped(), "stopped at the end");
  sym_cover(thrown ? "threw" : "did not");
}
// two processors: each runs its own
SYM_ENTRY m01_two() {
  rt_set_preempt((int)sym_cfg("preempt", 1));
  Log a, b;
  a.p = Processor::create("a");
  b.p = Processor::create(sym_choice(2, "name") ? "b" : "");
  AsyncProcessor pa(a.p), pb(b.p);
  int init = 0, deinit = 0;
  pa.launch([&] { a.thread = std::this_thread::get_id(); init++; }, [&] { deinit++; });
  pb.launch([&] { b.thread = std::this_thread::get_id(); });
  pa->executeAsync([&] { a.enter(0); pb->execute(b.ex(0)); this_processor::executeAsync(a.ex(1)); });
  pb->executeAsync([&] { b.enter(1); pa->execute(a.ex(2)); });
  rt_wait_quiescent();
  sym_assert(a.order.size() == 3 && b.order.size() == 2, "every accepted execution runs, on its own processor");
  pa.stopAndWait();
  sym_assert(init == 1 && deinit == 1, "thread functions run once each");
  sym_assert(!pa.running(), "the processor's thread has ended");
  sym_cover("end");
}
// what a running execution gets from its processor for later use brings work back to that processor
SYM_ENTRY m01_current() {
  rt_set_preempt((int)sym_cfg("preempt", 1));
  Log l;
  auto p = l.p = makeProcessor(sym_choice(2, "name") ? "me" : "");
  std::thread run([&] { l.thread = std::this_thread::get_id(); p->run(); });
  int how = (int)sym_choice(7, "how"), where = (int)sym_choice(3, "where");
  bool mine = where == 0, done = false;
  uint32_t v = sym_u32("value"), got = 0;
  Execution body = [&, v] { l.enter(1); got = v; done = true; };
  std::function<bool()> later;
  p->executeAsync([&] {
    l.enter(0);
    sym_assert(this_processor::ref().lock() == p && !this_processor::stopped(), "an execution knows its processor");
    switch (how) {
      case 0: later = [e = this_processor::getExecutor(), &body] { return e->execute(body); }; break;
      case 1: later = [e = this_processor::getAsyncExecutor(), &body] { return e->execute(body); }; break;
      case 2: later = [e = this_processor::getWaitableExecutor(), &body] { return e->execute(body); }; break;
      case 3: later = [e = this_processor::willExecuteOnThis(body)] { e(); return true; }; break;
      case 4: later = [e = this_processor::willAsyncExecuteOnThis(body)] { e(); return true; }; break;
      case 5: later = [e = this_processor::willBlockingExecuteOnThis(body)] { e(); return true; }; break;
      case 6: later = [r = this_processor::ref(), &body] { return r.lock()->execute(body); }; break;
    }
    if (mine) {
      int depth = l.running;
      l.running = 0;
      sym_assert(later(), "an execution brought back is accepted");
      l.running = depth;
      if (how == 1 || how == 4) sym_assert(!done, "an asynchronous execution waits for its turn");
      if (how == 2 || how == 5) sym_assert(done, "a blocking execution ends before the call returns");
    }
  });
  rt_wait_quiescent();
  std::thread other;
  AsyncProcessor q;
  auto use = [&] {
    sym_assert(later(), "an execution brought back is accepted");
    if (how == 2 || how == 5) sym_assert(done, "a blocking execution ends before the call returns");
  };
  if (where == 1) other = std::thread(use);
  if (where == 2) { q.launch(); q->executeAsync([&] { use(); sym_assert(this_processor::instance() == q.instance(), "an execution knows its processor"); }); }
  rt_wait_quiescent();
  sym_assert(done && got == v && l.order.size() == 2, "every accepted execution runs");
  if (where == 1) other.join();
  if (where == 2) q.stopAndWait();
  later = nullptr;
  p->executeAsync([&] { this_processor::stop(); sym_assert(this_processor::stopped(), "stopping takes effect at once"); });
  run.join();
  sym_cover("end");
}
// an execution bound to a processor is handed to it at each call, whoever calls and however often
SYM_ENTRY m01_bound() {
  rt_set_preempt((int)sym_cfg("preempt", 1));
  Log l;
  auto p = l.p = makeProcessor(sym_choice(2, "name") ? "me" : "");
  std::thread run([&] { l.thread = std::this_thread::get_id(); p->run(); });
  int how = (int)sym_choice(3, "how"), calls = 2 + (int)sym_choice(2, "calls");
  bool copied = sym_choice(2, "copied"), mine = sym_choice(2, "mine");
  int made = 0;
  uint32_t v = sym_u32("value"), sum = 0;
  Execution body = [&, v] { l.enter(made++); sum += v; };
  Execution bound = how == 0 ? p->willExecuteOnThis(body) : how == 1 ? p->willAsyncExecuteOnThis(body) : p->willBlockingExecuteOnThis(body);
  auto use = [&] {
    for (int i = 0; i < calls; i++) {
      int before = made;
      if (mine) l.running = 0;
      if (copied) { auto c = bound; c(); } else bound();
      if (how == 2 || (mine && how == 0)) sym_assert(made == before + 1, "an execution brought back has been done before the call returns");
      if (mine && how == 1) sym_assert(made == before, "an asynchronous execution waits for its turn");
    }
  };
  if (mine) p->executeAsync(use);
  else use();
  rt_wait_quiescent();
  sym_assert(made == calls && sum == v * (uint32_t)calls, "a bound execution is done once for each call");
  p->stop();
  run.join();
  bound();
  sym_assert(made == calls, "a stopped processor does nothing");
  sym_cover("end");
}
// with no processor current, nothing is accepted
SYM_ENTRY m01_nowhere() {
  int ran = 0;
  auto ex = [&] { ran++; };
  using namespace this_processor;
  auto p = Processor::create();
  if (sym_choice(2, "ended run")) {
    uint32_t v = sym_u32("throws");
    try {
      p->run([&] { if (v == 1) throw 1; p->stop(); }, [&] { sym_assert(instance() == p, "the thread functions know the processor"); });
    } catch (int) { sym_assert(v == 1, "the exception of a thread function reaches the caller of run"); }
  }
  sym_assert(instance() == nullptr && ref().expired() && id().empty() && !stopped(), "outside of a run no processor is current");
  sym_assert(!executeAsync(ex) && !execute(ex) && !waitableExecute(ex).valid() && !post(makeMessage<int>(1)) && !waitablePost(makeMessage<int>(1)).valid() && !stop(), "without a processor nothing is accepted");
  sym_assert(!getExecutor() && !getAsyncExecutor() && !getWaitableExecutor() && !willExecuteOnThis(ex) && !willAsyncExecuteOnThis(ex) && !willBlockingExecuteOnThis(ex), "without a processor nothing is accepted");
  disconnect<int>();
  sym_assert(ran == 0, "nothing runs");
  sym_cover("end");
}
// one processor run for a while by an execution of another: the outer one stays the current one afterwards
SYM_ENTRY m01_inner() {
  auto outer = Processor::create(), inner = Processor::create();
  int ran = 0, in = 0;
  int how = (int)sym_choice(4, "how");
  bool work = sym_choice(2, "work"), thr = work && sym_choice(2, "throw");
  if (work) inner->executeAsync([&] { in++; if (thr) throw 1; });
  if (how == 3) inner->executeAsync([&] { inner->stop(); });
  outer->executeAsync([&] {
    sym_assert(this_processor::instance() == outer, "an execution knows its processor");
    try {
      switch (how) {
        case 0: inner->runFor(std::chrono::milliseconds(3)); break;
        case 1: inner->runOnceFor(std::chrono::milliseconds(3)); break;
        case 2: inner->runUntil(std::chrono::system_clock::now() + std::chrono::milliseconds(3)); break;
        case 3: inner->run(); break;
      }
      sym_assert(!thr, "what an execution throws reaches whoever runs the processor");
    } catch (int) { sym_assert(thr, "what an execution throws reaches whoever runs the processor"); }
    sym_assert(in == work, "handed over work is done");
    sym_assert(this_processor::instance() == outer && this_processor::id() == outer->id(), "an execution knows its processor");
    sym_assert(this_processor::execute([&] { ran++; }) && ran == 1, "an execution handed to the current processor runs at once");
  });
  outer->executeAsync([&] { sym_assert(this_processor::instance() == outer, "an execution knows its processor"); ran++; });
  outer->runFor(std::chrono::milliseconds(20));
  sym_assert(ran == 2, "handed over work is done");
  sym_assert(this_processor::instance() == nullptr, "outside of a run no processor is current");
  sym_cover("end");
}
