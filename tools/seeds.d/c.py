SEEDS = [
 dict(id='q01-batch-one', property='Q01',
  edits=[('include/maf/threading/ThreadSafeQueue.h', '''        queue_->push(item);
      }
      queueNotEmpty_.notify_all();''', '''        queue_->push(item);
      }
      queueNotEmpty_.notify_one();''')],
  needs='two consumers waiting when several elements are pushed at once', breaks='one of them sleeps on although an element is there',
  demo='''
#include <maf/threading/Queue.h>
#include <atomic>
#include <chrono>
#include <thread>
#include <vector>
using namespace std::chrono;
int main() {
  maf::threading::Queue<int> q;
  std::atomic<int> got{0}, late{0};
  auto consumer = [&] {
    int v;
    auto begin = steady_clock::now();
    if (q.waitFor(v, milliseconds(6000))) got++;
    if (steady_clock::now() - begin > seconds(5)) late++;
  };
  std::thread a(consumer), b(consumer);
  std::this_thread::sleep_for(milliseconds(500));
  q.push(std::vector<int>{1, 2});
  a.join();
  b.join();
  return got == 2 && late == 0 ? 0 : 1;
}
'''),
 dict(id='t01-priority-twin', property='T01',
  edits=[('src/common/maf/threading/threadpool/PriorityThreadPool.cpp', '''    return p1._pRunner == p2._pRunner && p1._priority == p2._priority;''', '''    return p1._priority == p2._priority;''')],
  needs='two tasks of one priority running at once of which the later one ends first, then a shutdown', breaks='the task still running is not told to stop',
  demo='''
#include <maf/threading/ThreadPoolFactory.h>
#include <maf/threading/Runnable.h>
#include <atomic>
#include <chrono>
#include <thread>
#include <cstdlib>
using namespace std::chrono;
struct Task : maf::threading::Runnable {
  std::atomic<bool> started{false}, stopped{false}, ended{false}, end{false};
  void run() override {
    started = true;
    while (!stopped && !end) std::this_thread::sleep_for(milliseconds(1));
    ended = true;
  }
  void stop() override { stopped = true; }
};
int main() {
  static Task a, b;
  a.setAutoDeleted(false);
  b.setAutoDeleted(false);
  auto pool = maf::threading::ThreadPoolFactory::createPool(maf::threading::PoolType::Priority, 2);
  pool->run(&a, 5);
  while (!a.started) std::this_thread::yield();
  pool->run(&b, 5);
  while (!b.started) std::this_thread::yield();
  b.end = true;
  while (!b.ended) std::this_thread::yield();
  std::this_thread::sleep_for(milliseconds(300));
  std::thread watch([] { std::this_thread::sleep_for(seconds(5)); std::_Exit(1); });
  watch.detach();
  pool->shutdown();
  return a.ended && a.stopped && !b.stopped ? 0 : 2;
}
'''),
 dict(id='m05-last-only', property='M05',
  edits=[('src/common/maf/messaging/Router.cpp', '''          for (auto &sig : sigs) {
            sig.get();
          }''', '''          sigs.back().get();''')],
  needs='a message sent to all of which the last receiver is done before another one', breaks='the sender goes on while a receiver still handles the message',
  demo='''
#include <maf/messaging/ProcessorEx.h>
#include <maf/messaging/Routing.h>
#include <atomic>
#include <chrono>
#include <thread>
using namespace maf::messaging;
struct Hello {};
int main() {
  static std::atomic<int> handled{0};
  for (int slow = 0; slow < 2; slow++) {
    AsyncProcessor a{slow ? "a1" : "a"}, b{slow ? "b1" : "b"};
    for (auto p : {&a, &b}) {
      bool wait = (p == &a) == (slow == 0);
      (*p)->connect<Hello>([wait](const Hello &) {
        if (wait) std::this_thread::sleep_for(std::chrono::milliseconds(700));
        handled++;
      });
      p->launch();
    }
    handled = 0;
    auto done = routing::sendToAll<Hello>();
    if (!done.valid()) return 3;
    done.get();
    if (handled != 2) return 1;
    a->stop();
    b->stop();
  }
  return 0;
}
'''),
 dict(id='u01-swallowed', property='U01',
  edits=[('include/maf/threading/Upcoming.h', 'outSink.get();', 'outSink.wait();')],
  needs='a continuation of a step without a value that fails', breaks='it runs as if the step had succeeded and the failure is lost',
  demo='''
#include <maf/threading/Upcoming.h>
#include <stdexcept>
int main() {
  std::promise<void> p;
  int ran = 0;
  auto next = maf::threading::Upcoming<void>{p.get_future()}.then([&] { ran++; return 1; });
  p.set_exception(std::make_exception_ptr(std::runtime_error("no")));
  try { next.get(); return 1; } catch (const std::runtime_error &) {}
  return ran ? 1 : 0;
}
'''),
 dict(id='l01-unlocked-assign', property='L01',
  edits=[('include/maf/threading/AtomicObject.h', '''    auto lock = atomic();
    data_ = std::forward<_SomeType>(d);''', '''    data_ = std::forward<_SomeType>(d);''')],
  needs='a value assigned while another thread is in its atomic session', breaks='the session sees the value change',
  demo='''
#include <maf/threading/AtomicObject.h>
#include <atomic>
#include <chrono>
#include <thread>
int main() {
  maf::threading::AtomicObject<int> o{1};
  std::atomic<bool> go{false};
  bool same;
  std::thread t([&] { while (!go) {} o = 2; });
  {
    auto session = o.atomic();
    go = true;
    std::this_thread::sleep_for(std::chrono::milliseconds(300));
    same = *session == 1;
  }
  t.join();
  return same && *o.atomic() == 2 ? 0 : 1;
}
'''),
 dict(id='c02-restart-inside', property='C02',
  edits=[('src/common/maf/messaging/Timer.cpp', '''    record->running = false;
    removeShortestTimer();
  }
  record->onExpired();''', '''    removeShortestTimer();
    record->onExpired();
    record->running = false;
    return;
  }
  record->onExpired();''')],
  needs='a timer that is started again by its own callback', breaks='it never fires again',
  demo='''
#include <maf/messaging/Processor.h>
#include <maf/messaging/Timer.h>
using namespace maf::messaging;
int main() {
  auto p = Processor::create();
  int fired = 0;
  Timer t, other;
  p->executeAsync([&] {
    t.start(20, [&] {
      fired++;
      t.start(20, [&] { fired++; });
    });
  });
  p->runFor(std::chrono::milliseconds(500));
  return fired == 2 ? 0 : 1;
}
''', srcs=['src/common/maf/messaging/Timer.cpp']),
 dict(id='m01-nested-run', property='M01',
  edits=[('src/common/maf/messaging/Processor.cpp', '''  if (!instance_) {
    instance_ = inst;
    return true;
  }
  return false;''', '''  auto justSet = instance_ != inst;
  instance_ = inst;
  return justSet;''')],
  needs='a processor run for a while from within another one on the same thread', breaks='what the outer one does afterwards no longer counts as its own',
  demo='''
#include <maf/messaging/Processor.h>
using namespace maf::messaging;
int main() {
  auto outer = Processor::create(), inner = Processor::create();
  bool before = false, after = false;
  outer->executeAsync([&] {
    before = this_processor::instance() == outer;
    inner->runFor(std::chrono::milliseconds(20));
    after = this_processor::instance() == outer;
  });
  outer->runFor(std::chrono::milliseconds(100));
  return before && after ? 0 : 1;
}
'''),
 dict(id='s03-index', property='S03',
  edits=[('include/maf/utils/serialization/VariantSerializer.h', '''          return true;                                     \\
      } else {                                           \\
        return false;  ''', '''          return true;                                     \\
      } else {                                           \\
        return true;  ''')],
  needs='x', breaks='x', demo='int main(){}'),
]
SEEDS = SEEDS[:-1]
