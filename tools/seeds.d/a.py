SEEDS = [
 dict(id='s01-embedded-nul', property='S01',
  edits=[('include/maf/utils/serialization/Serializer.h', '    auto size = value.size();\n    os.write(internal::to_cstr(&size), sizeof(SizeType));\n    if (!value.empty()) {\n      os.write(reinterpret_cast<const char *>(value.c_str()),\n               value.size() * sizeof(CharT));',
          '    auto size = std::char_traits<CharT>::length(value.c_str());\n    os.write(internal::to_cstr(&size), sizeof(SizeType));\n    if (size > 0) {\n      os.write(reinterpret_cast<const char *>(value.c_str()),\n               size * sizeof(CharT));')],
  needs='a string containing a null character', breaks='the string reads back cut off at its first null character',
  demo='''
#include <maf/utils/serialization/IByteStream.h>
#include <maf/utils/serialization/OByteStream.h>
#include <maf/utils/serialization/Serializer.h>
#include <map>
int main() {
  std::map<int, std::string> in{{1, std::string("a\\0b", 3)}, {2, "plain"}, {3, std::string(2, '\\0')}}, out;
  maf::srz::OByteStream o;
  maf::srz::serialize(o, in);
  maf::srz::IByteStream i(o.bytes());
  return maf::srz::deserialize(i, out) && out == in ? 0 : 1;
}
'''),
 dict(id='q02-close-one', property='Q02',
  edits=[('include/maf/threading/ThreadSafeQueue.h', '    if (!alreadyClosed) {\n      queueNotEmpty_.notify_all();', '    if (!alreadyClosed) {\n      queueNotEmpty_.notify_one();')],
  needs='two consumers waiting when the queue is closed', breaks='only one of them returns',
  demo='''
#include <maf/threading/Queue.h>
#include <atomic>
#include <chrono>
#include <thread>
#include <unistd.h>
int main() {
  static maf::threading::Queue<int> q;
  static std::atomic<int> back{0};
  for (int k = 0; k < 2; k++) std::thread([] { int v; q.wait(v); back++; }).detach();
  std::this_thread::sleep_for(std::chrono::milliseconds(500));
  q.close();
  for (int k = 0; k < 100 && back < 2; k++) std::this_thread::sleep_for(std::chrono::milliseconds(50));
  _exit(back == 2 ? 0 : 1);
}
'''),
 dict(id='c01-heap', property='C01', srcs=['src/common/maf/messaging/Timer.cpp'],
  edits=[('src/common/maf/messaging/Timer.cpp', '      records_.erase(it);\n      if (!checkRecordListEmpty()) {\n        refresh();\n      }', '      records_.erase(it);\n      checkRecordListEmpty();')],
  needs='six timers, one of which that is neither the first nor the last is stopped', breaks='timers fire out of order and late',
  demo='''
#include <maf/messaging/ProcessorEx.h>
#include <maf/messaging/Timer.h>
#include <cstdio>
#include <vector>
using namespace maf::messaging;
int main() {
  auto p = Processor::create();
  std::vector<std::unique_ptr<Timer>> t;
  std::vector<int> order;
  p->executeAsync([&] {
    const int after[] = {100, 200, 400, 500, 300, 600};
    for (int k = 0; k < 6; k++) t.emplace_back(new Timer);
    for (int k = 0; k < 6; k++) t[k]->start(after[k], [&, k] { order.push_back(k); if (order.size() == 5) p->stop(); });
    t[1]->stop();
  });
  p->run();
  for (int k : order) printf("%d ", k);
  return order == std::vector<int>{0, 4, 2, 3, 5} ? 0 : 1;
}
'''),
 dict(id='g02-strong-owner', property='G02',
  edits=[('include/maf/utils/SignalSlots.h', '''    assert(executor);
    return this->connect(
        [wptr(weak_ptr(ptr)), method](ConnectionPtrType con,
                                      ConstRef_<Args_>... args) {
          if (auto ptr = wptr.lock()) {''', '''    assert(executor);
    return this->connect(
        [wptr(ptr), method](ConnectionPtrType con,
                            ConstRef_<Args_>... args) {
          if (auto ptr = wptr) {''')],
  needs='a slot bound to a method of a shared object and to an executor, whose object is given up', breaks='the connection keeps the object alive and goes on calling it',
  demo='''
#include <maf/SignalSlots.h>
#include <maf/utils/DirectExecutor.h>
#include <memory>
struct X { int &n; void f(int) { n++; } };
int main() {
  int n = 0;
  maf::signal_slots::Signal<int> s;
  auto x = std::shared_ptr<X>(new X{n});
  s.connect(x, &X::f, maf::util::directExecutor());
  s(1);
  if (n != 1) return 3;
  std::weak_ptr<X> w = x;
  x.reset();
  s(2);
  return n == 1 && w.expired() ? 0 : 1;
}
'''),
]
