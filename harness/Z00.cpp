#include "rt/sym.h"
#include <thread>
#include <mutex>
#include <atomic>
#include "maf/threading/ThreadSafeQueue.h"
// engine self tests
static int x; 
SYM_ENTRY z_race() {
  int y = 0;
  x = 0;
  std::thread t([&] { x++; });
  x++;
  t.join();
  sym_assert(x == 2, "lost");
  sym_cover("end");
}
SYM_ENTRY z_atomic() {
  std::atomic<int> a{0};
  std::thread t([&] { int v = a.load(); a.store(v + 1); });
  int v = a.load(); a.store(v + 1);
  t.join();
  sym_assert(a == 2, "lost");
}
SYM_ENTRY z_split() {
  uint32_t s = 0;
  for (int i = 0; i < 10; i++) if (sym_bool("b")) s += i;
  sym_assert(s < 46, "sum");
  sym_cover("end");
}
