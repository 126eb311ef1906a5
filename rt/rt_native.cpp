// Native replay: the values of a counterexample are fed back in the order in which the path asked
// for them, and the threads are driven through the recorded schedule. Linked with the harness and
// the real sources compiled by clang with sanitizers.
#include "sym.h"
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <string>
#include <unistd.h>
#include <vector>
namespace {
struct Ent { std::string name; unsigned w; uint64_t v; };
std::vector<Ent> in;
size_t pos;
std::map<std::string, int64_t> cfg;
sem_t sems[16];
uint64_t allocLimit = ~0ull;
std::atomic<uint64_t> heapLive;
thread_local int self = 0;
int nth = 1;
[[noreturn]] void end(const char *what, const char *msg, int code) {
  printf("REPLAY %s: %s\n", what, msg);
  fflush(stdout);
  _exit(code);
}
uint64_t next(const char *name, unsigned w) {
  if (pos >= in.size() && cfg.count("__hang")) return 0;
  if (pos >= in.size()) end("DIVERGED", "the run asks for more inputs than the counterexample has", 4);
  auto &e = in[pos++];
  if (e.name != name || e.w != w) {
    fprintf(stderr, "expected input %s:%u, run asks for %s:%u\n", e.name.c_str(), e.w, name, w);
    end("DIVERGED", "inputs are requested in a different order", 4);
  }
  return e.v;
}
struct Start { void (*fn)(void *); void *arg; int id; };
void *tmain(void *p) {
  Start s = *(Start *)p;
  self = s.id;
  while (sem_wait(&sems[self])) {}
  s.fn(s.arg);
  return nullptr;
}
}  // namespace
extern "C" {
uint64_t sym_int(unsigned bits, const char *name) { return next(name, bits); }
void sym_bytes(void *p, size_t n, const char *name) { for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = (unsigned char)next(name, 8); }
uint64_t sym_choice(uint64_t n, const char *name) { (void)n; return next(name, 8); }
void sym_assume(bool c) { if (!c) end("DIVERGED", "an assumption does not hold", 4); }
void sym_assert(bool c, const char *msg) { if (!c) end("VIOLATED", msg, 1); }
void sym_fail(const char *msg) { end("VIOLATED", msg, 1); }
void sym_cover(const char *) {}
uint64_t sym_concretize(uint64_t v) { return v; }
void sym_alloc_limit(uint64_t n) { allocLimit = n; }
void sym_step_limit(uint64_t, int h) { if (h) alarm(20); }
uint64_t sym_heap_live() { return heapLive; }
void sym_done() { end("HELD", "path ended", 0); }
void sym_note(const char *m) { printf("note %s\n", m); }
void sym_note2(const char *m, uint64_t v) { printf("note %s %lld\n", m, (long long)v); }
uint64_t sym_cfg(const char *n, uint64_t d) { auto it = cfg.find(n); return it == cfg.end() ? d : (uint64_t)it->second; }
uint64_t sym_part() { return sym_cfg("__part", 0); }
uint64_t sym_nparts() { return sym_cfg("__nparts", 1); }
int sym_is_symbolic(uint64_t) { return 0; }
int sym_valid(const void *, uint64_t) { return 1; }
int sym_thread_self() { return self; }
int sym_thread_new(void (*fn)(void *), void *arg) {
  int id = nth++;
  auto *s = new Start{fn, arg, id};
  pthread_t t;
  pthread_create(&t, nullptr, tmain, s);
  pthread_detach(t);
  return id;
}
void sym_switch(int t) {
  if (t == self) return;
  sem_post(&sems[t]);
  while (sem_wait(&sems[self])) {}
}
int sym_native() { return 1; }
void sym_hb(const void *, int) {}
}
// allocations beyond the limit fail, as in the engine
static void *limited(size_t n) {
  if (n > allocLimit) throw std::bad_alloc();
  void *p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  heapLive++;
  return p;
}
void *operator new(size_t n) { return limited(n); }
void *operator new[](size_t n) { return limited(n); }
static void *limitedOrNull(size_t n) {
  void *p = n > allocLimit ? nullptr : malloc(n ? n : 1);
  if (p) heapLive++;
  return p;
}
static void drop(void *p) {
  if (p) heapLive--;
  free(p);
}
void *operator new(size_t n, const std::nothrow_t &) noexcept { return limitedOrNull(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return limitedOrNull(n); }
void operator delete(void *p) noexcept { drop(p); }
void operator delete[](void *p) noexcept { drop(p); }
void operator delete(void *p, size_t) noexcept { drop(p); }
void operator delete[](void *p, size_t) noexcept { drop(p); }
typedef void (*EntryFn)();
extern "C" EntryFn rt_entry();
int main(int argc, char **argv) {
  setvbuf(stdout, nullptr, _IOLBF, 0);
  for (auto &s : sems) sem_init(&s, 0, 0);
  FILE *f = fopen(argv[1], "r");
  if (!f) { perror(argv[1]); return 3; }
  static char line[1 << 16];
  while (fgets(line, sizeof line, f)) {
    char a[512];
    long long v;
    if (line[0] == '#') {
      if (sscanf(line, "#cfg %500s %lld", a, &v) == 2) cfg[a] = v;
      if (!strncmp(line, "#end", 4)) break;
      continue;
    }
    // NAME WIDTH VALUE; the name may contain blanks
    std::string l(line);
    size_t e = l.find_last_not_of("\n "), v2 = e == std::string::npos ? e : l.rfind(' ', e), v1 = v2 == std::string::npos || !v2 ? std::string::npos : l.rfind(' ', v2 - 1);
    if (v1 == std::string::npos) continue;
    in.push_back({l.substr(0, v1), (unsigned)strtoul(l.c_str() + v1, nullptr, 10), strtoull(l.c_str() + v2, nullptr, 10)});
  }
  fclose(f);
  alarm((unsigned)60);
  rt_entry()();
  end("HELD", "entry returned normally", 0);
}
