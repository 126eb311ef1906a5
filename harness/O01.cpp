// O01: a message reaches exactly the sink of its level, whole and once, if and only if its level is enabled.
#include "rt/sym.h"
#include <string>
#include <thread>
#include <vector>
#include "maf/logging/Logger.h"
using namespace maf::logging;
namespace {
struct Rec { int sink; std::string text; };
std::vector<Rec> seen;
auto sink(int k) { return [k](const std::string &s) { seen.push_back({k, s}); }; }
const LogLevel Lv[6] = {LOG_LEVEL_INFO, LOG_LEVEL_WARN, LOG_LEVEL_ERROR, LOG_LEVEL_FATAL, LOG_LEVEL_DEBUG, LOG_LEVEL_VERBOSE};
const char *Name[6] = {"INFO", "WARN", "ERROR", "FATAL", "DEBUG", "VERBOSE"};
bool toOut(int i) { return i == 0 || i == 4 || i == 5; }
LogLevel someLevels() { return (LogLevel)(sym_u8("levels") & 63); }
int evaluated;
char arg(char c) { evaluated++; return c; }
void say(int i, bool macro, char c) {
  if (macro)
    switch (i) {
      case 0: MAF_LOGGER_INFO("say", arg(c)); break;
      case 1: MAF_LOGGER_WARN("say", arg(c)); break;
      case 2: MAF_LOGGER_ERROR("say", arg(c)); break;
      case 3: MAF_LOGGER_FATAL("say", arg(c)); break;
      case 4: MAF_LOGGER_DEBUG("say", arg(c)); break;
      case 5: MAF_LOGGER_VERBOSE("say", arg(c)); break;
    }
  else
    switch (i) {
      case 0: info("say", c); break;
      case 1: warn("say", c); break;
      case 2: error("say", c); break;
      case 3: fatal("say", c); break;
      case 4: debug("say", c); break;
      case 5: verbose("say", c); break;
    }
}
bool asked(int i) { return i == 0 ? infoAllowed() : i == 1 ? warnAllowed() : i == 2 ? errorAllowed() : i == 3 ? fatalAllowed() : i == 4 ? debugAllowed() : verboseAllowed(); }
}
// every short history of changes of levels and sinks, a message of any level after each
SYM_ENTRY o01_model() {
  LogLevel mask = 0;
  int out = -1, err = -1;    // -1: nobody listens
  int ops = (int)sym_cfg("ops", 2);
  for (int k = 0; k < ops; k++) {
    switch (sym_choice(5, "op")) {
      case 0: {
        bool o = sym_choice(2, "out"), e = sym_choice(2, "err");
        mask = someLevels();
        init(mask, o ? LoggingFunctionType(sink(2 * k)) : LoggingFunctionType(), e ? LoggingFunctionType(sink(2 * k + 1)) : LoggingFunctionType());
        if (o) out = 2 * k;
        err = e ? 2 * k + 1 : out;
        sym_cover("init");
        break;
      }
      case 1: mask = someLevels(); changeLogLevels(mask); break;
      case 2: { auto l = someLevels(); enable(l); mask |= l; sym_cover("enable"); break; }
      case 3: { auto l = someLevels(); disable(l); mask &= (LogLevel)~l; sym_cover("disable"); break; }
      case 4: stopLogging(); mask = 0; break;
    }
    for (int i = 0; i < 6; i++) {
      sym_assert(allowed(Lv[i]) == ((mask & Lv[i]) != 0), "a level is allowed exactly when it was enabled last");
      sym_assert(asked(i) == allowed(Lv[i]), "asking for one level answers for that level");
    }
  }
  int i = (int)sym_choice(6, "level");
  bool macro = sym_choice(2, "macro");
  char c = (char)sym_u8("c");
  seen.clear();
  evaluated = 0;
  bool on = (mask & Lv[i]) != 0;
  say(i, macro, c);
  int dest = toOut(i) ? out : err;
  if (!on || dest < 0) {
    sym_assert(seen.empty(), "a message whose level is off reaches no sink");
    sym_assert(on || evaluated == 0, "a message whose level is off is not made");
    sym_cover("silent");
    return;
  }
  sym_assert(seen.size() == 1, "a message whose level is on reaches one sink once");
  sym_assert(seen[0].sink == dest, "informative messages reach the output sink, the others the error sink");
  sym_assert(!macro || evaluated == 1, "a message is made once");
  std::string want = Name[i];
  while (want.size() < 8) want += ' ';
  want += ":    say";
  const std::string &got = seen[0].text;
  bool ok = got.size() > want.size() && got.compare(0, want.size(), want) == 0;
  sym_assert(ok && got[want.size()] == c, "a message arrives whole, under its level");
  bool where = got.find("O01.cpp:") != std::string::npos;
  sym_assert(where == (macro && (i == 4 || (mask & LOG_LEVEL_DEBUG))), "places are told exactly while debugging");
  sym_assert(where || got.size() == want.size() + 1, "nothing is added to a message");
  sym_cover("logged");
}
// levels changed by two threads at once: no change is lost; a message of a level nobody touches is never lost
SYM_ENTRY o01_threads() {
  rt_set_preempt((int)sym_cfg("preempt", 2));
  LogLevel m = someLevels(), a = someLevels(), b = someLevels();
  sym_assume(!(a & b));
  init(m, sink(0), sink(1));
  bool ea = sym_choice(2, "a"), eb = sym_choice(2, "b");
  std::thread t([&] { ea ? enable(a) : disable(a); });
  eb ? enable(b) : disable(b);
  t.join();
  m = ea ? (m | a) : (m & ~a);
  m = eb ? (m | b) : (m & ~b);
  sym_assert(allowed(255) == (m != 0), "some level is allowed exactly when one is enabled");
  for (int i = 0; i < 6; i++) sym_assert(allowed(Lv[i]) == ((m & Lv[i]) != 0), "changes of levels by two threads both take effect");
  sym_cover("end");
}
