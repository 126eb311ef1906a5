// Shared by the checks of typed proxies and stubs: a contract, and an in-process wire for the local transport.
#pragma once
#include "rt/sym.h"
#include <condition_variable>
#include <deque>
#include <functional>
#include <future>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
#include <maf/ITCProxy.h>
#include <maf/ITCStub.h>
#include <maf/LocalIPCProxy.h>
#include <maf/LocalIPCStub.h>
#include <maf/Messaging.h>
#include <maf/messaging/client-server/ServiceStatusSignal.h>
#include <maf/utils/DirectExecutor.h>
#include <maf/messaging/client-server/CSContractDefinesBegin.mc.h>
REQUEST(sum)
INPUT((uint32_t, a), (std::string, s))
OUTPUT((uint32_t, r), (std::string, s))
ENDREQUEST(sum)
VOID_REQUEST(poke)
PROPERTY(level)
STATUS((uint32_t, v), (std::string, s))
ENDPROPERTY(level)
PROPERTY(other)
STATUS((uint32_t, v))
ENDPROPERTY(other)
SIGNAL(beep)
ATTRIBUTES((uint32_t, v), (std::string, s))
ENDSIGNAL(beep)
VOID_SIGNAL(tick)
#include <maf/messaging/client-server/CSContractDefinesEnd.mc.h>
using namespace maf::messaging;
static bool same(const std::string &a, const std::string &b) {
  if (a.size() != b.size()) return false;
  bool r = true;
  for (size_t i = 0; i < a.size(); i++) r = r & (a[i] == b[i]);
  return r;
}
static std::string text(const char *n) {
  std::string s;
  for (size_t k = sym_len(sym_cfg("len", 1), n); k--;) s.push_back((char)sym_u8(n));
  return s;
}
