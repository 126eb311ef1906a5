// Shared by the service checks: a server that records what a provider sends.
#pragma once
#include "rt/sym.h"
#include <functional>
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include "maf/messaging/client-server/CSError.h"
#include "maf/messaging/client-server/ServerIF.h"
#include "maf/messaging/client-server/itc/Payload.h"
using namespace maf::messaging;
// any way in which sending may fail
static inline ActionCallStatus anyFailure() {
  uint8_t v = sym_u8("failure");
  sym_assume(v >= (uint8_t)ActionCallStatus::ServiceUnavailable && v <= (uint8_t)ActionCallStatus::FailedUnknown && v != (uint8_t)ActionCallStatus::NoAction);
  return (ActionCallStatus)v;
}
using Pay = itc::Payload<uint32_t>;
static CSPayloadIFPtr pay(uint32_t v) { return std::make_shared<Pay>(CSPayloadType::OutgoingData, std::make_shared<uint32_t>(v)); }
static CSPayloadIFPtr fault(uint32_t v) { return std::make_shared<CSError>("fault", (CSErrorCode)(char)v); }
// kinds of payload: none, value, error
struct What {
  int kind = 0;
  uint32_t v = 0;
  CSPayloadIFPtr make() const { return kind == 0 ? nullptr : kind == 1 ? pay(v) : fault(v); }
};
static What what(const CSPayloadIFPtr &p) {
  if (!p) return {};
  if (p->type() == CSPayloadType::Error) return {2, (uint8_t)static_cast<CSError *>(p.get())->code()};
  return {1, *static_cast<Pay *>(p.get())->content()};
}
struct Sent {
  Address to;
  OpCode code;
  OpID op;
  RequestID id;
  What w;
  bool isValue = true;     // false: any error is as good
};
static bool equals(const Sent &a, const Sent &b) {
  if (!(a.to == b.to) || a.code != b.code || a.op != b.op || a.w.kind != b.w.kind) return false;
  return (a.id == b.id) & (!b.isValue | (a.w.kind == 0) | (a.w.kind == 2 ? (uint8_t)a.w.v == (uint8_t)b.w.v : a.w.v == b.w.v));
}
struct Log {
  std::vector<Sent> got;
  size_t at = 0;
  // what was sent since the last look is exactly that, in that order
  void expect(const std::vector<Sent> &w, const char *msg) {
    sym_assert(got.size() - at == w.size(), msg);
    bool ok = true;
    for (size_t i = 0; i < w.size(); i++) ok = ok & equals(got[at + i], w[i]);
    sym_assert(ok, msg);
    at = got.size();
  }
  // the same in any order between different receivers
  void expectSet(const std::vector<Sent> &w, const char *msg) {
    sym_assert(got.size() - at == w.size(), msg);
    std::vector<bool> used(w.size());
    for (size_t i = at; i < got.size(); i++) {
      size_t j = 0;
      while (j < w.size() && (used[j] || !(w[j].to == got[i].to) || w[j].op != got[i].op)) j++;
      sym_assert(j < w.size(), msg);
      used[j] = true;
      sym_assert(equals(got[i], w[j]), msg);
    }
    at = got.size();
  }
};
struct RecordingServer : ServerIF {
  Log log;
  std::function<ActionCallStatus(const Address &)> outcome;
  std::vector<std::pair<ServiceID, std::pair<Availability, Availability>>> status;
  ActionCallStatus sendMessageToClient(const CSMessagePtr &m, const Address &to) override {
    auto r = outcome ? outcome(to) : ActionCallStatus::Success;
    if (r == ActionCallStatus::Success) log.got.push_back({to, m->operationCode(), m->operationID(), m->requestID(), what(m->payload())});
    return r;
  }
  ServiceProviderIFPtr getServiceProvider(const ServiceID &) override { return {}; }
  bool hasServiceProvider(const ServiceID &) override { return true; }
  bool init(const Address &) override { return true; }
  bool start() override { return true; }
  void stop() override {}
  void deinit() override {}
  bool onIncomingMessage(const CSMessagePtr &) override { return false; }
  void onServiceStatusChanged(const ServiceID &s, Availability o, Availability n) override { status.push_back({s, {o, n}}); }
};
