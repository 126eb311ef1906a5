// Shared by the requester checks: a client that records what a requester sends.
#pragma once
#include "harness/P.h"
#include "maf/messaging/client-server/ClientIF.h"
#include "maf/messaging/client-server/Exceptions.h"
#include "maf/messaging/client-server/ServiceRequester.h"
struct RecordingClient : ClientIF {
  Log log;
  std::function<ActionCallStatus(const CSMessagePtr &)> outcome;
  ActionCallStatus sendMessageToServer(const CSMessagePtr &m) override {
    sym_assert(m->serviceID() == "svc", "messages name the service they are for");
    auto r = outcome ? outcome(m) : ActionCallStatus::Success;
    if (r == ActionCallStatus::Success) log.got.push_back({Address(), m->operationCode(), m->operationID(), m->requestID(), what(m->payload())});
    return r;
  }
  bool hasServiceRequester(const ServiceID &) override { return true; }
  ServiceRequesterIFPtr getServiceRequester(const ServiceID &) override { return {}; }
  Availability getServiceStatus(const ServiceID &) override { return Availability::Unavailable; }
  bool init(const Address &) override { return true; }
  bool start() override { return true; }
  void stop() override {}
  void deinit() override {}
  bool onIncomingMessage(const CSMessagePtr &) override { return false; }
  void onServiceStatusChanged(const ServiceID &, Availability, Availability) override {}
  void onServerStatusChanged(Availability, Availability) noexcept override {}
};
static const auto UP = Availability::Available, DOWN = Availability::Unavailable, UNKNOWN = Availability::Unknown;
static CSMessagePtr answer(const char *op, OpCode code, RequestID id, const CSPayloadIFPtr &p, const char *sid = "svc") { return createCSMessage(sid, op, code, id, p, Address()); }
static void up(ServiceRequester &r) { r.onServiceStatusChanged("svc", DOWN, UP); }
static void down(ServiceRequester &r) { r.onServiceStatusChanged("svc", UP, DOWN); }
