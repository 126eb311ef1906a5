// I01: messages survive transport; bytes that are not a message are refused.
#include "rt/sym.h"
#include <cstring>
#include <memory>
#include <string>
#include <vector>
#include "maf/messaging/client-server/CSError.h"
#include "maf/messaging/client-server/ipc/LocalIPCMessage.h"
#include "maf/messaging/client-server/ipc/local/ParamTrait.h"
using namespace maf::messaging;
using namespace maf::messaging::ipc::local;
static std::string str(size_t maxLen, const char *n) {
  size_t len = sym_len(maxLen, "len");
  std::string s;
  for (size_t i = 0; i < len; i++) s.push_back((char)sym_u8(n));
  return s;
}
static bool same(const std::string &a, const std::string &b) {
  if (a.size() != b.size()) return false;
  bool r = true;
  for (size_t i = 0; i < a.size(); i++) r = r & (a[i] == b[i]);
  return r;
}
struct Header {
  std::string sid, op, name;
  OpCode code;
  uint64_t rid;
  uint16_t port;
  bool matches(const CSMessage &m) const {
    return same(m.serviceID(), sid) && same(m.operationID(), op) && same(m.sourceAddress().get_name(), name) && (m.operationCode() == code) & (m.requestID() == rid) & (m.sourceAddress().get_port() == port);
  }
};
static Header header(size_t L) { return {str(L, "sid"), str(L, "op"), str(L, "name"), (OpCode)sym_u8("code"), sym_u64("rid"), sym_u16("port")}; }
static LocalIPCMessage make(const Header &h, CSPayloadIFPtr p) { return LocalIPCMessage(h.sid, h.op, h.code, h.rid, std::move(p), Address(h.name, h.port)); }
// a message that already carries something, so that half filled results show
static LocalIPCMessage dirty() { return LocalIPCMessage("old service", "old op", OpCode::Abort, 77, std::make_shared<CSError>("old", CSErrorCode::RequestTimeout), Address("old name", 9)); }
template <class T> bool eq(const T &a, const T &b) { return a == b; }
static bool eq(const std::string &a, const std::string &b) { return same(a, b); }
static bool eq(const std::vector<uint16_t> &a, const std::vector<uint16_t> &b) {
  if (a.size() != b.size()) return false;
  bool r = true;
  for (size_t i = 0; i < a.size(); i++) r = r & (a[i] == b[i]);
  return r;
}
template <class T> void content(const Header &h, T v) {
  auto p = std::make_shared<T>(v);
  auto m = make(h, ParamTrait::translate(p));
  LocalIPCMessage r = dirty();
  sym_assert(r.fromBytes(m.toBytes()), "an encoded message decodes");
  sym_assert(h.matches(r), "header fields survive transport");
  sym_assert(r.payload() && r.payload()->type() == CSPayloadType::IncomingData, "a transported value arrives as incoming data");
  for (int k = 0; k < 2; k++) {          // a payload can be read by every observer
    TranslationStatus st = TranslationStatus::DestSrcMismatch;
    auto q = ParamTrait::translate<T>(k ? CSPayloadIFPtr(r.payload()->clone()) : r.payload(), &st);
    sym_assert(st == TranslationStatus::Success && q && eq(*q, v), "the payload survives transport, and reading it does not use it up");
  }
  sym_assert(h.matches(m) && m.payload() && m.payload()->type() == CSPayloadType::OutgoingData, "sending a message leaves it as it was");
  LocalIPCMessage again = dirty();
  sym_assert(again.fromBytes(m.toBytes()) && h.matches(again), "a message can be sent to several receivers");
}
SYM_ENTRY i01_round_trip() {
  size_t L = sym_cfg("len", 2);
  Header h = header(L);
  switch (sym_choice(5, "payload")) {
    case 0: content<uint32_t>(h, sym_u32("v")); break;
    case 1: content<std::string>(h, str(L, "v")); break;
    case 2: {
      std::vector<uint16_t> v;
      for (size_t i = 0, n = sym_len(L, "n"); i < n; i++) v.push_back(sym_u16("v"));
      content<std::vector<uint16_t>>(h, v);
      break;
    }
    case 3: {
      auto m = make(h, {});
      LocalIPCMessage r = dirty();
      sym_assert(r.fromBytes(m.toBytes()) && h.matches(r), "a message without payload survives transport");
      sym_assert(r.payload() && r.payload()->type() == CSPayloadType::IncomingData, "no payload arrives as no bytes");
      auto &s = static_cast<IncomingPayload *>(r.payload().get())->stream();
      sym_assert(s && s->bytes().size() == s->readingPos(), "no payload arrives as no bytes");
      break;
    }
    case 4: {
      auto d = str(L, "desc");
      auto c = (CSErrorCode)sym_u8("ec");
      auto m = make(h, std::make_shared<CSError>(d, c));
      LocalIPCMessage r = dirty();
      sym_assert(r.fromBytes(m.toBytes()) && h.matches(r), "an error survives transport");
      sym_assert(r.payload() && r.payload()->type() == CSPayloadType::Error, "an error arrives as an error");
      auto e = static_cast<CSError *>(r.payload().get());
      sym_assert(same(e->description(), d) && e->code() == c, "an error keeps code and description");
    }
  }
  sym_cover("end");
}
// every strict prefix of the header (and of an error payload) is refused, and the message is left as it was
static void refused(LocalIPCMessage &r) {
  Header old{"old service", "old op", "old name", OpCode::Abort, 77, 9};
  sym_assert(old.matches(r) && r.payload() && r.payload()->type() == CSPayloadType::Error, "a refused message is not half filled in");
}
SYM_ENTRY i01_truncated() {
  Header h = header(sym_cfg("len", 1));
  bool err = sym_choice(2, "error");
  CSPayloadIFPtr p;
  if (err) p = std::make_shared<CSError>(str(1, "desc"), (CSErrorCode)sym_u8("ec"));
  auto m = make(h, p);
  auto bytes = m.toBytes();
  size_t cut = sym_choice(bytes.size(), "cut");
  maf::srz::Buffer b;
  b.assign(bytes.data(), cut);
  LocalIPCMessage r = dirty();
  sym_assert(!r.fromBytes(std::move(b)), "an incomplete message is refused");
  refused(r);
  // a value that was cut short is reported when it is read
  auto v = std::make_shared<std::string>("abc");
  auto full = make(h, ParamTrait::translate(v)).toBytes();
  auto none = make(h, {}).toBytes();
  size_t cut2 = none.size() + sym_choice(full.size() - none.size(), "cut");
  b.assign(full.data(), cut2);
  LocalIPCMessage q;
  sym_assert(q.fromBytes(std::move(b)), "the header is complete");
  TranslationStatus st = TranslationStatus::Success;
  ParamTrait::translate<std::string>(q.payload(), &st);
  sym_assert(st != TranslationStatus::Success, "a payload that was cut short is not reported as good");
  sym_cover("end");
}
// any bytes: refused, or a message whose encoding is a prefix of the bytes
SYM_ENTRY i01_bytes() {
  size_t n = sym_len(sym_cfg("bytes", 6), "n");
  static const uint8_t frame[] = {0, 0, 0, 0, 0, 0, 0, 0, 4, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 5, 0};
  // bytes from one position on are arbitrary, the ones before are a well formed start
  size_t fixed = sym_choice(sizeof(frame) + 1, "from");
  std::string s((const char *)frame, fixed);
  for (size_t i = 0; i < n; i++) s.push_back((char)sym_u8("byte"));
  maf::srz::Buffer b;
  b.assign(s.data(), s.size());
  b.shrink_to_fit();
  LocalIPCMessage r = dirty();
  sym_alloc_limit(4096);
  bool ok = r.fromBytes(std::move(b));
  sym_alloc_limit(1 << 24);
  if (!ok) {
    refused(r);
    sym_cover("refused");
    return;
  }
  sym_cover("accepted");
  auto p = r.payload();
  sym_assert(!!p, "a decoded message has a payload");
  if (p->type() == CSPayloadType::Error) {
    auto again = r.toBytes();
    sym_assert(again.size() <= s.size() && same(std::string(again.data(), again.size()), s.substr(0, again.size())), "what is accepted is a message's own encoding");
  } else {
    auto st = static_cast<IncomingPayload *>(p.get())->stream();
    sym_assert(st && !st->fail() && st->readingPos() <= s.size(), "a decoded header was complete");
    LocalIPCMessage bare(r.serviceID(), r.operationID(), r.operationCode(), r.requestID(), nullptr, r.sourceAddress());
    auto again = bare.toBytes();
    sym_assert(again.size() == st->readingPos() && same(std::string(again.data(), again.size() - 1), s.substr(0, again.size() - 1)), "what is accepted is a message's own encoding");
  }
}
