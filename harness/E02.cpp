// E02: errors keep their code and description.
#include "rt/sym.h"
#include <memory>
#include <sstream>
#include <string>
#include "maf/messaging/client-server/CSError.h"
#include "maf/messaging/client-server/ipc/LocalIPCMessage.h"
using namespace maf::messaging;
static std::string str(size_t maxLen, const char *n) {
  size_t len = sym_len(maxLen, "len");
  std::string s;
  for (size_t i = 0; i < len; i++) s.push_back((char)sym_u8(n));
  return s;
}
static CSErrorCode code(const char *n) { return (CSErrorCode)sym_u8(n); }
static bool same(const std::string &a, const std::string &b) {
  if (a.size() != b.size()) return false;
  bool r = true;
  for (size_t i = 0; i < a.size(); i++) r = r & (a[i] == b[i]);
  return r;
}
SYM_ENTRY e02_object() {
  size_t L = sym_cfg("len", 3);
  auto d = str(L, "d"), d2 = str(L, "d2");
  auto c = code("c"), c2 = code("c2");
  CSError e(d, c), f(d2, c2);
  sym_assert(same(e.description(), d) && e.code() == c && e.type() == CSPayloadType::Error, "an error reports what it was created with");
  bool eq = same(d, d2) & (c == c2);
  sym_assert(e.equal(&f) == eq && f.equal(&e) == eq, "errors are equal exactly when code and description are");
  sym_assert(e.equal(&e) && !e.equal(nullptr), "an error equals itself and not nothing");
  std::unique_ptr<CSMsgPayloadIF> k{e.clone()};
  sym_assert(k->type() == CSPayloadType::Error && k->equal(&e) && e.equal(k.get()), "a clone is equal");
  auto *ke = static_cast<CSError *>(k.get());
  ke->setCode(c2);
  ke->setDescription(d2);
  sym_assert(same(ke->description(), d2) && ke->code() == c2, "code and description can be changed");
  sym_assert(same(e.description(), d) && e.code() == c, "changing a clone leaves the original alone");
  std::unique_ptr<CSMsgPayloadIF> k2{ke->clone()};
  k.reset();
  sym_assert(k2->equal(&f), "a clone outlives its original");
  CSError def;
  sym_assert(def.code() == CSErrorCode::Unknown && def.description().empty(), "a default error is unknown and undescribed");
  sym_cover("end");
}
struct Other : CSMsgPayloadIF {
  CSPayloadType t;
  CSPayloadType type() const override { return t; }
  bool equal(const CSMsgPayloadIF *) const override { return true; }
  CSMsgPayloadIF *clone() const override { return nullptr; }
  void dump(std::ostream &) const override {}
};
SYM_ENTRY e02_other() {
  CSError e("x", CSErrorCode::Unknown);
  Other o;
  o.t = (CSPayloadType)sym_u8("t");
  sym_assume(o.t != CSPayloadType::Error);
  sym_assert(!e.equal(&o), "an error is not equal to another kind of payload");
  sym_cover("end");
}
SYM_ENTRY e02_transport() {
  size_t L = sym_cfg("len", 3);
  auto d = str(L, "d");
  auto c = code("c");
  ipc::local::LocalIPCMessage m("sid", "op", OpCode::Request, 3, std::make_shared<CSError>(d, c)), r;
  sym_assert(r.fromBytes(m.toBytes()), "a transported error decodes");
  sym_assert(r.payload() && r.payload()->type() == CSPayloadType::Error, "a transported error is an error");
  auto *e = static_cast<CSError *>(r.payload().get());
  sym_assert(same(e->description(), d) && e->code() == c && r.payload()->equal(m.payload().get()), "a transported error keeps code and description");
  sym_cover("end");
}
