// A01: comparisons form a strict weak order that agrees with equality.
#include "rt/sym.h"
#include <map>
#include <memory>
#include <set>
#include <string>
#include <tuple>
#include <vector>
#include "maf/messaging/client-server/Address.h"
#include "maf/messaging/client-server/RegID.h"
#include "maf/utils/cppextension/AggregateCompare.h"
#include "maf/utils/serialization/SerializableObjectBegin.mc.h"
using namespace maf::messaging;
static std::string str(size_t maxLen, const char *n) {
  size_t len = sym_len(maxLen, "len");
  std::string s;
  for (size_t i = 0; i < len; i++) s.push_back((char)sym_u8(n));
  return s;
}
// ref(a,b): <0, 0, >0 by the reference order of the same fields
template <class T, class Eq> void laws(const T &a, const T &b, const T &c, Eq same) {
  bool ab = a < b, ba = b < a, bc = b < c, cb = c < b, ac = a < c, ca = c < a;
  bool eab = a == b, ebc = b == c, eac = a == c;
  sym_assert(!(a < a), "nothing is less than itself");
  sym_assert(a == a, "everything equals itself");
  sym_assert(!(ab & ba), "two values are not both less than each other");
  sym_assert((int)ab + (int)ba + (int)eab == 1, "exactly one of less, greater, equal holds");
  sym_assert(!(ab & bc) | ac, "less is transitive");
  sym_assert(!(!ab & !ba & !bc & !cb) | (!ac & !ca), "incomparability is transitive");
  sym_assert(!(eab & ebc) | eac, "equality is transitive");
  sym_assert(eab == (b == a), "equality is symmetric");
  sym_assert((a != b) == !eab, "not-equal is the negation of equal");
  sym_assert(eab == same(a, b), "equal means equal fields");
}
static bool sameStr(const std::string &a, const std::string &b) {
  if (a.size() != b.size()) return false;
  bool r = true;
  for (size_t i = 0; i < a.size(); i++) r = r & (a[i] == b[i]);
  return r;
}
SYM_ENTRY a01_address() {
  size_t L = sym_cfg("len", 1);
  Address a(str(L, "a"), sym_u16("pa")), b(str(L, "b"), sym_u16("pb")), c(str(L, "c"), sym_u16("pc"));
  laws(a, b, c, [](const Address &x, const Address &y) { return sameStr(x.get_name(), y.get_name()) & (x.get_port() == y.get_port()); });
  sym_assert(a.valid() == (!a.get_name().empty() || a.get_port() != Address::INVALID_PORT), "an address is invalid exactly when name and port are");
  Address d(a);
  sym_assert(d == a && !(d < a) && !(a < d), "a copy is the same address");
  sym_cover("end");
}
SYM_ENTRY a01_regid() {
  size_t L = sym_cfg("len", 1);
  auto mk = [&](const char *n) { RegID r; r.requestID = sym_u64(n); r.opID = str(L, n); return r; };
  RegID a = mk("a"), b = mk("b"), c = mk("c");
  laws(a, b, c, [](const RegID &x, const RegID &y) { return (x.requestID == y.requestID) & sameStr(x.opID, y.opID); });
  bool v = a.valid();
  sym_assert(v == ((a.requestID != (uint64_t)-1) & !a.opID.empty()), "an identifier is valid exactly when number and operation are");
  RegID k = a, m = std::move(a);
  sym_assert(m == k, "moving hands over the identifier");
  sym_assert(!a.valid(), "a moved-from identifier is invalid");
  RegID n;
  sym_assert(!n.valid(), "a default identifier is invalid");
  n = std::move(m);
  sym_assert(n == k && !m.valid(), "move assignment hands over the identifier");
  n.clear();
  sym_assert(!n.valid(), "a cleared identifier is invalid");
  sym_cover("end");
}
// sets and maps keyed by them neither lose nor duplicate entries
template <class T, class Mk> void keyed(Mk mk) {
  int n = (int)sym_cfg("keys", 3);
  std::vector<T> ks;
  for (int i = 0; i < n; i++) ks.push_back(mk());
  std::map<T, int> m;
  std::set<T> s;
  for (int i = 0; i < n; i++) { m[ks[i]] = i; s.insert(ks[i]); }
  int distinct = 0;
  for (int i = 0; i < n; i++) {
    int last = i;
    bool first = true;
    for (int j = 0; j < n; j++) if (ks[j] == ks[i]) { last = j; if (j < i) first = false; }
    if (first) distinct++;
    auto it = m.find(ks[i]);
    sym_assert(it != m.end() && it->second == last, "a map finds every key with its latest value");
    sym_assert(s.count(ks[i]) == 1, "a set contains every inserted key");
  }
  sym_assert((int)m.size() == distinct && (int)s.size() == distinct, "no entry is lost or duplicated");
  T k = ks[0];
  sym_assert(m.erase(k) == 1 && m.find(k) == m.end() && (int)m.size() == distinct - 1, "erasing removes exactly that key");
  sym_cover("end");
}
SYM_ENTRY a01_address_keys() { keyed<Address>([] { return Address(str(1, "n"), sym_u16("p")); }); }
SYM_ENTRY a01_regid_keys() { keyed<RegID>([] { RegID r; r.requestID = sym_u64("id"); r.opID = str(1, "op"); return r; }); }
// memberwise comparison of plain aggregates
struct Flat { int32_t a; uint8_t b; std::string s; };
MC_MAF_MAKE_COMPARABLE(Flat)
struct In { uint8_t x; int16_t y; };
struct Nest { In i; uint8_t k; };
MC_MAF_MAKE_COMPARABLE(Nest)
template <class T> void all6(const T &a, const T &b) {
  bool lt = a < b, eq = a == b;
  sym_assert((a > b) == (b < a), "greater is less the other way round");
  sym_assert((a <= b) == (lt | eq), "less-or-equal is less or equal");
  sym_assert((a >= b) == !lt, "greater-or-equal is not less");
}
SYM_ENTRY a01_aggregate_flat() {
  auto mk = [](const char *n) { Flat f; f.a = sym_i32(n); f.b = sym_u8(n); f.s = str(1, n); return f; };
  Flat a = mk("a"), b = mk("b"), c = mk("c");
  laws(a, b, c, [](const Flat &x, const Flat &y) { return (x.a == y.a) & (x.b == y.b) & sameStr(x.s, y.s); });
  all6(a, b);
  int sc = a.s.compare(b.s);
  bool ref = (a.a < b.a) | ((a.a == b.a) & ((a.b < b.b) | ((a.b == b.b) & (sc < 0))));
  sym_assert((a < b) == ref, "members compare in declaration order");
  sym_cover("end");
}
SYM_ENTRY a01_aggregate_nested() {
  auto mk = [](const char *n) { Nest f; f.i.x = sym_u8(n); f.i.y = (int16_t)sym_u16(n); f.k = sym_u8(n); return f; };
  Nest a = mk("a"), b = mk("b"), c = mk("c");
  laws(a, b, c, [](const Nest &x, const Nest &y) { return (x.i.x == y.i.x) & (x.i.y == y.i.y) & (x.k == y.k); });
  all6(a, b);
  bool ref = (a.i.x < b.i.x) | ((a.i.x == b.i.x) & ((a.i.y < b.i.y) | ((a.i.y == b.i.y) & (a.k < b.k))));
  sym_assert((a < b) == ref, "members compare in declaration order, outer before inner");
  sym_cover("end");
}
// objects declared with the library's object macros
OBJECT(Obj)
  MEMBERS((uint16_t, num), (std::string, name), (uint8_t, flag))
ENDOBJECT(Obj)
#include "maf/utils/serialization/SerializableObjectEnd.mc.h"
SYM_ENTRY a01_object() {
  auto mk = [](const char *n) { uint16_t a = sym_u16(n); std::string s = str(1, n); uint8_t f = sym_u8(n); return Obj(a, s, f); };
  Obj a = mk("a"), b = mk("b"), c = mk("c");
  laws(a, b, c, [](const Obj &x, const Obj &y) { return (x.get_num() == y.get_num()) & sameStr(x.get_name(), y.get_name()) & (x.get_flag() == y.get_flag()); });
  sym_cover("end");
}
