// S01: what is written is read back equal, whatever the destination held, consuming exactly the bytes written.
#include "harness/ser.h"

template <class T> void roundtrip() {
  T v = gen<T>();
  OByteStream os;
  serialize(os, v);
  sym_assert(os.good() && !os.fail(), "the output stream stays good");
  uint8_t tail = sym_u8("tail");           // something follows in the stream
  serialize(os, tail);
  size_t total = os.bytes().size();
  IByteStream is(os.bytes());
  T d = fresh<T>();
  if constexpr (!std::is_pointer_v<T>) { if (sym_choice(2, "used")) d = gen<T>(); }   // previous content
  bool ok = deserialize(is, d);
  sym_assert(ok, "reading back what was written reports success");
  sym_assert(same(v, d), "the value read back equals the value written");
  sym_assert(is.readingPos() == total - 1, "reading consumes exactly the bytes written");
  uint8_t t2 = 0;
  sym_assert(deserialize(is, t2) && t2 == tail, "the value written next is read back next");
  sym_assert(is.eof() && !is.fail(), "everything was consumed");
  dispose(v);
  dispose(d);
  sym_cover("end");
}
template <class L> void all() { MAXLEN = sym_cfg("len", 2); L::each(sym_choice(L::n, "type"), [](auto t) { roundtrip<typename decltype(t)::type>(); }); }
SYM_ENTRY s01_scalars() { all<Scalars>(); }
SYM_ENTRY s01_strings() { all<Strings>(); }
SYM_ENTRY s01_sequences() { all<Seqs>(); }
SYM_ENTRY s01_associative() { all<Assocs>(); }
SYM_ENTRY s01_products() { all<Products>(); }
SYM_ENTRY s01_pointers() { all<Ptrs>(); }
SYM_ENTRY s01_variants() { all<Variants>(); }

// several values of different types one after another, through the stream operators
SYM_ENTRY s01_mixed() {
  MAXLEN = sym_cfg("len", 2);
  OByteStream os;
  SR sr(os);
  auto a = gen<uint32_t>(); auto b = gen<std::string>(); auto c = gen<std::vector<uint16_t>>(); auto d = gen<Agg>();
  sr << a << b << c << d;
  sr.serializeBatch(a, b);
  IByteStream is(os.bytes());
  uint32_t a2; std::string b2 = gen<std::string>(); std::vector<uint16_t> c2; Agg d2{};
  DSR ds(is);
  ds >> a2 >> b2 >> c2 >> d2;
  sym_assert((a == a2) & (b == b2) & (c == c2) & (d == d2), "values written one after another are read back one after another");
  std::tuple<uint32_t, std::string> t;
  ds >> t;
  sym_assert((std::get<0>(t) == a) & (std::get<1>(t) == b), "a batch is read back as the tuple of its values");
  sym_assert(is.eof(), "everything was consumed");
  bool thrown = false;
  uint8_t more;
  try { ds >> more; } catch (const std::runtime_error &) { thrown = true; }
  sym_assert(thrown, "reading past the end is reported");
  sym_cover("end");
}

// declared objects: members start with their declared defaults, and hold what they are given
SYM_ENTRY s01_declared() {
  MAXLEN = sym_cfg("len", 2);
  auto num = gen<uint16_t>(); auto name = gen<std::string>(); auto list = gen<std::vector<uint8_t>>(); bool flag = gen<bool>();
  int given = (int)sym_choice(5, "given");
  Declared d = given == 0 ? Declared() : given == 1 ? Declared(num) : given == 2 ? Declared(num, name) : given == 3 ? Declared(num, name, list) : Declared(num, name, list, flag);
  sym_assert(d.get_num() == (given > 0 ? num : 7) && d.get_name() == (given > 1 ? name : std::string()) && d.get_list() == (given > 2 ? list : std::vector<uint8_t>()), "members are what they were declared or given");
  if (given > 3) sym_assert(d.get_flag() == flag, "members are what they were given");
  Declared e(num, name, list, flag);
  switch (sym_choice(3, "way")) {
    case 0: d.set_num(num); d.set_name(name); d.set_list(list); d.set_flag(flag); break;
    case 1: d.set_all(num, name, list, flag); break;
    case 2: d.get_num() = num; d.set_name(std::string(name)); d.get_list() = list; d.get_flag() = flag; break;
  }
  sym_assert((d == e) & !(d != e) & !(d < e) & !(e < d), "objects with equal members are equal");
  sym_assert((d.get_num() == num) & (d.get_name() == name) & (d.get_list() == list) & (d.get_flag() == flag), "a member holds what it was last given");
  Declared f(e);
  uint16_t n2 = gen<uint16_t>();
  f.set_num(n2);
  sym_assert((f == e) == (n2 == num), "objects that differ in a member are not equal");
  sym_assert(e.get_num() == num, "changing a copy leaves the original alone");
  sym_cover("end");
}
