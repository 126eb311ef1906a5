// D01: the text dump of a value states each of its parts once, in order, in the documented layout.
#include "harness/ser.h"
#include "maf/utils/serialization/Dumper.h"
#include "maf/utils/serialization/AggregateDump.h"
#include "maf/utils/serialization/VariantDump.h"
#include "maf/utils/serialization/SerializableObjectBegin.mc.h"
OBJECT(DObj)
  MEMBERS((uint8_t, num), (std::string, name), (std::vector<uint8_t>, list))
ENDOBJECT(DObj)
#include "maf/utils/serialization/SerializableObjectEnd.mc.h"

// what was written: characters, and numbers as values (how a number is spelled is the stream's business)
struct Tok { int kind; uint64_t v; };
struct Sink {
  std::vector<Tok> t;
  void text(const char *s, size_t n) { for (size_t i = 0; i < n; i++) t.push_back({0, (uint8_t)s[i]}); }
};
inline Sink &operator<<(Sink &s, char c) { s.t.push_back({0, (uint8_t)c}); return s; }
inline Sink &operator<<(Sink &s, const char *c) { s.text(c, strlen(c)); return s; }
inline Sink &operator<<(Sink &s, std::string_view v) { s.text(v.data(), v.size()); return s; }
inline Sink &operator<<(Sink &s, const std::string &v) { s.text(v.data(), v.size()); return s; }
template <class T> std::enable_if_t<std::is_arithmetic_v<T>, Sink &> operator<<(Sink &s, T v) {
  uint64_t b = 0;
  if constexpr (std::is_floating_point_v<T>) { memcpy(&b, &v, sizeof v); s.t.push_back({100 + (int)sizeof v, b}); }
  else s.t.push_back({1, (uint64_t)v});
  return s;
}

template <class T> struct IsAlt : std::false_type {};
template <int N> struct IsAlt<Alt<N>> : std::true_type {};
// the documented layout, written down independently
struct Want {
  Sink s;
  static int in(int l) { return l < 0 ? l : l + 1; }
  void line(int l) { if (l >= 0) { s << '\n'; for (int i = 0; i < l; i++) s << "  "; } }
  template <class F> void item(int l, bool &first, F f) { if (!first) s << ','; first = false; line(in(l)); f(in(l)); }
  template <class T> void put(const T &v, int l) {
    if constexpr (std::is_same_v<T, bool>) s << (v ? "true" : "false");
    else if constexpr (std::is_enum_v<T>) s << (uint32_t)v;
    else if constexpr (std::is_arithmetic_v<T>) s << v;
    else if constexpr (std::is_same_v<T, std::string> || std::is_same_v<T, std::string_view>) s.text(v.data(), v.size());
    else if constexpr (IsPair<T>::value) { put(v.first, l); s << (l < 0 ? ":" : ": "); put(v.second, l); }
    else if constexpr (IsVariant<T>::value) std::visit([&](auto &x) { put(x, l); }, v);
    else if constexpr (std::is_pointer_v<T> || maf::nstl::is_smart_ptr_v<T>) { using E = std::decay_t<decltype(*v)>; if (v) put<E>(*v, l); else put<E>(E{}, l); }
    else if constexpr (IsTuple<T>::value) { bool first = true; s << '['; std::apply([&](auto &...x) { (item(l, first, [&](int m) { put(x, m); }), ...); }, v); line(l); s << ']'; }
    else if constexpr (IsAlt<T>::value) put(std::tie(v.v), l);
    else if constexpr (std::is_same_v<T, Agg>) put(std::tie(v.a, v.b, v.s), l);
    else if constexpr (std::is_same_v<T, Inner>) put(std::tie(v.x, v.v), l);
    else if constexpr (std::is_same_v<T, Nested>) put(std::tie(v.i, v.k), l);
    else if constexpr (std::is_same_v<T, Derived>) put(std::tie(v.p, v.q, v.r), l);
    else if constexpr (std::is_same_v<T, Cls>) put(std::tie(v.p, v.q), l);
    else {
      bool first = true, curly = isMap(v, 0);
      s << (curly ? '{' : '[');
      for (const auto &e : v) { const typename T::value_type &x = e; item(l, first, [&](int m) { put(x, m); }); }
      line(l);
      s << (curly ? '}' : ']');
    }
  }
  template <class A> static bool isMap(const A &, typename A::mapped_type *) { return true; }
  template <class A> static bool isMap(const A &, ...) { return false; }
};
static void check(const Sink &a, const Sink &b) {
  bool ok = a.t.size() == b.t.size();
  for (size_t i = 0; ok && i < a.t.size(); i++) ok = a.t[i].kind == b.t[i].kind;
  sym_assert(ok, "a dump has the documented layout");
  for (size_t i = 0; i < a.t.size(); i++) ok = ok & (a.t[i].v == b.t[i].v);
  sym_assert(ok, "a dump states every part of the value once and in order");
}
static int level() { return (int)sym_choice(4, "indent") - 1; }
template <class T> void one() {
  T v = gen<T>();
  int l = level();
  Sink s;
  switch (sym_choice(2, "how")) {
    case 0: dump(s, v, l); break;
    case 1: { auto ds = dumpstream(s, l); ds << v; break; }
  }
  Want w;
  w.put(v, l);
  check(s, w.s);
  dispose(v);
  sym_cover("end");
}
template <class L> void all() { MAXLEN = sym_cfg("len", 2); L::each(sym_choice(L::n, "type"), [](auto t) { one<typename decltype(t)::type>(); }); }
SYM_ENTRY d01_scalars() { all<Scalars>(); }
SYM_ENTRY d01_sequences() { all<Seqs>(); }
SYM_ENTRY d01_associative() { all<Assocs>(); }
SYM_ENTRY d01_products() { all<PlainProducts>(); }
SYM_ENTRY d01_pointers() { all<Ptrs>(); }
SYM_ENTRY d01_variants() { all<Variants>(); }

SYM_ENTRY d01_strings() {
  MAXLEN = sym_cfg("len", 2);
  std::string v = gen<std::string>();
  int l = level();
  Sink s, w;
  bool cut = false;
  switch (sym_choice(4, "how")) {
    case 0: dump(s, v, l); break;
    case 1: dump(s, std::string_view(v), l); break;
    case 2: { const char *c = v.c_str(); cut = true; dump(s, c, l); break; }
    case 3: { char *c = v.data(); cut = true; dump(s, c, l); break; }
  }
  size_t n = v.size();
  if (cut) { n = 0; while (v[n]) n++; }
  w.text(v.data(), n);
  check(s, w);
  sym_cover("end");
}
// changes of level, text passed through and line ends in one stream
SYM_ENTRY d01_stream() {
  MAXLEN = 1;
  Sink s;
  auto a = gen<std::vector<uint8_t>>(); auto b = gen<std::pair<uint8_t, std::string>>(); uint32_t c = sym_u32("c");
  bool raw = sym_bool("raw");
  int l = level(), m = level();
  auto ds = dumpstream(s, l);
  ds << a << newline << nodump(c) << nodump(raw) << indent(m) << b << a;
  Want w;
  w.put(a, l); w.s << '\n' << c << raw; w.put(b, m); w.put(a, m);
  check(s, w.s);
  sym_cover("end");
}
// declared objects: every member by name, nothing else; where lines are indented aside
SYM_ENTRY d01_object() {
  MAXLEN = sym_cfg("len", 1);
  uint8_t num = sym_u8("num");
  std::string name = gen<std::string>();
  for (char &c : name) sym_assume(c > ' ');
  auto list = gen<std::vector<uint8_t>>();
  for (uint8_t b : list) sym_assume(b > ' ');
  sym_assume(num > ' ');
  DObj o(num, name, list);
  int l = level();
  std::string text = sym_choice(2, "how") ? o.dump(l) : toString(o, l), got;
  for (char c : text) if (c != ' ' && c != '\n') got.push_back(c);
  // one-byte numbers are written as characters
  std::string want = "{num:";
  want.push_back((char)num);
  want += ",name:" + name + ",list:[";
  for (size_t i = 0; i < list.size(); i++) { if (i) want += ","; want.push_back((char)list[i]); }
  want += "]}";
  bool ok = want.size() == got.size();
  for (size_t i = 0; ok && i < want.size(); i++) ok = ok & (want[i] == got[i]);
  sym_assert(ok, "the dump of an object states every member by name");
  size_t lines = 0;
  for (char c : text) lines += c == '\n';
  sym_assert(l < 0 ? lines == 0 : lines == 4 + list.size() + 1, "without a level a dump is one line, with one it has a line per part");
  sym_cover("end");
}
