// Values of every supported type with symbolic content, for the serialization harnesses.
#pragma once
#include "rt/sym.h"
#include <cstring>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
#include "maf/utils/cppextension/Aggregate.h"
#include "maf/utils/serialization/IByteStream.h"
#include "maf/utils/serialization/OByteStream.h"
#include "maf/utils/serialization/Serializer.h"
#include "maf/utils/serialization/VariantSerializer.h"
#include "maf/utils/serialization/SerializableObjectBegin.mc.h"
OBJECT(Declared)
  MEMBERS((uint16_t, num, 7), (std::string, name), (std::vector<uint8_t>, list), (bool, flag))
ENDOBJECT(Declared)
#include "maf/utils/serialization/SerializableObjectEnd.mc.h"
using namespace maf::srz;

enum class Color : uint16_t { Red = 1, Green = 500, Blue = 65535 };
enum Plain { P0, P1 = -5 };
struct Agg { int32_t a; uint8_t b; std::string s; };          // plain aggregate
template <int N> struct Alt { uint8_t v; bool operator==(const Alt &o) const { return v == o.v; } };
struct Inner { uint16_t x; std::vector<uint8_t> v; };
struct Nested { Inner i; uint32_t k; };                        // aggregate of aggregates
class Cls {                                                    // exposes its fields
 public:
  int32_t p = 0;
  std::string q;
  MC_MAF_GENERATE_AS_TUPLE_METHOD(p, q)
  bool operator==(const Cls &o) const { return p == o.p && q == o.q; }
};
class Derived : public Cls {
 public:
  uint8_t r = 0;
  MC_MAF_GENERATE_AS_TUPLE_METHOD_WITH_BASE_CLASS(Cls, r)
  bool operator==(const Derived &o) const { return Cls::operator==(o) && r == o.r; }
};
struct Str2 : std::string { using std::string::string; };      // derived from string
inline bool operator==(const Agg &a, const Agg &b) { return (a.a == b.a) & (a.b == b.b) & (a.s == b.s); }
inline bool operator==(const Inner &a, const Inner &b) { return (a.x == b.x) & (a.v == b.v); }
inline bool operator==(const Nested &a, const Nested &b) { return (a.i == b.i) & (a.k == b.k); }

static size_t MAXLEN = 2;
// ---- generators
template <class T> struct Gen;
template <class T> T gen() { return Gen<T>::make(); }
#define GEN_INT(T) template <> struct Gen<T> { static T make() { return (T)sym_int(sizeof(T) * 8, #T); } }
GEN_INT(int8_t); GEN_INT(uint8_t); GEN_INT(int16_t); GEN_INT(uint16_t); GEN_INT(int32_t); GEN_INT(uint32_t); GEN_INT(int64_t); GEN_INT(uint64_t); GEN_INT(char);
template <> struct Gen<bool> { static bool make() { return sym_int(1, "bool") != 0; } };
template <> struct Gen<Color> { static Color make() { return (Color)sym_int(16, "color"); } };
template <> struct Gen<Plain> { static Plain make() { uint32_t v = sym_u32("plain"); Plain p; memcpy(&p, &v, 4); return p; } };
template <> struct Gen<float> { static float make() { uint32_t v = sym_u32("float"); float f; memcpy(&f, &v, 4); return f; } };
template <> struct Gen<double> { static double make() { uint64_t v = sym_u64("double"); double f; memcpy(&f, &v, 8); return f; } };
template <class C> struct Gen<std::basic_string<C>> {
  static std::basic_string<C> make() {
    size_t n = sym_len(MAXLEN, "len");
    std::basic_string<C> s;
    for (size_t i = 0; i < n; i++) s.push_back((C)sym_int(8 * sizeof(C), "ch"));
    return s;
  }
};
template <> struct Gen<Str2> { static Str2 make() { Str2 s; s.assign(gen<std::string>()); return s; } };
template <class C> struct GenSeq {
  static C make() {
    size_t n = sym_len(MAXLEN, "len");
    C c;
    for (size_t i = 0; i < n; i++) c.push_back(gen<typename C::value_type>());
    return c;
  }
};
template <class C> struct GenSet {
  static C make() {
    size_t n = sym_len(MAXLEN, "len");
    C c;
    for (size_t i = 0; i < n; i++) c.insert(gen<typename C::value_type>());
    return c;
  }
};
template <class T> struct Gen<std::vector<T>> : GenSeq<std::vector<T>> {};
template <class T> struct Gen<std::list<T>> : GenSeq<std::list<T>> {};
template <class T> struct Gen<std::deque<T>> : GenSeq<std::deque<T>> {};
template <class T> struct Gen<std::set<T>> : GenSet<std::set<T>> {};
template <class T> struct Gen<std::multiset<T>> : GenSet<std::multiset<T>> {};
template <class A, class B> struct Gen<std::map<A, B>> : GenSet<std::map<A, B>> {};
template <class A, class B> struct Gen<std::multimap<A, B>> : GenSet<std::multimap<A, B>> {};
template <class A, class B> struct Gen<std::pair<A, B>> {
  static std::pair<A, B> make() { auto a = gen<std::decay_t<A>>(); auto b = gen<B>(); return std::pair<A, B>(std::move(a), std::move(b)); }
};
template <class A, class B> struct Gen<std::unordered_map<A, B>> {  // keys from a small range: hashing stays concrete
  static std::unordered_map<A, B> make() {
    size_t n = sym_len(MAXLEN, "len");
    std::unordered_map<A, B> m;
    for (size_t i = 0; i < n; i++) m.emplace((A)sym_choice(3, "key"), gen<B>());
    return m;
  }
};
template <class A> struct Gen<std::unordered_set<A>> {
  static std::unordered_set<A> make() {
    size_t n = sym_len(MAXLEN, "len");
    std::unordered_set<A> m;
    for (size_t i = 0; i < n; i++) m.insert((A)sym_choice(3, "key"));
    return m;
  }
};
template <class... T> struct Gen<std::tuple<T...>> { static std::tuple<T...> make() { return std::tuple<T...>{gen<T>()...}; } };
template <class T> struct Gen<std::shared_ptr<T>> { static std::shared_ptr<T> make() { if (sym_choice(2, "null")) return std::make_shared<T>(gen<T>()); return nullptr; } };
template <class T> struct Gen<std::unique_ptr<T>> { static std::unique_ptr<T> make() { if (sym_choice(2, "null")) return std::make_unique<T>(gen<T>()); return nullptr; } };
template <class T> struct Gen<T *> { static T *make() { if (sym_choice(2, "null")) return new T(gen<T>()); return nullptr; } };
template <size_t I, class V> void genAlt(V &v, size_t k) {
  if (k == I) v = gen<std::variant_alternative_t<I, V>>();
  else if constexpr (I + 1 < std::variant_size_v<V>) genAlt<I + 1>(v, k);
}
template <class... T> struct Gen<std::variant<T...>> {
  static std::variant<T...> make() { std::variant<T...> v; genAlt<0>(v, sym_choice(sizeof...(T), "alt")); return v; }
};
template <int N> struct Gen<Alt<N>> { static Alt<N> make() { return Alt<N>{gen<uint8_t>()}; } };
template <> struct Gen<Declared> { static Declared make() { auto a = gen<uint16_t>(); auto b = gen<std::string>(); auto c = gen<std::vector<uint8_t>>(); return Declared(a, b, c, gen<bool>()); } };
template <> struct Gen<Agg> { static Agg make() { Agg a; a.a = gen<int32_t>(); a.b = gen<uint8_t>(); a.s = gen<std::string>(); return a; } };
template <> struct Gen<Inner> { static Inner make() { Inner a; a.x = gen<uint16_t>(); a.v = gen<std::vector<uint8_t>>(); return a; } };
template <> struct Gen<Nested> { static Nested make() { Nested a; a.i = gen<Inner>(); a.k = gen<uint32_t>(); return a; } };
template <> struct Gen<Cls> { static Cls make() { Cls a; a.p = gen<int32_t>(); a.q = gen<std::string>(); return a; } };
template <> struct Gen<Derived> { static Derived make() { Derived a; a.p = gen<int32_t>(); a.q = gen<std::string>(); a.r = gen<uint8_t>(); return a; } };

// ---- equality (floats by representation, pointers by what they point to)
template <class T> bool same(const T &a, const T &b);
inline bool sameF(float a, float b) { uint32_t x, y; memcpy(&x, &a, 4); memcpy(&y, &b, 4); return x == y; }
inline bool sameD(double a, double b) { uint64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return x == y; }
template <class T> struct IsTuple : std::false_type {};
template <class... T> struct IsTuple<std::tuple<T...>> : std::true_type {};
template <class T> struct IsVariant : std::false_type {};
template <class... T> struct IsVariant<std::variant<T...>> : std::true_type {};
template <class T, size_t... I> bool sameTuple(const T &a, const T &b, std::index_sequence<I...>) { return (true & ... & same(std::get<I>(a), std::get<I>(b))); }
template <class T> struct IsPair : std::false_type {};
template <class A, class B> struct IsPair<std::pair<A, B>> : std::true_type {};
template <class T> struct IsSeqOfSpecial : std::false_type {};
template <class T> struct IsSeqOfSpecial<std::vector<std::shared_ptr<T>>> : std::true_type {};
template <class V, size_t I = 0> bool sameVariant(const V &a, const V &b) {
  if (a.index() != b.index()) return false;
  if (a.index() == I) return same(*std::get_if<I>(&a), *std::get_if<I>(&b));
  if constexpr (I + 1 < std::variant_size_v<V>) return sameVariant<V, I + 1>(a, b);
  return false;
}
template <class T> bool same(const T &a, const T &b) {
  if constexpr (std::is_same_v<T, float>) return sameF(a, b);
  else if constexpr (std::is_same_v<T, double>) return sameD(a, b);
  else if constexpr (IsTuple<T>::value) return sameTuple(a, b, std::make_index_sequence<std::tuple_size_v<T>>());
  else if constexpr (IsPair<T>::value) return same(a.first, b.first) & same(a.second, b.second);
  else if constexpr (IsVariant<T>::value) return sameVariant(a, b);
  else if constexpr (std::is_pointer_v<T>) return a && b ? same(*a, *b) : a == b;
  else if constexpr (maf::nstl::is_smart_ptr_v<T>) return a && b ? same(*a, *b) : !a && !b;
  else if constexpr (IsSeqOfSpecial<T>::value) {
    if (a.size() != b.size()) return false;
    bool r = true;
    for (size_t i = 0; i < a.size(); i++) r = r & same(a[i], b[i]);
    return r;
  } else return a == b;
}
template <class T> void dispose(T &v) { if constexpr (std::is_pointer_v<T>) { delete v; v = nullptr; } }

template <class T> T fresh() { if constexpr (std::is_pointer_v<T>) return nullptr; else return T{}; }
template <class T> struct Tag { using type = T; };
// calls f with every supported type, one path per type
template <class... T> struct Types {
  static constexpr size_t n = sizeof...(T);
  template <class F> static void each(size_t k, F f) { size_t i = 0; ((i++ == k ? (f(Tag<T>{}), 0) : 0), ...); }
};
using Scalars = Types<int8_t, uint8_t, int16_t, uint16_t, int32_t, uint32_t, int64_t, uint64_t, bool, char, Color, Plain, float, double>;
using Strings = Types<std::string, std::u16string, std::u32string, Str2>;
using Seqs = Types<std::vector<int32_t>, std::list<uint16_t>, std::deque<int64_t>, std::vector<std::string>, std::vector<std::vector<uint8_t>>, std::vector<Color>, std::vector<bool>, std::vector<Agg>>;
using Assocs = Types<std::set<uint16_t>, std::map<uint8_t, std::string>, std::multiset<int8_t>, std::multimap<uint8_t, uint16_t>, std::unordered_map<uint32_t, uint16_t>, std::unordered_set<uint32_t>,
                     std::map<std::string, uint8_t>>;
using PlainProducts = Types<std::pair<uint8_t, std::string>, std::tuple<>, std::tuple<uint8_t, int64_t, std::string>, std::tuple<std::string, float, bool>, Agg, Inner, Nested, Cls, Derived,
                       std::pair<std::vector<uint8_t>, uint32_t>, std::tuple<std::pair<uint8_t, uint8_t>, std::vector<uint16_t>>, std::tuple<uint16_t, std::tuple<>>, std::pair<std::vector<uint8_t>, std::tuple<>>>;
template <class, class...> struct With;
template <class... T, class... U> struct With<Types<T...>, U...> { using type = Types<T..., U...>; };
using Products = With<PlainProducts, Declared>::type;
using Ptrs = Types<std::shared_ptr<uint32_t>, std::unique_ptr<std::string>, uint16_t *, std::shared_ptr<Agg>, std::unique_ptr<std::shared_ptr<uint8_t>>, std::vector<std::shared_ptr<uint16_t>>,
                   std::pair<std::shared_ptr<uint8_t>, std::string>>;
template <class> struct Many;
template <int... I> struct Many<std::integer_sequence<int, I...>> { using type = std::variant<Alt<I>...>; };
using Largest = Many<std::make_integer_sequence<int, 20>>::type;   // as many alternatives as the library takes
using Variants = Types<Largest, std::variant<uint8_t, std::string, std::vector<uint16_t>>, std::variant<Agg, int64_t>, std::variant<bool, double, Cls, std::string>>;
