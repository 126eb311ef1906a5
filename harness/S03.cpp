// S03: reading arbitrary or truncated bytes is memory safe, leaks nothing and never succeeds falsely.
#include "harness/ser.h"
#include <stdexcept>
// a buffer whose bytes end exactly where an object ends, so that reading one byte more is caught
struct Exact {
  std::unique_ptr<char[]> p;
  size_t n = 0;
  Exact() = default;
  explicit Exact(size_t k) : p(new char[k ? k : 1]), n(k) {}
  const char *data() const { return p.get(); }
  size_t size() const { return n; }
  void clear() { n = 0; }
};
using XStream = maf::srz::details::BasicIByteStream<Exact>;
template <class T> void arbitrary(size_t n, bool canonical) {
  Exact b(n);
  if (n) sym_bytes(b.p.get(), n, "byte");
  std::string copy(b.data(), n);
  uint64_t live = sym_heap_live();
  {
    XStream is(std::move(b));
    T d = fresh<T>();
    bool ok = false;
    sym_alloc_limit(4096);
    try {
      ok = deserialize(is, d);
    } catch (const std::exception &) { sym_fail("reading bytes claims memory for a length that is not there"); }
    sym_alloc_limit(1 << 24);
    sym_assert(!ok || !is.fail(), "success is not reported once the bytes ran out");
    sym_assert(is.readingPos() <= n, "reading stays within the bytes");
    if (ok) {
      sym_cover("accepted");
      if (canonical) {
        OByteStream os;
        serialize(os, d);
        sym_assert(os.bytes().size() == is.readingPos(), "what is accepted is the value's own encoding (length)");
        bool eq = true;
        for (size_t i = 0; i < os.bytes().size(); i++) eq = eq & (os.bytes()[i] == copy[i]);
        sym_assert(eq, "what is accepted is the value's own encoding (bytes)");
      }
    } else sym_cover("refused");
    dispose(d);
  }
  sym_assert(sym_heap_live() == live - 1, "reading leaks nothing");   // the block itself was moved into the stream
}
template <class T> void truncated() {
  T v = gen<T>();
  OByteStream os;
  serialize(os, v);
  size_t total = os.bytes().size();
  if (!total) return;
  size_t cut = sym_choice(total, "cut");
  Exact b(cut);
  if (cut) memcpy(b.p.get(), os.bytes().data(), cut);
  uint64_t live = sym_heap_live();
  {
    XStream is(std::move(b));
    T d = fresh<T>();
    sym_assert(!deserialize(is, d), "a strict prefix of an encoded value is refused");
    dispose(d);
  }
  sym_assert(sym_heap_live() == live - 1, "refusing leaks nothing");
  dispose(v);
  sym_cover("end");
}
using A1 = Types<uint8_t, uint32_t, int64_t, Color, double>;
using A2 = Types<std::string, std::u16string, Str2, std::vector<uint8_t>, std::vector<uint16_t>, std::list<uint8_t>, std::vector<std::string>, std::vector<std::vector<uint8_t>>, std::pair<uint8_t, std::string>,
                 std::tuple<uint8_t, std::string, uint8_t>, Agg, Inner, Nested, Derived>;
using A3 = Types<std::set<uint8_t>, std::map<uint8_t, uint8_t>, std::multiset<uint8_t>, std::map<uint8_t, std::string>, std::shared_ptr<uint16_t>, std::unique_ptr<std::string>, uint16_t *, std::shared_ptr<Agg>,
                 std::pair<std::shared_ptr<uint8_t>, std::string>, std::vector<std::shared_ptr<uint8_t>>, std::vector<bool>, std::variant<uint8_t, std::string, std::vector<uint16_t>>, std::variant<Agg, int64_t>>;
template <class L> void allA(bool canonical) {
  size_t n = sym_len(sym_cfg("bytes", 8), "n");
  L::each(sym_choice(L::n, "type"), [=](auto t) { arbitrary<typename decltype(t)::type>(n, canonical); });
}
SYM_ENTRY s03_bytes_scalar() { allA<A1>(true); }
SYM_ENTRY s03_bytes_canonical() { allA<A2>(true); }
SYM_ENTRY s03_bytes_other() { allA<A3>(false); }
template <class L> void allT() { MAXLEN = sym_cfg("len", 2); L::each(sym_choice(L::n, "type"), [](auto t) { truncated<typename decltype(t)::type>(); }); }
SYM_ENTRY s03_cut_basic() { switch (sym_choice(2, "group")) { case 0: allT<Scalars>(); break; default: allT<Strings>(); } }
SYM_ENTRY s03_cut_containers() { switch (sym_choice(2, "group")) { case 0: allT<Seqs>(); break; default: allT<Assocs>(); } }
SYM_ENTRY s03_cut_products() { switch (sym_choice(3, "group")) { case 0: allT<Products>(); break; case 1: allT<Ptrs>(); break; default: allT<Variants>(); } }
