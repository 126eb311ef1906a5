// S02: the announced size is the number of bytes written.
#include "harness/ser.h"
template <class T> void sizes() {
  T v = gen<T>();
  OByteStream os;
  uint32_t pre = sym_len(2, "pre");
  for (uint32_t i = 0; i < pre; i++) serialize(os, (uint8_t)7);   // the stream need not be empty
  auto announced = serializedSize(v);
  size_t before = os.bytes().size();
  serialize(os, v);
  sym_assert(os.bytes().size() - before == announced, "the announced size is the number of bytes written");
  sym_assert(serializedSize(v) == announced, "announcing twice gives the same size");
  dispose(v);
  sym_cover("end");
}
template <class L> void all() { MAXLEN = sym_cfg("len", 2); L::each(sym_choice(L::n, "type"), [](auto t) { sizes<typename decltype(t)::type>(); }); }
SYM_ENTRY s02_scalars() { all<Scalars>(); }
SYM_ENTRY s02_strings() { all<Strings>(); }
SYM_ENTRY s02_sequences() { all<Seqs>(); }
SYM_ENTRY s02_associative() { all<Assocs>(); }
SYM_ENTRY s02_products() { all<Products>(); }
SYM_ENTRY s02_pointers() { all<Ptrs>(); }
