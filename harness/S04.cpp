// S04: byte streams against a reference model, over arbitrary sequences of operations.
#include "harness/ser.h"
SYM_ENTRY s04_input() {
  size_t n = sym_len(sym_cfg("bytes", 5), "n");
  std::string src(n, '\0');
  for (auto &c : src) c = (char)sym_u8("byte");
  IByteStream is(src);
  size_t pos = 0;
  bool failed = false, eof = false;
  uint64_t ops = sym_cfg("ops", 3);
  for (uint64_t k = 0; k < ops; k++) {
    uint64_t op = sym_choice(4, "op");
    if (op == 0) {
      uint64_t sz = sym_u64("size");   // any size at all
      bool fits = !failed && sz <= n - pos;
      if (fits) sz = sym_concretize(sz);
      size_t room = fits ? (size_t)sz : 0;
      std::unique_ptr<char[]> out(new char[room ? room : 1]);
      is.read(out.get(), (size_t)sz);
      if (fits) {
        bool eq = true;
        for (size_t i = 0; i < sz; i++) eq = eq & (out[i] == src[pos + i]);
        sym_assert(eq, "a read yields exactly the next bytes");
        pos += sz;
        if (pos == n) eof = true;
        sym_cover("read");
      } else { failed = true; sym_cover("short"); }
    } else if (op == 1) {            // a copy continues from the same position, independently
      IByteStream c(is);
      sym_assert(c.readingPos() == pos && c.fail() == failed && c.eof() == eof && c.bytes() == src, "a copy has the same position, state and content");
      char ch; c.read(&ch, 1);
      sym_assert(failed || pos == n ? c.fail() : ch == src[pos], "a copy continues from the same position");
      sym_cover("copy");
    } else if (op == 2) {            // a view does not disturb
      IByteStreamView v(is);
      sym_assert(v.readingPos() == pos && v.fail() == failed && v.eof() == eof, "a view has the same position and state");
      char ch; v.read(&ch, 1);
      sym_assert(failed || pos == n ? v.fail() : ch == src[pos], "a view continues from the same position");
      sym_cover("view");
    } else {
      is.reset();
      src.clear(); n = 0; pos = 0; failed = false; eof = false;
      sym_assert(is.bytes().empty(), "reset empties the stream");
      sym_cover("reset");
    }
    sym_assert(is.readingPos() == pos, "the position advances by exactly the bytes read");
    sym_assert(is.fail() == failed, "failure is reported exactly after a short read, until reset");
    sym_assert(is.good() == !failed, "good is the opposite of failed");
    sym_assert(is.eof() == eof, "end is reported exactly once the last byte was consumed");
    sym_assert(is.bytes() == src, "the content is not changed");
  }
}
SYM_ENTRY s04_move() {
  size_t n = sym_len(4, "n");
  std::string src(n, '\0');
  for (auto &c : src) c = (char)sym_u8("byte");
  using B = maf::srz::details::BasicIByteStream<Buffer>;
  B a(src);
  size_t k = sym_len(5, "k");
  char buf[8];
  a.read(buf, k);
  bool failed = k > n;
  size_t pos = failed ? 0 : k;
  B b(std::move(a));
  sym_assert(b.readingPos() == pos && b.fail() == failed && b.eof() == (!failed && pos == n), "a moved stream keeps position and state");
  B c(std::string("zz"));
  c = std::move(b);
  sym_assert(c.readingPos() == pos && c.fail() == failed, "a move-assigned stream keeps position and state");
  char ch = 0;
  c.read(&ch, 1);
  sym_assert(failed || pos == n ? c.fail() : ch == src[pos], "a moved stream continues with the same bytes");
  a.read(&ch, 1);
  sym_assert(a.fail(), "a moved-from stream has no bytes");
  sym_cover("end");
}
SYM_ENTRY s04_output() {
  OByteStream os;
  std::string ref;
  uint64_t ops = sym_cfg("ops", 4);
  for (uint64_t k = 0; k < ops; k++) {
    if (sym_choice(4, "op") == 3) { os.reset(); ref.clear(); sym_cover("reset"); }
    else {
      size_t n = sym_len(3, "n");
      char b[4];
      for (size_t i = 0; i < n; i++) b[i] = (char)sym_u8("byte");
      if (sym_choice(2, "prepare")) os.prepareNextWrite(n);
      os.write(b, n);
      ref.append(b, n);
    }
    sym_assert(os.good() && !os.fail(), "writing succeeds");
    sym_assert(os.bytes() == ref, "the stream holds exactly the concatenation of what was written");
  }
  OByteStream c(os), m;
  sym_assert(c.bytes() == ref, "a copy holds the same bytes");
  m = std::move(c);
  char x = (char)sym_u8("byte");
  m.write(&x, 1);
  os.write(&x, 1);
  ref.push_back(x);
  sym_assert(m.bytes() == ref && os.bytes() == ref, "copies and moves continue at the end");
  sym_cover("end");
}
