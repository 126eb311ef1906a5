// Checks the expression simplifier against concrete evaluation on random expressions.
#include "expr.h"
#include <random>
int main(int argc, char **argv) {
  unsigned long n = argc > 1 ? strtoul(argv[1], 0, 10) : 200000;
  std::mt19937_64 r(argc > 2 ? strtoul(argv[2], 0, 10) : 1);
  unsigned long bad = 0;
  for (unsigned long it = 0; it < n && bad < 5; it++) {
    unsigned ws[] = {8, 16, 32, 64, 1, 2};
    unsigned w = ws[r() % 6];
    auto m = std::make_shared<Model>();
    std::vector<std::pair<E, u128>> pool;
    for (int i = 0; i < 3; i++) {
      unsigned iw = r() % 3 ? (unsigned)(1 + r() % w) : w;
      E s = mkSym((uint32_t)((iw << 3) + i), iw);
      u128 v = (r() % 4 ? r() : (r() % 2 ? maskw(iw) : r() % 3)) & maskw(iw);
      m->v[(iw << 3) + i] = v;
      if (iw < w) { if (r() % 4) s = mkZExt(s, w); else { v = (u128)sextv(v, iw) & maskw(w); s = mkSExt(s, w); } }
      pool.push_back({s, v});
    }
    u128 ks[] = {0, 1, 2, 3, 8, 10, 24, 1000, 1000000, 1000000000, maskw(w), maskw(w) - 4, (u128)1 << (w - 1), r() & maskw(w)};
    for (int i = 0; i < 10; i++) {
      auto pick = [&]() -> std::pair<E, u128> { if (r() % 3 == 0) { u128 k = ks[r() % 14] & maskw(w); return {mkConst(k, w), k}; } return pool[r() % pool.size()]; };
      auto a = pick(), b = pick();
      static const Op ops[] = {OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OAnd, OOr, OXor, OShl, OLShr, OAShr, OEq, OUlt, OUle, OSlt, OSle, OAdd, OSub, OMul, OSDiv, OSRem, OAdd};
      Op op = ops[r() % 24];
      E e = mkBin(op, a.first, b.first), c = mkBin(op, mkConst(a.second, w), mkConst(b.second, w));
      if (!c->isConst()) continue;
      if (e->w != c->w || (m->memo.clear(), m->eval(e)) != c->val) { bad++; printf("MISMATCH op %d w %u: %s , %s -> %s; want %llx\n", op, w, show(a.first).c_str(), show(b.first).c_str(), show(e).c_str(), (unsigned long long)c->val); break; }
      if (e->w == w && r() % 4 == 0 && w > 2) {   // taken apart and put together again
        unsigned k = 1 + (unsigned)(r() % (w - 1));
        E z = mkConcat(mkExtract(e, k, w - k), mkExtract(e, 0, k));
        if ((m->memo.clear(), m->eval(z)) != c->val) { bad++; printf("MISMATCH split: %s -> %s\n", show(e).c_str(), show(z).c_str()); break; }
      }
      if (e->w == w) pool.push_back({e, c->val});
      else if (r() % 2) { auto x = pick(), y = pick(); E t = mkIte(e, x.first, y.first); pool.push_back({t, c->val ? x.second : y.second}); }
    }
  }
  printf(bad ? "FAILED\n" : "%lu random expressions agree\n", n);
  return bad != 0;
}
