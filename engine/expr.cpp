#include <unistd.h>
#include "expr.h"
#include <algorithm>
#include <chrono>
#include <set>
#include <unordered_set>

u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
i128 sextv(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  u128 sb = (u128)1 << (w - 1);
  v &= maskw(w);
  return (i128)((v ^ sb) - sb);
}

namespace {
struct Key {
  Op op; uint16_t w; u128 val; E a, b, c;
  bool operator==(const Key &o) const {
    return op == o.op && w == o.w && val == o.val && a == o.a && b == o.b && c == o.c;
  }
};
struct KeyH {
  size_t operator()(const Key &k) const {
    uint64_t h = k.op * 0x9E3779B97F4A7C15ull + k.w;
    auto mix = [&](uint64_t x) { h ^= x; h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
    mix((uint64_t)k.val); mix((uint64_t)(k.val >> 64));
    mix((uint64_t)k.a); mix((uint64_t)k.b); mix((uint64_t)k.c);
    return h;
  }
};
std::unordered_map<Key, E, KeyH> table;
uint32_t nextId = 1;
E smallConst[65][257];

E intern(Op op, unsigned w, u128 val, E a = nullptr, E b = nullptr, E c = nullptr) {
  Key k{op, (uint16_t)w, val, a, b, c};
  auto it = table.find(k);
  if (it != table.end()) return it->second;
  Expr *e = new Expr();
  e->op = op; e->w = (uint16_t)w; e->id = nextId++; e->val = val;
  e->s[0] = a; e->s[1] = b; e->s[2] = c;
  table.emplace(k, e);
  return e;
}
}  // namespace

E mkConst(u128 v, unsigned w) {
  v &= maskw(w);
  if (w <= 64 && v <= 256) {
    E &c = smallConst[w][(unsigned)v];
    if (!c) c = intern(OConst, w, v);
    return c;
  }
  return intern(OConst, w, v);
}
E mkSym(uint32_t idx, unsigned w) { return intern(OSym, w, idx); }
E mkTuple(std::vector<E> v) {
  Expr *e = new Expr();
  e->op = OTuple; e->w = 0; e->id = nextId++; e->val = 0;
  e->s[0] = e->s[1] = e->s[2] = nullptr;
  e->elems = new std::vector<E>(std::move(v));
  return e;
}

static bool foldBin(Op op, u128 a, u128 b, unsigned w, u128 &r) {
  i128 sa = sextv(a, w), sb = sextv(b, w);
  switch (op) {
    case OAdd: r = a + b; return true;
    case OSub: r = a - b; return true;
    case OMul: r = a * b; return true;
    case OUDiv: r = b ? a / b : maskw(w); return true;
    case OURem: r = b ? a % b : a; return true;
    case OSDiv: r = sb == 0 ? (sa < 0 ? 1 : maskw(w)) : (sb == -1 ? (u128)-sa : (u128)(sa / sb)); return true;
    case OSRem: r = sb == 0 ? a : (sb == -1 ? 0 : (u128)(sa % sb)); return true;
    case OAnd: r = a & b; return true;
    case OOr: r = a | b; return true;
    case OXor: r = a ^ b; return true;
    case OShl: r = b >= w ? 0 : a << (unsigned)b; return true;
    case OLShr: r = b >= w ? 0 : a >> (unsigned)b; return true;
    case OAShr: r = b >= w ? (sa < 0 ? maskw(w) : 0) : (u128)(sa >> (unsigned)b); return true;
    case OEq: r = a == b; return true;
    case OUlt: r = a < b; return true;
    case OUle: r = a <= b; return true;
    case OSlt: r = sa < sb; return true;
    case OSle: r = sa <= sb; return true;
    default: return false;
  }
}

static unsigned resW(Op op, unsigned w) { return (op >= OEq && op <= OSle) ? 1 : w; }

static E rawAdd(E a, E b) { return intern(OAdd, a->w, 0, a, b); }
// --- linear forms: sum of coefficient*atom plus a constant, modulo 2^w (exact for every value) ---
struct Lin {
  std::vector<std::pair<E, u128>> t;   // sorted by id, coefficients nonzero modulo 2^w
  u128 c = 0;
};
static const size_t MaxLin = 12;
static bool linAdd(Lin &l, E e, u128 k, unsigned w) {
  k &= maskw(w);
  if (!k) return true;
  switch (e->op) {
    case OConst: l.c = (l.c + k * e->val) & maskw(w); return true;
    case OAdd: return linAdd(l, e->s[0], k, w) && linAdd(l, e->s[1], k, w);
    case OSub: return linAdd(l, e->s[0], k, w) && linAdd(l, e->s[1], (u128)0 - k, w);
    case OMul: if (e->s[1]->isConst()) return linAdd(l, e->s[0], k * e->s[1]->val, w); break;
    default: break;
  }
  auto it = std::lower_bound(l.t.begin(), l.t.end(), e, [](const std::pair<E, u128> &p, E x) { return p.first->id < x->id; });
  if (it != l.t.end() && it->first == e) {
    it->second = (it->second + k) & maskw(w);
    if (!it->second) l.t.erase(it);
  } else {
    if (l.t.size() >= MaxLin) return false;
    l.t.insert(it, {e, k});
  }
  return true;
}
static E linBuild(const Lin &l, unsigned w) {
  E r = nullptr;
  u128 half = (u128)1 << (w - 1);
  for (int neg = 0; neg < 2; neg++)
    for (auto &p : l.t) {
      if ((p.second > half) != (neg == 1)) continue;
      u128 k = neg ? (((u128)0 - p.second) & maskw(w)) : p.second;
      E m = k == 1 ? p.first : intern(OMul, w, 0, p.first, mkConst(k, w));
      if (!r) r = neg ? intern(OSub, w, 0, mkConst(l.c, w), m) : m;
      else r = neg ? intern(OSub, w, 0, r, m) : rawAdd(r, m);
    }
  if (!r) return mkConst(l.c, w);
  bool constIn = l.t.size() && [&] { for (auto &p : l.t) if (p.second <= half) return false; return true; }();
  return l.c && !constIn ? rawAdd(r, mkConst(l.c, w)) : r;
}
// integer bounds of an expression read as an unsigned number
static void rangeOf(E e, u128 &lo, u128 &hi, int depth = 0) {
  lo = 0; hi = maskw(e->w);
  if (depth > 6) return;
  u128 a, b, c, d;
  switch (e->op) {
    case OConst: lo = hi = e->val; break;
    case OZExt: rangeOf(e->s[0], lo, hi, depth + 1); break;
    case OAnd: if (e->s[1]->isConst()) hi = e->s[1]->val; break;
    case OConcat: rangeOf(e->s[0], a, b, depth + 1); rangeOf(e->s[1], c, d, depth + 1); lo = (a << e->s[1]->w) + c; hi = (b << e->s[1]->w) + d; break;
    case OURem: if (e->s[1]->isConst() && e->s[1]->val) hi = e->s[1]->val - 1; break;
    case OUDiv: if (e->s[1]->isConst() && e->s[1]->val) { rangeOf(e->s[0], a, b, depth + 1); lo = a / e->s[1]->val; hi = b / e->s[1]->val; } break;
    case OSRem: case OSDiv:
      if (e->s[1]->isConst() && e->s[1]->val && sextv(e->s[1]->val, e->w) > 0) {
        rangeOf(e->s[0], a, b, depth + 1);
        if (b < (u128)1 << (e->w - 1)) { if (e->op == OSRem) hi = e->s[1]->val - 1; else { lo = a / e->s[1]->val; hi = b / e->s[1]->val; } }
      }
      break;
    case OIte: rangeOf(e->s[1], a, b, depth + 1); rangeOf(e->s[2], c, d, depth + 1); lo = std::min(a, c); hi = std::max(b, d); break;
    case OAdd: case OMul:
      rangeOf(e->s[0], a, b, depth + 1); rangeOf(e->s[1], c, d, depth + 1);
      if (e->w <= 64) { u128 h = e->op == OAdd ? b + d : b * d; if (h <= maskw(e->w)) { lo = e->op == OAdd ? a + c : a * c; hi = h; } }
      break;
    default: break;
  }
}
// integer bounds of a linear form whose coefficients are read as signed numbers; false when unknown
static bool linRange(const Lin &l, unsigned w, i128 &lo, i128 &hi) {
  if (w > 64) return false;
  const i128 big = (i128)1 << 100;
  lo = hi = sextv(l.c, w);
  for (auto &p : l.t) {
    u128 a, b;
    rangeOf(p.first, a, b);
    i128 k = sextv(p.second, w);
    i128 m = k < 0 ? -k : k;
    if (b && m > big / (i128)b) return false;
    if (k > 0) { lo += k * (i128)a; hi += k * (i128)b; } else { lo += k * (i128)b; hi += k * (i128)a; }
    if (lo < -big || hi > big) return false;
  }
  return lo >= -((i128)1 << (w - 1)) && hi < ((i128)1 << (w - 1));
}
static i128 floorDiv(i128 a, i128 b) { i128 q = a / b; return q * b > a ? q - 1 : q; }
static u128 gcdOf(const Lin &l, unsigned w) {
  u128 g = 0;
  for (auto &p : l.t) { i128 k = sextv(p.second, w); u128 x = k < 0 ? -k : k; while (x) { u128 t = g % x; g = x; x = t; } }
  return g;
}
static bool composite(E e) { return e->op == OAdd || e->op == OSub || (e->op == OMul && e->s[1]->isConst()); }
// comparisons and divisions of linear forms that provably do not overflow; nullptr when it does not apply
static E linCompare(Op op, E a, E b) {
  unsigned w = a->w;
  if (w < 16 || w > 64 || !(composite(a) || composite(b))) return nullptr;
  Lin la, lb, d;
  i128 l1, h1, l2, h2, dl, dh;
  if (!linAdd(la, a, 1, w) || !linAdd(lb, b, 1, w) || !linRange(la, w, l1, h1) || !linRange(lb, w, l2, h2)) return nullptr;
  if ((op == OUlt || op == OUle) && (l1 < 0 || l2 < 0)) return nullptr;
  if (!linAdd(d, a, 1, w) || !linAdd(d, b, (u128)0 - 1, w) || !linRange(d, w, dl, dh)) return nullptr;
  // the difference of the integer forms must itself not wrap
  i128 top = (i128)1 << (w - 1), c = sextv(la.c, w) - sextv(lb.c, w);
  if (c < -top || c >= top) return nullptr;
  auto coef = [&](const Lin &l, E x) { for (auto &p : l.t) if (p.first == x) return sextv(p.second, w); return (i128)0; };
  for (auto *l : {&la, &lb})
    for (auto &p : l->t) { i128 k = coef(la, p.first) - coef(lb, p.first); if (k < -top || k >= top) return nullptr; }
  if (d.t.empty()) return mkConst(op == OEq ? c == 0 : (op == OSlt || op == OUlt) ? c < 0 : c <= 0, 1);
  i128 g = (i128)gcdOf(d, w);
  Lin pos, neg;
  i128 m;   // sum <= m, or sum == m
  if (op == OEq) { if (c % g) return mkFalse(); m = -c / g; }
  else m = floorDiv((op == OSlt || op == OUlt) ? -c - 1 : -c, g);
  i128 sl = (dl - c) / g, sh = (dh - c) / g;
  if (op == OEq) { if (m < sl || m > sh) return mkFalse(); }
  else { if (sh <= m) return mkTrue(); if (sl > m) return mkFalse(); }
  for (auto &p : d.t) {
    i128 k = sextv(p.second, w) / g;
    if (k > 0) pos.t.push_back({p.first, (u128)k}); else neg.t.push_back({p.first, (u128)-k});
  }
  if (m >= 0) neg.c = (u128)m; else pos.c = (u128)-m;
  if (!linRange(pos, w, l1, h1) || !linRange(neg, w, l2, h2)) return nullptr;
  E x = linBuild(pos, w), y = linBuild(neg, w);
  if (x == a && y == b) return nullptr;
  if (op == OEq) { if (x->isConst()) std::swap(x, y); return composite(x) || composite(y) ? intern(OEq, 1, 0, x, y) : mkBin(OEq, x, y); }
  return composite(x) || composite(y) ? intern(OUle, 1, 0, x, y) : mkBin(OUle, x, y);
}
static E linDivide(Op op, E a, E b) {   // OSDiv/OUDiv/OSRem/OURem by a positive constant
  unsigned w = a->w;
  if (w < 16 || w > 64 || !b->isConst() || !composite(a)) return nullptr;
  i128 k = sextv(b->val, w);
  Lin l;
  i128 lo, hi;
  if (k <= 1 || !linAdd(l, a, 1, w) || !linRange(l, w, lo, hi) || lo < 0) return nullptr;
  // l = k*q + r with the terms whose coefficients k divides going to q
  Lin q, r;
  for (auto &p : l.t) { i128 f = sextv(p.second, w); if (f % k == 0) q.t.push_back({p.first, (u128)(f / k) & maskw(w)}); else r.t.push_back(p); }
  i128 c = sextv(l.c, w), qc = floorDiv(c, k);
  q.c = (u128)qc & maskw(w);
  r.c = (u128)(c - qc * k);
  i128 rl, rh;
  if (!linRange(r, w, rl, rh) || rl < 0) return nullptr;
  bool div = op == OSDiv || op == OUDiv;
  if (rh < k) return linBuild(div ? q : r, w);     // the remainder is r itself
  if (q.t.empty() && qc == 0) return nullptr;
  E rest = linBuild(r, w);
  if (rest == a) return nullptr;
  E x = mkBin(op, rest, b);
  return div ? mkBin(OAdd, linBuild(q, w), x) : x;
}
E mkBin(Op op, E a, E b) {
  unsigned w = a->w;
  if (a->w != b->w) { fprintf(stderr, "symex: width mismatch op %d: %d %d\n", op, a->w, b->w); abort(); }
  if (a->isConst() && b->isConst()) {
    u128 r;
    foldBin(op, a->val, b->val, w, r);
    return mkConst(r, resW(op, w));
  }
  bool comm = op == OAdd || op == OMul || op == OAnd || op == OOr || op == OXor || op == OEq;
  if (comm && (a->isConst() || (!b->isConst() && a->id > b->id))) std::swap(a, b);
  // now constants (if any, for commutative ops) are in b
  switch (op) {
    case OAdd:
      if (b->isConst()) {
        if (b->val == 0) return a;
        if (a->op == OAdd && a->s[1]->isConst())
          return mkBin(OAdd, a->s[0], mkConst(a->s[1]->val + b->val, w));
      } else if (w > 1 && (composite(a) || composite(b))) {   // sums in one order, so that equal sums are the same node
        Lin l;
        if (linAdd(l, a, 1, w) && linAdd(l, b, 1, w)) return linBuild(l, w);
      }
      break;
    case OSub:
      if (a == b) return mkConst(0, w);
      if (b->isConst()) return mkBin(OAdd, a, mkConst((u128)0 - b->val, w));
      if (w > 1 && (composite(a) || composite(b))) {
        Lin l;
        if (linAdd(l, a, 1, w) && linAdd(l, b, (u128)0 - 1, w)) return linBuild(l, w);
      }
      // (x + c) - x
      if (a->op == OAdd && a->s[0] == b) return a->s[1];
      if (a->op == OAdd && a->s[1] == b) return a->s[0];
      if (b->op == OAdd && b->s[1]->isConst())
        return mkBin(OAdd, mkBin(OSub, a, b->s[0]), mkConst((u128)0 - b->s[1]->val, w));
      if (a->op == OAdd && a->s[1]->isConst())
        return mkBin(OAdd, mkBin(OSub, a->s[0], b), a->s[1]);
      break;
    case OMul:
      if (b->isConst()) {
        if (b->val == 0) return b;
        if (b->val == 1) return a;
        if (w > 1 && composite(a)) {
          Lin l;
          if (linAdd(l, a, b->val, w)) return linBuild(l, w);
        }
      }
      break;
    case OUDiv: case OSDiv:
      if (b->isConst() && b->val == 1) return a;
      if (E r = linDivide(op, a, b)) return r;
      if (op == OUDiv && b->isConst() && b->val && (b->val & (b->val - 1)) == 0) {
        unsigned k = 0; while (((u128)1 << k) != b->val) k++;
        return mkBin(OLShr, a, mkConst(k, w));
      }
      break;
    case OSRem:
      if (E r = linDivide(op, a, b)) return r;
      break;
    case OURem:
      if (E r = linDivide(op, a, b)) return r;
      if (b->isConst() && b->val && (b->val & (b->val - 1)) == 0) return mkBin(OAnd, a, mkConst(b->val - 1, w));
      break;
    case OAnd:
      if (a == b) return a;
      if (b->isConst()) {
        if (b->val == 0) return b;
        if (b->val == maskw(w)) return a;
        // low mask -> zext(extract)
        if ((b->val & (b->val + 1)) == 0) {
          unsigned k = 0; while (maskw(k) != b->val) k++;
          return mkZExt(mkExtract(a, 0, k), w);
        }
      }
      if (w == 1 && a->op == OXor && a->s[0] == b && a->s[1]->isConst()) return mkFalse();
      if (w == 1 && b->op == OXor && b->s[0] == a && b->s[1]->isConst()) return mkFalse();
      break;
    case OOr:
      if (a == b) return a;
      if (b->isConst()) {
        if (b->val == 0) return a;
        if (b->val == maskw(w)) return b;
      }
      // or of disjoint zext/shl pieces -> concat
      for (int k = 0; k < 2; k++) {
        E x = k ? b : a, y = k ? a : b;
        if (x->op == OZExt && y->op == OConcat && y->s[1]->isConst() && y->s[1]->val == 0 && x->s[0]->w <= y->s[1]->w)
          return mkConcat(y->s[0], mkZExt(x->s[0], y->s[1]->w));
        if (x->op == OZExt && y->op == OZExt && y->s[0]->op == OConcat && y->s[0]->s[1]->isConst() &&
            y->s[0]->s[1]->val == 0 && x->s[0]->w <= y->s[0]->s[1]->w)
          return mkZExt(mkConcat(y->s[0]->s[0], mkZExt(x->s[0], y->s[0]->s[1]->w)), w);
      }
      if (w == 1 && a->op == OXor && a->s[0] == b && a->s[1]->isConst()) return mkTrue();
      if (w == 1 && b->op == OXor && b->s[0] == a && b->s[1]->isConst()) return mkTrue();
      break;
    case OXor:
      if (a == b) return mkConst(0, w);
      if (b->isConst()) {
        if (b->val == 0) return a;
        if (a->op == OXor && a->s[1]->isConst()) return mkBin(OXor, a->s[0], mkConst(a->s[1]->val ^ b->val, w));
        if (w == 1) {
          if (a->op == OUlt) return mkBin(OUle, a->s[1], a->s[0]);
          if (a->op == OUle) return mkBin(OUlt, a->s[1], a->s[0]);
          if (a->op == OSlt) return mkBin(OSle, a->s[1], a->s[0]);
          if (a->op == OSle) return mkBin(OSlt, a->s[1], a->s[0]);
          if (a->op == OIte && (a->s[1]->isConst() || a->s[2]->isConst()))
            return mkIte(a->s[0], mkNot(a->s[1]), mkNot(a->s[2]));
        }
      }
      break;
    case OShl:
      if (b->isConst()) {
        if (b->val == 0) return a;
        if (b->val >= w) return mkConst(0, w);
        unsigned k = (unsigned)b->val;
        return mkConcat(mkExtract(a, 0, w - k), mkConst(0, k));
      }
      break;
    case OLShr:
      if (b->isConst()) {
        if (b->val == 0) return a;
        if (b->val >= w) return mkConst(0, w);
        unsigned k = (unsigned)b->val;
        return mkZExt(mkExtract(a, k, w - k), w);
      }
      break;
    case OAShr:
      if (b->isConst()) {
        if (b->val == 0) return a;
        unsigned k = b->val >= w ? w - 1 : (unsigned)b->val;
        return mkSExt(mkExtract(a, k, w - k), w);
      }
      break;
    case OEq:
      if (a == b) return mkTrue();
      if (b->isConst()) {
        if (w == 1) return b->val ? a : mkNot(a);
        if (a->op == OZExt) {
          unsigned iw = a->s[0]->w;
          if (b->val >> iw) return mkFalse();
          return mkEq(a->s[0], mkConst(b->val, iw));
        }
        if (a->op == OSExt) {
          unsigned iw = a->s[0]->w;
          E t = mkConst(b->val, iw);
          if (mkSExt(t, w) != b) return mkFalse();
          return mkEq(a->s[0], t);
        }
        if (a->op == OConcat) {
          unsigned lw = a->s[1]->w;
          return mkAnd(mkEq(a->s[0], mkConst(b->val >> lw, a->s[0]->w)), mkEq(a->s[1], mkConst(b->val, lw)));
        }
        if (a->op == OAdd && a->s[1]->isConst()) return mkEq(a->s[0], mkConst(b->val - a->s[1]->val, w));
        if (a->op == OXor && a->s[1]->isConst()) return mkEq(a->s[0], mkConst(b->val ^ a->s[1]->val, w));
        if (a->op == OIte) {
          if (a->s[1]->isConst() || a->s[2]->isConst())
            return mkIte(a->s[0], mkEq(a->s[1], b), mkEq(a->s[2], b));
        }
      } else {
        if (a->op == OZExt && b->op == OZExt && a->s[0]->w == b->s[0]->w) return mkEq(a->s[0], b->s[0]);
        if (a->op == OSExt && b->op == OSExt && a->s[0]->w == b->s[0]->w) return mkEq(a->s[0], b->s[0]);
        if (a->op == OConcat && b->op == OConcat && a->s[0]->w == b->s[0]->w)
          return mkAnd(mkEq(a->s[0], b->s[0]), mkEq(a->s[1], b->s[1]));
        if (a->op == OAdd && a->s[1]->isConst() && a->s[0] == b) return mkFalse();
        if (b->op == OAdd && b->s[1]->isConst() && b->s[0] == a) return mkFalse();
      }
      break;
    case OUlt:
      if (a == b) return mkFalse();
      if (b->isConst() && b->val == 0) return mkFalse();
      if (b->isConst() && b->val == 1) return mkEq(a, mkConst(0, w));
      if (a->isConst() && a->val == maskw(w)) return mkFalse();
      if (a->isConst() && a->val == 0) return mkNot(mkEq(b, a));
      if (a->op == OZExt && b->isConst()) {
        unsigned iw = a->s[0]->w;
        if (b->val > maskw(iw)) return mkTrue();
        return mkBin(OUlt, a->s[0], mkConst(b->val, iw));
      }
      if (b->op == OZExt && a->isConst()) {
        unsigned iw = b->s[0]->w;
        if (a->val >= maskw(iw)) return mkFalse();
        return mkBin(OUlt, mkConst(a->val, iw), b->s[0]);
      }
      if (a->op == OZExt && b->op == OZExt && a->s[0]->w == b->s[0]->w) return mkBin(OUlt, a->s[0], b->s[0]);
      break;
    case OUle:
      if (a == b) return mkTrue();
      if (a->isConst() && a->val == 0) return mkTrue();
      if (b->isConst() && b->val == maskw(w)) return mkTrue();
      if (b->isConst() && b->val == 0) return mkEq(a, b);
      if (a->op == OZExt && b->isConst()) {
        unsigned iw = a->s[0]->w;
        if (b->val >= maskw(iw)) return mkTrue();
        return mkBin(OUle, a->s[0], mkConst(b->val, iw));
      }
      if (b->op == OZExt && a->isConst()) {
        unsigned iw = b->s[0]->w;
        if (a->val > maskw(iw)) return mkFalse();
        return mkBin(OUle, mkConst(a->val, iw), b->s[0]);
      }
      if (a->op == OZExt && b->op == OZExt && a->s[0]->w == b->s[0]->w) return mkBin(OUle, a->s[0], b->s[0]);
      break;
    case OSlt:
      if (a == b) return mkFalse();
      if (a->op == OZExt && a->s[0]->w < w && b->isConst())
        return (i128)sextv(b->val, w) < 0 ? mkFalse() : mkBin(OUlt, a, b);
      if (b->op == OZExt && b->s[0]->w < w && a->isConst())
        return (i128)sextv(a->val, w) < 0 ? mkTrue() : mkBin(OUlt, a, b);
      if (a->op == OZExt && b->op == OZExt && a->s[0]->w < w && b->s[0]->w < w) return mkBin(OUlt, a, b);
      break;
    case OSle:
      if (a == b) return mkTrue();
      if (a->op == OZExt && a->s[0]->w < w && b->isConst())
        return (i128)sextv(b->val, w) < 0 ? mkFalse() : mkBin(OUle, a, b);
      if (b->op == OZExt && b->s[0]->w < w && a->isConst())
        return (i128)sextv(a->val, w) < 0 ? mkTrue() : mkBin(OUle, a, b);
      if (a->op == OZExt && b->op == OZExt && a->s[0]->w < w && b->s[0]->w < w) return mkBin(OUle, a, b);
      break;
    default: break;
  }
  if (op >= OEq && op <= OSle) {
    if (E r = linCompare(op, a, b)) return r;
    static int iteDepth = 0;   // choices may share parts: without a bound this is exponential
    if (w >= 16 && w <= 64 && iteDepth < 3)   // a choice between values compared with something: decide per choice when that settles one of them
      for (int k = 0; k < 2; k++) {
        E x = k ? b : a, y = k ? a : b;
        if (x->op != OIte) continue;
        iteDepth++;
        E r1 = k ? mkBin(op, y, x->s[1]) : mkBin(op, x->s[1], y), r2 = k ? mkBin(op, y, x->s[2]) : mkBin(op, x->s[2], y);
        iteDepth--;
        if (r1->isConst() || r2->isConst()) return mkIte(x->s[0], r1, r2);
      }
  }
  // push through ITE with constant leaves (keeps pointers/ids foldable)
  if (b->isConst() && a->op == OIte && a->s[1]->isConst() && a->s[2]->isConst() && op != OEq)
    return mkIte(a->s[0], mkBin(op, a->s[1], b), mkBin(op, a->s[2], b));
  return intern(op, resW(op, w), 0, a, b);
}

E mkIte(E c, E a, E b) {
  if (c->isConst()) return c->val ? a : b;
  if (a == b) return a;
  if (a->op == OTuple || b->op == OTuple) {
    std::vector<E> v;
    for (size_t i = 0; i < a->elems->size(); i++) v.push_back(mkIte(c, (*a->elems)[i], (*b->elems)[i]));
    return mkTuple(v);
  }
  if (a->w == 1) {
    if (a->isConst()) return a->val ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (b->isConst()) return b->val ? mkOr(mkNot(c), a) : mkAnd(c, a);
  }
  if (a->op == OIte && a->s[0] == c) return mkIte(c, a->s[1], b);
  if (b->op == OIte && b->s[0] == c) return mkIte(c, a, b->s[2]);
  return intern(OIte, a->w, 0, c, a, b);
}

E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (hi->isConst() && lo->isConst()) return mkConst((hi->val << lo->w) | lo->val, w);
  if (hi->isConst() && hi->val == 0) return mkZExt(lo, w);
  if (hi->op == OExtract && lo->op == OExtract && hi->s[0] == lo->s[0] && hi->val == lo->val + lo->w)
    return mkExtract(hi->s[0], (unsigned)lo->val, w);
  // the low part of a sum or product is itself a sum or product: put the whole together again
  if (hi->op == OExtract && hi->val == lo->w && (hi->s[0]->op == OAdd || hi->s[0]->op == OSub || hi->s[0]->op == OMul) && mkExtract(hi->s[0], 0, lo->w) == lo)
    return mkExtract(hi->s[0], 0, w);
  if (hi->op == OIte && lo->op == OIte && hi->s[0] == lo->s[0])
    return mkIte(hi->s[0], mkConcat(hi->s[1], lo->s[1]), mkConcat(hi->s[2], lo->s[2]));
  // normalise to right-nested: concat(concat(a,b),c) -> concat(a,concat(b,c))
  if (hi->op == OConcat) return mkConcat(hi->s[0], mkConcat(hi->s[1], lo));
  if (lo->op == OConcat && hi->op == OExtract && lo->s[0]->op == OExtract && hi->s[0] == lo->s[0]->s[0] &&
      hi->val == lo->s[0]->val + lo->s[0]->w)
    return mkConcat(mkExtract(hi->s[0], (unsigned)lo->s[0]->val, hi->w + lo->s[0]->w), lo->s[1]);
  if (lo->op == OConcat && hi->isConst() && lo->s[0]->isConst())
    return mkConcat(mkConst((hi->val << lo->s[0]->w) | lo->s[0]->val, hi->w + lo->s[0]->w), lo->s[1]);
  return intern(OConcat, w, 0, hi, lo);
}

E mkExtract(E e, unsigned off, unsigned w) {
  if (off == 0 && w == e->w) return e;
  switch (e->op) {
    case OConst: return mkConst(e->val >> off, w);
    case OExtract: return mkExtract(e->s[0], (unsigned)e->val + off, w);
    case OConcat: {
      unsigned lw = e->s[1]->w;
      if (off >= lw) return mkExtract(e->s[0], off - lw, w);
      if (off + w <= lw) return mkExtract(e->s[1], off, w);
      return mkConcat(mkExtract(e->s[0], 0, off + w - lw), mkExtract(e->s[1], off, lw - off));
    }
    case OZExt: {
      unsigned iw = e->s[0]->w;
      if (off >= iw) return mkConst(0, w);
      if (off + w <= iw) return mkExtract(e->s[0], off, w);
      return mkZExt(mkExtract(e->s[0], off, iw - off), w);
    }
    case OSExt: {
      unsigned iw = e->s[0]->w;
      if (off + w <= iw) return mkExtract(e->s[0], off, w);
      if (off < iw) return mkSExt(mkExtract(e->s[0], off, iw - off), w);
      break;
    }
    case OAnd: case OOr: case OXor:
      return mkBin(e->op, mkExtract(e->s[0], off, w), mkExtract(e->s[1], off, w));
    case OAdd: case OSub: case OMul:
      if (off == 0) return mkBin(e->op, mkExtract(e->s[0], 0, w), mkExtract(e->s[1], 0, w));
      break;
    case OIte:
      if (e->s[1]->isConst() || e->s[2]->isConst())
        return mkIte(e->s[0], mkExtract(e->s[1], off, w), mkExtract(e->s[2], off, w));
      break;
    default: break;
  }
  return intern(OExtract, w, off, e);
}
E mkZExt(E e, unsigned w) {
  if (w == e->w) return e;
  if (w < e->w) return mkExtract(e, 0, w);
  if (e->isConst()) return mkConst(e->val, w);
  if (e->op == OZExt) return mkZExt(e->s[0], w);
  if (e->op == OIte && e->s[1]->isConst() && e->s[2]->isConst())
    return mkIte(e->s[0], mkZExt(e->s[1], w), mkZExt(e->s[2], w));
  return intern(OZExt, w, 0, e);
}
E mkSExt(E e, unsigned w) {
  if (w == e->w) return e;
  if (w < e->w) return mkExtract(e, 0, w);
  if (e->isConst()) return mkConst((u128)sextv(e->val, e->w), w);
  if (e->op == OZExt) return mkZExt(e->s[0], w);
  if (e->op == OSExt) return mkSExt(e->s[0], w);
  if (e->op == OIte && e->s[1]->isConst() && e->s[2]->isConst())
    return mkIte(e->s[0], mkSExt(e->s[1], w), mkSExt(e->s[2], w));
  return intern(OSExt, w, 0, e);
}

static const char *opn[] = {"const", "sym", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor",
                            "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "ite", "concat", "extract", "zext", "sext", "tuple"};
std::string show(E e, int d) {
  char b[64];
  if (e->op == OConst) { snprintf(b, 64, "%llu:%d", (unsigned long long)e->val, e->w); return b; }
  if (e->op == OSym) { snprintf(b, 64, "s%llu:%d", (unsigned long long)e->val, e->w); return b; }
  if (d == 0) return "...";
  std::string r = std::string("(") + opn[e->op];
  if (e->op == OExtract) r += "@" + std::to_string((unsigned)e->val) + ":" + std::to_string(e->w);
  if (e->op == OTuple) for (auto x : *e->elems) r += " " + show(x, d - 1);
  for (int i = 0; i < 3; i++) if (e->s[i]) r += " " + show(e->s[i], d - 1);
  return r + ")";
}

u128 Model::eval(E e) const {
  if (e->op == OConst) return e->val;
  if (e->op == OSym) {
    auto it = v.find((uint32_t)e->val);
    return it == v.end() ? 0 : it->second & maskw(e->w);
  }
  auto it = memo.find(e->id);
  if (it != memo.end()) return it->second;
  u128 r = 0;
  switch (e->op) {
    case OIte: r = eval(e->s[0]) ? eval(e->s[1]) : eval(e->s[2]); break;
    case OConcat: r = (eval(e->s[0]) << e->s[1]->w) | eval(e->s[1]); break;
    case OExtract: r = eval(e->s[0]) >> (unsigned)e->val; break;
    case OZExt: r = eval(e->s[0]); break;
    case OSExt: r = (u128)sextv(eval(e->s[0]), e->s[0]->w); break;
    default: {
      u128 a = eval(e->s[0]), b = eval(e->s[1]);
      foldBin(e->op, a, b, e->s[0]->w, r);
    }
  }
  r &= maskw(e->w);
  memo[e->id] = r;
  return r;
}

const std::vector<uint32_t> &symsOf(E e) {
  if (e->syms) return *e->syms;
  static const std::vector<uint32_t> empty;
  if (e->op == OConst) { e->syms = &empty; return empty; }
  if (e->op == OSym) { e->syms = new std::vector<uint32_t>{(uint32_t)e->val}; return *e->syms; }
  const std::vector<uint32_t> *acc = &empty;
  std::vector<uint32_t> tmp;
  bool own = false;
  for (int i = 0; i < 3; i++)
    if (e->s[i]) {
      auto &o = symsOf(e->s[i]);
      if (o.empty()) continue;
      if (acc->empty() && !own) { acc = &o; continue; }
      const std::vector<uint32_t> &cur = own ? tmp : *acc;
      if (&cur == &o || cur == o) continue;
      std::vector<uint32_t> m;
      std::set_union(cur.begin(), cur.end(), o.begin(), o.end(), std::back_inserter(m));
      tmp.swap(m); own = true;
    }
  e->syms = own ? new std::vector<uint32_t>(tmp) : acc;
  return *e->syms;
}

// ---------------------------------------------------------------- Z3
SolverStats gSolver;
unsigned gSolverTimeoutMs = 60000;
namespace {
Z3_context ctx;
Z3_solver zs;
bool inited = false;
bool zerr = false;
void errh(Z3_context c, Z3_error_code e) { zerr = true; fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }
void init() {
  if (inited) return;
  inited = true;
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  ctx = Z3_mk_context(cfg);
  Z3_set_error_handler(ctx, errh);
  zs = Z3_mk_simple_solver(ctx);
  Z3_solver_inc_ref(ctx, zs);
  Z3_params p = Z3_mk_params(ctx);
  Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), gSolverTimeoutMs);
  Z3_solver_set_params(ctx, zs, p);
}
Z3_ast keep(Z3_ast a) { return a; }
Z3_ast toBV(E e);
Z3_ast toBool(E e) {
  if (e->zbool) return e->zbool;
  Z3_ast r;
  Z3_ast args[2];
  switch (e->op) {
    case OConst: r = e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
    case OEq:
      if (e->s[0]->w == 1) r = Z3_mk_eq(ctx, toBool(e->s[0]), toBool(e->s[1]));
      else r = Z3_mk_eq(ctx, toBV(e->s[0]), toBV(e->s[1]));
      break;
    case OUlt: r = Z3_mk_bvult(ctx, toBV(e->s[0]), toBV(e->s[1])); break;
    case OUle: r = Z3_mk_bvule(ctx, toBV(e->s[0]), toBV(e->s[1])); break;
    case OSlt: r = Z3_mk_bvslt(ctx, toBV(e->s[0]), toBV(e->s[1])); break;
    case OSle: r = Z3_mk_bvsle(ctx, toBV(e->s[0]), toBV(e->s[1])); break;
    case OAnd: args[0] = toBool(e->s[0]); args[1] = toBool(e->s[1]); r = Z3_mk_and(ctx, 2, args); break;
    case OOr: args[0] = toBool(e->s[0]); args[1] = toBool(e->s[1]); r = Z3_mk_or(ctx, 2, args); break;
    case OXor:
      if (e->s[1]->isConst() && e->s[1]->val) r = Z3_mk_not(ctx, toBool(e->s[0]));
      else r = Z3_mk_xor(ctx, toBool(e->s[0]), toBool(e->s[1]));
      break;
    case OIte: r = Z3_mk_ite(ctx, toBool(e->s[0]), toBool(e->s[1]), toBool(e->s[2])); break;
    default: {
      Z3_ast one = Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1));
      r = Z3_mk_eq(ctx, toBV(e), one);
    }
  }
  e->zbool = keep(r);
  return r;
}
std::string dec(u128 v) {
  if (!v) return "0";
  std::string s;
  while (v) { s.insert(s.begin(), '0' + (int)(v % 10)); v /= 10; }
  return s;
}
Z3_ast toBV(E e) {
  if (e->zbv) return e->zbv;
  Z3_ast r;
  switch (e->op) {
    case OConst: r = Z3_mk_numeral(ctx, dec(e->val).c_str(), Z3_mk_bv_sort(ctx, e->w)); break;
    case OSym: {
      std::string n = "s" + std::to_string((uint32_t)e->val) + "_" + std::to_string(e->w);
      r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), Z3_mk_bv_sort(ctx, e->w));
      break;
    }
#define B(O, F) case O: r = F(ctx, toBV(e->s[0]), toBV(e->s[1])); break;
    B(OAdd, Z3_mk_bvadd) B(OSub, Z3_mk_bvsub) B(OMul, Z3_mk_bvmul) B(OUDiv, Z3_mk_bvudiv) B(OSDiv, Z3_mk_bvsdiv)
    B(OURem, Z3_mk_bvurem) B(OSRem, Z3_mk_bvsrem) B(OShl, Z3_mk_bvshl)
    B(OLShr, Z3_mk_bvlshr) B(OAShr, Z3_mk_bvashr) B(OConcat, Z3_mk_concat)
#undef B
    case OAnd: case OOr: case OXor:
      if (e->w == 1) goto viaBool;
      r = e->op == OAnd ? Z3_mk_bvand(ctx, toBV(e->s[0]), toBV(e->s[1]))
        : e->op == OOr  ? Z3_mk_bvor(ctx, toBV(e->s[0]), toBV(e->s[1]))
                        : Z3_mk_bvxor(ctx, toBV(e->s[0]), toBV(e->s[1]));
      break;
    case OIte:
      r = Z3_mk_ite(ctx, toBool(e->s[0]), toBV(e->s[1]), toBV(e->s[2]));
      break;
    case OExtract: r = Z3_mk_extract(ctx, (unsigned)e->val + e->w - 1, (unsigned)e->val, toBV(e->s[0])); break;
    case OZExt: r = Z3_mk_zero_ext(ctx, e->w - e->s[0]->w, toBV(e->s[0])); break;
    case OSExt: r = Z3_mk_sign_ext(ctx, e->w - e->s[0]->w, toBV(e->s[0])); break;
    viaBool:
    default: {
      Z3_sort b1 = Z3_mk_bv_sort(ctx, 1);
      r = Z3_mk_ite(ctx, toBool(e), Z3_mk_unsigned_int64(ctx, 1, b1), Z3_mk_unsigned_int64(ctx, 0, b1));
    }
  }
  e->zbv = keep(r);
  return r;
}
u128 parseDec(const char *s) {
  u128 v = 0;
  for (; *s >= '0' && *s <= '9'; s++) v = v * 10 + (*s - '0');
  return v;
}
struct VecH {
  size_t operator()(const std::vector<uint32_t> &v) const {
    uint64_t h = 0x12345;
    for (auto x : v) { h ^= x; h *= 0xff51afd7ed558ccdull; h ^= h >> 29; }
    return h;
  }
};
struct CacheEnt { int r; std::vector<std::pair<uint32_t, u128>> m; };
std::unordered_map<std::vector<uint32_t>, CacheEnt, VecH> cache;

std::vector<std::pair<uint32_t, unsigned>> symWidths(const std::vector<E> &cs);
void collectSyms(E e, std::unordered_set<uint32_t> &seen, std::map<uint32_t, unsigned> &out) {
  if (!seen.insert(e->id).second) return;
  if (e->op == OSym) { out[(uint32_t)e->val] = e->w; return; }
  for (int i = 0; i < 3; i++) if (e->s[i]) collectSyms(e->s[i], seen, out);
}
}  // namespace

int solveSat(const std::vector<E> &pc, E c, const ModelP &base, ModelP &out) {
  if (c->isConst()) { if (c->val) { out = base; return 1; } return 0; }
  if (base->eval(c)) { out = base; gSolver.modelHits++; return 1; }
  // slice: constraints transitively sharing symbols with c
  std::vector<E> sl{c};
  {
    std::unordered_set<uint32_t> syms(symsOf(c).begin(), symsOf(c).end());
    std::vector<char> used(pc.size(), 0);
    bool ch = true;
    while (ch) {
      ch = false;
      for (size_t i = 0; i < pc.size(); i++) {
        if (used[i]) continue;
        bool hit = false;
        for (auto s : symsOf(pc[i])) if (syms.count(s)) { hit = true; break; }
        if (hit) {
          used[i] = 1; ch = true;
          sl.push_back(pc[i]);
          for (auto s : symsOf(pc[i])) syms.insert(s);
        }
      }
    }
  }
  std::vector<uint32_t> key;
  for (auto e : sl) key.push_back(e->id);
  std::sort(key.begin(), key.end());
  key.erase(std::unique(key.begin(), key.end()), key.end());
  auto apply = [&](const CacheEnt &ce) {
    if (ce.r == 1) {
      auto m = std::make_shared<Model>();
      m->v = base->v;
      for (auto &p : ce.m) m->v[p.first] = p.second;
      out = m;
    }
    return ce.r;
  };
  auto it = cache.find(key);
  if (it != cache.end()) { gSolver.cacheHits++; return apply(it->second); }
  init();
  auto t0 = std::chrono::steady_clock::now();
  Z3_solver_push(ctx, zs);
  for (auto e : sl) Z3_solver_assert(ctx, zs, toBool(e));
  Z3_lbool r = Z3_solver_check(ctx, zs);
  CacheEnt ce;
  ce.r = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
  if (r == Z3_L_TRUE) {
    Z3_model m = Z3_solver_get_model(ctx, zs);
    Z3_model_inc_ref(ctx, m);
    std::map<uint32_t, unsigned> sy;
    std::unordered_set<uint32_t> seen;
    for (auto e : sl) collectSyms(e, seen, sy);
    for (auto &p : sy) {
      Z3_ast val;
      if (Z3_model_eval(ctx, m, toBV(mkSym(p.first, p.second)), true, &val))
        ce.m.push_back({p.first, parseDec(Z3_get_numeral_string(ctx, val))});
    }
    Z3_model_dec_ref(ctx, m);
  }
  Z3_solver_pop(ctx, zs, 1);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  gSolver.time += dt;
  static const char *slow = getenv("SYMEX_SLOW");
  if (slow && dt > atof(slow)) {
    static FILE *f = getenv("SYMEX_SLOWFILE") ? fopen((std::string(getenv("SYMEX_SLOWFILE")) + std::to_string(getpid())).c_str(), "w") : stderr;
    fprintf(f, "slow query %.2fs r=%d:\n", dt, (int)ce.r);
    for (auto e : sl) fprintf(f, "   %s\n", show(e, 12).c_str());
    fflush(f);
  }
  if (dt > gSolver.maxTime) gSolver.maxTime = dt;
  gSolver.queries++;
  if (ce.r == 1) gSolver.sat++; else if (ce.r == 0) gSolver.unsat++; else gSolver.unknown++;
  cache.emplace(key, ce);
  return apply(ce);
}
