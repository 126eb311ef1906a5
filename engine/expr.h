// Bit-vector expression DAG, constant folding, models, and the Z3 back end.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum Op : uint8_t {
  OConst, OSym, OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem,
  OAnd, OOr, OXor, OShl, OLShr, OAShr,
  OEq, OUlt, OUle, OSlt, OSle, OIte, OConcat, OExtract, OZExt, OSExt, OTuple
};

struct Expr {
  Op op;
  uint16_t w;
  uint32_t id;
  u128 val;                 // constant value / extract offset / symbol index
  const Expr *s[3];
  std::vector<const Expr *> *elems = nullptr;  // OTuple only
  mutable const std::vector<uint32_t> *syms = nullptr;
  mutable Z3_ast zbv = nullptr, zbool = nullptr;
  bool isConst() const { return op == OConst; }
  uint64_t u64() const { return (uint64_t)val; }
};
typedef const Expr *E;

u128 maskw(unsigned w);
i128 sextv(u128 v, unsigned w);

E mkConst(u128 v, unsigned w);
E mkSym(uint32_t idx, unsigned w);
E mkBin(Op op, E a, E b);
E mkIte(E c, E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E e, unsigned off, unsigned w);
E mkZExt(E e, unsigned w);
E mkSExt(E e, unsigned w);
E mkTuple(std::vector<E> v);
inline E mkNot(E e) { return mkBin(OXor, e, mkConst(maskw(e->w), e->w)); }
inline E mkEq(E a, E b) { return mkBin(OEq, a, b); }
inline E mkTrue() { return mkConst(1, 1); }
inline E mkFalse() { return mkConst(0, 1); }
inline E mkAnd(E a, E b) { return mkBin(OAnd, a, b); }
inline E mkOr(E a, E b) { return mkBin(OOr, a, b); }
std::string show(E e, int depth = 6);

struct Model {
  std::unordered_map<uint32_t, u128> v;
  mutable std::unordered_map<uint32_t, u128> memo;
  u128 eval(E e) const;
};
typedef std::shared_ptr<const Model> ModelP;

const std::vector<uint32_t> &symsOf(E e);

struct SolverStats {
  uint64_t queries = 0, cacheHits = 0, modelHits = 0, unknown = 0, sat = 0, unsat = 0;
  double time = 0, maxTime = 0;
};
extern SolverStats gSolver;
// 1 = sat (model filled, built on top of base), 0 = unsat, -1 = unknown.
// Precondition: base satisfies every constraint of pc.
int solveSat(const std::vector<E> &pc, E c, const ModelP &base, ModelP &out);
extern unsigned gSolverTimeoutMs;
