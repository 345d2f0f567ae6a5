// Hash-consed bit-vector expressions (width 1..64) with aggressive local simplification,
// known-bits tracking, concrete evaluation, symbol sets and translation to Z3.
#pragma once
#include <cstdint>
#include <cstring>
#include <cassert>
#include <vector>
#include <unordered_map>
#include <string>
#include <algorithm>
#include <cmath>
#include <z3.h>

enum Op : uint8_t {
  O_CONST, O_SYM, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_EQ, O_ULT, O_SLT, O_NOT, O_ITE, O_CONCAT, O_EXTRACT, O_SEXT,
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FP2SI, O_FP2UI, O_SI2FP, O_UI2FP, O_FPEXT, O_FPTRUNC,
  O_TUPLE
};

struct Expr;
typedef const Expr* E;

struct SymSet { std::vector<uint64_t> w; };

struct Expr {
  Op op; uint8_t nk; uint16_t width; uint32_t id;
  uint64_t aux;      // const value, symbol index, extract offset
  E k[3];
  uint64_t hash;
  uint64_t kz, ko;   // bits known zero / known one
  mutable uint64_t ev_epoch = 0, ev_val = 0;
  mutable const SymSet* syms = nullptr;
  mutable Z3_ast z3 = nullptr;
  mutable E subst = nullptr; mutable uint64_t subst_epoch = 0;
  std::vector<E>* tuple = nullptr;
};

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sx(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v &= maskw(w); return (int64_t)((v ^ m) - m); }

struct SymInfo { std::string name; uint32_t index; bool undef; };

struct ExprPool {
  std::vector<E> table;            // open addressing
  size_t count = 0;
  uint32_t next_id = 1;
  std::vector<SymInfo> syminfo;
  std::vector<E> symexpr;
  uint64_t epoch = 0;
  std::vector<Expr*> slabs; size_t slab_pos = 0, slab_cap = 0;
  E smallc[65][260];

  ExprPool() { table.assign(1 << 16, nullptr); memset(smallc, 0, sizeof smallc); }

  Expr* alloc() {
    if (slab_pos == slab_cap) { slab_cap = 4096; slab_pos = 0; slabs.push_back((Expr*)calloc(slab_cap, sizeof(Expr))); }
    return new (&slabs.back()[slab_pos++]) Expr();
  }
  static uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }

  void grow() {
    std::vector<E> old; old.swap(table); table.assign(old.size() * 2, nullptr);
    size_t m = table.size() - 1;
    for (E e : old) if (e) { size_t i = e->hash & m; while (table[i]) i = (i + 1) & m; table[i] = e; }
  }

  E mk(Op op, unsigned width, uint64_t aux, E a = nullptr, E b = nullptr, E c = nullptr) {
    uint64_t h = mix(mix(op, width), aux);
    if (a) h = mix(h, a->id); if (b) h = mix(h, b->id); if (c) h = mix(h, c->id);
    size_t m = table.size() - 1, i = h & m;
    while (table[i]) {
      E e = table[i];
      if (e->hash == h && e->op == op && e->width == width && e->aux == aux && e->k[0] == a && e->k[1] == b && e->k[2] == c) return e;
      i = (i + 1) & m;
    }
    Expr* e = alloc();
    e->op = op; e->width = width; e->aux = aux; e->k[0] = a; e->k[1] = b; e->k[2] = c; e->hash = h; e->id = next_id++;
    e->nk = c ? 3 : b ? 2 : a ? 1 : 0;
    known(e);
    table[i] = e;
    if (++count * 2 > table.size()) grow();
    return e;
  }

  void known(Expr* e) {
    uint64_t M = maskw(e->width); e->kz = ~M; e->ko = 0;
    E a = e->k[0], b = e->k[1], c = e->k[2];
    switch (e->op) {
      case O_CONST: e->ko = e->aux; e->kz = ~e->aux; break;
      case O_AND: e->kz = a->kz | b->kz; e->ko = a->ko & b->ko; break;
      case O_OR: e->kz = a->kz & b->kz; e->ko = a->ko | b->ko; break;
      case O_XOR: e->kz = (a->kz & b->kz) | (a->ko & b->ko); e->ko = (a->kz & b->ko) | (a->ko & b->kz); break;
      case O_ITE: e->kz = b->kz & c->kz; e->ko = b->ko & c->ko; break;
      case O_CONCAT: e->ko = (a->ko << b->width) | b->ko; e->kz = ((a->kz << b->width) | (b->kz & maskw(b->width))); break;
      case O_EXTRACT: e->ko = (a->ko >> e->aux) & M; e->kz = (a->kz >> e->aux) & M; break;
      case O_SEXT: {
        unsigned aw = a->width; uint64_t s = 1ull << (aw - 1), hi = M & ~maskw(aw);
        e->kz = a->kz & maskw(aw); e->ko = a->ko;
        if (a->kz & s) e->kz |= hi; if (a->ko & s) e->ko |= hi; break; }
      case O_ADD: { // trailing zeros and leading zeros
        uint64_t tz = a->kz & b->kz; unsigned t = 0; while (t < e->width && ((tz >> t) & 1)) t++;
        e->kz |= maskw(t) & M;
        uint64_t amax = ~a->kz & M, bmax = ~b->kz & M; uint64_t s;
        if (!__builtin_add_overflow(amax, bmax, &s) && s <= M) { unsigned hb = s ? 64 - __builtin_clzll(s) : 0; e->kz |= M & ~maskw(hb); if (hb == 0) e->kz |= M; }
        break; }
      case O_MUL: { uint64_t amax = ~a->kz & M, bmax = ~b->kz & M, s;
        if (!__builtin_mul_overflow(amax, bmax, &s) && s <= M) { unsigned hb = s ? 64 - __builtin_clzll(s) : 0; e->kz |= M & ~(hb ? maskw(hb) : 0); } break; }
      case O_UDIV: case O_UREM: case O_LSHR: { uint64_t amax = ~a->kz & M; unsigned hb = amax ? 64 - __builtin_clzll(amax) : 0; e->kz |= M & ~(hb ? maskw(hb) : 0); break; }
      default: break;
    }
    e->kz |= ~M; e->ko &= M;
  }
  static uint64_t umin(E e) { return e->ko; }
  static uint64_t umax(E e) { return ~e->kz & maskw(e->width); }

  E c(uint64_t v, unsigned w) {
    v &= maskw(w);
    if (v < 260) { E& s = smallc[w][v]; if (!s) s = mk(O_CONST, w, v); return s; }
    return mk(O_CONST, w, v);
  }
  E tru() { return c(1, 1); }
  E fls() { return c(0, 1); }
  static bool isc(E e) { return e->op == O_CONST; }
  static bool isc(E e, uint64_t v) { return e->op == O_CONST && e->aux == v; }

  E sym(const std::string& name, uint32_t index, bool undef) {
    uint32_t n = (uint32_t)syminfo.size();
    syminfo.push_back({name, index, undef});
    E e = mk(O_SYM, 8, n);
    symexpr.push_back(e);
    return e;
  }
  E tuple(const std::vector<E>& v) {
    Expr* e = alloc(); e->op = O_TUPLE; e->width = 0; e->id = next_id++; e->tuple = new std::vector<E>(v); return e;
  }

  E fold_known(E e) {
    if (e->op != O_CONST && e->width && ((e->kz | e->ko) == ~0ull)) return c(e->ko, e->width);
    return e;
  }

  // ---- structural ops
  E extract(E x, unsigned off, unsigned w) {
    assert(off + w <= x->width && w > 0);
    if (w == x->width) return x;
    if (isc(x)) return c(x->aux >> off, w);
    uint64_t M = maskw(w);
    if ((((x->kz | x->ko) >> off) & M) == M) return c(x->ko >> off, w);
    switch (x->op) {
      case O_EXTRACT: return extract(x->k[0], x->aux + off, w);
      case O_CONCAT: {
        unsigned lw = x->k[1]->width;
        if (off >= lw) return extract(x->k[0], off - lw, w);
        if (off + w <= lw) return extract(x->k[1], off, w);
        return concat(extract(x->k[0], 0, off + w - lw), extract(x->k[1], off, lw - off)); }
      case O_SEXT: {
        unsigned aw = x->k[0]->width;
        if (off + w <= aw) return extract(x->k[0], off, w);
        if (off >= aw) { E s = extract(x->k[0], aw - 1, 1); return sext(s, w); }
        return sext(extract(x->k[0], off, aw - off), w); }
      case O_AND: return band(extract(x->k[0], off, w), extract(x->k[1], off, w));
      case O_OR: return bor(extract(x->k[0], off, w), extract(x->k[1], off, w));
      case O_XOR: return bxor(extract(x->k[0], off, w), extract(x->k[1], off, w));
      case O_ITE: if (isc(x->k[1]) || isc(x->k[2]) || x->width <= 16) return ite(x->k[0], extract(x->k[1], off, w), extract(x->k[2], off, w)); break;
      case O_ADD: if (off == 0) return add(extract(x->k[0], 0, w), extract(x->k[1], 0, w)); break;
      case O_SUB: if (off == 0) return sub(extract(x->k[0], 0, w), extract(x->k[1], 0, w)); break;
      default: break;
    }
    return fold_known(mk(O_EXTRACT, w, off, x));
  }
  E concat(E a, E b) { // a high, b low
    unsigned w = a->width + b->width; assert(w <= 64);
    if (isc(a) && isc(b)) return c((a->aux << b->width) | b->aux, w);
    if (a->op == O_CONCAT) return concat(a->k[0], concat(a->k[1], b));
    // put back together what extract() above took apart
    if (a->op == O_EXTRACT && a->aux == b->width && (a->k[0]->op == O_ADD || a->k[0]->op == O_SUB || a->k[0]->op == O_ITE) && extract(a->k[0], 0, b->width) == b) return extract(a->k[0], 0, w);
    // merge a with the head of b
    E h = b, t = nullptr;
    if (b->op == O_CONCAT) { h = b->k[0]; t = b->k[1]; }
    E m = nullptr;
    if (isc(a) && isc(h)) m = c((a->aux << h->width) | h->aux, a->width + h->width);
    else if (a->op == O_EXTRACT && h->op == O_EXTRACT && a->k[0] == h->k[0] && a->aux == h->aux + h->width) m = extract(a->k[0], h->aux, a->width + h->width);
    else if (a->op == O_EXTRACT && a->k[0] == h && a->aux == h->width) m = nullptr;
    else if (a->op == O_ITE && h->op == O_ITE && a->k[0] == h->k[0]) m = ite(a->k[0], concat(a->k[1], h->k[1]), concat(a->k[2], h->k[2]));
    if (m) return t ? concat(m, t) : m;
    return mk(O_CONCAT, w, 0, a, b);
  }
  E zext(E x, unsigned w) { if (w == x->width) return x; return concat(c(0, w - x->width), x); }
  E sext(E x, unsigned w) {
    if (w == x->width) return x;
    if (isc(x)) return c((uint64_t)sx(x->aux, x->width), w);
    uint64_t s = 1ull << (x->width - 1);
    if (x->kz & s) return zext(x, w);
    if (x->op == O_SEXT) return sext(x->k[0], w);
    if (x->op == O_ITE && (isc(x->k[1]) || isc(x->k[2]))) return ite(x->k[0], sext(x->k[1], w), sext(x->k[2], w));
    return mk(O_SEXT, w, 0, x);
  }
  E trunc(E x, unsigned w) { return extract(x, 0, w); }

  // apply a constant mask op piecewise; kind 0 = and, 1 = or, 2 = xor
  bool runs_ok(uint64_t m, unsigned w, int maxruns) { int r = 1; for (unsigned i = 1; i < w; i++) if (((m >> i) & 1) != ((m >> (i - 1)) & 1)) r++; return r <= maxruns; }
  E piecewise(E x, uint64_t m, int kind) {
    unsigned w = x->width; E res = nullptr;
    for (unsigned i = 0; i < w;) {
      unsigned j = i; bool bit = (m >> i) & 1; while (j < w && (((m >> j) & 1) != 0) == bit) j++;
      E p;
      if (kind == 0) p = bit ? extract(x, i, j - i) : c(0, j - i);
      else p = bit ? c(~0ull, j - i) : extract(x, i, j - i);
      res = res ? concat(p, res) : p; i = j;
    }
    return res;
  }
  static bool lt(E a, E b) { return a->id < b->id; }

  E band(E a, E b) {
    if (isc(a)) std::swap(a, b);
    unsigned w = a->width;
    if (isc(a)) return c(a->aux & b->aux, w);
    if (a == b) return a;
    if (isc(b)) {
      if (b->aux == 0) return b;
      if (((b->aux | a->kz) & maskw(w)) == maskw(w)) return a;
      if (w > 1 && runs_ok(b->aux, w, 3)) return piecewise(a, b->aux, 0);
      if (a->op == O_CONCAT && w > 1) { unsigned lw = a->k[1]->width; return concat(band(a->k[0], c(b->aux >> lw, w - lw)), band(a->k[1], c(b->aux, lw))); }
    }
    if (w == 1) { if (a->op == O_NOT && a->k[0] == b) return fls(); if (b->op == O_NOT && b->k[0] == a) return fls(); }
    if (lt(b, a) && !isc(b)) std::swap(a, b);
    return fold_known(mk(O_AND, w, 0, a, b));
  }
  E try_disjoint(E a, E b) { // a,b with disjoint possible bits, splittable at a boundary
    unsigned w = a->width;
    for (int s = 0; s < 2; s++, std::swap(a, b)) {
      unsigned k = 0; while (k < w && ((a->kz >> k) & 1)) k++;   // a low k bits zero
      if (k == 0 || k >= w) continue;
      uint64_t hi = maskw(w) & ~maskw(k);
      if ((b->kz & hi) == hi) return concat(extract(a, k, w - k), extract(b, 0, k));
    }
    // b fits within a run of known-zero bits of a
    for (int s = 0; s < 2; s++, std::swap(a, b)) {
      uint64_t poss = umax(b); if (!poss) return a;
      unsigned lo = __builtin_ctzll(poss), hb = 64 - __builtin_clzll(poss);
      uint64_t range = maskw(hb) & ~maskw(lo);
      if ((a->kz & range) == range) {
        E r = extract(b, lo, hb - lo);
        if (lo > 0) r = concat(r, extract(a, 0, lo));
        if (hb < w) r = concat(extract(a, hb, w - hb), r);
        return r;
      }
    }
    return nullptr;
  }
  E bor(E a, E b) {
    if (isc(a)) std::swap(a, b);
    unsigned w = a->width;
    if (isc(a)) return c(a->aux | b->aux, w);
    if (a == b) return a;
    if (isc(b)) {
      if (b->aux == 0) return a;
      if (b->aux == maskw(w)) return b;
      if (w > 1 && runs_ok(b->aux, w, 3)) return piecewise(a, b->aux, 1);
    }
    if (w == 1) { if (a->op == O_NOT && a->k[0] == b) return tru(); if (b->op == O_NOT && b->k[0] == a) return tru(); }
    if (w > 1) if (E d = try_disjoint(a, b)) return d;
    if (lt(b, a) && !isc(b)) std::swap(a, b);
    return fold_known(mk(O_OR, w, 0, a, b));
  }
  E bxor(E a, E b) {
    if (isc(a)) std::swap(a, b);
    unsigned w = a->width;
    if (isc(a)) return c(a->aux ^ b->aux, w);
    if (a == b) return c(0, w);
    if (isc(b, 0)) return a;
    if (w == 1) { if (isc(b, 1)) return bnot(a); if (a->op == O_NOT) return bnot(bxor(a->k[0], b)); if (b->op == O_NOT) return bnot(bxor(a, b->k[0])); }
    if (isc(b) && a->op == O_XOR && isc(a->k[1])) return bxor(a->k[0], c(a->k[1]->aux ^ b->aux, w));
    if (w > 1 && !isc(b)) if (E d = try_disjoint(a, b)) return d;
    if (lt(b, a) && !isc(b)) std::swap(a, b);
    return fold_known(mk(O_XOR, w, 0, a, b));
  }
  E bnot(E a) { // logical not of width 1
    assert(a->width == 1);
    if (isc(a)) return c(!a->aux, 1);
    if (a->op == O_NOT) return a->k[0];
    return mk(O_NOT, 1, 0, a);
  }
  E add(E a, E b) {
    if (isc(a)) std::swap(a, b);
    unsigned w = a->width;
    if (isc(a)) return c(a->aux + b->aux, w);
    if (isc(b, 0)) return a;
    if (w == 1) return bxor(a, b);
    if (isc(b) && a->op == O_ADD && isc(a->k[1])) return add(a->k[0], c(a->k[1]->aux + b->aux, w));
    if (!isc(b) && a->op == O_ADD && isc(a->k[1])) return add(add(a->k[0], b), a->k[1]);
    if (!isc(b) && b->op == O_ADD && isc(b->k[1])) return add(add(b->k[0], a), b->k[1]);
    if (a->op == O_ITE && isc(b) && isc(a->k[1]) && isc(a->k[2])) return ite(a->k[0], add(a->k[1], b), add(a->k[2], b));
    if ((umax(a) & umax(b)) == 0) if (E d = try_disjoint(a, b)) return d;
    if (lt(b, a) && !isc(b)) std::swap(a, b);
    return fold_known(mk(O_ADD, w, 0, a, b));
  }
  E neg(E a) { return sub(c(0, a->width), a); }
  E sub(E a, E b) {
    unsigned w = a->width;
    if (isc(a) && isc(b)) return c(a->aux - b->aux, w);
    if (a == b) return c(0, w);
    if (isc(b)) return add(a, c(0 - b->aux, w));
    if (w == 1) return bxor(a, b);
    if (a->op == O_ADD) { // (x+y)-y
      if (a->k[0] == b) return a->k[1]; if (a->k[1] == b) return a->k[0];
      if (isc(a->k[1])) return add(sub(a->k[0], b), a->k[1]);
    }
    if (b->op == O_ADD && isc(b->k[1])) return add(sub(a, b->k[0]), c(0 - b->k[1]->aux, w));
    return mk(O_SUB, w, 0, a, b);
  }
  E mul(E a, E b) {
    if (isc(a)) std::swap(a, b);
    unsigned w = a->width;
    if (isc(a)) return c(a->aux * b->aux, w);
    if (isc(b)) {
      if (b->aux == 0) return b; if (b->aux == 1) return a;
      if ((b->aux & (b->aux - 1)) == 0) return shl(a, c(__builtin_ctzll(b->aux), w));
    }
    if (w == 1) return band(a, b);
    if (lt(b, a) && !isc(b)) std::swap(a, b);
    return fold_known(mk(O_MUL, w, 0, a, b));
  }
  E udiv(E a, E b) {
    unsigned w = a->width;
    if (isc(a) && isc(b) && b->aux) return c(a->aux / b->aux, w);
    if (isc(b) && b->aux && (b->aux & (b->aux - 1)) == 0) return lshr(a, c(__builtin_ctzll(b->aux), w));
    return fold_known(mk(O_UDIV, w, 0, a, b));
  }
  E urem(E a, E b) {
    unsigned w = a->width;
    if (isc(a) && isc(b) && b->aux) return c(a->aux % b->aux, w);
    if (isc(b) && b->aux && (b->aux & (b->aux - 1)) == 0) return band(a, c(b->aux - 1, w));
    return fold_known(mk(O_UREM, w, 0, a, b));
  }
  E sdiv(E a, E b) {
    unsigned w = a->width;
    if (isc(a) && isc(b) && b->aux) { int64_t x = sx(a->aux, w), y = sx(b->aux, w); if (y == -1) return c(0 - (uint64_t)x, w); return c((uint64_t)(x / y), w); }
    return mk(O_SDIV, w, 0, a, b);
  }
  E srem(E a, E b) {
    unsigned w = a->width;
    if (isc(a) && isc(b) && b->aux) { int64_t x = sx(a->aux, w), y = sx(b->aux, w); if (y == -1) return c(0, w); return c((uint64_t)(x % y), w); }
    return mk(O_SREM, w, 0, a, b);
  }
  E shl(E a, E b) {
    unsigned w = a->width;
    if (isc(b)) {
      if (b->aux == 0) return a; if (b->aux >= w) return c(0, w);
      return concat(extract(a, 0, w - b->aux), c(0, b->aux));
    }
    if (isc(a, 0)) return a;
    return mk(O_SHL, w, 0, a, b);
  }
  E lshr(E a, E b) {
    unsigned w = a->width;
    if (isc(b)) {
      if (b->aux == 0) return a; if (b->aux >= w) return c(0, w);
      return zext(extract(a, b->aux, w - b->aux), w);
    }
    if (isc(a, 0)) return a;
    return mk(O_LSHR, w, 0, a, b);
  }
  E ashr(E a, E b) {
    unsigned w = a->width;
    if (isc(b)) {
      if (b->aux == 0) return a; uint64_t s = b->aux >= w ? w - 1 : b->aux;
      return sext(extract(a, s, w - s), w);
    }
    if (isc(a, 0)) return a;
    return mk(O_ASHR, w, 0, a, b);
  }
  E ite(E cnd, E a, E b) {
    if (isc(cnd)) return cnd->aux ? a : b;
    if (a == b) return a;
    if (cnd->op == O_NOT) return ite(cnd->k[0], b, a);
    unsigned w = a->width;
    if (a->op == O_TUPLE) { std::vector<E> v; for (size_t i = 0; i < a->tuple->size(); i++) v.push_back(ite(cnd, (*a->tuple)[i], (*b->tuple)[i])); return tuple(v); }
    if (w == 1) {
      if (isc(a)) return a->aux ? bor(cnd, b) : band(bnot(cnd), b);
      if (isc(b)) return b->aux ? bor(bnot(cnd), a) : band(cnd, a);
      if (a == cnd) return bor(cnd, b);
      if (b == cnd) return band(cnd, a);
    }
    if (a->op == O_ITE && a->k[0] == cnd) a = a->k[1];
    if (b->op == O_ITE && b->k[0] == cnd) b = b->k[2];
    if (a == b) return a;
    // common constant parts of concats
    if (a->op == O_CONCAT && b->op == O_CONCAT && a->k[0]->width == b->k[0]->width && (a->k[0] == b->k[0] || a->k[1] == b->k[1]))
      return concat(ite(cnd, a->k[0], b->k[0]), ite(cnd, a->k[1], b->k[1]));
    if (a->op == O_CONCAT && isc(b) && isc(a->k[0])) { unsigned lw = a->k[1]->width; if ((b->aux >> lw) == a->k[0]->aux) return concat(a->k[0], ite(cnd, a->k[1], c(b->aux, lw))); }
    if (b->op == O_CONCAT && isc(a) && isc(b->k[0])) { unsigned lw = b->k[1]->width; if ((a->aux >> lw) == b->k[0]->aux) return concat(b->k[0], ite(cnd, c(a->aux, lw), b->k[1])); }
    return mk(O_ITE, w, 0, cnd, a, b);
  }
  E eq(E a, E b) {
    if (a == b) return tru();
    if (isc(a)) std::swap(a, b);
    if (isc(a)) return c(a->aux == b->aux, 1);
    unsigned w = a->width;
    if ((a->kz & b->ko) | (a->ko & b->kz)) return fls();
    if (w == 1) { if (isc(b)) return b->aux ? a : bnot(a); return bnot(bxor(a, b)); }
    if (isc(b)) {
      uint64_t v = b->aux;
      switch (a->op) {
        case O_CONCAT: {
          unsigned lw = a->k[1]->width;
          if (isc(a->k[0])) return eq(a->k[1], c(v, lw));   // conflict excluded by known bits
          // constant pieces anywhere: strip
          bool anyc = false; for (E t = a; ; t = t->k[1]) { if (t->op != O_CONCAT) { anyc |= isc(t); break; } anyc |= isc(t->k[0]); }
          if (anyc) return band(eq(a->k[0], c(v >> lw, w - lw)), eq(a->k[1], c(v, lw)));
          break; }
        case O_ITE:
          if (isc(a->k[1]) || isc(a->k[2])) return ite(a->k[0], eq(a->k[1], b), eq(a->k[2], b));
          break;
        case O_ADD: if (isc(a->k[1])) return eq(a->k[0], c(v - a->k[1]->aux, w)); break;
        case O_XOR: if (isc(a->k[1])) return eq(a->k[0], c(v ^ a->k[1]->aux, w)); break;
        case O_SEXT: { unsigned aw = a->k[0]->width; if ((((uint64_t)sx(v & maskw(aw), aw)) & maskw(w)) != v) return fls(); return eq(a->k[0], c(v, aw)); }
        case O_SUB: if (v == 0) return eq(a->k[0], a->k[1]); break;
        default: break;
      }
    } else {
      if (a->op == O_CONCAT && b->op == O_CONCAT && a->k[1]->width == b->k[1]->width) {
        if (a->k[1] == b->k[1]) return eq(a->k[0], b->k[0]);
        if (a->k[0] == b->k[0]) return eq(a->k[1], b->k[1]);
        return band(eq(a->k[0], b->k[0]), eq(a->k[1], b->k[1]));
      }
      if (a->op == O_CONCAT && isc(a->k[0])) { unsigned lw = a->k[1]->width; return band(eq(extract(b, lw, w - lw), a->k[0]), eq(a->k[1], extract(b, 0, lw))); }
      if (b->op == O_CONCAT && isc(b->k[0])) { unsigned lw = b->k[1]->width; return band(eq(extract(a, lw, w - lw), b->k[0]), eq(b->k[1], extract(a, 0, lw))); }
      if (a->op == O_ITE && (b == a->k[1] || b == a->k[2])) return ite(a->k[0], eq(a->k[1], b), eq(a->k[2], b));
      if (b->op == O_ITE && (a == b->k[1] || a == b->k[2])) return ite(b->k[0], eq(b->k[1], a), eq(b->k[2], a));
      if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->width == b->k[0]->width) return eq(a->k[0], b->k[0]);
      if (lt(b, a)) std::swap(a, b);
    }
    return mk(O_EQ, 1, 0, a, b);
  }
  E ult(E a, E b) {
    if (a == b) return fls();
    unsigned w = a->width;
    if (isc(a) && isc(b)) return c(a->aux < b->aux, 1);
    if (umax(a) < umin(b)) return tru();
    if (umin(a) >= umax(b)) return fls();
    if (w == 1) return band(bnot(a), b);
    // narrow common leading zeros
    uint64_t mx = umax(a) | umax(b); unsigned hb = 64 - __builtin_clzll(mx | 1);
    if (hb < w) return ult(extract(a, 0, hb), extract(b, 0, hb));
    if (isc(b)) {
      if ((b->aux & (b->aux - 1)) == 0) { unsigned k = __builtin_ctzll(b->aux); return k == 0 ? eq(a, c(0, w)) : eq(extract(a, k, w - k), c(0, w - k)); }
      if (a->op == O_ITE && isc(a->k[1]) ) return ite(a->k[0], ult(a->k[1], b), ult(a->k[2], b));
      if (a->op == O_ITE && isc(a->k[2]) ) return ite(a->k[0], ult(a->k[1], b), ult(a->k[2], b));
    }
    if (isc(a)) {
      uint64_t v = a->aux + 1; // a < b  <=>  !(b < a+1)
      if (v && (v & (v - 1)) == 0 && v <= maskw(w)) return bnot(ult(b, c(v, w)));
      if (b->op == O_ITE && (isc(b->k[1]) || isc(b->k[2]))) return ite(b->k[0], ult(a, b->k[1]), ult(a, b->k[2]));
    }
    return mk(O_ULT, 1, 0, a, b);
  }
  E ule(E a, E b) { return bnot(ult(b, a)); }
  E slt(E a, E b) {
    if (a == b) return fls();
    unsigned w = a->width;
    if (isc(a) && isc(b)) return c(sx(a->aux, w) < sx(b->aux, w), 1);
    uint64_t s = 1ull << (w - 1);
    if ((a->kz & s) && (b->kz & s)) return ult(a, b);
    if ((a->ko & s) && (b->kz & s)) return tru();
    if ((a->kz & s) && (b->ko & s)) return fls();
    if (isc(b, 0)) return extract(a, w - 1, 1);
    if (isc(a, maskw(w))) return bnot(extract(b, w - 1, 1)); // -1 < b
    if (a->op == O_ITE && isc(b) && (isc(a->k[1]) || isc(a->k[2]))) return ite(a->k[0], slt(a->k[1], b), slt(a->k[2], b));
    return mk(O_SLT, 1, 0, a, b);
  }
  E sle(E a, E b) { return bnot(slt(b, a)); }

  // ---- floating point on bit patterns (w = 32 or 64)
  static void fpar(unsigned w, unsigned& eb, unsigned& mb) { if (w == 32) { eb = 8; mb = 23; } else { eb = 11; mb = 52; } }
  E fisnan(E a) { unsigned eb, mb; fpar(a->width, eb, mb); return band(eq(extract(a, mb, eb), c(~0ull, eb)), bnot(eq(extract(a, 0, mb), c(0, mb)))); }
  E fiszero(E a) { return eq(extract(a, 0, a->width - 1), c(0, a->width - 1)); }
  E foeq(E a, E b) { return band(band(bnot(fisnan(a)), bnot(fisnan(b))), bor(eq(a, b), band(fiszero(a), fiszero(b)))); }
  E folt(E a, E b) {
    unsigned w = a->width; E sa = extract(a, w - 1, 1), sb = extract(b, w - 1, 1);
    E bothz = band(fiszero(a), fiszero(b));
    E r = ite(sa, ite(sb, ult(b, a), tru()), ite(sb, fls(), ult(a, b)));
    return band(band(bnot(fisnan(a)), bnot(fisnan(b))), band(bnot(bothz), r));
  }
  static uint64_t fop(Op op, unsigned w, uint64_t x, uint64_t y) {
    if (w == 32) { float a, b, r; uint32_t xi = x, yi = y; memcpy(&a, &xi, 4); memcpy(&b, &yi, 4);
      r = op == O_FADD ? a + b : op == O_FSUB ? a - b : op == O_FMUL ? a * b : a / b; memcpy(&xi, &r, 4); return xi; }
    double a, b, r; memcpy(&a, &x, 8); memcpy(&b, &y, 8);
    r = op == O_FADD ? a + b : op == O_FSUB ? a - b : op == O_FMUL ? a * b : a / b; memcpy(&x, &r, 8); return x;
  }
  static double todbl(unsigned w, uint64_t x) { if (w == 32) { float a; uint32_t xi = x; memcpy(&a, &xi, 4); return a; } double a; memcpy(&a, &x, 8); return a; }
  static uint64_t frombl(unsigned w, double d) { if (w == 32) { float f = (float)d; uint32_t xi; memcpy(&xi, &f, 4); return xi; } uint64_t x; memcpy(&x, &d, 8); return x; }
  static uint64_t fcvt(Op op, unsigned fw, unsigned tw, uint64_t x) {
    switch (op) {
      case O_FP2SI: { double d = todbl(fw, x); if (!(d > -9.3e18 && d < 9.2e18)) return 0; return (uint64_t)(int64_t)d & maskw(tw); }
      case O_FP2UI: { double d = todbl(fw, x); if (!(d > -1 && d < 1.8e19)) return 0; return (uint64_t)d & maskw(tw); }
      case O_SI2FP: if (tw == 32) { float f = (float)sx(x, fw); uint32_t i; memcpy(&i, &f, 4); return i; } return frombl(64, (double)sx(x, fw));
      case O_UI2FP: if (tw == 32) { float f = (float)(x & maskw(fw)); uint32_t i; memcpy(&i, &f, 4); return i; } return frombl(64, (double)(x & maskw(fw)));
      case O_FPEXT: case O_FPTRUNC: return frombl(tw, todbl(fw, x));
      default: return 0;
    }
  }
  E fbin(Op op, E a, E b) { if (isc(a) && isc(b)) return c(fop(op, a->width, a->aux, b->aux), a->width); return mk(op, a->width, 0, a, b); }
  E fconv(Op op, E a, unsigned tw) { if (isc(a)) return c(fcvt(op, a->width, tw, a->aux), tw); return mk(op, tw, 0, a); }

  // ---- evaluation under an assignment (symbols beyond the vector are 0)
  const std::vector<uint8_t>* asg = nullptr;
  void begin_eval(const std::vector<uint8_t>& a) { asg = &a; epoch++; }
  uint64_t ev(E e) {
    if (e->op == O_CONST) return e->aux;
    if (e->ev_epoch == epoch) return e->ev_val;
    uint64_t r = 0; unsigned w = e->width; E a = e->k[0], b = e->k[1];
    switch (e->op) {
      case O_SYM: r = e->aux < asg->size() ? (*asg)[e->aux] : 0; break;
      case O_ADD: r = ev(a) + ev(b); break;
      case O_SUB: r = ev(a) - ev(b); break;
      case O_MUL: r = ev(a) * ev(b); break;
      case O_UDIV: { uint64_t y = ev(b); r = y ? ev(a) / y : ~0ull; break; }
      case O_UREM: { uint64_t y = ev(b); r = y ? ev(a) % y : ev(a); break; }
      case O_SDIV: { int64_t x = sx(ev(a), w), y = sx(ev(b), w); r = y == 0 ? (x < 0 ? 1 : ~0ull) : y == -1 ? 0 - (uint64_t)x : (uint64_t)(x / y); break; }
      case O_SREM: { int64_t x = sx(ev(a), w), y = sx(ev(b), w); r = y == 0 ? (uint64_t)x : y == -1 ? 0 : (uint64_t)(x % y); break; }
      case O_AND: r = ev(a) & ev(b); break;
      case O_OR: r = ev(a) | ev(b); break;
      case O_XOR: r = ev(a) ^ ev(b); break;
      case O_SHL: { uint64_t s = ev(b); r = s >= w ? 0 : ev(a) << s; break; }
      case O_LSHR: { uint64_t s = ev(b); r = s >= w ? 0 : ev(a) >> s; break; }
      case O_ASHR: { uint64_t s = ev(b); r = (uint64_t)(sx(ev(a), w) >> (s >= w ? w - 1 : s)); break; }
      case O_EQ: r = ev(a) == ev(b); break;
      case O_ULT: r = ev(a) < ev(b); break;
      case O_SLT: r = sx(ev(a), a->width) < sx(ev(b), a->width); break;
      case O_NOT: r = !ev(a); break;
      case O_ITE: r = ev(a) ? ev(b) : ev(e->k[2]); break;
      case O_CONCAT: r = (ev(a) << b->width) | ev(b); break;
      case O_EXTRACT: r = ev(a) >> e->aux; break;
      case O_SEXT: r = (uint64_t)sx(ev(a), a->width); break;
      case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: r = fop(e->op, w, ev(a), ev(b)); break;
      case O_FP2SI: case O_FP2UI: case O_SI2FP: case O_UI2FP: case O_FPEXT: case O_FPTRUNC: r = fcvt(e->op, a->width, w, ev(a)); break;
      default: assert(0);
    }
    r &= maskw(w);
    e->ev_epoch = epoch; e->ev_val = r;
    return r;
  }

  // ---- symbol sets
  std::vector<const SymSet*> setpool;
  const SymSet emptyset{};
  const SymSet* syms(E e) {
    if (e->syms) return e->syms;
    if (e->op == O_CONST) return e->syms = &emptyset;
    if (e->op == O_SYM) { auto* s = new SymSet; s->w.assign(e->aux / 64 + 1, 0); s->w[e->aux / 64] |= 1ull << (e->aux % 64); return e->syms = s; }
    const SymSet* acc = nullptr;
    for (int i = 0; i < e->nk; i++) {
      const SymSet* s = syms(e->k[i]);
      if (!acc || acc == s) { acc = s; continue; }
      if (subset(s, acc)) continue;
      if (subset(acc, s)) { acc = s; continue; }
      auto* n = new SymSet(*acc); if (n->w.size() < s->w.size()) n->w.resize(s->w.size(), 0);
      for (size_t j = 0; j < s->w.size(); j++) n->w[j] |= s->w[j];
      acc = n;
    }
    return e->syms = acc ? acc : &emptyset;
  }
  static bool subset(const SymSet* a, const SymSet* b) {
    for (size_t i = 0; i < a->w.size(); i++) if (a->w[i] & ~(i < b->w.size() ? b->w[i] : 0)) return false;
    return true;
  }
  static bool intersects(const SymSet* a, const std::vector<uint64_t>& b) {
    size_t n = std::min(a->w.size(), b.size());
    for (size_t i = 0; i < n; i++) if (a->w[i] & b[i]) return true;
    return false;
  }
  bool has_undef(E e) {
    const SymSet* s = syms(e);
    size_t n = std::min(s->w.size(), undef_mask.size());
    for (size_t i = 0; i < n; i++) if (s->w[i] & undef_mask[i]) return true;
    return false;
  }
  std::vector<uint64_t> undef_mask;
  E undef_sym(const std::string& nm) {
    E e = sym(nm, 0, true);
    size_t i = e->aux / 64; if (undef_mask.size() <= i) undef_mask.resize(i + 1, 0); undef_mask[i] |= 1ull << (e->aux % 64);
    return e;
  }

  // ---- substitution of symbols (for the two-copy uninitialised-data query)
  std::unordered_map<uint64_t, E> submap; uint64_t sub_epoch = 0;
  E subst(E e) {
    if (e->op == O_CONST) return e;
    if (e->subst_epoch == sub_epoch) return e->subst;
    E r = e;
    if (e->op == O_SYM) { auto it = submap.find(e->aux); if (it != submap.end()) r = it->second; }
    else {
      E k[3] = {nullptr, nullptr, nullptr}; bool ch = false;
      for (int i = 0; i < e->nk; i++) { k[i] = subst(e->k[i]); ch |= k[i] != e->k[i]; }
      if (ch) r = rebuild(e, k);
    }
    e->subst_epoch = sub_epoch; e->subst = r; return r;
  }
  E rebuild(E e, E* k) {
    switch (e->op) {
      case O_ADD: return add(k[0], k[1]); case O_SUB: return sub(k[0], k[1]); case O_MUL: return mul(k[0], k[1]);
      case O_UDIV: return udiv(k[0], k[1]); case O_SDIV: return sdiv(k[0], k[1]); case O_UREM: return urem(k[0], k[1]); case O_SREM: return srem(k[0], k[1]);
      case O_AND: return band(k[0], k[1]); case O_OR: return bor(k[0], k[1]); case O_XOR: return bxor(k[0], k[1]);
      case O_SHL: return shl(k[0], k[1]); case O_LSHR: return lshr(k[0], k[1]); case O_ASHR: return ashr(k[0], k[1]);
      case O_EQ: return eq(k[0], k[1]); case O_ULT: return ult(k[0], k[1]); case O_SLT: return slt(k[0], k[1]); case O_NOT: return bnot(k[0]);
      case O_ITE: return ite(k[0], k[1], k[2]); case O_CONCAT: return concat(k[0], k[1]); case O_EXTRACT: return extract(k[0], e->aux, e->width);
      case O_SEXT: return sext(k[0], e->width);
      case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: return fbin(e->op, k[0], k[1]);
      default: return fconv(e->op, k[0], e->width);
    }
  }
};
