// Construction of symbolic encodings, driven by the schema tables.
#pragma once
#include "gen.hpp"
struct BB { u8* d; u32 cap; u32 n; };
static inline void bput(BB& b, u8 v) { if (b.n >= b.cap) sym_fail("harness: byte buffer too small"); b.d[b.n++] = v; }
static inline void bput_varint(BB& b, u64 v) { while (v >> 7) { bput(b, (u8)(v & 0x7F) | 0x80); v >>= 7; } bput(b, (u8)v); }
static inline void bput_sym(BB& b, u32 n) { if (b.n + n > b.cap) sym_fail("harness: byte buffer too small"); if (n) sym_bytes(b.d + b.n, n, "payload"); b.n += n; }
// an arbitrary varint of exactly c bytes; when over is set its last byte asks for another one
static inline void bput_symvarint(BB& b, u32 c, u32 over) {
  u8 t[12]; sym_bytes(t, c, "varint"); for (u32 k = 0; k < c; k++) bput(b, k + 1 < c || over ? t[k] | 0x80 : t[k] & 0x7F);
}
static inline u32 max_varint(u8 k) { return k == K_U32 || k == K_ENUM ? 5 : 10; }
enum { G_BAD = 1, G_DEEP = 2 };       // allow malformed values; more combinations
static inline void gen_record(const MD& md, BB& b, u32 mode, u32 depth);
static inline void gen_scalar(const FD& f, BB& b, u32 mode, u32 full) {
  u32 wt = wiretype(f.kind);
  if (wt == 1) { bput_sym(b, 8); return; }
  if (wt == 5) { bput_sym(b, 4); return; }
  u32 mx = max_varint(f.kind);
  if (full) { u32 c = choose(mx + (mode & G_BAD ? 1 : 0), "vlen") + 1; if (c > mx) { bput_symvarint(b, mx, 1); bput(b, 0); } else bput_symvarint(b, c, 0); }
  else { bput_symvarint(b, 1 + choose(2, "vlen"), 0); }
}
// length prefix for the n bytes at the end of b starting at pos
static inline void prefix(BB& b, u32 pos, u32 mode) {
  u32 n = b.n - pos; u8 tmp[12]; BB t = {tmp, 12, 0};
  u32 how = choose(mode & G_BAD ? 5 : 2, "prefix");
  if (how == 0) bput_varint(t, n);
  else if (how == 1) { bput(t, (u8)(n & 0x7F) | 0x80); bput(t, (u8)(n >> 7) | 0x80); bput(t, 0); }          // valid, over-long
  else if (how == 2) { u32 k = choose(4, "excess"); bput_varint(t, k == 0 ? n + 1 : k == 1 ? n + 2 : k == 2 ? n + 8 : 127 + n); } // announces more than the content
  else if (how == 3) { u32 c = choose(2, "plen"); bput_symvarint(t, 5, c); if (!c) { u32 v = tmp[0] & 0x7F; for (u32 k = 1; k < 5; k++) v |= (u32)(tmp[k] & 0x7F) << (7 * k); sym_assume(v > n); } }
  else { sym_assume(n > 0); bput_varint(t, n - 1); }                                                          // announces less
  if (b.n + t.n > b.cap) sym_fail("harness: byte buffer too small");
  for (u32 i = n; i > 0; i--) b.d[pos + t.n + i - 1] = b.d[pos + i - 1];
  for (u32 i = 0; i < t.n; i++) b.d[pos + i] = tmp[i];
  b.n += t.n;
}
static inline void gen_payload(const FD& f, BB& b, u32 mode, u32 depth) {
  u32 pos = b.n;
  u32 inner = mode, outer = mode; // malformed inside, or in the length
  if ((mode & G_BAD) && (f.kind == K_MSG || (f.card == C_REP && is_scalar(f.kind)))) { if (choose(2, "where")) inner &= ~G_BAD; else outer &= ~G_BAD; }
  if (f.card == C_REP && is_scalar(f.kind)) {
    u32 n = f.rcap <= 8 ? choose(f.rcap + (inner & G_BAD ? 2 : 1), "count") : choose(3, "count");
    for (u32 i = 0; i < n; i++) gen_scalar(f, b, inner, i + 1 == n);
    prefix(b, pos, outer); return;
  }
  if (is_scalar(f.kind)) { gen_scalar(f, b, mode, 1); return; }
  if (f.kind == K_MSG) {
    if (f.sub->n && choose(2, "content")) gen_record(*f.sub, b, inner, depth + 1);
    prefix(b, pos, outer); return;
  }
  u32 n = f.scap <= 8 ? choose(f.scap + (mode & G_BAD ? 2 : 1), "slen") : gen_len(f.scap, 0);
  bput_sym(b, n); prefix(b, pos, mode);
}
// a record of field k; with G_BAD possibly with another wire type
static inline void gen_known(const MD& md, u32 k, BB& b, u32 mode, u32 depth, u32 longtag) {
  const FD& f = md.f[k]; u32 wt = f.card == C_REP ? 2 : wiretype(f.kind);
  if ((mode & G_BAD) && depth == 0 && choose(2, "wiretype")) { u32 w = choose(8, "wt"); sym_assume(w != wt); bput_varint(b, ((u64)f.num << 3) | w); bput_sym(b, 1); return; }
  if (longtag && f.num < (1u << 22)) { u64 t = ((u64)f.num << 3) | wt; u32 n = 0; while (n < 4) { bput(b, (u8)(t & 0x7F) | 0x80); t >>= 7; n++; } bput(b, (u8)t); }
  else bput_varint(b, ((u64)f.num << 3) | wt);
  gen_payload(f, b, mode, depth);
}
static inline void gen_record(const MD& md, BB& b, u32 mode, u32 depth) { gen_known(md, choose(md.n, "subfield"), b, mode, depth, 0); }
// a complete field the schema does not define
static inline bool is_known(const MD& md, u32 num) { for (u32 k = 0; k < md.n; k++) if (md.f[k].num == num) return true; return false; }
static inline void gen_unknown(const MD& md, BB& b, u32 deep) {
  static const u32 WT[] = {0, 1, 2, 5}; u32 wt = WT[choose(4, "wt")];
  u32 c = 1 + choose(5, "tlen"), pos = b.n; bput_symvarint(b, c, 0); b.d[pos] = (u8)((b.d[pos] & 0xF8) | wt);
  if (c == 5) b.d[pos + 4] &= 0x0F; // a tag has 32 bits
  u32 num = 0; for (u32 k = 0; k < c; k++) num |= (u32)(b.d[pos + k] & 0x7F) << (7 * k); num >>= 3;
  u32 ok = num != 0; for (u32 k = 0; k < md.n; k++) ok &= md.f[k].num != num;
  sym_assume(ok);
  if (wt == 0) { u32 n = deep ? 1 + choose(10, "vlen") : 1 + 3 * choose(4, "vlen"); bput_symvarint(b, n, 0); }
  else if (wt == 1) bput_sym(b, 8);
  else if (wt == 5) bput_sym(b, 4);
  else { pos = b.n; static const u32 LEN[] = {0, 1, 3, 128, 2, 127, 200, 300}; u32 n = LEN[choose(deep ? 8 : 4, "ulen")]; u32 k = n < 3 ? n : 3; bput_sym(b, k); for (; k < n; k++) bput(b, (u8)(0xFF - k)); prefix(b, pos, 0); }
}
// a record with fixed content
static inline void fixed_record(const FD& f, BB& b, u32 seed) {
  u8 tmp[1400]; __builtin_memset(tmp, 0, sizeof tmp); pattern_field(f, tmp, seed);
  if (f.card == C_REP) u32at(tmp + f.meta) = 1;
  Out o = {b.d + b.n, b.cap - b.n, 0}; ref_encode_field(f, tmp, o); if (o.n > o.cap) sym_fail("harness: byte buffer too small"); b.n += o.n;
}
// the context of an arbitrary record: state of the message before (0 fresh, 1 all fields set, 2 all set but field i, arrays
// one element), a fixed record before it, after it (1 the same field, 2 another), an over-long tag
struct Ctx { u32 base, pre, post, longtag, j; };
static inline Ctx choose_ctx(const MD& md, u32 i, u32 product, u32 deep) {
  Ctx c; c.j = deep ? choose(md.n, "field2") : (i + 1 < md.n ? i + 1 : 0);
  if (product) { c.base = choose(3, "base"); c.pre = choose(2, "pre"); c.post = choose(3, "post"); c.longtag = choose(2, "longtag"); return c; }
  static const u8 T[5][4] = {{0, 0, 0, 0}, {1, 1, 2, 0}, {2, 0, 1, 1}, {2, 0, 0, 0}, {0, 1, 2, 1}};
  u32 k = choose(5, "context"); c.base = T[k][0]; c.pre = T[k][1]; c.post = T[k][2]; c.longtag = T[k][3]; return c;
}
static inline void base_state(const MD& md, u8* st, u32 i, const Ctx& c) {
  if (c.base == 0) return;
  pattern(md, st, 0);
  if (c.base == 2 && md.n) { const FD& f = md.f[i]; if (f.card == C_REP && f.rcap > 1) u32at(st + f.meta) = 1; else clear_ref_field(f, st); }
}
static inline void gen_input(const MD& md, BB& b, u32 i, u32 mode, const Ctx& c) {
  if (c.pre) fixed_record(md.f[c.j], b, 7);
  gen_known(md, i, b, mode, 0, c.longtag);
  if (c.post == 1) fixed_record(md.f[i], b, 11); else if (c.post == 2) fixed_record(md.f[c.j], b, 5);
}
