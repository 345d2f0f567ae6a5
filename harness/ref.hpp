// Reference model of the wire format, table driven, written from the protobuf encoding specification and the behaviour
// the library documents; it shares no code with /repo.
#pragma once
#include "prelude.hpp"
enum Kind { K_I32, K_I64, K_U32, K_U64, K_S32, K_S64, K_F32, K_F64, K_SF32, K_SF64, K_FLT, K_DBL, K_BOOL, K_ENUM, K_STR, K_BYT, K_MSG };
enum Card { C_PLAIN, C_OPT, C_REP, C_ONE };
struct MD;
struct FD { u32 num; u8 kind; u8 card; u32 rcap, scap, off, meta, esize; const MD* sub; const char* name; };
struct MD { const FD* f; u32 n; u32 size; const char* name; };
template<u32 N> struct Str { u32 len; u8 d[N]; };

static inline u32& u32at(u8* p) { return *(u32*)p; }
static inline u64& u64at(u8* p) { return *(u64*)p; }
static inline u32 u32at(const u8* p) { return *(const u32*)p; }
static inline u64 u64at(const u8* p) { return *(const u64*)p; }
static inline bool is64(u8 k) { return k == K_I64 || k == K_U64 || k == K_S64 || k == K_F64 || k == K_SF64 || k == K_DBL; }
static inline bool is_scalar(u8 k) { return k < K_STR; }
static inline u32 wiretype(u8 k) {
  switch (k) { case K_F64: case K_SF64: case K_DBL: return 1; case K_STR: case K_BYT: case K_MSG: return 2; case K_F32: case K_SF32: case K_FLT: return 5; default: return 0; }
}
static inline void ref_reset(const MD& md, u8* st) { __builtin_memset(st, 0, md.size); }

// ---- equality (no branches on data)
static inline u32 ref_eq(const MD& md, const u8* a, const u8* b);
static inline u32 ref_eq_elem(const FD& f, const u8* a, const u8* b) {
  if (f.kind == K_MSG) return ref_eq(*f.sub, a, b);
  if (f.kind == K_STR || f.kind == K_BYT) {
    if (u32at(a) != u32at(b)) return 0;
    u32 e = 1, n = u32at(a); for (u32 i = 0; i < n; i++) e &= (a[4 + i] == b[4 + i]); return e;
  }
  return is64(f.kind) ? (u64at(a) == u64at(b)) : (u32at(a) == u32at(b));
}
static inline u32 ref_eq_field(const FD& f, const u8* a, const u8* b) {
  if (f.card == C_PLAIN) return ref_eq_elem(f, a + f.off, b + f.off);
  if (f.card == C_OPT) { if (u32at(a + f.meta) != u32at(b + f.meta)) return 0; return ref_eq_elem(f, a + f.off, b + f.off); }
  if (f.card == C_REP) {
    if (u32at(a + f.meta) != u32at(b + f.meta)) return 0;
    u32 e = 1, n = u32at(a + f.meta); for (u32 i = 0; i < n; i++) e &= ref_eq_elem(f, a + f.off + i * f.esize, b + f.off + i * f.esize); return e;
  }
  if (u32at(a + f.meta) != u32at(b + f.meta)) return 0;
  if (u32at(a + f.meta) != f.num) return 1;
  return ref_eq_elem(f, a + f.off, b + f.off);
}
static inline u32 ref_eq(const MD& md, const u8* a, const u8* b) { u32 e = 1; for (u32 i = 0; i < md.n; i++) e &= ref_eq_field(md.f[i], a, b); return e; }

// ---- a plain float or double that compares equal to zero is not transmitted: -0.0 comes back as 0.0
static inline void ref_canon(const MD& md, u8* st);
static inline void ref_canon_elem(const FD& f, u8* p) { if (f.kind == K_MSG) ref_canon(*f.sub, p); }
static inline void ref_canon(const MD& md, u8* st) {
  for (u32 i = 0; i < md.n; i++) { const FD& f = md.f[i];
    if (f.card == C_PLAIN && f.kind == K_FLT) { u32& v = u32at(st + f.off); v = (u32)(v << 1) == 0 ? 0 : v; }
    else if (f.card == C_PLAIN && f.kind == K_DBL) { u64& v = u64at(st + f.off); v = (u64)(v << 1) == 0 ? 0 : v; }
    else if (f.card == C_REP) { for (u32 k = 0; k < u32at(st + f.meta); k++) ref_canon_elem(f, st + f.off + k * f.esize); }
    else ref_canon_elem(f, st + f.off);
  }
}

// ---- encoder
struct Out { u8* d; u32 cap; u32 n; };
static inline void put(Out& o, u8 b) { if (o.n < o.cap) o.d[o.n] = b; o.n++; }
static inline void put_varint(Out& o, u64 v) { while (v >> 7) { put(o, (u8)(v & 0x7F) | 0x80); v >>= 7; } put(o, (u8)v); }
static inline void put_fixed(Out& o, u64 v, u32 n) { for (u32 i = 0; i < n; i++) put(o, (u8)(v >> (8 * i))); }
static inline void put_tag(Out& o, u32 num, u32 wt) { put_varint(o, ((u64)num << 3) | wt); }
static inline void put_scalar(Out& o, u8 k, const u8* p) {
  switch (k) {
    case K_I32: case K_U32: case K_ENUM: put_varint(o, u32at(p)); break;            // negative int32: 5 bytes, as the library documents
    case K_I64: case K_U64: put_varint(o, u64at(p)); break;
    case K_S32: { u32 v = u32at(p); u32 sgn = v >> 31; put_varint(o, (u32)((v << 1) ^ (0u - sgn))); break; }
    case K_S64: { u64 v = u64at(p); u64 sgn = v >> 63; put_varint(o, (v << 1) ^ (0ull - sgn)); break; }
    case K_F32: case K_SF32: case K_FLT: put_fixed(o, u32at(p), 4); break;
    case K_F64: case K_SF64: case K_DBL: put_fixed(o, u64at(p), 8); break;
    default: put(o, u32at(p) ? 1 : 0); break;
  }
}
static inline bool ref_is_default(const FD& f, const u8* p) {
  if (f.kind == K_FLT) return (u32)(u32at(p) << 1) == 0;
  if (f.kind == K_DBL) return (u64)(u64at(p) << 1) == 0;
  return is64(f.kind) ? u64at(p) == 0 : u32at(p) == 0;
}
static inline void ref_encode(const MD& md, const u8* st, Out& o);
static inline u32 ref_size(const MD& md, const u8* st) { Out o = {nullptr, 0, 0}; ref_encode(md, st, o); return o.n; }
static inline void ref_encode_elem(const FD& f, const u8* p, bool always, Out& o) {
  if (is_scalar(f.kind)) { if (always || !ref_is_default(f, p)) { put_tag(o, f.num, wiretype(f.kind)); put_scalar(o, f.kind, p); } }
  else if (f.kind == K_MSG) { u32 n = ref_size(*f.sub, p); if (always || n) { put_tag(o, f.num, 2); put_varint(o, n); ref_encode(*f.sub, p, o); } }
  else { u32 n = u32at(p); if (always || n) { put_tag(o, f.num, 2); put_varint(o, n); for (u32 i = 0; i < n; i++) put(o, p[4 + i]); } }
}
static inline void ref_encode_field(const FD& f, const u8* st, Out& o) {
  if (f.card == C_PLAIN) ref_encode_elem(f, st + f.off, false, o);
  else if (f.card == C_OPT) { if (u32at(st + f.meta)) ref_encode_elem(f, st + f.off, true, o); }
  else if (f.card == C_ONE) { if (u32at(st + f.meta) == f.num) ref_encode_elem(f, st + f.off, true, o); }
  else {
    u32 n = u32at(st + f.meta);
    if (is_scalar(f.kind)) {
      if (n) { Out c = {nullptr, 0, 0}; for (u32 i = 0; i < n; i++) put_scalar(c, f.kind, st + f.off + i * f.esize);
        put_tag(o, f.num, 2); put_varint(o, c.n); for (u32 i = 0; i < n; i++) put_scalar(o, f.kind, st + f.off + i * f.esize); }
    } else for (u32 i = 0; i < n; i++) ref_encode_elem(f, st + f.off + i * f.esize, true, o);
  }
}
static inline void ref_encode(const MD& md, const u8* st, Out& o) { for (u32 i = 0; i < md.n; i++) ref_encode_field(md.f[i], st, o); }

// ---- decoder. kf: 1 = the input ends inside a tag, 2 = it ends inside an unknown length-delimited field (known findings)
struct In { const u8* d; u32 p; u32 lim; u32 kf; u32 alt; };
static inline u32 E(Error e) { return (u32)e; }
#define E_OK 0u
#define E_EOB 1u
#define E_WT 3u
#define E_FULL 4u
#define E_ID 5u
#define E_LONG 6u
static inline u32 get_varint(In& i, u32 maxb, u64& v) {
  u64 r = 0; for (u32 k = 0; k < maxb; k++) {
    if (i.p >= i.lim) return E_EOB;
    u8 b = i.d[i.p++]; r |= (u64)(b & 0x7F) << (7 * k); if (!(b & 0x80)) { v = r; return E_OK; }
  }
  return E_LONG;
}
static inline u32 get_fixed(In& i, u32 n, u64& v) { u64 r = 0; for (u32 k = 0; k < n; k++) { if (i.p >= i.lim) return E_EOB; r |= (u64)i.d[i.p++] << (8 * k); } v = r; return E_OK; }
static inline u32 get_scalar(In& i, u8 k, u8* p) {
  u64 v = 0; u32 e;
  switch (k) {
    case K_U32: case K_ENUM: e = get_varint(i, 5, v); if (!e) u32at(p) = (u32)v; return e;
    case K_I32: e = get_varint(i, 10, v); if (!e) u32at(p) = (u32)v; return e;
    case K_S32: e = get_varint(i, 10, v); if (!e) { u32 z = (u32)v; u32at(p) = (z >> 1) ^ (0u - (z & 1)); } return e;
    case K_U64: case K_I64: e = get_varint(i, 10, v); if (!e) u64at(p) = v; return e;
    case K_S64: e = get_varint(i, 10, v); if (!e) u64at(p) = (v >> 1) ^ (0ull - (v & 1)); return e;
    case K_BOOL: e = get_varint(i, 10, v); if (!e) u32at(p) = v != 0 ? 1 : 0; return e;
    case K_F32: case K_SF32: case K_FLT: e = get_fixed(i, 4, v); if (!e) u32at(p) = (u32)v; return e;
    default: e = get_fixed(i, 8, v); if (!e) u64at(p) = v; return e;
  }
}
static inline u32 ref_decode(const MD& md, u8* st, In& i);
static inline u32 get_sub(const MD& md, u8* p, In& i) {
  u64 n = 0; u32 e = get_varint(i, 5, n); if (e) return e; n = (u32)n;
  u32 left = i.lim - i.p; bool cut = n > left; u32 save = i.lim; if (!cut) i.lim = i.p + (u32)n;
  e = ref_decode(md, p, i); i.lim = save;
  if (cut) { if (e) i.alt |= 1u << E_EOB; else e = E_EOB; }
  return e;
}
static inline u32 get_elem(const FD& f, u8* p, In& i) {
  if (is_scalar(f.kind)) return get_scalar(i, f.kind, p);
  if (f.kind == K_MSG) return get_sub(*f.sub, p, i);
  u64 n = 0; u32 e = get_varint(i, 5, n); if (e) return e; n = (u32)n;
  if (n > f.scap) { if (n > i.lim - i.p) i.alt |= 1u << E_EOB; return E_FULL; }
  if (n > i.lim - i.p) return E_EOB;
  n = sym_concrete(n);
  u32at(p) = (u32)n; for (u32 k = 0; k < n; k++) p[4 + k] = i.d[i.p++];
  return E_OK;
}
static inline void zero_elem(const FD& f, u8* p) { __builtin_memset(p, 0, f.esize); }
static inline u32 get_packed(const FD& f, u8* st, In& i) {
  u64 n = 0; u32 e = get_varint(i, 5, n); if (e) return e; n = (u32)n;
  u32 left = i.lim - i.p; bool cut = n > left; u32 save = i.lim; if (!cut) i.lim = i.p + (u32)n;
  while (!e && i.p < i.lim) {
    u64 tmp = 0; e = get_scalar(i, f.kind, (u8*)&tmp); if (e) break;
    u32& c = u32at(st + f.meta); if (c >= f.rcap) { e = E_FULL; break; }
    u8* d = st + f.off + c * f.esize; if (is64(f.kind)) u64at(d) = tmp; else u32at(d) = *(u32*)&tmp; c++;
  }
  i.lim = save; if (cut) { if (e) i.alt |= 1u << E_EOB; else e = E_EOB; }
  return e;
}
static inline u32 get_field(const FD& f, u8* st, In& i, u32 wt) {
  if (f.card == C_REP) {
    if (wt != 2) return E_WT;
    if (is_scalar(f.kind)) return get_packed(f, st, i);
    u32& c = u32at(st + f.meta); if (c >= f.rcap) return E_FULL;
    u8* d = st + f.off + c * f.esize; zero_elem(f, d); c++;
    return get_elem(f, d, i);
  }
  if (wt != wiretype(f.kind)) return E_WT;
  if (f.card == C_OPT) u32at(st + f.meta) = 1;
  if (f.card == C_ONE && u32at(st + f.meta) != f.num) { zero_elem(f, st + f.off); u32at(st + f.meta) = f.num; }
  return get_elem(f, st + f.off, i);
}
static inline u32 ref_decode(const MD& md, u8* st, In& i) {
  for (;;) {
    if (i.p >= i.lim) return E_OK;
    u64 tag = 0; u32 e = get_varint(i, 5, tag);
    if (e == E_EOB) { i.kf |= 1; return E_OK; }
    if (e) return e;
    u32 wt = (u32)tag & 7, num = (u32)tag >> 3;
    if (wt > 5) return E_WT;
    if (num == 0) return E_ID;
    const FD* f = nullptr; for (u32 k = 0; k < md.n; k++) if (md.f[k].num == num) { f = &md.f[k]; break; }
    if (f) e = get_field(*f, st, i, wt);
    else { u64 v = 0;
      if (wt == 0) e = get_varint(i, 10, v);
      else if (wt == 1) e = get_fixed(i, 8, v);
      else if (wt == 5) e = get_fixed(i, 4, v);
      else if (wt == 2) { e = get_varint(i, 5, v); if (!e) { v = (u32)v; if (v > i.lim - i.p) { i.kf |= 2; i.p = i.lim; } else i.p = (u32)(i.p + sym_concrete(v)); } }
      else e = E_WT;
    }
    if (e) return e;
  }
}
