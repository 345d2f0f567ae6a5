// Construction of symbolic reference states, and buffers.
#pragma once
#include "vs_glue.hpp"
static const u32 BIGLEN[] = {0, 1, 2, 63, 64, 126, 127, 128, 129, 130, 139, 140, 255, 256, 257, 299, 300};
static inline u32 gen_len(u32 cap, u32 full) {
  if (cap <= 8 || full) { return choose(cap + 1, "len"); }
  u32 k = choose(sizeof BIGLEN / sizeof *BIGLEN, "biglen"); sym_assume(BIGLEN[k] <= cap); return BIGLEN[k];
}
static inline void pattern_elem(const FD& f, u8* p, u32 seed);
static inline void pattern(const MD& md, u8* st, u32 seed);
// any 32-bit number: one path for each up to n, one for all above
static inline u32 sym_split(u32 n, const char* name) { u32 v = sym_u32(name); if (v > n) return v; return (u32)sym_concrete(v); }
// ---- fixed non-default value
static inline void pattern_elem(const FD& f, u8* p, u32 seed) {
  if (f.kind == K_MSG) { pattern(*f.sub, p, seed + 1); return; }
  if (f.kind == K_STR || f.kind == K_BYT) { u32 n = f.scap > 8 ? 5 : f.scap; u32at(p) = n; for (u32 i = 0; i < n; i++) p[4 + i] = (u8)('A' + (seed + i) % 26); return; }
  if (f.kind == K_BOOL) u32at(p) = 1; else if (is64(f.kind)) u64at(p) = 0x0102030400000090ull + seed; else u32at(p) = 0x190u + seed;
}
static inline void pattern_field(const FD& f, u8* st, u32 seed) {
  if (f.card == C_REP) { u32 n = f.rcap > 8 ? 3 : f.rcap; u32at(st + f.meta) = n; for (u32 i = 0; i < n; i++) pattern_elem(f, st + f.off + i * f.esize, seed + i); return; }
  if (f.card == C_OPT) u32at(st + f.meta) = 1;
  if (f.card == C_ONE) { if (u32at(st + f.meta)) return; u32at(st + f.meta) = f.num; }
  pattern_elem(f, st + f.off, seed);
}
static inline void pattern(const MD& md, u8* st, u32 seed) { for (u32 i = 0; i < md.n; i++) pattern_field(md.f[i], st, seed + 3 * i); }
// ---- arbitrary value
static inline void sym_state1(const MD& md, u8* st, u32 deep);
static inline void sym_elem(const FD& f, u8* p, u32 deep) {
  if (f.kind == K_MSG) { sym_state1(*f.sub, p, deep); return; }
  if (f.kind == K_STR || f.kind == K_BYT) { u32 n = gen_len(f.scap, deep > 1); u32at(p) = n; if (n) sym_bytes(p + 4, n, f.name); return; }
  if (f.kind == K_BOOL) { u32 v = sym_u32(f.name); sym_assume(v <= 1); u32at(p) = v; }
  else sym_bytes(p, is64(f.kind) ? 8 : 4, f.name);
}
static inline void sym_field(const FD& f, u8* st, u32 deep) {
  if (f.card == C_REP) {
    u32 n = gen_len(f.rcap, deep > 1); u32at(st + f.meta) = n;
    if (n <= 8 && (deep || n <= 3)) for (u32 i = 0; i < n; i++) {
      if (is_scalar(f.kind) || i + 1 == n) sym_elem(f, st + f.off + i * f.esize, deep); else pattern_elem(f, st + f.off + i * f.esize, i); }
    else { u32 s = choose(2, "elem") ? n - 1 : 0; for (u32 i = 0; i < n; i++) if (i != s) { u8* p = st + f.off + i * f.esize; if (is_scalar(f.kind) && !is64(f.kind)) u32at(p) = (i & 0x3F) ? 1 : (f.kind == K_BOOL ? 0 : 5); else pattern_elem(f, p, i); }
      sym_elem(f, st + f.off + s * f.esize, deep); }
    return;
  }
  if (f.card == C_OPT) { u32 h = choose(2, "has"); u32at(st + f.meta) = h; if (!h) return; }
  if (f.card == C_ONE) u32at(st + f.meta) = f.num;
  sym_elem(f, st + f.off, deep);
}
// a cheaper arbitrary value for the second field: one symbolic element, submessages set or unset
static inline void sym_light(const FD& f, u8* st) {
  if (f.card == C_REP) {
    u32 n = gen_len(f.rcap, 0); u32at(st + f.meta) = n; if (!n) return;
    for (u32 i = 0; i + 1 < n; i++) { u8* p = st + f.off + i * f.esize; if (is_scalar(f.kind) && !is64(f.kind)) u32at(p) = 1; else pattern_elem(f, p, i); }
    u8* p = st + f.off + (n - 1) * f.esize; if (f.kind == K_MSG) pattern_elem(f, p, 1); else sym_elem(f, p, 0); return;
  }
  if (f.card == C_OPT) { u32 h = choose(2, "has"); u32at(st + f.meta) = h; if (!h) return; }
  if (f.card == C_ONE) u32at(st + f.meta) = f.num;
  if (f.kind == K_MSG) { if (choose(2, "sub")) pattern_elem(f, st + f.off, 1); } else sym_elem(f, st + f.off, 0);
}
static inline void clear_ref_field(const FD& f, u8* st) {
  if (f.card == C_REP) { u32at(st + f.meta) = 0; return; }
  if (f.card == C_OPT) u32at(st + f.meta) = 0;
  if (f.card == C_ONE) { u32at(st + f.meta) = 0; return; }
  __builtin_memset(st + f.off, 0, f.esize);
}
// the field under consideration; the runner may split the fields over several runs
static inline u32 pick_field(const MD& md) { u32 i = choose(md.n, "field"); sym_assume(i % sym_param("nsh", 1) == sym_param("sh", 0)); return i; }
// one field arbitrary, the others all default or all set
static inline void sym_state1(const MD& md, u8* st, u32 deep) {
  if (choose(2, "base")) pattern(md, st, 0);
  if (!md.n) return;
  u32 i = choose(md.n, "field"); clear_ref_field(md.f[i], st); sym_field(md.f[i], st, deep);
}
// two fields arbitrary (i fixed by shard or arbitrary), the others all default or all set
static inline void sym_state2(const MD& md, u8* st, u32 deep) {
  if (choose(2, "base")) pattern(md, st, 0);
  if (!md.n) return;
  u32 i = pick_field(md);
  clear_ref_field(md.f[i], st);
  u32 j = deep ? choose(md.n, "field2") : (i + 1 < md.n ? i + 1 : 0);
  clear_ref_field(md.f[j], st);
  if (j != i) { if (deep) sym_field(md.f[j], st, deep); else sym_light(md.f[j], st); } // a oneof member set here may be replaced by field i
  sym_field(md.f[i], st, deep);
}
// every field arbitrary
static inline void sym_all(const MD& md, u8* st, u32 deep) {
  for (u32 i = 0; i < md.n; i++) { const FD& f = md.f[i];
    if (f.card == C_ONE) { if (i && md.f[i - 1].card == C_ONE && md.f[i - 1].meta == f.meta) continue;
      u32 n = 1; while (i + n < md.n && md.f[i + n].card == C_ONE && md.f[i + n].meta == f.meta) n++;
      u32 k = choose(n + 1, "member"); if (k < n) sym_field(md.f[i + k], st, deep); }
    else if (f.card == C_REP && f.kind == K_MSG) { u32 n = choose(f.rcap + 1, "len"); u32at(st + f.meta) = n; for (u32 k = 0; k < n; k++) sym_all(*f.sub, st + f.off + k * f.esize, deep); }
    else if (f.kind == K_MSG) { if (f.card == C_OPT) { u32 h = choose(2, "has"); u32at(st + f.meta) = h; if (!h) continue; } sym_all(*f.sub, st + f.off, deep); }
    else sym_field(f, st, deep);
  }
}
template<class M> struct State { typename G<M>::S s; State() { ref_reset(G<M>::md(), p()); } u8* p() { return (u8*)&s; } const u8* p() const { return (const u8*)&s; } };
// state s in m, either in a fresh message or in one that held other, longer content in field i earlier
template<class M> static void used_load(M& m, const State<M>& s, u32 i) {
  const MD& md = G<M>::md(); const FD& f = md.f[i]; if ((f.card != C_REP && is_scalar(f.kind)) || !choose(2, "used")) { load(m, s.s); return; }
  State<M> o; pattern_field(f, o.p(), 11); load(m, o.s); M x; load(x, s.s); m = x;
}

// ---- a write buffer that honours the interface, with any capacity
struct WBuf : public ::EmbeddedProto::WriteBufferInterface {
  u8* d; u32 cap; u32 n = 0; u32 max;
  WBuf(u8* d_, u32 max_, u32 cap_) : d(d_), cap(cap_), max(max_) {}
  void clear() override { n = 0; }
  u32 get_size() const override { return n; }
  u32 get_max_size() const override { return cap; }
  u32 get_available_size() const override { return cap - n; }
  bool push(const u8 b) override { if (n >= cap) return false; if (n >= max) { sym_fail("more output than the harness expects"); } d[n++] = b; return true; }
  bool push(const u8* b, const u32 len) override { if (len > cap - n) return false; if (len > max - n) { sym_fail("more output than the harness expects"); } for (u32 i = 0; i < len; i++) d[n + i] = b[i]; n += len; return true; }
};
// ---- a read buffer over a byte range whose get_size() is the number of bytes left
struct RBuf : public ::EmbeddedProto::ReadBufferInterface {
  const u8* d; u32 p = 0; u32 n;
  RBuf(const u8* d_, u32 n_) : d(d_), n(n_) {}
  u32 get_size() const override { return n - p; }
  u32 get_max_size() const override { return n; }
  bool peek(u8& b) const override { if (p >= n) return false; b = d[p]; return true; }
  bool advance() override { if (p >= n) return false; p++; return true; }
  bool advance(const u32 k) override { if (k > n - p) { p = n; return false; } p += k; return true; }
  bool pop(u8& b) override { if (p >= n) return false; b = d[p++]; return true; }
};
