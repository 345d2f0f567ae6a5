// Histories of operations on a message, next to the model (the reference state).
#pragma once
#include "bytes.hpp"
static inline void model_clear(const FD& f, u8* st) { if (f.card == C_ONE) { if (u32at(st + f.meta) == f.num) u32at(st + f.meta) = 0; } else { clear_ref_field(f, st); if (f.card == C_REP) __builtin_memset(st + f.off, 0, f.esize * f.rcap); } }
static inline void model_touch(const FD& f, u8* st) {
  if (f.card == C_OPT) u32at(st + f.meta) = 1;
  if (f.card == C_ONE && u32at(st + f.meta) != f.num) { zero_elem(f, st + f.off); u32at(st + f.meta) = f.num; }
}
// field f of v becomes field f of st
static inline void model_set(const FD& f, u8* st, const u8* v, u32 how) {
  if (f.card == C_REP) {
    u32 n = u32at(v + f.meta); for (u32 i = 0; i < n; i++) __builtin_memcpy(st + f.off + i * f.esize, v + f.off + i * f.esize, f.esize);
    if (how == 3 || n > u32at(st + f.meta)) u32at(st + f.meta) = n;
    return;
  }
  if (f.card == C_OPT) u32at(st + f.meta) = 1;
  if (f.card == C_ONE) u32at(st + f.meta) = f.num;
  __builtin_memcpy(st + f.off, v + f.off, f.esize);
}
// an arbitrary value of field f, in v
static inline void sym_value(const FD& f, u8* v, u32 rich) {
  __builtin_memset(v + f.off, 0, f.card == C_REP ? f.esize * f.rcap : f.esize);
  if (f.card == C_OPT) u32at(v + f.meta) = 1;
  if (f.card == C_ONE) u32at(v + f.meta) = f.num;
  if (f.card == C_REP) { u32 n = f.rcap > 8 ? choose(3, "len") : choose(f.rcap + 1, "len"); u32at(v + f.meta) = n; for (u32 i = 0; i < n; i++) { if (is_scalar(f.kind)) sym_elem(f, v + f.off + i * f.esize, 0); else pattern_elem(f, v + f.off + i * f.esize, i + 1); } return; }
  if (f.kind == K_MSG && !rich) { if (choose(2, "sub")) pattern_elem(f, v + f.off, 5); return; }
  sym_elem(f, v + f.off, 0);
}
// after a failed deserialization of field f: a oneof is left unset; what another field holds then is not specified, but the others are as before
template<class M> static void failed(const M& m, State<M>& s, const FD& f) {
  if (f.card == C_ONE) { u32at(s.p() + f.meta) = 0; return; }
  State<M> a; read(a.s, m); __builtin_memcpy(s.p() + f.off, a.p() + f.off, f.card == C_REP ? f.esize * f.rcap : f.esize);
  if (f.card != C_PLAIN) u32at(s.p() + f.meta) = u32at(a.p() + f.meta);
}
enum { OP_SET, OP_TOUCH, OP_CLEARF, OP_RECV, OP_RECVBAD, OP_CLEAR, OP_ASSIGN, OP_N };
// one operation on field k; the model follows
template<class M> static void do_op(M& m, State<M>& s, u32 op, u32 k, u32 how, u32 rich) {
  const MD& md = G<M>::md(); const FD& f = md.f[k];
  if (op == OP_SET) { State<M> v; sym_value(f, v.p(), rich); if (!set_field(m, v.s, k, how)) { sym_assume(0); return; } model_set(f, s.p(), v.p(), how); }
  else if (op == OP_TOUCH) { if (!touch_field(m, k)) { sym_assume(0); return; } if (f.card != C_REP) model_touch(f, s.p()); }
  else if (op == OP_CLEARF) { clear_field(m, k); model_clear(f, s.p()); }
  else if (op == OP_RECV) {
    u8 d[96]; BB b = {d, 96, 0};
    if (f.kind == K_MSG || f.card == C_REP) fixed_record(f, b, 9);
    else { bput_varint(b, ((u64)f.num << 3) | wiretype(f.kind));
      if (is_scalar(f.kind)) { if (wiretype(f.kind) == 0) bput_symvarint(b, 2, 0); else bput_sym(b, wiretype(f.kind) == 1 ? 8 : 4); }
      else { u32 n = rich ? choose(f.scap + 1, "slen") : f.scap; bput_varint(b, n); bput_sym(b, n); } }
    In in = {d, 0, b.n, 0, 0}; u32 e = ref_decode(md, s.p(), in); RBuf r(d, b.n); u32 g = (u32)m.deserialize(r);
    sym_assert(e == g, "deserializing one field reports another error than expected");
    if (e) failed<M>(m, s, f);
  } else if (op == OP_RECVBAD) { // cut off, or of another wire type
    u8 d[96]; BB b = {d, 96, 0};
    if (choose(2, "bad")) { bput_varint(b, ((u64)f.num << 3) | (wiretype(f.kind) == 0 ? 5 : 0)); bput_sym(b, 1); }
    else bput_varint(b, ((u64)f.num << 3) | (f.card == C_REP ? 2 : wiretype(f.kind)));
    RBuf r(d, b.n); u32 g = (u32)m.deserialize(r); sym_assert(g != 0, "a cut-off or mistyped field is accepted");
    failed<M>(m, s, f);
  } else if (op == OP_CLEAR) { m.clear(); ref_reset(md, s.p()); }
  else { State<M> o; pattern(md, o.p(), 2);
    if (f.card == C_ONE) { clear_ref_field(f, o.p()); if (choose(2, "set")) pattern_field(f, o.p(), 4); } else if (choose(2, "unset")) clear_ref_field(f, o.p());
    M x; load(x, o.s); m = x; s = o; }
}
template<class M> static void agree(const M& m, const State<M>& s, const char* msg) { State<M> a; read(a.s, m); sym_assert(ref_eq(G<M>::md(), s.p(), a.p()), msg); }
