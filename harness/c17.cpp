// C17: ReadBufferSection never reads beyond its length; length-delimited fields consume exactly what they announce.
#include "bytes.hpp"
using ::EmbeddedProto::ReadBufferSection; using ::EmbeddedProto::ReadBufferInterface;
// operations on a section of any 32-bit size; `avail` bytes d[..] are left in the parent
template<class P> static void section(P& parent, const u8* d, u32 avail, u32 nested) {
  u32 size = sym_split(avail + 1, "size"); u32 want = size;
  ReadBufferSection outer(parent, nested ? sym_split(avail + 1, "outer") : 0xFFFFFFFFu); u32 olen = nested ? outer.get_max_size() : 0xFFFFFFFFu;
  ReadBufferInterface& base = nested ? (ReadBufferInterface&)outer : (ReadBufferInterface&)parent;
  ReadBufferSection s(base, size); u32 lim = want < olen ? want : olen; if (lim > avail) lim = avail; lim = (u32)sym_concrete(lim);   // at most these bytes
  u32 used = 0, over = 0, n = sym_param("steps", 3); sym_assert(s.get_size() >= lim && s.get_size() <= want, "size of a section"); sym_assert(s.get_max_size() <= want && s.get_max_size() >= lim, "maximum size of a section");
  for (u32 i = 0; i < n; i++) {
    u32 op = choose(4, "op"), left = lim - used; u8 x = 0x77; bool ok;
    if (op == 0) { ok = s.pop(x); if (left) { sym_assert(ok && x == d[used], "pop() does not deliver the next byte of the section"); used++; } else { sym_assert(!ok, "pop() beyond the section"); over = 1; } }
    else if (op == 1) { ok = s.peek(x); if (left) sym_assert(ok && x == d[used], "peek() does not show the next byte of the section"); else sym_assert(!ok, "peek() beyond the section"); }
    else if (op == 2) { ok = s.advance(); if (left) { sym_assert(ok, "advance() inside the section fails"); used++; } else { sym_assert(!ok, "advance() beyond the section"); over = 1; } }
    else { u32 k = sym_split(left, "advance"); ok = s.advance(k); if (k <= left) { sym_assert(ok, "advance(n) inside the section fails"); used += (u32)sym_concrete(k); } else { sym_assert(!ok, "advance(n) beyond the section succeeds"); used = lim; over = 1; } }
    sym_assert(s.get_size() <= want - used, "get_size() is more than what is left of the section"); if (!over) sym_assert(s.get_size() >= lim - used, "get_size() is less than what is left of the section");
  }
  // the parent continues right after what was consumed
  for (u32 i = used; i < avail; i++) { u8 x; bool ok = parent.pop(x); sym_assert(ok && x == d[i], "the parent does not continue after the bytes the section consumed"); } u8 y; sym_assert(!parent.pop(y), "bytes appeared");
  sym_cover("checked"); if (used < lim) sym_cover("partial"); obs32(used);
}
template<u32 N> static void over_user(u32 nested) { u8 d[N]; sym_bytes(d, N, "data"); u32 skip = choose(2, "skip"); RBuf b(d, N); if (skip) b.advance(); section<RBuf>(b, d + skip, N - skip, nested); }
template<u32 N> static void over_fixed(u32 nested) { u8 d[N]; sym_bytes(d, N, "data"); u32 skip = choose(2, "skip"); ::EmbeddedProto::ReadBufferFixedSize<N + 1> b; for (u32 i = 0; i < N; i++) b.push(d[i]); if (skip) b.advance(); section<::EmbeddedProto::ReadBufferFixedSize<N + 1>>(b, d + skip, N - skip, nested); }
H(h_user) { over_user<4>(0); } H(h_fixed) { over_fixed<4>(0); } H(h_user_nested) { over_user<4>(1); } H(h_fixed_nested) { over_fixed<4>(1); }
// a length-delimited field k with an arbitrary content of L bytes, then a record of a following field
template<class M> static void field() {
  const MD& md = G<M>::md(); u32 k = choose(md.n, "field"); const FD& f = md.f[k]; sym_assume(f.card == C_REP || wiretype(f.kind) == 2); u32 L = choose(sym_param("len", 4) + 1, "len");
  u8 d[64]; BB b = {d, 64, 0}; bput_varint(b, ((u64)f.num << 3) | 2); bput_varint(b, L); bput_sym(b, L);
  u32 j = 0; for (u32 i = 0; i < md.n; i++) if (i != k && md.f[i].card != C_ONE && is_scalar(md.f[i].kind)) j = i; if (md.f[j].card != C_REP && is_scalar(md.f[j].kind) && j != k) { bput_varint(b, ((u64)md.f[j].num << 3) | wiretype(md.f[j].kind)); if (wiretype(md.f[j].kind) == 0) bput(b, sym_u8("next") & 0x7F); else bput_sym(b, wiretype(md.f[j].kind) == 5 ? 4 : 8); }
  M m; State<M> s; In in = {d, 0, b.n, 0, 0}; u32 e = ref_decode(md, s.p(), in); sym_assume(!in.kf); u32 g, left;
  if (choose(2, "buffer")) { ::EmbeddedProto::ReadBufferFixedSize<80> r; for (u32 i = 0; i < b.n; i++) r.push(d[i]); g = (u32)m.deserialize(r); u8 x; left = 0; while (r.pop(x)) left++; } else { RBuf r(d, b.n); g = (u32)m.deserialize(r); left = b.n - r.p; }
  sym_assert((e == 0) == (g == 0), "content that does not match the announced length is accepted, or matching content refused");
  if (e == 0) { sym_assert(left == 0, "bytes are left over"); State<M> a; read(a.s, m); sym_assert(ref_eq(md, s.p(), a.p()), "a length-delimited field does not end where its length says"); sym_cover("accepted"); }
  sym_cover("checked"); obs32(g);
}
#define FI(T) H(h_f_##T) { field<M_##T>(); }
FI(MiniMsg) FI(MiniRep) FI(MiniStr) FI(MiniOne) FI(Strs) FI(RepMsg) FI(Inner) FI(Nest) FI(One) FI(HasNothing) FI(TNest) FI(TopPlain) FI(b_c_Abc) FI(Shade) FI(Ali) FI(Wide) FI(Node) FI(Lead) FI(Far) FI(OneMore) FI(OptMore) FI(Names) FI(Fwd) FI(Deep) FI(TOuter) FI(TCap) FI(RepStr) FI(Reps) FI(Opts) FI(Tags)
