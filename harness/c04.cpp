// C04: whatever the bytes, deserialize() is memory safe, terminates, only moves forward and keeps containers within bounds.
// The engine itself reports every out-of-bounds or uninitialised access, undefined operation and runaway path; read()
// checks the container lengths.
#include "bytes.hpp"
template<class M> static void go(M& m, const u8* d, u32 n, u32 which) {
  u32 e;
  if (which == 0) { RBuf r(d, n); e = (u32)m.deserialize(r); sym_assert(r.p <= n, "position beyond the input"); }
  else { ::EmbeddedProto::ReadBufferFixedSize<128> r; for (u32 i = 0; i < n && i < 128; i++) r.push(d[i]);
    u32 s0 = r.get_size(); e = (u32)m.deserialize(r); sym_assert(r.get_size() <= s0, "bytes appeared in the buffer"); }
  sym_assert(e <= 7, "not an error code");
  State<M> after; read(after.s, m);
  sym_cover("checked"); if (e == 0) sym_cover("accepted"); else sym_cover("refused");
  obs32(e); sym_observe(after.p(), sizeof after.s);
  // the message is still usable
  m.clear(); State<M> f0; read(after.s, m); sym_assert(ref_eq(G<M>::md(), after.p(), f0.p()), "clear() after a deserialization does not give a fresh message");
}
// field i, malformed in every way the generator knows, followed by arbitrary bytes
template<class M, u32 MAX> static void dec() {
  const MD& md = G<M>::md(); u32 deep = sym_param("deep", 0);
  u8 d[MAX]; BB b = {d, MAX, 0}; State<M> s; M m;
  u32 i = pick_field(md); if (choose(2, "base")) { pattern(md, s.p(), 0); load(m, s.s); }
  gen_known(md, i, b, G_BAD, 0, 0); if (deep) bput_sym(b, deep);
  go<M>(m, d, b.n, choose(2, "buffer"));
}
template<class M> static void all() {
  const MD& md = G<M>::md(); u32 N = sym_param("n", 6); u8 d[16]; State<M> s; M m;
  if (sym_param("filled", 0)) { pattern(md, s.p(), 0); load(m, s.s); }
  sym_bytes(d, N, "input"); u32 w = sym_param("wt", 8); if (w < 8) sym_assume((d[0] & 7) == w);
  go<M>(m, d, N, sym_param("fixed", 0));
}
// announced lengths next to 2^31 and 2^32, for which sums of positions wrap around
template<class M> static void wrap() {
  const MD& md = G<M>::md(); u8 d[64]; BB b = {d, 64, 0}; M m; u32 k = choose(28, "length"), L = k < 20 ? 0u - (k + 1) : k < 24 ? 0x80000000u - (k - 20) : 0x7FFFFFF0u + (k - 20);
  if (md.n && choose(2, "before")) fixed_record(md.f[0], b, 3);
  u32 in = 0; for (u32 i = 0; i < md.n; i++) if (md.f[i].kind == K_MSG) in = i + 1;
  if (in && choose(2, "inside")) { bput_varint(b, ((u64)md.f[in - 1].num << 3) | 2); bput_varint(b, choose(2, "outer") ? 12 : L); }
  u32 num = choose(2, "known"); if (num && md.n) { u32 i = pick_field(md); num = md.f[i].num; } else num = 536870000; bput_varint(b, ((u64)num << 3) | 2);
  bput_varint(b, L); bput_sym(b, 3); go<M>(m, d, b.n, choose(2, "buffer"));
}
#define WRAP(T) H(h_wrap_##T) { wrap<M_##T>(); }
WRAP(Mini) WRAP(MiniStr) WRAP(MiniRep) WRAP(MiniMsg) WRAP(MiniOne) WRAP(Nothing) WRAP(RepMsg) WRAP(RepStr) WRAP(Inner)
#define DEC(T, MAX) H(h_##T) { dec<M_##T, MAX>(); }
#define ALL(T) H(h_all_##T) { all<M_##T>(); }
DEC(Scalars, 80) DEC(Tags, 80) DEC(Opts, 80) DEC(Opts40, 60) DEC(Strs, 60) DEC(StrBig, 400) DEC(Reps, 120) DEC(RepBig, 100)
DEC(RepMsg, 80) DEC(Inner, 100) DEC(Nest, 200) DEC(One, 150) DEC(HasNothing, 60) DEC(RepStr, 60) DEC(TNest, 120) DEC(TopPlain, 200) DEC(b_c_Abc, 200) DEC(Shade, 200) DEC(Ali, 200) DEC(Wide, 200) DEC(Node, 200) DEC(Lead, 200) DEC(Far, 200) DEC(OneMore, 200) DEC(OptMore, 200) DEC(Names, 200) DEC(Fwd, 200) DEC(Deep, 200) DEC(TOuter, 200) DEC(TCap, 200) DEC(MiniMsg, 80) DEC(MiniOne, 80)
ALL(Mini) ALL(MiniStr) ALL(MiniRep) ALL(MiniMsg) ALL(MiniOne) ALL(Nothing)
