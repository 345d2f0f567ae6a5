// C03: well-formed input decodes to the values of the reference decoder.
#include "bytes.hpp"
template<class M> static void decide(State<M>& s, M& m, const u8* d, u32 n) {
  In in = {d, 0, n, 0, 0}; u32 e = ref_decode(G<M>::md(), s.p(), in);
  sym_assume(e == E_OK && !in.kf && !in.alt);
  RBuf r(d, n); Error ge = m.deserialize(r);
  sym_assert(ge == Error::NO_ERRORS, "well-formed input is refused");
  sym_assert(r.p == n, "the input is not consumed completely");
  State<M> after; read(after.s, m);
  sym_assert(ref_eq(G<M>::md(), s.p(), after.p()), "decoded message differs from what the wire format defines");
  sym_cover("checked"); obs32(n); sym_observe(after.p(), sizeof after.s);
}
template<class M, u32 MAX> static void dec() {
  const MD& md = G<M>::md(); u32 mode = sym_param("deep", 0) ? G_DEEP : 0;
  u8 d[MAX]; BB b = {d, MAX, 0}; State<M> s; M m;
  u32 i = pick_field(md); Ctx c = choose_ctx(md, i, 1, mode); base_state(md, s.p(), i, c); used_load<M>(m, s, i);
  gen_input(md, b, i, mode, c);
  decide<M>(s, m, d, b.n);
}
// every byte string of up to N bytes
template<class M> static void all() {
  const MD& md = G<M>::md(); u32 N = sym_param("n", 6); u8 d[16]; State<M> s; M m;
  if (sym_param("filled", 0)) { pattern(md, s.p(), 0); load(m, s.s); }
  sym_bytes(d, N, "input"); u32 w = sym_param("wt", 8); if (w < 8) sym_assume((d[0] & 7) == w);
  decide<M>(s, m, d, N);
}
#define DEC(T, MAX) H(h_##T) { dec<M_##T, MAX>(); }
#define ALL(T) H(h_all_##T) { all<M_##T>(); }
DEC(Scalars, 80) DEC(Tags, 80) DEC(Opts, 80) DEC(Opts40, 60) DEC(Strs, 60) DEC(StrBig, 400) DEC(Reps, 100) DEC(RepBig, 100)
DEC(RepMsg, 80) DEC(Inner, 100) DEC(Nest, 200) DEC(One, 150) DEC(HasNothing, 60) DEC(RepStr, 60) DEC(TNest, 120) DEC(TopPlain, 200) DEC(b_c_Abc, 200) DEC(Shade, 200) DEC(Ali, 200) DEC(Wide, 200) DEC(Node, 200) DEC(Lead, 200) DEC(Far, 200) DEC(OneMore, 200) DEC(OptMore, 200) DEC(Names, 200) DEC(Fwd, 200) DEC(Deep, 200) DEC(TOuter, 200) DEC(TCap, 200) DEC(MiniMsg, 80) DEC(MiniOne, 80)
ALL(Mini) ALL(MiniStr) ALL(MiniRep) ALL(MiniMsg) ALL(MiniOne) ALL(Nothing)
