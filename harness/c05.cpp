// C05: malformed input is refused with the error the reference decoder gives.
#include "bytes.hpp"
template<class M> static void decide(State<M>& s, M& m, const u8* d, u32 n) {
  In in = {d, 0, n, 0, 0}; u32 e = ref_decode(G<M>::md(), s.p(), in);
  sym_assume(e != E_OK || in.kf);
  RBuf r(d, n); u32 ge = (u32)m.deserialize(r);
  if (e == E_OK) {
    if (in.kf & 1) sym_assert(ge != 0, "KF: input that ends inside a field tag is reported as success");
    else sym_assert(ge != 0, "KF: an unknown length-delimited field cut off by the end of the input is reported as success");
    sym_cover("kf");
  } else {
    sym_assert(ge != 0, "malformed input is reported as success");
    if (!in.kf) sym_assert(ge == e || ((in.alt >> ge) & 1), "malformed input is reported with another error than documented");
    sym_cover("checked");
    if (e == E_EOB) sym_cover("eob"); else if (e == E_WT) sym_cover("wt"); else if (e == E_FULL) sym_cover("full"); else if (e == E_LONG) sym_cover("long"); else if (e == E_ID) sym_cover("id");
  }
  obs32(ge);
}
template<class M, u32 MAX> static void dec() {
  const MD& md = G<M>::md(); u32 mode = sym_param("deep", 0) ? G_DEEP : 0;
  u8 d[MAX]; BB b = {d, MAX, 0}; State<M> s; M m;
  u32 i = pick_field(md); Ctx c = choose_ctx(md, i, mode, mode); base_state(md, s.p(), i, c); load(m, s.s);
  if (choose(2, "cut")) { gen_input(md, b, i, mode, c); if (b.n <= 48) b.n = choose(b.n, "at"); else { u32 k = choose(32, "at"); b.n = k < 16 ? k : b.n - 32 + k; } }
  else gen_input(md, b, i, mode | G_BAD, c);
  decide<M>(s, m, d, b.n);
}
// a tag that is malformed itself: any number of bytes, field number zero, any wire type
template<class M> static void tag() {
  u8 d[16]; BB b = {d, 16, 0}; State<M> s; M m; u32 c = choose(3, "shape");
  if (c == 0) { bput_symvarint(b, 5, 1); bput_sym(b, 2); }
  else if (c == 1) { u32 n = 1 + choose(5, "vlen"); bput(b, (u8)(n > 1 ? 0x80 : 0) | choose(8, "wt")); for (u32 k = 1; k < n; k++) bput(b, k + 1 < n ? 0x80 : 0); bput_sym(b, 2); }
  else { bput_symvarint(b, 1 + choose(5, "vlen"), 0); bput_sym(b, choose(3, "more")); }
  decide<M>(s, m, d, b.n);
}
template<class M> static void all() {
  const MD& md = G<M>::md(); u32 N = sym_param("n", 6); u8 d[16]; State<M> s; M m;
  if (sym_param("filled", 0)) { pattern(md, s.p(), 0); load(m, s.s); }
  sym_bytes(d, N, "input"); u32 w = sym_param("wt", 8); if (w < 8) sym_assume((d[0] & 7) == w);
  decide<M>(s, m, d, N);
}
#define DEC(T, MAX) H(h_##T) { dec<M_##T, MAX>(); }
#define ALL(T) H(h_all_##T) { all<M_##T>(); }
DEC(Scalars, 80) DEC(Tags, 80) DEC(Opts, 80) DEC(Opts40, 60) DEC(Strs, 60) DEC(StrBig, 400) DEC(Reps, 120) DEC(RepBig, 100)
DEC(RepMsg, 80) DEC(Inner, 100) DEC(Nest, 200) DEC(One, 150) DEC(HasNothing, 60) DEC(RepStr, 60) DEC(TNest, 120) DEC(TopPlain, 200) DEC(b_c_Abc, 200) DEC(Shade, 200) DEC(Ali, 200) DEC(Wide, 200) DEC(Node, 200) DEC(Lead, 200) DEC(Far, 200) DEC(OneMore, 200) DEC(OptMore, 200) DEC(Names, 200) DEC(Fwd, 200) DEC(Deep, 200) DEC(TOuter, 200) DEC(TCap, 200) DEC(MiniMsg, 80) DEC(MiniOne, 80)
ALL(Mini) ALL(MiniStr) ALL(MiniRep) ALL(MiniMsg) ALL(MiniOne) ALL(Nothing)
H(h_tag_Mini) { tag<M_Mini>(); } H(h_tag_Scalars) { tag<M_Scalars>(); } H(h_tag_Nothing) { tag<M_Nothing>(); }
