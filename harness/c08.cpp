// C08: serialize() succeeds exactly when the encoding fits; otherwise BUFFER_FULL and what was written is a prefix.
#include "gen.hpp"
template<class M, u32 MAX> static void encode_ref(State<M>& s, u8* exp, u32& n, u32 all) {
  u32 deep = sym_param("deep", 0); const MD& md = G<M>::md();
  if (all) sym_all(md, s.p(), deep); else sym_state2(md, s.p(), deep);
  Out o = {exp, MAX, 0}; ref_encode(md, s.p(), o); if (o.n > MAX) sym_fail("harness: MAX too small"); n = o.n;
}
static inline void outcome(Error e, bool fits, const u8* got, u32 gn, const u8* exp, u32 n) {
  if (fits) { sym_assert(e == Error::NO_ERRORS, "an encoding that fits is refused"); sym_assert(gn == n, "number of bytes written"); sym_cover("fits"); }
  else { sym_assert(e == Error::BUFFER_FULL, "an encoding that does not fit is not reported as BUFFER_FULL"); sym_assert(gn <= n, "more bytes than the encoding"); sym_cover("full"); }
  if (gn > n) return;
  u32 eq = 1; for (u32 i = 0; i < gn; i++) eq &= got[i] == exp[i];
  sym_assert(eq, "the bytes written are not a prefix of the encoding");
  sym_cover("checked"); obs32((u32)e); obs32(gn); sym_observe(got, gn);
}
// any capacity from 0 to two more than needed
template<class M, u32 MAX> static void cap(u32 all) {
  State<M> s; u8 exp[MAX]; u32 n; encode_ref<M, MAX>(s, exp, n, all); M m; load(m, s.s);
  u32 c; if (n <= 40 && (all || sym_param("deep", 0))) c = choose(n + 3, "capacity"); else { u32 k = choose(7, "capacity"); c = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? n / 2 : n + k - 5; if (c > n + 2) c = n; }
  u8 got[MAX]; WBuf w(got, MAX, c);
  Error e = m.serialize(w);
  sym_assert(w.n <= c, "written beyond the capacity");
  outcome(e, n <= c, got, w.n, exp, n);
  // partly filled beforehand: appended after what is there
  if (n <= c) { u8 g2[MAX + 3]; WBuf w2(g2, MAX + 3, c + 2); w2.push(0xA5); w2.push(0x5A); e = m.serialize(w2);
    sym_assert(e == Error::NO_ERRORS && w2.n == n + 2 && g2[0] == 0xA5 && g2[1] == 0x5A, "serialize() does not append"); u32 eq = 1; for (u32 i = 0; i < n; i++) eq &= g2[i + 2] == exp[i]; sym_assert(eq, "serialize() does not append"); }
}
// the library's own buffer of N bytes, with f bytes in it already
template<class M, u32 MAX, u32 N> static void fixed() {
  State<M> s; u8 exp[MAX]; u32 n; encode_ref<M, MAX>(s, exp, n, 1); M m; load(m, s.s);
  ::EmbeddedProto::WriteBufferFixedSize<N> w; u32 f = choose(3, "filled"); for (u32 i = 0; i < f; i++) w.push((u8)(0xA0 + i));
  Error e = m.serialize(w);
  sym_assert(w.get_size() <= N, "written beyond the capacity"); sym_assert(w.get_size() >= f, "bytes disappeared");
  const u8* g = w.get_data(); for (u32 i = 0; i < f; i++) sym_assert(g[i] == 0xA0 + i, "earlier bytes changed");
  outcome(e, n <= N - f, g + f, w.get_size() - f, exp, n);
}
#define ENC(T, MAX) H(h_##T) { cap<M_##T, MAX>(0); }
#define ENCALL(T, MAX) H(h_all_##T) { cap<M_##T, MAX>(1); }
ENC(Scalars, 200) ENC(Tags, 120) ENC(Opts, 160) ENC(Opts40, 140) ENC(Strs, 40) ENC(StrBig, 460) ENC(Reps, 300) ENC(RepBig, 1000)
ENC(RepMsg, 120) ENC(Inner, 120) ENC(Nest, 300) ENC(One, 200) ENC(HasNothing, 40) ENC(RepStr, 60) ENC(TNest, 200) ENC(TopPlain, 300) ENC(b_c_Abc, 300) ENC(Shade, 300) ENC(Ali, 300) ENC(Wide, 300) ENC(Node, 300) ENC(Lead, 300) ENC(Far, 300) ENC(OneMore, 300) ENC(OptMore, 300) ENC(Names, 300) ENC(Fwd, 300) ENC(Deep, 300) ENC(TOuter, 300) ENC(TCap, 300)
ENCALL(Mini, 20) ENCALL(MiniStr, 20) ENCALL(MiniRep, 40) ENC(MiniMsg, 60) ENCALL(MiniMsg, 60) ENCALL(MiniOne, 30)
H(h_fix_Mini6) { fixed<M_Mini, 20, 6>(); } H(h_fix_Mini12) { fixed<M_Mini, 20, 12>(); } H(h_fix_MiniStr5) { fixed<M_MiniStr, 20, 5>(); }
H(h_fix_MiniOne8) { fixed<M_MiniOne, 30, 8>(); } H(h_fix_MiniRep10) { fixed<M_MiniRep, 40, 10>(); }
