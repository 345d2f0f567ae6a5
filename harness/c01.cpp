// C01: serialize() emits exactly the bytes of the reference encoder.
#include "gen.hpp"
template<class M, u32 MAX> static void enc(u32 all) {
  State<M> s; u32 deep = sym_param("deep", 0);
  if (all) sym_all(G<M>::md(), s.p(), deep); else sym_state2(G<M>::md(), s.p(), deep);
  M m; load(m, s.s);
  u8 exp[MAX]; Out o = {exp, MAX, 0}; ref_encode(G<M>::md(), s.p(), o);
  if (o.n > MAX) sym_fail("harness: MAX too small");
  u8 got[MAX]; WBuf w(got, MAX, 0xFFFFFFFFu);
  Error e = m.serialize(w);
  sym_assert(e == Error::NO_ERRORS, "serialize() into a buffer with room reports an error");
  sym_assert(w.n == o.n, "number of bytes written");
  u32 eq = 1; for (u32 i = 0; i < o.n; i++) eq &= got[i] == exp[i];
  sym_assert(eq, "serialized bytes differ from the wire format");
  State<M> after; read(after.s, m);
  sym_assert(ref_eq(G<M>::md(), s.p(), after.p()), "serialize() changed the message, or a getter does not return what was set");
  sym_cover("checked"); if (o.n) sym_cover("nonempty");
  obs32(o.n); sym_observe(got, w.n);
}
#define ENC(T, MAX) H(h_##T) { enc<M_##T, MAX>(0); }
#define ENCALL(T, MAX) H(h_all_##T) { enc<M_##T, MAX>(1); }
ENC(Scalars, 200) ENC(Tags, 120) ENC(Opts, 160) ENC(Opts40, 140) ENC(Strs, 40) ENC(StrBig, 460) ENC(Reps, 300) ENC(RepBig, 1000)
ENC(RepMsg, 120) ENC(Inner, 120) ENC(Nest, 300) ENC(One, 200) ENC(HasNothing, 40) ENC(RepStr, 60) ENC(TNest, 200) ENC(TopPlain, 300) ENC(b_c_Abc, 300) ENC(Shade, 300) ENC(Ali, 300) ENC(Wide, 300) ENC(Node, 300) ENC(Lead, 300) ENC(Far, 300) ENC(OneMore, 300) ENC(OptMore, 300) ENC(Names, 300) ENC(Fwd, 300) ENC(Deep, 300) ENC(TOuter, 300) ENC(TCap, 300)
ENCALL(Mini, 20) ENCALL(MiniStr, 20) ENCALL(MiniRep, 40) ENC(MiniMsg, 60)
ENCALL(MiniMsg, 60) ENCALL(MiniOne, 30) ENCALL(Nothing, 4)
