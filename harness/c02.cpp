// C02: serialize() then deserialize() into a fresh message gives back the same message.
#include "gen.hpp"
template<class M, u32 MAX> static void rt(u32 all) {
  State<M> s; u32 deep = sym_param("deep", 0); const MD& md = G<M>::md();
  if (all) sym_all(md, s.p(), deep); else sym_state2(md, s.p(), deep);
  M m; load(m, s.s);
  u8 d[MAX]; WBuf w(d, MAX, 0xFFFFFFFFu);
  Error e = m.serialize(w); sym_assert(e == Error::NO_ERRORS, "serialize() into a buffer with room reports an error");
  M q; RBuf r(d, w.n); e = q.deserialize(r);
  sym_assert(e == Error::NO_ERRORS, "the library refuses its own output");
  sym_assert(r.p == w.n, "the output is not consumed completely");
  State<M> after; read(after.s, q); ref_canon(md, s.p());
  sym_assert(ref_eq(md, s.p(), after.p()), "the message read back differs from the one written");
  sym_cover("checked"); if (w.n) sym_cover("nonempty");
  obs32(w.n); sym_observe(after.p(), sizeof after.s);
}
#define ENC(T, MAX) H(h_##T) { rt<M_##T, MAX>(0); }
#define ENCALL(T, MAX) H(h_all_##T) { rt<M_##T, MAX>(1); }
ENC(Scalars, 200) ENC(Tags, 120) ENC(Opts, 160) ENC(Opts40, 140) ENC(Strs, 40) ENC(StrBig, 460) ENC(Reps, 300) ENC(RepBig, 1000)
ENC(RepMsg, 120) ENC(Inner, 120) ENC(Nest, 300) ENC(One, 200) ENC(HasNothing, 40) ENC(RepStr, 60) ENC(TNest, 200) ENC(TopPlain, 300) ENC(b_c_Abc, 300) ENC(Shade, 300) ENC(Ali, 300) ENC(Wide, 300) ENC(Node, 300) ENC(Lead, 300) ENC(Far, 300) ENC(OneMore, 300) ENC(OptMore, 300) ENC(Names, 300) ENC(Fwd, 300) ENC(Deep, 300) ENC(TOuter, 300) ENC(TCap, 300)
ENCALL(Mini, 20) ENCALL(MiniStr, 20) ENCALL(MiniRep, 40) ENC(MiniMsg, 60)
ENCALL(MiniMsg, 60) ENCALL(MiniOne, 30) ENCALL(Nothing, 4)
