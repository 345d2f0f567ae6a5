// C19: no operation requests dynamic memory. Run with --no-heap: every call of an allocation function on any path is the violation.
#include "hist.hpp"
#include <utility>
template<class M, u32 CAP> static void life() {
  const MD& md = G<M>::md(); M m; State<M> s; u32 deep = sym_param("deep", 0);
  if (choose(2, "base")) pattern(md, s.p(), 0);
  u32 i = md.n ? pick_field(md) : 0; if (md.n) { clear_ref_field(md.f[i], s.p()); sym_field(md.f[i], s.p(), deep); } load(m, s.s);
  static u8 got[CAP + 8]; u32 c = choose(4, "buffer"); Error e; ::EmbeddedProto::WriteBufferFixedSize<CAP> wf; WBuf w(got, CAP, CAP); ::EmbeddedProto::MessageSizeCalculator mc;
  e = c == 0 ? m.serialize(wf) : c == 1 ? m.serialize(w) : c == 2 ? m.serialize(mc) : Error::NO_ERRORS; obs32((u32)e);
  if (c == 3) { u32 z = m.serialized_size(), q = choose(4, "room"); u32 cap = q == 0 ? 0 : q == 1 ? z - (z > 0) : q == 2 ? z / 2 : 2; WBuf t(got, CAP, cap); obs32((u32)m.serialize(t)); ::EmbeddedProto::WriteBufferFixedSize<3> f3; obs32((u32)m.serialize(f3)); obs32((u32)(M::field_number_to_name((typename M::FieldNumber)(q + 1))[0])); } obs32(m.serialized_size());
  u32 k = choose(4, "copy"); if (k == 0) { M d(m); obs32(d.serialized_size()); } else if (k == 1) { M d; d = m; m = d; } else if (k == 2) { M d(std::move(m)); m = std::move(d); } else if (md.n) { touch_field(m, i); clear_field(m, i); }
  m.clear(); sym_cover("checked");
}
template<class M, u32 MAX> static void recv() {
  const MD& md = G<M>::md(); u8 d[MAX]; BB b = {d, MAX, 0}; State<M> s; M m; u32 i = pick_field(md);
  if (choose(2, "base")) { pattern(md, s.p(), 0); load(m, s.s); }
  if (choose(2, "unknown") == 0) gen_unknown(md, b, 0); else gen_known(md, i, b, choose(2, "bad") ? G_BAD : 0, 0, 0);
  u32 e; if (choose(2, "buffer")) { RBuf r(d, b.n); e = (u32)m.deserialize(r); } else { ::EmbeddedProto::ReadBufferFixedSize<MAX> r; for (u32 k = 0; k < b.n; k++) r.push(d[k]); e = (u32)m.deserialize(r); }
  M c(m); obs32(e); m.clear(); sym_cover("checked");
}
#define LIFE(T, MAX) H(h_##T) { life<M_##T, 2500>(); } H(h_r_##T) { recv<M_##T, MAX>(); }
LIFE(Scalars, 200) LIFE(Tags, 200) LIFE(Opts, 200) LIFE(Opts40, 200) LIFE(Strs, 200) LIFE(StrBig, 400) LIFE(Reps, 200) LIFE(RepBig, 200) LIFE(RepMsg, 200) LIFE(Inner, 200) LIFE(Nest, 300) LIFE(One, 300) LIFE(HasNothing, 200) LIFE(RepStr, 200) LIFE(TNest, 200) LIFE(TopPlain, 300) LIFE(b_c_Abc, 300) LIFE(Shade, 300) LIFE(Ali, 300) LIFE(Wide, 300) LIFE(Node, 300) LIFE(Lead, 300) LIFE(Far, 300) LIFE(OneMore, 300) LIFE(OptMore, 300) LIFE(Names, 300) LIFE(Fwd, 300) LIFE(Deep, 300) LIFE(TOuter, 300) LIFE(TCap, 300) LIFE(MiniMsg, 200) LIFE(MiniOne, 200) LIFE(MiniStr, 200) LIFE(MiniRep, 200)
