// C12: clear() gives a fresh message; clear_x() a fresh field.
#include "hist.hpp"
template<class M> static void fresh_outputs(const M& m) { u8 got[8]; WBuf w(got, 8, 0xFFFFFFFFu); Error e = m.serialize(w); sym_assert(e == Error::NO_ERRORS && w.n == 0, "a cleared message serializes to something"); sym_assert(m.serialized_size() == 0, "a cleared message has a serialized size"); }
template<class M, u32 MAX> static void before(M& m, State<M>& s, u32 i) {
  const MD& md = G<M>::md(); const FD& f = md.f[i]; u32 c = choose(4, "before");
  if (c & 1) pattern(md, s.p(), 0);
  if (c < 2) { clear_ref_field(f, s.p()); sym_field(f, s.p(), sym_param("deep", 0));
    u32 long_ago = f.card == C_REP || f.kind == K_STR || f.kind == K_BYT || f.kind == K_MSG ? choose(3, "earlier") : 0;   // it held something else earlier
    if (!long_ago) { load(m, s.s); return; }
    State<M> o; pattern_field(f, o.p(), 11); load(m, o.s); M x; load(x, s.s);
    if (long_ago == 1) m = x; else { load(m, s.s); if (f.card == C_REP) set_field(m, s.s, i, 3); read(s.s, m); } return; }
  // received
  load(m, s.s); u8 d[MAX]; BB b = {d, MAX, 0}; if (sym_param("deep", 0)) gen_known(md, i, b, (c & 1) ? G_BAD : 0, 0, 0); else { if (choose(2, "two")) fixed_record(f, b, 2); fixed_record(f, b, 5); if ((c & 1) && b.n && choose(2, "cut")) b.n--; } RBuf r(d, b.n); u32 e = (u32)m.deserialize(r);
  read(s.s, m); (void)e;
}
// what comes after: array or text i extended, received, or set
template<class M, u32 MAX> static void after(M& m, State<M>& s, u32 i) {
  const MD& md = G<M>::md(); const FD& f = md.f[i]; u32 c = choose(3, "after");
  if (c == 0) { u32 cap = f.card == C_REP ? f.rcap : f.scap; if (!cap) { if (!touch_field(m, i)) { sym_assume(0); return; } model_touch(f, s.p()); }
    else { u32 n = 1 + (cap <= 8 ? choose(cap, "extend") : choose(2, "extend") ? cap - 1 : 1); if (!extend_field(m, i, n)) { sym_assume(0); return; } if (f.card == C_REP) u32at(s.p() + f.meta) = n; else { model_touch(f, s.p()); u32at(s.p() + f.off) = n; } }
    agree<M>(m, s, "an element exposed after clearing is not the default"); }
  else if (c == 1) { u8 d[MAX]; BB b = {d, MAX, 0}; fixed_record(f, b, 3); if (choose(2, "two")) fixed_record(f, b, 6); In in = {d, 0, b.n, 0, 0}; u32 e = ref_decode(md, s.p(), in); RBuf r(d, b.n); u32 g = (u32)m.deserialize(r);
    sym_assert(e == g, "receiving after clearing gives another result than on a fresh message"); if (!e) agree<M>(m, s, "what is received after clearing is mixed with what was there before"); }
  else { State<M> v; sym_value(f, v.p(), 0); u32 how = choose(4, "how"); if (!set_field(m, v.s, i, how)) { sym_assume(0); return; } model_set(f, s.p(), v.p(), how); agree<M>(m, s, "what is set after clearing is mixed with what was there before"); }
}
template<class M, u32 MAX> static void all() {
  const MD& md = G<M>::md(); M m; State<M> s, z; u32 i = pick_field(md); before<M, MAX>(m, s, i);
  m.clear(); agree<M>(m, z, "clear() leaves a getter, presence or length unlike a fresh message"); fresh_outputs(m);
  after<M, MAX>(m, z, i);
  sym_cover("checked"); State<M> a; read(a.s, m); sym_observe(a.p(), sizeof a.s);
}
template<class M, u32 MAX> static void single() {
  const MD& md = G<M>::md(); M m; State<M> s; u32 i = pick_field(md); before<M, MAX>(m, s, i);
  clear_field(m, i); model_clear(md.f[i], s.p()); agree<M>(m, s, "clear_x() does not clear x alone");
  after<M, MAX>(m, s, i);
  sym_cover("checked"); State<M> a; read(a.s, m); sym_observe(a.p(), sizeof a.s);
}
#define CL(T, MAX) H(h_##T) { all<M_##T, MAX>(); } H(h_f_##T) { single<M_##T, MAX>(); }
CL(Scalars, 80) CL(Tags, 80) CL(Opts, 80) CL(Opts40, 60) CL(Strs, 60) CL(StrBig, 400) CL(Reps, 140) CL(RepBig, 400) CL(RepMsg, 100) CL(Inner, 100) CL(Nest, 200) CL(One, 200) CL(HasNothing, 60) CL(RepStr, 60) CL(TNest, 150) CL(TopPlain, 300) CL(b_c_Abc, 300) CL(Shade, 300) CL(Ali, 300) CL(Wide, 300) CL(Node, 300) CL(Lead, 300) CL(Far, 300) CL(OneMore, 300) CL(OptMore, 300) CL(Names, 300) CL(Fwd, 300) CL(Deep, 300) CL(TOuter, 300) CL(TCap, 300) CL(MiniMsg, 80) CL(MiniOne, 80) CL(MiniStr, 40) CL(MiniRep, 60) CL(Mini, 40)
