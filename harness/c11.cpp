// C11: copies and assignments are equal to and independent of the source.
#include "hist.hpp"
#include "elems.hpp"
#include <utility>
template<class M> static void one_field(State<M>& s, u32 i) { const MD& md = G<M>::md(); if (choose(2, "base")) pattern(md, s.p(), 0); if (!md.n) return; clear_ref_field(md.f[i], s.p()); if (!choose(2, "unset")) sym_field(md.f[i], s.p(), sym_param("deep", 0)); }
template<class M> static void independent(M& dst, M& src, State<M>& s, u32 i) {
  const MD& md = G<M>::md(); State<M> t = s; if (!md.n) return;
  u32 how = choose(3, "later");
  if (how == 0) { src.clear(); agree<M>(dst, s, "clearing the source changes the copy"); }
  else if (how == 1) { dst.clear(); agree<M>(src, s, "clearing the copy changes the source"); }
  else { u32 j = choose(2, "which") ? i : (i + 1) % md.n; const FD& f = md.f[j]; State<M> v; pattern_field(f, v.p(), 9); u32 w = f.card == C_REP ? 3 : 0;
    M* x = &src; M* y = &dst; if (choose(2, "side")) { M* z = x; x = y; y = z; }
    set_field(*x, v.s, j, w); model_set(f, t.p(), v.p(), w); agree<M>(*x, t, "a field cannot be changed after copying"); agree<M>(*y, s, "a change after copying shows in the other message"); }
}
template<class M> static void copy() {
  const MD& md = G<M>::md(); State<M> s; u32 i = md.n ? pick_field(md) : 0; one_field<M>(s, i);
  M src; load(src, s.s); u32 how = choose(6, "how");
  if (how > 3) { M& o = src; if (how == 4) src = o; else src = std::move(o); agree<M>(src, s, "assigning a message to itself changes it"); sym_cover("self"); }
  else if (how < 2) {
    if (how == 0) { M d(src); agree<M>(d, s, "a copy-constructed message differs from its source"); agree<M>(src, s, "copy construction changes the source"); independent<M>(d, src, s, i); }
    else { M d(std::move(src)); agree<M>(d, s, "a move-constructed message differs from its source"); }
  } else {
    M d; State<M> t; u32 tgt = choose(3, "target");
    if (tgt) { pattern(md, t.p(), 4); if (md.n && tgt == 2) { const FD& f = md.f[i]; if (f.card == C_ONE) { clear_ref_field(f, t.p()); pattern_field(f, t.p(), 6); } else clear_ref_field(f, t.p()); } load(d, t.s); }
    if (how == 2) { M& r = (d = src); sym_assert(&r == &d, "assignment does not return the target"); agree<M>(d, s, "an assigned message differs from its source"); agree<M>(src, s, "assignment changes the source"); independent<M>(d, src, s, i); }
    else { d = std::move(src); agree<M>(d, s, "a move-assigned message differs from its source"); }
  }
  sym_cover("checked"); State<M> a; read(a.s, src); sym_observe(a.p(), sizeof a.s);
}
// assignment in a row: what an earlier assignment left behind does not show
template<class M> static void twice() {
  const MD& md = G<M>::md(); State<M> s, t; u32 i = md.n ? pick_field(md) : 0; pattern(md, t.p(), 2); if (md.n) { clear_ref_field(md.f[i], t.p()); if (choose(2, "set1")) pattern_field(md.f[i], t.p(), 8); }
  one_field<M>(s, i); M a, b, d; load(a, t.s); load(b, s.s); d = a; d = b; agree<M>(d, s, "the second of two assignments does not give its source");
  d = a; agree<M>(d, t, "the third of three assignments does not give its source");
  sym_cover("checked"); State<M> o; read(o.s, b); sym_observe(o.p(), sizeof o.s);
}
// ---- containers of the same and of other capacities
template<class FS> static u32 fill(FS& f, u8* v, u32 cap) { using C = typename std::remove_const<typename std::remove_pointer<decltype(f.get_const())>::type>::type; u32 n = choose(cap + 1, "len"); if (n) { sym_bytes(v, n, "content"); f.set((const C*)v, n); } return n; }
template<class FS> static void holds(const FS& f, const u8* v, u32 n, const char* msg) { sym_assert(f.get_length() == n, msg); if (f.get_length() != n) return; u32 e = 1; for (u32 i = 0; i < n; i++) e &= (u8)f.get_const()[i] == v[i]; sym_assert(e, msg); }
template<class A, class B, u32 NA, u32 NB> static void text() {
  A a; B b; u8 va[NA + 1], vb[NB + 1]; u32 na = fill(a, va, NA), nb = fill(b, vb, NB); u32 how = choose(3, "how"), fits = nb <= NA;
  if (how == 0) a = b; else if (how == 1) { u32 e = (u32)a.set(b); sym_assert(e == (fits ? 0u : (u32)Error::ARRAY_FULL), "result of set() from another field"); }
  else { u32 e = (u32)a.set(b.get_const(), b.get_length()); sym_assert(e == (fits ? 0u : (u32)Error::ARRAY_FULL), "result of set() from data"); }
  if (fits) { holds(a, vb, nb, "assigned text differs from its source"); sym_cover("fits"); } else { holds(a, va, na, "a refused assignment changes the target"); }
  holds(b, vb, nb, "assignment changes the source");
  A c(a); holds(c, fits ? vb : va, fits ? nb : na, "copy of a text field"); c.clear(); holds(a, fits ? vb : va, fits ? nb : na, "clearing a copy changes the source");
  const u8* v = fits ? vb : va; u32 n = fits ? nb : na; A& self = a; if (choose(2, "self")) a = self; else sym_assert(a.set(self) == Error::NO_ERRORS, "setting a text field to itself is refused"); holds(a, v, n, "assigning a text field to itself changes it");
  sym_cover("checked"); obs32(nb);
}
H(h_str_same) { text<FieldString<3>, FieldString<3>, 3, 3>(); } H(h_str_smaller) { text<FieldString<5>, FieldString<2>, 5, 2>(); } H(h_str_larger) { text<FieldString<2>, FieldString<5>, 2, 5>(); }
H(h_byt_same) { text<FieldBytes<3>, FieldBytes<3>, 3, 3>(); } H(h_byt_smaller) { text<FieldBytes<5>, FieldBytes<2>, 5, 2>(); } H(h_byt_larger) { text<FieldBytes<2>, FieldBytes<5>, 2, 5>(); }
template<class R> static void eq(const R& r, const u32* v, u32 n, const char* msg) { sym_assert(r.get_length() == n, msg); if (r.get_length() != n) return; u32 e = 1; for (u32 i = 0; i < n; i++) e &= El<typename std::decay<decltype(r.get_const(0))>::type>::val(r.get_const(i)) == v[i]; sym_assert(e, msg); }
template<class T, u32 N> static u32 fillr(RepeatedFieldFixedSize<T, N>& r, u32* v) { u32 n = choose(N + 1, "len"); for (u32 i = 0; i < n; i++) { v[i] = sym_u32("element"); T t; El<T>::mk(t, v[i]); r.add(t); } return n; }
template<class T> static void rep() {
  RepeatedFieldFixedSize<T, 3> a, b; u32 va[3], vb[3]; fillr<T, 3>(a, va); u32 nb = fillr<T, 3>(b, vb);
  a = b; eq(a, vb, nb, "assigned array differs from its source"); eq(b, vb, nb, "assignment changes the source");
  RepeatedFieldFixedSize<T, 3> c(b); eq(c, vb, nb, "copy of an array");
  RepeatedFieldFixedSize<T, 5> l(b); eq(l, vb, nb, "an array constructed from a smaller one"); RepeatedFieldFixedSize<T, 5> l2(std::move(b)); eq(l2, vb, nb, "an array constructed from a smaller one");
  a.clear(); eq(c, vb, nb, "copies are not independent"); eq(l, vb, nb, "copies are not independent"); eq(b, vb, nb, "clearing the target changes the source");
  { RepeatedFieldFixedSize<T, 3>& o = c; c = o; eq(c, vb, nb, "assigning an array to itself changes it"); }
  // an element of the array itself as the source
  if (nb) { u32 j = choose(nb, "from"), k = choose(4, "into"), w2[5]; for (u32 i = 0; i < nb; i++) w2[i] = vb[i]; RepeatedFieldFixedSize<T, 5> q(c); if (k == 3) { q.add(q.get_const(j)); w2[nb] = vb[j]; eq(q, w2, nb + 1, "adding an element of the array itself"); } else if (k < nb) { q.set(k, q.get_const(j)); w2[k] = vb[j]; eq(q, w2, nb, "storing an element of the array itself"); } }
  // the larger one takes more elements
  u32 x = sym_u32("more"), w[5]; for (u32 i = 0; i < nb; i++) w[i] = vb[i]; w[nb] = x; T t; El<T>::mk(t, x); sym_assert(l.add(t) == Error::NO_ERRORS, "no room in the larger array"); eq(l, w, nb + 1, "adding to an array constructed from a smaller one");
  sym_cover("checked"); obs32(nb);
}
H(h_rep_i32) { rep<EmbeddedProto::int32>(); } H(h_rep_u64) { rep<EmbeddedProto::uint64>(); } H(h_rep_bool) { rep<EmbeddedProto::boolean>(); } H(h_rep_str) { rep<FieldString<4>>(); } H(h_rep_msg) { rep<M_Mini>(); }
#define CP(T) H(h_##T) { copy<M_##T>(); } H(h_tw_##T) { twice<M_##T>(); }
CP(Scalars) CP(Tags) CP(Opts) CP(Opts40) CP(Strs) CP(StrBig) CP(Reps) CP(RepBig) CP(RepMsg) CP(Inner) CP(Nest) CP(One) CP(HasNothing) CP(RepStr) CP(TNest) CP(TopPlain) CP(b_c_Abc) CP(Shade) CP(Ali) CP(Wide) CP(Node) CP(Lead) CP(Far) CP(OneMore) CP(OptMore) CP(Names) CP(Fwd) CP(Deep) CP(TOuter) CP(TCap) CP(MiniMsg) CP(MiniOne) CP(MiniStr) CP(MiniRep) CP(Nothing)
