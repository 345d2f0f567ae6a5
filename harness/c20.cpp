// C20: numbers, types, names, limits; fields are kept apart.
#include "hist.hpp"
static inline u32 same(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return *a == *b; }
template<class M> static void tables() {
  const MD& md = G<M>::md(); M m; limits(m);
  // any 32-bit number
  u32 n = sym_u32("number"); const char* got = number_name((M*)nullptr, n); const char* want = nullptr;
  for (u32 i = 0; i < md.n; i++) if (md.f[i].num == n) want = md.f[i].name;
  if (!want) want = left_out((M*)nullptr, n);
  if (want) { sym_assert(same(got, want), "field_number_to_name of a field number"); sym_cover("name"); }
  else { sym_assert(same(got, number_name((M*)nullptr, 0x3FFFFFFF)), "field_number_to_name of a number without a field"); for (u32 i = 0; i < md.n; i++) sym_assert(!same(got, md.f[i].name), "the name of a field is given for a number without a field"); sym_cover("invalid"); }
  sym_cover("checked"); obs32(n);
}
// one field set to anything in a fresh or a filled message: it alone changes, x() is get_x(), and the tag on the wire is its own
template<class M, u32 MAX> static void apart() {
  const MD& md = G<M>::md(); M m; State<M> s; u32 k = pick_field(md); if (choose(2, "base")) { pattern(md, s.p(), 0); if (md.f[k].card == C_ONE) { clear_ref_field(md.f[k], s.p()); if (choose(2, "self")) pattern_field(md.f[k], s.p(), 5); } load(m, s.s); }
  u32 how = choose(4, "how"); State<M> v; sym_value(md.f[k], v.p(), sym_param("deep", 0)); if (!set_field(m, v.s, k, how)) { sym_assume(0); return; }
  model_set(md.f[k], s.p(), v.p(), how);
  agree<M>(m, s, "setting one field changes another, or does not store the value");
  for (u32 i = 0; i < md.n; i++) alias_check(m, i);
  limits(m);
  if (!how) { u8 exp[MAX], got[MAX]; Out o = {exp, MAX, 0}; ref_encode(md, s.p(), o); if (o.n > MAX) sym_fail("harness: MAX too small"); WBuf w(got, MAX, 0xFFFFFFFFu); u32 e = (u32)m.serialize(w); sym_assert(e == 0 && w.n == o.n, "the encoding is not that of the schema"); u32 eq = 1; for (u32 i = 0; i < o.n && i < w.n; i++) eq &= exp[i] == got[i]; sym_assert(eq, "the encoding is not that of the schema"); }
  clear_field(m, k); model_clear(md.f[k], s.p()); agree<M>(m, s, "clearing one field changes another, or does not clear it");
  sym_cover("checked"); State<M> a; read(a.s, m); sym_observe(a.p(), sizeof a.s);
}
// one element of one array stored at any 32-bit index of a fresh or a filled message
template<class M> static void at() {
  const MD& md = G<M>::md(); M m; State<M> s; u32 k = pick_field(md); const FD& f = md.f[k]; sym_assume(f.card == C_REP); if (choose(2, "base")) { pattern(md, s.p(), 0); if (choose(2, "some")) u32at(s.p() + f.meta) = 1; load(m, s.s); }
  State<M> v; u32 how = choose(7, "how"), cap = f.rcap, n = u32at(s.p() + f.meta), i = sym_u32("index"); if (cap <= 8) { if (i > cap) sym_assume(1); else i = (u32)sym_concrete(i); } else { u32 c = choose(6, "at"); sym_assume(i == (c == 0 ? 0 : c == 1 ? 1 : c == 2 ? cap / 2 : c == 3 ? cap - 1 : c == 4 ? cap : 0xFFFFFFFFu)); i = (u32)sym_concrete(i); }
  sym_elem(f, v.p() + f.off, 0); if (!put_at(m, v.s, k, i, how)) { sym_assume(0); return; }
  u32 t = how >= 5 ? n : (i < cap ? i : cap - 1); if (how >= 5 && n == cap) t = cap;
  if (t < cap) { for (u32 j = n; j < t; j++) __builtin_memset(s.p() + f.off + j * f.esize, 0, f.esize); if (t >= n) u32at(s.p() + f.meta) = t + 1; __builtin_memcpy(s.p() + f.off + t * f.esize, v.p() + f.off, f.esize); }
  // what lies between the old end and the index is whatever was there before: only compared where the array was empty
  sym_assume(t <= n || n == 0);
  agree<M>(m, s, "storing one element of an array stores another, or something else"); alias_check(m, k); sym_cover("checked"); State<M> a; read(a.s, m); sym_observe(a.p(), sizeof a.s);
}
#define AT(T) H(h_at_##T) { at<M_##T>(); }
AT(Reps) AT(RepBig) AT(RepMsg) AT(Inner) AT(HasNothing) AT(RepStr) AT(TNest) AT(Names) AT(Fwd) AT(TOuter) AT(TCap) AT(MiniMsg) AT(MiniRep) AT(Tags) AT(Shade) AT(Ali) AT(Wide)
#define T1(T) H(h_tab_##T) { tables<M_##T>(); }
#define T2(T, MAX) T1(T) H(h_##T) { apart<M_##T, MAX>(); }
T1(Nothing) T2(Scalars, 200) T2(Tags, 120) T2(Opts, 160) T2(Opts40, 140) T2(Strs, 40) T2(StrBig, 460) T2(Reps, 300) T2(RepBig, 1000)
T2(RepMsg, 120) T2(Inner, 120) T2(Nest, 300) T2(One, 200) T2(HasNothing, 40) T2(RepStr, 60) T2(TNest, 200) T2(TopPlain, 300) T2(b_c_Abc, 300) T2(Shade, 300) T2(Ali, 300) T2(Wide, 300) T2(Node, 300) T2(Lead, 300) T2(Far, 300) T2(Opts70, 300) T2(Opts33, 140) T2(OneMore, 300) T2(OptMore, 300) T2(Names, 300) T2(Fwd, 300) T2(Deep, 300) T2(TOuter, 300) T2(TCap, 300) T2(MiniMsg, 60) T2(MiniOne, 40) T2(MiniStr, 40) T2(MiniRep, 40) T2(Mini, 40)
H(h_tab_Point) { tables<M_common_Point>(); } H(h_tab_Leaf) { tables<M_Inner_Leaf>(); }
