// C06: a complete unknown field anywhere has no effect: same outcome as for the input without it.
#include "bytes.hpp"
template<class M> static u32 run(const State<M>& s, M& m, const u8* d, u32 n, u32& left) { 
  load(m, s.s);
  if (sym_param("fixed", 0)) { ::EmbeddedProto::ReadBufferFixedSize<700> r; if (n > 700) sym_fail("harness: buffer too small"); for (u32 i = 0; i < n; i++) r.push(d[i]); u32 e = (u32)m.deserialize(r); left = 0; u8 b; while (r.pop(b)) left++; return e; }
  RBuf r(d, n); u32 e = (u32)m.deserialize(r); left = n - r.p; return e; }
template<class M> static void compare(const State<M>& s, const BB& a, const BB& b) {
  M p, q; u32 lp, lq; u32 e = run<M>(s, p, a.d, a.n, lp), f = run<M>(s, q, b.d, b.n, lq);
  sym_assert(e == f, "an unknown field changes the error reported");
  State<M> x, y; read(x.s, p); read(y.s, q);
  sym_assert(ref_eq(G<M>::md(), x.p(), y.p()), "an unknown field changes the message decoded");
  if (e == 0) { sym_assert(lq == 0, "an unknown field is not consumed"); sym_cover("accepted"); }
  sym_cover("checked"); obs32(e); sym_observe(y.p(), sizeof y.s);
}
static inline void append(BB& b, const BB& x) { for (u32 i = 0; i < x.n; i++) bput(b, x.d[i]); }
// before, between or after two records
template<class M, u32 MAX> static void top() {
  const MD& md = G<M>::md(); u32 deep = sym_param("deep", 0); State<M> s;
  u8 d1[MAX], d2[MAX], da[2 * MAX], db[2 * MAX + 320], du[320]; BB r1 = {d1, MAX, 0}, r2 = {d2, MAX, 0}, a = {da, 2 * MAX, 0}, b = {db, 2 * MAX + 320, 0}, u = {du, 320, 0};
  u32 i = 0, j = 0;
  if (md.n) { i = pick_field(md); j = i + 1 < md.n ? i + 1 : 0; if (choose(2, "base")) { Ctx c = {2, 0, 0, 0, j}; base_state(md, s.p(), i, c); } 
    if (deep) gen_known(md, i, r1, 0, 0, 0); else fixed_record(md.f[i], r1, 3); fixed_record(md.f[j], r2, 7); }
  gen_unknown(md, u, deep);
  append(a, r1); append(a, r2);
  u32 at = choose(3, "at"); if (at == 0) append(b, u); append(b, r1); if (at == 1) append(b, u); append(b, r2); if (at == 2) append(b, u);
  compare<M>(s, a, b);
}
// inside a submessage, before or after its only record
template<class M, u32 MAX> static void nested() {
  const MD& md = G<M>::md(); u32 deep = sym_param("deep", 0); State<M> s; u32 i = choose(md.n, "field"); const FD& f = md.f[i]; sym_assume(f.kind == K_MSG);
  u8 da[MAX], db[MAX + 320], du[320], dr[MAX]; BB a = {da, MAX, 0}, b = {db, MAX + 320, 0}, u = {du, 320, 0}, r = {dr, MAX, 0};
  gen_unknown(*f.sub, u, deep);
  if (f.sub->n) fixed_record(f.sub->f[choose(f.sub->n, "subfield")], r, 3);
  u32 at = choose(2, "at");
  bput_varint(a, ((u64)f.num << 3) | 2); bput_varint(a, r.n); append(a, r);
  bput_varint(b, ((u64)f.num << 3) | 2); bput_varint(b, r.n + u.n); if (at == 0) append(b, u); append(b, r); if (at == 1) append(b, u);
  u32 j = i + 1 < md.n ? i + 1 : 0; fixed_record(md.f[j], a, 7); fixed_record(md.f[j], b, 7);
  compare<M>(s, a, b);
}
#define TOP(T, MAX) H(h_##T) { top<M_##T, MAX>(); }
#define NES(T, MAX) H(h_in_##T) { nested<M_##T, MAX>(); }
TOP(Scalars, 80) TOP(Tags, 80) TOP(Opts, 80) TOP(Strs, 60) TOP(Reps, 120) TOP(RepMsg, 80) TOP(Inner, 100) TOP(Nest, 200) TOP(One, 150) TOP(HasNothing, 60) TOP(RepStr, 60) TOP(TNest, 120) TOP(TopPlain, 200) TOP(b_c_Abc, 200) TOP(Shade, 200) TOP(Ali, 200) TOP(Wide, 200) TOP(Node, 200) TOP(Lead, 200) TOP(Far, 200) TOP(OneMore, 200) TOP(OptMore, 200) TOP(Names, 200) TOP(Fwd, 200) TOP(Deep, 200) TOP(TOuter, 200) TOP(TCap, 200) TOP(MiniMsg, 80) TOP(MiniOne, 80) TOP(Mini, 40) TOP(Nothing, 10) TOP(Opts40, 40)
NES(Inner, 100) NES(Nest, 200) NES(One, 200) NES(RepMsg, 80) NES(HasNothing, 60) NES(TNest, 120) NES(TopPlain, 200) NES(b_c_Abc, 200) NES(Shade, 200) NES(Far, 200) NES(Node, 200) NES(Wide, 200) NES(OptMore, 200) NES(Fwd, 200) NES(Deep, 200) NES(TOuter, 200) NES(TCap, 200) NES(MiniMsg, 80)
