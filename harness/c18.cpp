// C18: to_string stays inside the caller's buffer. Built with -DMSG_TO_STRING.
#include "hist.hpp"
using SV = ::EmbeddedProto::string_view;
static const u32 ROOM = 3000;
// the view is the last `size` bytes of an object, so a write behind it is outside the object; in front of it lie guard bytes
template<class FN> static u32 render(FN f, u32 size) {
  char room[ROOM]; __builtin_memset(room, 0x55, ROOM); char* start = room + ROOM - size; SV v = {start, size}; SV r = f(v);
  sym_assert(r.data >= start && r.data <= room + ROOM, "the view to_string returns points outside the buffer");
  sym_assert(r.size <= (u32)(room + ROOM - r.data), "the view to_string returns ends outside the buffer");
  u32 ok = 1; for (u32 k = 1; k <= 8; k++) ok &= start[-(int)k] == 0x55; sym_assert(ok, "to_string writes in front of the buffer");
  return (u32)(r.data - start);
}
template<class FN> static void sizes(FN f, u32 every) {
  u32 need = (u32)sym_concrete(render(f, ROOM - 100)); sym_assert(need < ROOM - 100, "harness: room too small");
  u32 s; if (every) { u32 hi = choose((need + 3 + 31) / 32, "size / 32"), n = need + 3 - hi * 32; s = hi * 32 + choose(n < 32 ? n : 32, "size % 32"); } else { u32 k = choose(6, "which"); s = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? need / 2 : k == 3 ? need - 1 : k == 4 ? need : need + 1; }
  u32 n = render(f, s); if (s > need) { sym_assert(n == need, "length of the text in a buffer that is large enough"); sym_cover("fits"); } else { sym_cover("truncated"); }
  sym_cover("checked"); obs32(s); obs32(n);
}
// fixed content, every size
template<class M> static void every() { M m; State<M> s; if (choose(2, "base")) pattern(G<M>::md(), s.p(), 0); load(m, s.s); sizes([&](SV& v) { return m.to_string(v); }, 1); }
// one arbitrary field
template<class M> static void value() { M m; State<M> s; const MD& md = G<M>::md(); if (choose(2, "base")) pattern(md, s.p(), 0); u32 i = pick_field(md); clear_ref_field(md.f[i], s.p()); if (md.f[i].kind == K_MSG || (md.f[i].card == C_REP && !sym_param("deep", 0))) sym_light(md.f[i], s.p()); else sym_field(md.f[i], s.p(), sym_param("deep", 0)); load(m, s.s); sizes([&](SV& v) { return m.to_string(v); }, sym_param("every", 0)); }
#define TS(T) H(h_##T) { value<M_##T>(); } H(h_e_##T) { every<M_##T>(); }
TS(Scalars) TS(Tags) TS(Opts) TS(Strs) TS(Reps) TS(RepMsg) TS(Inner) TS(Nest) TS(One) TS(HasNothing) TS(RepStr) TS(TNest) TS(TopPlain) TS(b_c_Abc) TS(Shade) TS(Ali) TS(Wide) TS(Node) TS(Lead) TS(Far) TS(OneMore) TS(OptMore) TS(Names) TS(Fwd) TS(Deep) TS(TOuter) TS(TCap) TS(MiniMsg) TS(MiniOne) TS(MiniStr) TS(MiniRep) TS(Mini)
H(h_e_Nothing) { every<M_Nothing>(); }
// fields on their own: any value, with and without a name, first or not, every indentation up to 3, every size
template<class F> static void one(F& f, u32 every = 1) { u32 ind = choose(4, "indent"), nm = choose(2, "name"), first = choose(2, "first"); sizes([&](SV& v) { return f.to_string(v, ind, nm ? "abc" : nullptr, first != 0); }, every); }
#define SC(n, T, U) H(f_##n) { ::EmbeddedProto::T f; U u; sym_bytes(&u, sizeof u, "value"); f.set(u); one(f); }
SC(int32, int32, i32) SC(int64, int64, i64) SC(uint32, uint32, u32) SC(uint64, uint64, u64) SC(sint64, sint64, i64) SC(fixed32, fixed32, u32) SC(sfixed64, sfixed64, i64)
H(f_bool) { ::EmbeddedProto::boolean f; f = choose(2, "v") != 0; one(f); }
SC(float, floatfixed, float)
H(f_double) { ::EmbeddedProto::doublefixed f; double u; sym_bytes(&u, 8, "value"); f.set(u); one(f, sym_param("every", 0)); }
H(f_str) { ::EmbeddedProto::FieldString<4> f; u32 n = choose(5, "len"); u8 d[5]; sym_bytes(d, 5, "text"); f.set((const char*)d, n); one(f); }
H(f_byt) { ::EmbeddedProto::FieldBytes<3> f; u32 n = choose(4, "len"); u8 d[4]; sym_bytes(d, 4, "data"); f.set(d, n); one(f); }
H(f_rep) { ::EmbeddedProto::RepeatedFieldFixedSize< ::EmbeddedProto::int32, 3> f; u32 n = choose(4, "len"); for (u32 i = 0; i < n; i++) { ::EmbeddedProto::int32 e; e = i ? -7 : 12345; f.add(e); } u32 ind = choose(4, "indent"), first = choose(2, "first"); sizes([&](SV& v) { return f.to_string(v, ind, "abc", first != 0); }, 1); }
