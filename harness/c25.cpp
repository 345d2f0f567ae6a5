// C25: no hidden shared state. Two threads without synchronisation work on separate messages, or use one message through
// const operations only; both do the same, so any write to memory they share is a data race.
#include "hist.hpp"
#include <utility>
using SV = ::EmbeddedProto::string_view;
template<class M, u32 CAP> static void encode(const M& m, u32 how) {
  u8 got[CAP]; ::EmbeddedProto::WriteBufferFixedSize<CAP> wf; WBuf w(got, CAP, CAP); ::EmbeddedProto::MessageSizeCalculator mc;
  if (how == 0) m.serialize(wf); else if (how == 1) m.serialize(w); else if (how == 2) m.serialize(mc); else m.serialized_size();
}
#ifdef MSG_TO_STRING
template<class M> static void text(const M& m) { char t[400]; SV v = {t, 400}; m.to_string(v); }
#else
template<class M> static void text(const M&) {}
#endif
// const operations on one message
template<class M, u32 CAP> static void shared() {
  const MD& md = G<M>::md(); M m; State<M> s; if (choose(2, "base")) pattern(md, s.p(), 0);
  u32 i = md.n ? pick_field(md) : 0; if (md.n) { clear_ref_field(md.f[i], s.p()); sym_light(md.f[i], s.p()); } load(m, s.s); u32 op = choose(8, "op");
  auto work = [&]() { const M& c = m; if (op < 4) encode<M, CAP>(c, op); else if (op == 4) { M d(c); (void)d; } else if (op == 5) { M d; d = c; } else if (op == 6) { State<M> r; read(r.s, c); if (md.n) alias_check(c, i); number_name((M*)nullptr, md.n ? md.f[i].num : 1); } else text(c); };
  par(work, work); State<M> r; read(r.s, m); sym_observe(r.p(), sizeof r.s); sym_cover("checked");
}
// the life of two messages, one per thread
template<class M> static void work_on(const State<M>& s, State<M>& r, u32 i, u32 op, const u8* d, u32 n, u32 filled) {
  M m; if (filled) load(m, s.s);
  if (op == 0) { RBuf b(d, n); m.deserialize(b); } else if (op == 1) { ::EmbeddedProto::ReadBufferFixedSize<400> b; for (u32 k = 0; k < n; k++) b.push(d[k]); m.deserialize(b); }
  else if (op == 2) { load(m, s.s); M x; x = m; M y(std::move(x)); m = std::move(y); } else if (op == 3) { touch_field(m, i); clear_field(m, i); m.clear(); load(m, s.s); } else { for (u32 h = 0; h < 4; h++) { set_field(m, s.s, i, h); put_at(m, s.s, i, h, h); } extend_field(m, i, 1); }
  read(r.s, m);
}
template<class M, u32 MAX> static void separate() {
  const MD& md = G<M>::md(); u8 d[MAX]; BB b = {d, MAX, 0}; State<M> s; u32 i = pick_field(md), op = choose(5, "op"), filled = choose(2, "base");
  if (filled) pattern(md, s.p(), 0);
  if (op < 2) { if (choose(2, "unknown")) gen_unknown(md, b, 0); else gen_known(md, i, b, choose(2, "bad") ? G_BAD : 0, 0, 0); } else { clear_ref_field(md.f[i], s.p()); sym_light(md.f[i], s.p()); }
  State<M> r1, r2; par([&]() { work_on<M>(s, r1, i, op, d, b.n, filled); }, [&]() { work_on<M>(s, r2, i, op, d, b.n, filled); });
  sym_assert(sym_equal(r1.p(), r2.p(), sizeof r1.s), "the same operations on two fresh messages give different results"); sym_observe(r1.p(), sizeof r1.s); sym_cover("checked");
}
#define TH(T, MAX) H(h_##T) { shared<M_##T, 400>(); } H(h_w_##T) { separate<M_##T, MAX>(); }
TH(Scalars, 200) TH(Tags, 200) TH(Opts, 200) TH(Opts40, 200) TH(Strs, 200) TH(Reps, 200) TH(RepMsg, 200) TH(Inner, 200) TH(Nest, 300) TH(One, 300) TH(HasNothing, 200) TH(RepStr, 200) TH(TNest, 200) TH(TopPlain, 300) TH(b_c_Abc, 300) TH(Shade, 300) TH(Ali, 300) TH(Wide, 300) TH(Node, 300) TH(Lead, 300) TH(Far, 300) TH(OneMore, 300) TH(OptMore, 300) TH(Names, 300) TH(Fwd, 300) TH(Deep, 300) TH(TOuter, 300) TH(TCap, 300) TH(MiniMsg, 200) TH(MiniOne, 200) TH(MiniStr, 200) TH(MiniRep, 200)
H(h_Nothing) { shared<M_Nothing, 400>(); }
// containers, buffers and primitives, one object of each per thread
template<class T> static void use_field(const T& v, u8* out) {
  T a(v), b; b = a; b.set(v); u8 got[16]; WBuf w(got, 16, 16); b.serialize_with_id(3, w, true); b.serialize(w); RBuf r(got, w.n); T c; c.deserialize(r); out[0] = (u8)b.serialized_size(); b.clear();
}
H(h_fields) {
  u64 v = sym_u64("value"); u8 o1[4] = {0}, o2[4] = {0};
  auto work = [&](u8* o) { use_field(::EmbeddedProto::int32((i32)v), o); use_field(::EmbeddedProto::sint64((i64)v), o); use_field(::EmbeddedProto::fixed32((u32)v), o); use_field(::EmbeddedProto::doublefixed(from_bits<double>(v)), o); use_field(::EmbeddedProto::boolean(v & 1), o); };
  par([&]() { work(o1); }, [&]() { work(o2); }); sym_assert(o1[0] == o2[0], "sizes"); sym_cover("checked");
}
