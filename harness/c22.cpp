// C22: the same bytes give the same message and error from every read buffer, the same message the same bytes in every write buffer.
#include "hist.hpp"
// a user buffer that works in the other way the interface allows: get_size() is the total, pop is peek and advance
struct TBuf : public ::EmbeddedProto::ReadBufferInterface {
  const u8* d; u32 p = 0; u32 n; TBuf(const u8* d_, u32 n_) : d(d_), n(n_) {}
  u32 get_size() const override { return n; }
  u32 get_max_size() const override { return n + 1000; }
  bool peek(u8& b) const override { if (p >= n) return false; b = d[p]; return true; }
  bool advance() override { if (p >= n) return false; p++; return true; }
  bool advance(const u32 k) override { for (u32 i = 0; i < k; i++) if (!advance()) return false; return true; }
  bool pop(u8& b) override { return peek(b) && advance(); }
};
template<class M, u32 MAX> static void same(const M& start, const u8* d, u32 n) {
  M a(start), b(start); RBuf r(d, n); u32 ea = (u32)a.deserialize(r), eb, left = 0; u32 how = choose(4, "buffer");
  if (how == 0) { ::EmbeddedProto::ReadBufferFixedSize<MAX + 4> f; u32 skip = choose(2, "skip") * 2; for (u32 i = 0; i < skip; i++) f.push((u8)(8 + i)); for (u32 i = 0; i < n; i++) f.push(d[i]); u8 t; for (u32 i = 0; i < skip; i++) f.pop(t); eb = (u32)b.deserialize(f); while (left < MAX && f.advance()) left++; }
  else if (how == 1) { TBuf t(d, n); eb = (u32)b.deserialize(t); left = n - t.p; }
  else { u8 x[MAX + 8]; u32 pre = 2; x[0] = 8; x[1] = 1; for (u32 i = 0; i < n; i++) x[2 + i] = d[i]; static const u8 tail[6] = {8, 3, 16, 5, 10, 1}; for (u32 i = 0; i < 6; i++) x[2 + n + i] = tail[i];
    if (how == 2) { RBuf p(x, n + 8); p.p = pre; u32 len = n; ::EmbeddedProto::ReadBufferSection s(p, len); eb = (u32)b.deserialize(s); left = n + 2 - p.p; sym_assert(p.p <= n + 2, "a section reads beyond its end"); }
    else { ::EmbeddedProto::ReadBufferFixedSize<MAX + 8> f; for (u32 i = 0; i < n + 8; i++) f.push(x[i]); f.advance(pre); u32 len = n; ::EmbeddedProto::ReadBufferSection s(f, len); eb = (u32)b.deserialize(s); while (left < MAX + 8 && f.advance()) left++; sym_assert(left >= 6, "a section reads beyond its end"); left -= 6; } }
  if (ea != eb) { State<M> z; read(z.s, start); In in = {d, 0, n, 0, 0}; ref_decode(G<M>::md(), z.p(), in);   // cut off in a tag or an unknown field inside a submessage that is itself cut off: a known finding
    if (in.kf) sym_fail("KF: a cut-off submessage ending in a tag or an unknown field is refused or accepted depending on the buffer"); else sym_fail("another buffer gives another result"); return; }
  if (!ea) { sym_assert(left == r.n - r.p, "another buffer is read another number of bytes"); sym_cover("accepted"); } else sym_cover("refused");
  State<M> sa, sb; read(sa.s, a); read(sb.s, b); sym_assert(ref_eq(G<M>::md(), sa.p(), sb.p()), "another buffer gives another message");
  sym_cover("checked"); obs32(ea); sym_observe(sa.p(), sizeof sa.s);
}
template<class M, u32 MAX> static void dec() {
  const MD& md = G<M>::md(); u8 d[MAX]; BB b = {d, MAX, 0}; State<M> s; M m; u32 i = pick_field(md);
  if (choose(2, "base")) { pattern(md, s.p(), 0); load(m, s.s); }
  u32 bad = choose(2, "bad"); if (choose(2, "kind") == 0) gen_unknown(md, b, 0); else gen_known(md, i, b, bad ? G_BAD : 0, 0, 0);
  if (!bad || choose(2, "post")) fixed_record(md.f[i + 1 < md.n ? i + 1 : 0], b, 5);
  same<M, MAX>(m, d, b.n);
}
template<class M> static void any() { const MD& md = G<M>::md(); u32 n = sym_param("n", 5); u8 d[10]; State<M> s; M m; if (sym_param("filled", 0)) { pattern(md, s.p(), 0); load(m, s.s); } sym_bytes(d, n, "input"); same<M, 10>(m, d, n); }
// write side
template<class M, u32 CAP> static void put() {
  const MD& md = G<M>::md(); State<M> s; M m; if (sym_param("all", 0)) sym_all(md, s.p(), 0); else sym_state1(md, s.p(), sym_param("deep", 0)); load(m, s.s);
  static u8 got[CAP]; WBuf w(got, CAP, CAP); u32 ea = (u32)m.serialize(w); ::EmbeddedProto::WriteBufferFixedSize<CAP> f; u32 eb = (u32)m.serialize(f);
  sym_assert(ea == eb, "another write buffer gives another result"); u32 n = f.get_size();
  if (!ea) { sym_assert(n == w.n, "another write buffer is given another number of bytes"); ::EmbeddedProto::MessageSizeCalculator c; sym_assert(m.serialize(c) == Error::NO_ERRORS && c.get_size() == n, "the size calculator counts another number of bytes"); sym_cover("fits"); }
  else sym_cover("full");
  u32 eq = 1; for (u32 i = 0; i < n && i < w.n; i++) eq &= f.get_data()[i] == got[i]; sym_assert(eq, "another write buffer is given other bytes"); sym_cover("checked"); obs32(ea); obs32(n);
}
#define BUF(T, MAX, CAP) H(h_##T) { dec<M_##T, MAX>(); } H(w_##T) { put<M_##T, CAP>(); }
#define ANY(T) H(h_all_##T) { any<M_##T>(); }
BUF(Scalars, 400, 30) BUF(Tags, 400, 40) BUF(Opts, 400, 30) BUF(Opts40, 400, 60) BUF(Strs, 400, 20) BUF(StrBig, 700, 128) BUF(Reps, 400, 60) BUF(RepBig, 400, 128) BUF(RepMsg, 400, 40) BUF(Inner, 400, 30) BUF(Nest, 500, 80) BUF(One, 500, 12) BUF(HasNothing, 400, 12) BUF(RepStr, 400, 12) BUF(TNest, 400, 60) BUF(TopPlain, 400, 20) BUF(b_c_Abc, 400, 20) BUF(Shade, 400, 20) BUF(Ali, 400, 20) BUF(Wide, 400, 20) BUF(Node, 400, 20) BUF(Lead, 400, 20) BUF(Far, 400, 30) BUF(OneMore, 400, 12) BUF(OptMore, 500, 40) BUF(Names, 400, 12) BUF(Fwd, 400, 20) BUF(Deep, 500, 30) BUF(TOuter, 400, 20) BUF(TCap, 400, 12) BUF(MiniMsg, 400, 14) BUF(MiniOne, 400, 8) BUF(MiniStr, 400, 6) BUF(MiniRep, 400, 10)
ANY(Mini) ANY(MiniStr) ANY(MiniRep) ANY(MiniMsg) ANY(MiniOne) ANY(Nothing)
