// C10: histories over optional fields.
#include "hist.hpp"
template<class M, u32 MAX> static void hist(u32 steps) {
  M m; State<M> s; const MD& md = G<M>::md(); u32 rich = sym_param("deep", 0);
  u32 k0 = pick_field(md); if (choose(2, "start")) { pattern(md, s.p(), 0); load(m, s.s); }
  for (u32 i = 0; i < steps; i++) {
    u32 op = choose(OP_N, "op"), k = i == 0 ? k0 : choose(md.n, "field2"), how = op == OP_SET ? choose(3, "how") : 0;
    sym_assume((op != OP_CLEAR && op != OP_ASSIGN) || i == 0 || k == k0); if (md.n > 20) sym_assume(i == 0 || k == k0 || k == (k0 + 1) % md.n || k == (k0 + 8) % md.n || k == (k0 + 32) % md.n);
    do_op<M>(m, s, op, k, how, rich);
    agree<M>(m, s, "presence or value of a field is not what the history of operations says");
  }
  u8 exp[MAX], got[MAX]; Out o = {exp, MAX, 0}; ref_encode(md, s.p(), o); if (o.n > MAX) sym_fail("harness: MAX too small");
  WBuf w(got, MAX, 0xFFFFFFFFu); Error e = m.serialize(w); u32 eq = e == Error::NO_ERRORS && w.n == o.n; if (eq) for (u32 i = 0; i < o.n; i++) eq &= got[i] == exp[i];
  sym_assert(eq, "what is serialized does not follow the presence of the fields");
  sym_cover("checked"); State<M> a; read(a.s, m); sym_observe(a.p(), sizeof a.s);
}
#define HI(T, MAX) H(h1_##T) { hist<M_##T, MAX>(1); } H(h2_##T) { hist<M_##T, MAX>(2); } H(h3_##T) { hist<M_##T, MAX>(3); }
HI(Opts, 160) HI(Opts40, 140) HI(MiniStr, 20) HI(HasNothing, 40) HI(Nest, 300) HI(TNest, 200) HI(TopPlain, 300) HI(Opts70, 300) HI(OptMore, 300) HI(Names, 300) HI(Deep, 300) HI(TCap, 300) HI(Ali, 60) HI(Wide, 300) HI(Opts33, 140)
