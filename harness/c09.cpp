// C09: histories over the members of oneofs.
#include "hist.hpp"
static inline u32 member(const MD& md, const char* nm) { u32 k = choose(md.n, nm); sym_assume(md.f[k].card == C_ONE); return k; }
template<class M> static void hist(u32 steps, u32 pre) {
  M m; State<M> s; const MD& md = G<M>::md(); u32 rich = sym_param("deep", 0);
  if (pre) { pattern(md, s.p(), 0); u32 k = member(md, "start"); clear_ref_field(md.f[k], s.p()); pattern_field(md.f[k], s.p(), 3); load(m, s.s); }
  for (u32 i = 0; i < steps; i++) {
    u32 op = i == 0 ? sym_param("op", OP_N) : OP_N; if (op == OP_N) op = choose(OP_N, "op");
    u32 k = op == OP_CLEAR ? 0 : choose(md.n, "field"), how = op == OP_SET ? choose(3, "how") : 0;
    sym_assume(op == OP_CLEAR || md.f[k].card == C_ONE || (op == OP_SET && how == 0) || (i == 0 && op == OP_CLEARF));
    do_op<M>(m, s, op, k, how, rich);
    agree<M>(m, s, "a oneof, or a field next to it, does not hold what was last assigned");
  }
  // what is serialized agrees
  u8 exp[160], got[160]; Out o = {exp, 160, 0}; if (!pre && steps < 3) { ref_encode(md, s.p(), o); WBuf w(got, 160, 0xFFFFFFFFu); Error e = m.serialize(w); u32 eq = e == Error::NO_ERRORS && w.n == o.n; if (eq) for (u32 i = 0; i < o.n; i++) eq &= got[i] == exp[i]; sym_assert(eq, "the serialized oneof is not the member last assigned"); }
  sym_cover("checked"); State<M> a; read(a.s, m); sym_observe(a.p(), sizeof a.s);
}
#define HI(T) H(h2_##T) { hist<M_##T>(2, 0); } H(h2p_##T) { hist<M_##T>(2, 1); } H(h3_##T) { hist<M_##T>(3, 0); }
HI(MiniOne) HI(One) HI(HasNothing) HI(TNest) HI(b_c_Abc) HI(Shade) HI(OneMore) HI(Names) HI(Deep) HI(TCap) HI(Wide) HI(Lead)
