// C16: WriteBufferFixedSize and MessageSizeCalculator against a model; every operation sequence of the given length.
#include "gen.hpp"
template<u32 N> static void hist() {
  ::EmbeddedProto::WriteBufferFixedSize<N> b; u8 d[N + 1]; u32 w = 0, n = sym_param("steps", 4);
  for (u32 s = 0; s < n; s++) {
    u32 op = s == 0 ? sym_param("op", 99) : 99; if (op == 99) op = choose(5, "op");
    if (op == 0) { u8 v = sym_u8("byte"); bool ok = b.push(v); sym_assert(ok == (w < N), "result of push(byte)"); if (w < N) d[w++] = v; }
    else if (op == 1) { u8 v[N + 2]; u32 k = choose(N + 3, "len"); sym_bytes(v, N + 2, "bytes"); bool ok = b.push(v, k); sym_assert(ok == (k <= N - w), "a push is accepted exactly when it fits"); if (k <= N - w) for (u32 i = 0; i < k; i++) d[w++] = v[i]; }
    else if (op == 2) { u8 v[1] = {9}; u32 k = sym_u32("length"); sym_assume(k > N - w); sym_assert(!b.push(v, k), "a push that does not fit is accepted"); }     // any 32-bit length
    else if (op == 3) { b.clear(); w = 0; }
    else { u8 v[1]; sym_assert(b.push(v, 0), "an empty push is refused"); }
    sym_assert(b.get_size() == w, "get_size()"); sym_assert(b.get_available_size() == N - w, "get_available_size()"); sym_assert(b.get_max_size() == N, "get_max_size()");
    const u8* g = b.get_data(); u32 eq = 1; for (u32 i = 0; i < w; i++) eq &= g[i] == d[i]; sym_assert(eq, "content");
  }
  sym_cover("checked"); if (w == N) sym_cover("full"); obs32(w); sym_observe(d, w);
}
H(h_4) { hist<4>(); } H(h_1) { hist<1>(); } H(h_7) { hist<7>(); }
H(h_size) {
  ::EmbeddedProto::MessageSizeCalculator c; u32 t = 0, n = sym_param("steps", 4);
  for (u32 s = 0; s < n; s++) { u32 op = choose(3, "op"); u8 v[1] = {0}; if (op == 0) { sym_assert(c.push(sym_u8("byte")), "the size calculator refuses a byte"); t++; } else if (op == 1) { u32 k = sym_u32("length"); sym_assume((u64)t + k <= 0xFFFFFFFFull); sym_assert(c.push(v, k), "the size calculator refuses bytes"); t += k; } else { c.clear(); t = 0; }
    sym_assert(c.get_size() == t, "the size calculator does not count every byte"); sym_assert(c.get_available_size() == 0xFFFFFFFFu && c.get_max_size() == 0xFFFFFFFFu, "the size calculator is limited"); }
  sym_cover("checked"); obs32(t);
}
