// C13: FieldString and FieldBytes against a model of a bounded sequence; every operation sequence of the given length.
#include "gen.hpp"
using EmbeddedProto::FieldString; using EmbeddedProto::FieldBytes;
template<u32 N> struct Mod { u32 len = 0; u8 d[N] = {0}; u8 known[N]; Mod() { all(); } void all() { for (u32 i = 0; i < N; i++) { d[i] = 0; known[i] = 1; } len = 0; }
  void content(const u8* v, u32 n) { for (u32 i = 0; i < N; i++) { known[i] = i < n; if (i < n) d[i] = v[i]; } len = n; }
  void grow(u32 i, u8 v) { u32 k = i < N ? i : N - 1; if (k >= len) len = k + 1; d[k] = v; known[k] = 1; } };
template<class F> using CharOf = typename std::remove_const<typename std::remove_pointer<decltype(((F*)0)->get_const())>::type>::type;
template<class F, u32 N> static void check(const F& f, const Mod<N>& m) {
  using C = CharOf<F>;
  sym_assert(f.get_max_length() == N, "maximum length"); sym_assert(f.get_length() == m.len, "length"); if (f.get_length() != m.len) return;
  u32 eq = 1; for (u32 i = 0; i < m.len; i++) if (m.known[i]) eq &= (u8)f.get_const()[i] == m.d[i]; sym_assert(eq, "content");
  // any 32-bit index
  u32 i = sym_u32("index"), k = i < N ? i : N - 1; const C& r = f.get_const(i); sym_assert(&r == f.get_const() + k, "get_const(i) is not element i, or the last slot when i is too large"); const F& cf = f; sym_assert(&cf[i] == &r, "operator[] and get_const(i) differ");
  C v = (C)0x5A; Error e = f.get_const(i, v);
  if (i < m.len) { sym_assert(e == Error::NO_ERRORS, "a checked read inside the length is refused"); for (u32 j = 0; j < m.len; j++) if (j == i && m.known[j]) sym_assert((u8)v == m.d[j], "value of a checked read"); sym_cover("inside"); }
  else { sym_assert(e == Error::INDEX_OUT_OF_BOUND, "a checked read outside the length is accepted"); sym_assert(v == (C)0x5A, "a refused read changes the value"); sym_cover("outside"); }
}
static void cstr(FieldString<4>& f, const char* s, u32 how) { if (how) f = s; else f.set(s); }
static void cstr(FieldString<1>& f, const char* s, u32 how) { if (how) f = s; else f.set(s); }
template<class F> static void cstr(F&, const char*, u32) { sym_assume(0); }
template<class F, class O, u32 N> static void step(F& f, Mod<N>& m, u32 op) {
  using C = CharOf<F>; u8 v[N + 4];
  switch (op) {
    case 0: { u32 n = choose(N + 3, "len"); sym_bytes(v, N + 2, "data"); Error e = f.set((const C*)v, n); sym_assert(e == (n <= N ? Error::NO_ERRORS : Error::ARRAY_FULL), "result of set(data, length)"); if (n <= N) m.content(v, n); break; }
    case 1: { u32 n = sym_u32("length"); sym_assume(n > N); v[0] = 1; Error e = f.set((const C*)v, n); sym_assert(e == Error::ARRAY_FULL, "an assignment that does not fit is accepted"); break; }   // any length above the maximum
    case 2: case 3: { sym_bytes(v, N + 2, "text"); v[N + 2] = 0; u32 n = 0; while (n < N && v[n]) n++; cstr(f, (const char*)v, op == 3); m.content(v, n); break; }
    case 4: cstr(f, nullptr, choose(2, "how")); m.all(); break;
    case 5: case 6: { u32 i = sym_u32("at"); u8 x = sym_u8("value"); C& r = op == 5 ? f.get(i) : f[i]; r = (C)x; u32 k = i < N ? i : N - 1; for (u32 j = 0; j < N; j++) if (k == j) m.grow(j, x); break; }
    case 7: f.clear(); m.all(); break;
    case 8: { O o; u32 n = choose(N + 3, "len"); sym_bytes(v, N + 2, "other"); o.set((const C*)v, n); u32 how = choose(2, "how"); if (how) f = o; else sym_assert(f.set(o) == (n <= N ? Error::NO_ERRORS : Error::ARRAY_FULL), "result of set(field)"); if (n <= N) m.content(v, n); break; }
    case 9: { F c(f); F d; d = c; f.clear(); f = d; break; }
    case 10: { u32 n = choose(N + 1, "len"); v[0] = (u8)n; if (n) sym_bytes(v + 1, n, "received"); RBuf r(v, n + 1); sym_assert(f.deserialize(r) == Error::NO_ERRORS, "deserialize refuses content that fits"); m.all(); m.content(v + 1, n); for (u32 i = n; i < N; i++) m.known[i] = 0; break; }
    default: { u8 out[N + 4]; WBuf w(out, N + 4, N + 4); Error e = f.serialize_with_id(1, w, true); sym_assert(e == Error::NO_ERRORS && w.n == m.len + 2 && out[0] == 10 && out[1] == m.len, "serialized length"); for (u32 i = 0; i < m.len; i++) if (m.known[i]) sym_assert(out[2 + i] == m.d[i], "serialized content"); break; }
  }
}
template<class F, class O, u32 N> static void hist() {
  F f; Mod<N> m; u32 n = sym_param("steps", 3);
  for (u32 i = 0; i < n; i++) { u32 op = i == 0 ? sym_param("op", 99) : 99; if (op == 99) op = choose(12, "op"); step<F, O, N>(f, m, op); if (i + 1 == n || sym_param("each", 0)) check<F, N>(f, m); else { sym_assert(f.get_length() == m.len, "length"); } }
  sym_cover("checked"); obs32(f.get_length());
}
H(h_str) { hist<FieldString<4>, FieldString<6>, 4>(); } H(h_byt) { hist<FieldBytes<4>, FieldBytes<6>, 4>(); } H(h_str1) { hist<FieldString<1>, FieldString<3>, 1>(); } H(h_byt1) { hist<FieldBytes<1>, FieldBytes<3>, 1>(); }
// capacity with a two-byte length: any text up to 300 characters, boundary lengths
H(h_big) { FieldString<300> f; static u8 v[304]; u32 n = gen_len(300, 0); for (u32 i = 0; i < 303; i++) v[i] = (u8)(1 + i % 250); u8 a = sym_u8("a"), b = sym_u8("b"); if (n) { v[0] = a; v[n - 1] = b; }
  sym_assert(f.set((const char*)v, n) == Error::NO_ERRORS && f.get_length() == n, "set of a long text"); u32 e = 1; for (u32 i = 0; i < n; i++) e &= (u8)f.get_const()[i] == v[i]; sym_assert(e, "content of a long text");
  sym_assert(f.set((const char*)v, 301) == Error::ARRAY_FULL && f.get_length() == n, "a text one too long is accepted"); v[n] = 0; sym_assume(n < 2 || a); sym_assume(!n || b); FieldString<300> g; g = (const char*)v; sym_assert(g.get_length() == n, "length of a C string"); v[n] = 7; v[302] = 0; g = (const char*)v; sym_assert(g.get_length() == 300, "a C string is not truncated at the maximum"); sym_cover("checked"); obs32(n); }
