// C14: RepeatedFieldFixedSize against a model of a bounded sequence; every operation sequence of the given length.
#include "elems.hpp"
template<u32 N> struct Mod { u32 len = 0; u32 d[N]; u8 known[N]; Mod() { all(); } void all() { for (u32 i = 0; i < N; i++) { d[i] = 0; known[i] = 1; } len = 0; }
  void content(const u32* v, u32 n) { for (u32 i = 0; i < N; i++) { known[i] = i < n; if (i < n) d[i] = v[i]; } len = n; }
  void grow(u32 i, u32 v) { if (i >= len) len = i + 1; d[i] = v; known[i] = 1; } };
template<class T, u32 N> static void check(const RepeatedFieldFixedSize<T, N>& f, const Mod<N>& m) {
  sym_assert(f.get_max_length() == N, "maximum length"); sym_assert(f.get_max_size() == N * sizeof(T), "maximum size"); sym_assert(f.get_length() == m.len, "length"); if (f.get_length() != m.len) return;
  sym_assert(f.get_size() == m.len * sizeof(T), "size does not agree with the length");
  u32 eq = 1; for (u32 i = 0; i < m.len; i++) if (m.known[i]) eq &= El<T>::val(f.get_const(i)) == m.d[i]; sym_assert(eq, "content");
  u32 i = sym_u32("index"), k = i < N ? i : N - 1; const T& r = f.get_const(i); sym_assert(&r == &f.get_const(0) + k, "get_const(i) is not element i, or the last slot when i is too large"); sym_assert(&f[i] == &r, "operator[] and get_const(i) differ"); sym_assert(&f.get_data_const()[0] == &f.get_const(0), "get_data_const()");
  T v; u32 x = sym_u32("before"); El<T>::mk(v, x); Error e = f.get_const(i, v);
  if (i < m.len) { sym_assert(e == Error::NO_ERRORS, "a checked read inside the length is refused"); i = (u32)sym_concrete(i); if (m.known[i]) sym_assert(El<T>::val(v) == m.d[i], "value of a checked read"); sym_cover("inside"); }
  else { sym_assert(e == Error::INDEX_OUT_OF_BOUND, "a checked read outside the length is accepted"); sym_assert(El<T>::val(v) == x, "a refused read changes the value"); sym_cover("outside"); }
}
template<class T, u32 N> static void step(RepeatedFieldFixedSize<T, N>& f, Mod<N>& m, u32 op) {
  switch (op) {
    case 0: { u32 x = sym_u32("value"); T t; El<T>::mk(t, x); Error e = f.add(t); sym_assert(e == (m.len < N ? Error::NO_ERRORS : Error::ARRAY_FULL), "result of add()"); if (m.len < N) m.grow(m.len, x); break; }
    case 1: case 2: case 3: { u32 i = sym_u32("at"), x = sym_u32("value"); T t; El<T>::mk(t, x); if (op == 1) f.set(i, t); else if (op == 2) f.get(i) = t; else f[i] = t; u32 k = i < N ? i : N - 1; k = (u32)sym_concrete(k); m.grow(k, x); break; }
    case 4: { u32 n = choose(N + 2, "count"), v[N + 2]; T t[N + 2]; for (u32 i = 0; i < n; i++) { v[i] = sym_u32("value"); El<T>::mk(t[i], v[i]); } Error e = f.set_data(t, n); sym_assert(e == (n <= N ? Error::NO_ERRORS : Error::ARRAY_FULL), "result of set_data()"); if (n <= N) m.content(v, n); break; }
    case 5: { u32 n = sym_u32("length"); sym_assume(n > N); T t; sym_assert(f.set_data(&t, n) == Error::ARRAY_FULL, "an assignment that does not fit is accepted"); break; }
    case 6: f.clear(); m.all(); break;
    case 7: { RepeatedFieldFixedSize<T, N> o; u32 n = choose(N + 1, "count"), v[N + 1]; for (u32 i = 0; i < n; i++) { v[i] = sym_u32("value"); T t; El<T>::mk(t, v[i]); o.add(t); } f = o; m.content(v, n); break; }
    case 8: { RepeatedFieldFixedSize<T, N> c(f), d; d = c; f.clear(); f = d; for (u32 i = m.len; i < N; i++) m.known[i] = 0; break; }
    default: { u8 out[N * 20 + 8]; WBuf w(out, sizeof out, sizeof out); Error e = f.serialize_with_id(1, w, false); sym_assert(e == Error::NO_ERRORS, "serialization fails"); RepeatedFieldFixedSize<T, N> g; RBuf r(out, w.n); while (r.get_size()) { u8 b; r.pop(b); sym_assert(b == 10, "tag"); sym_assert(g.deserialize(r) == Error::NO_ERRORS, "deserialization fails"); }
      sym_assert(g.get_length() == m.len, "length after serialization"); for (u32 i = 0; i < m.len && i < g.get_length(); i++) if (m.known[i]) sym_assert(El<T>::val(g.get_const(i)) == m.d[i], "content after serialization"); break; }
  }
}
template<class T, u32 N> static void hist() {
  RepeatedFieldFixedSize<T, N> f; Mod<N> m; u32 n = sym_param("steps", 3);
  for (u32 i = 0; i < n; i++) { u32 op = i == 0 ? sym_param("op", 99) : 99; if (op == 99) op = choose(i + 1 == n ? 10 : 9, "op"); step<T, N>(f, m, op); if (i + 1 == n) check<T, N>(f, m); else sym_assert(f.get_length() == m.len, "length"); }
  sym_cover("checked"); obs32(f.get_length());
}
H(h_i32) { hist<EmbeddedProto::int32, 3>(); } H(h_u64) { hist<EmbeddedProto::uint64, 2>(); } H(h_bool) { hist<EmbeddedProto::boolean, 2>(); } H(h_str) { hist<FieldString<4>, 2>(); } H(h_byt) { hist<FieldBytes<4>, 2>(); } H(h_msg) { hist<M_Mini, 2>(); } H(h_one) { hist<EmbeddedProto::int32, 1>(); }
// through the message: add_x, set_x, mutable_x, x(i), get_x, clear_x
template<class = void> static void inmsg() {
  M_MiniRep m; u32 len = 0, v[2], known[2] = {1, 1}; v[0] = v[1] = 0; u32 n = sym_param("steps", 3);
  for (u32 s = 0; s < n; s++) { u32 op = choose(6, "op"), x = sym_u32("value"), i = sym_u32("at"), k = (u32)sym_concrete(i < 2 ? i : 1);
    if (op == 0) { m.add_r(x); if (len < 2) { v[len] = x; known[len++] = 1; } } else if (op == 1) { m.set_r(i, x); } else if (op == 2) { m.mutable_r(i) = x; } else if (op == 3) { m.mutable_r().set(i, x); } else if (op == 4) { m.clear_r(); len = 0; v[0] = v[1] = 0; known[0] = known[1] = 1; } else { RepeatedFieldFixedSize<EmbeddedProto::uint32, 2> a; a.add(x); m.set_r(a); len = 1; v[0] = x; known[0] = 1; known[1] = 0; }
    if (op >= 1 && op <= 3) { v[k] = x; known[k] = 1; if (k >= len) len = k + 1; }
    sym_assert(m.get_r().get_length() == len && m.r().get_length() == len, "length"); for (u32 j = 0; j < len; j++) if (known[j]) sym_assert(m.r(j).get() == v[j] && m.get_r().get_const(j).get() == v[j], "content"); }
  sym_cover("checked"); obs32(len);
}
H(h_inmsg) { inmsg<>(); }
