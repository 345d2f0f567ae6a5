// Lengths, counts and sizes beyond 8 and 16 bits: concrete lengths (parameter n), arbitrary bytes at the start, in the middle and at
// the end. Used by most properties; the entry decides what is asserted.
#include "gen.hpp"
#include <big.h>
#include <utility>
static const u32 MAX = 70200;
static u8 V[MAX], X[MAX + 200], Y[MAX + 200];   // content, expected encoding, output
struct Sym { u8 a, b, c, z; };
static Sym content(u32 n) {
  for (u32 i = 0; i < n; i += 256) { u8 t[256]; for (u32 k = 0; k < 256; k++) t[k] = (u8)(1 + (k + (i >> 8)) % 250); __builtin_memcpy(V + i, t, n - i < 256 ? n - i : 256); }
  Sym s; s.a = sym_u8("first"); s.b = sym_u8("middle"); s.c = sym_u8("last"); s.z = sym_u8("z"); sym_assume(s.z > 0 && s.z < 128); if (n > 2) V[n / 2] = s.b; if (n) V[0] = s.a; if (n > 1) V[n - 1] = s.c; return s;
}
static void raw(Out& o, const u8* d, u32 n) { if (o.n + n > o.cap) sym_fail("harness: buffer too small"); __builtin_memcpy(o.d + o.n, d, n); o.n += n; }
static u32 vlen(u64 v) { u32 n = 1; while (v >>= 7) n++; return n; }
// ---- the messages: set to n elements of V, read back, expected encoding
template<class F> static void text_set(F& f, u32 n) { using C = typename std::remove_const<typename std::remove_pointer<decltype(f.get_const())>::type>::type; sym_assert(f.set((const C*)V, n) == Error::NO_ERRORS, "content that fits is refused"); }
template<class F> static u32 text_is(const F& f, u32 n) { return f.get_length() == n && (n == 0 || sym_equal(f.get_const(), V, n)); }
struct Text { using M = ::vsbig::Text; static void set(M& m, u32 n) { text_set(m.mutable_s(), n); } static u32 is(const M& m, u32 n) { return text_is(m.get_s(), n); } static u32 len(const M& m) { return m.get_s().get_length(); } static void enc(Out& o, u32 n) { if (n) { put(o, 10); put_varint(o, n); raw(o, V, n); } } };
struct Blob { using M = ::vsbig::Blob; static void set(M& m, u32 n) { text_set(m.mutable_s(), n); } static u32 is(const M& m, u32 n) { return m.has_s() && text_is(m.get_s(), n); } static u32 len(const M& m) { return m.get_s().get_length(); } static void enc(Out& o, u32 n) { put(o, 10); put_varint(o, n); raw(o, V, n); } };
struct Choice { using M = ::vsbig::Choice; static void set(M& m, u32 n) { text_set(m.mutable_s(), n); } static u32 is(const M& m, u32 n) { return m.get_which_o() == M::FieldNumber::S && text_is(m.get_s(), n); } static u32 len(const M& m) { return m.get_which_o() == M::FieldNumber::S ? m.get_s().get_length() : 0; } static void enc(Out& o, u32 n) { put(o, 10); put_varint(o, n); raw(o, V, n); } };
struct Holder { using M = ::vsbig::Holder; static void set(M& m, u32 n) { text_set(m.mutable_in().mutable_s(), n); m.mutable_in().set_z(5); } static u32 is(const M& m, u32 n) { return m.get_in().get_z() == 5 && Blob::is(m.get_in(), n); } static u32 len(const M& m) { return m.get_in().get_s().get_length(); } static void enc(Out& o, u32 n) { put(o, 10); put_varint(o, n + vlen(n) + 3); Blob::enc(o, n); put(o, 24); put(o, 5); } };
struct Flags { using M = ::vsbig::Flags; static void set(M& m, u32 n) { for (u32 i = 0; i < n; i++) { V[i] &= 1; m.add_r(V[i] != 0); } } static u32 is(const M& m, u32 n) { if (m.get_r().get_length() != n) return 0; u32 e = 1; for (u32 i = 0; i < n; i++) e &= (u8)(m.r(i).get() ? 1 : 0) == V[i]; return e; } static u32 len(const M& m) { return m.get_r().get_length(); } static void enc(Out& o, u32 n) { if (!n) return; put(o, 10); put_varint(o, n); raw(o, V, n); } };
struct Words { using M = ::vsbig::Words; static void set(M& m, u32 n) { for (u32 i = 0; i < n; i++) m.add_r(0x0102030405060700ull + V[i] + ((u64)i << 48)); } static u32 is(const M& m, u32 n) { if (m.get_r().get_length() != n) return 0; u32 e = 1; for (u32 i = 0; i < n; i++) e &= m.r(i).get() == 0x0102030405060700ull + V[i] + ((u64)i << 48); return e; } static u32 len(const M& m) { return m.get_r().get_length(); } static void enc(Out& o, u32 n) { if (!n) return; put(o, 10); put_varint(o, 8 * n); for (u32 i = 0; i < n; i++) put_fixed(o, 0x0102030405060700ull + V[i] + ((u64)i << 48), 8); } };
struct Points { using M = ::vsbig::Points; static void set(M& m, u32 n) { for (u32 i = 0; i < n; i++) { ::vsbig::Point p; V[i] = (V[i] & 0x7E) | 1; p.set_v(V[i]); m.add_r(p); } } static u32 is(const M& m, u32 n) { if (m.get_r().get_length() != n) return 0; u32 e = 1; for (u32 i = 0; i < n; i++) e &= m.r(i).get_v() == V[i]; return e; } static u32 len(const M& m) { return m.get_r().get_length(); } static void enc(Out& o, u32 n) { for (u32 i = 0; i < n; i++) { put(o, 10); put(o, 2); put(o, 8); put(o, V[i]); } } };
struct Lines { using M = ::vsbig::Lines; static void set(M& m, u32 n) { for (u32 i = 0; i < n; i++) { u32 l = i + 1 == n ? n : 1; auto& e = m.mutable_r(i); sym_assert(e.set((const char*)V + n - l, l) == Error::NO_ERRORS, "content that fits is refused"); } } static u32 is(const M& m, u32 n) { if (m.get_r().get_length() != n) return 0; for (u32 i = 0; i < n; i++) { u32 l = i + 1 == n ? n : 1; if (m.r(i).get_length() != l || !sym_equal(m.r(i).get_const(), V + n - l, l)) return 0; } return 1; } static u32 len(const M& m) { return m.get_r().get_length(); } static void enc(Out& o, u32 n) { for (u32 i = 0; i < n; i++) { u32 l = i + 1 == n ? n : 1; put(o, 10); put_varint(o, l); raw(o, V + n - l, l); } } };
struct Pages { using M = ::vsbig::Pages; static void set(M& m, u32 n) { for (u32 i = 0; i < 2; i++) { static ::vsbig::Page p; text_set(p.mutable_s(), n); m.add_r(p); } } static u32 is(const M& m, u32 n) { return m.get_r().get_length() == 2 && text_is(m.r(0).get_s(), n) && text_is(m.r(1).get_s(), n); } static u32 len(const M& m) { return m.get_r().get_length(); } static void enc(Out& o, u32 n) { for (u32 i = 0; i < 2; i++) { put(o, 10); put_varint(o, n + vlen(n) + 1); put(o, 10); put_varint(o, n); raw(o, V, n); } } };
struct Notes { using M = ::vsbig::Notes; static void set(M& m, u32 n) { for (u32 i = 0; i < 3; i++) text_set(m.mutable_r(i), n); } static u32 is(const M& m, u32 n) { return m.get_r().get_length() == 3 && text_is(m.r(0), n) && text_is(m.r(1), n) && text_is(m.r(2), n); } static u32 len(const M& m) { return m.get_r().get_length(); } static void enc(Out& o, u32 n) { for (u32 i = 0; i < 3; i++) { put(o, 10); put_varint(o, n); raw(o, V, n); } } };
template<class T> static void fill(typename T::M& m, u32 n, const Sym& s) { T::set(m, n); m.set_z(s.z); }
// z (field 3) is written before the oneof, after everything else
template<class T> static u32 encode(u32 n, const Sym& s) { Out o = {X, sizeof X, 0}; bool first = std::is_same<T, Choice>::value; if (first) { put(o, 24); put(o, s.z); } T::enc(o, n); if (!first) { put(o, 24); put(o, s.z); } return o.n; }
static u32 count() { return sym_param("n", 300); }
static void done(u32 n) { sym_cover("checked"); obs32(n); }
// C01 bytes, C02 round trip, C07 size, C08 capacity
template<class T> static void enc() { u32 n = count(); Sym s = content(n); static typename T::M m; fill<T>(m, n, s); u32 k = encode<T>(n, s); WBuf w(Y, sizeof Y, 0xFFFFFFFFu); sym_assert(m.serialize(w) == Error::NO_ERRORS && w.n == k, "number of bytes of a long message"); sym_assert(sym_equal(X, Y, k), "bytes of a long message"); sym_assert(T::is(m, n), "serialize() changes a long message"); done(k); }
template<class T> static void size() { u32 n = count(); Sym s = content(n); static typename T::M m; fill<T>(m, n, s); u32 k = m.serialized_size(); WBuf w(Y, sizeof Y, 0xFFFFFFFFu); sym_assert(m.serialize(w) == Error::NO_ERRORS && w.n == k, "serialized_size() of a long message"); done(k); }
template<class T> static void cap() { u32 n = count(); Sym s = content(n); static typename T::M m; fill<T>(m, n, s); u32 k = encode<T>(n, s), c = choose(4, "capacity"); c = c == 3 ? k / 2 : k - 1 + c; WBuf w(Y, sizeof Y, c); Error e = m.serialize(w);
  sym_assert(e == (c >= k ? Error::NO_ERRORS : Error::BUFFER_FULL), "a long message is accepted although it does not fit, or refused although it does"); sym_assert(w.n <= k && sym_equal(X, Y, w.n), "what is written of a long message is not a prefix of its encoding"); done(w.n); }
template<class T> static void trip() { u32 n = count(); Sym s = content(n); static typename T::M m, q; fill<T>(m, n, s); WBuf w(Y, sizeof Y, 0xFFFFFFFFu); sym_assert(m.serialize(w) == Error::NO_ERRORS, "a long message is not serialized"); RBuf r(Y, w.n); sym_assert(q.deserialize(r) == Error::NO_ERRORS && r.p == w.n, "a long message is not read back"); sym_assert(T::is(q, n) && q.get_z() == s.z, "a long message read back differs"); done(w.n); }
// C03 decoding, C05 cut off, C04 lengths that do not fit, C22 other buffers, C17 what follows, C06 unknown
template<class T> static u32 prepared(u32 n, Sym& s) { s = content(n); static typename T::M m; fill<T>(m, n, s); return encode<T>(n, s); }   // fill adapts V to the type
template<class T> static void dec() { u32 n = count(); Sym s; u32 k = prepared<T>(n, s); static typename T::M q; RBuf r(X, k); sym_assert(q.deserialize(r) == Error::NO_ERRORS, "a long well-formed message is refused"); sym_assert(r.p == k && T::is(q, n) && q.get_z() == s.z, "a long message is decoded to something else"); done(k); }
template<class T> static void cut() { u32 n = count(); Sym s; u32 k = prepared<T>(n, s); static typename T::M q; u32 d = 3 + choose(3, "cut"); if (std::is_same<T, Choice>::value) d -= 2; RBuf r(X, k - d); sym_assert(q.deserialize(r) == Error::END_OF_BUFFER, "a long message cut off inside a field is not refused with END_OF_BUFFER"); sym_assert(r.p <= k - d, "reading beyond the input"); done(k); }
template<class T, u32 CAP> static void over() { u32 n = CAP + 1 + choose(2, "more"); Sym s = content(n); u32 k; { Out o = {X, sizeof X, 0}; put(o, 10); put_varint(o, n); raw(o, V, n); k = o.n; } if (std::is_same<T, Flags>::value) for (u32 i = 0; i < n; i++) X[k - n + i] &= 1; (void)s; static typename T::M q; RBuf r(X, k); sym_assert(q.deserialize(r) == Error::ARRAY_FULL, "more content than the capacity is not refused with ARRAY_FULL"); sym_assert(T::len(q) <= CAP, "more content than the capacity"); done(n); }
template<class T> static void bufs() { u32 n = count(); Sym s; u32 k = prepared<T>(n, s); static typename T::M q; static ::EmbeddedProto::ReadBufferFixedSize<MAX> f; u32 how = choose(2, "how"), skip = how ? 2 : 0; u8* p = f.get_data(); for (u32 i = 0; i < skip; i++) p[i] = 8; __builtin_memcpy(p + skip, X, k); f.set_bytes_written(k + skip); if (skip) f.advance(skip);
  sym_assert(q.deserialize(f) == Error::NO_ERRORS && T::is(q, n) && q.get_z() == s.z, "the fixed-size read buffer gives another message"); sym_assert(!f.advance(), "the fixed-size read buffer is not read to its end");
  static ::EmbeddedProto::WriteBufferFixedSize<MAX> w; sym_assert(q.serialize(w) == Error::NO_ERRORS && w.get_size() == k && sym_equal(w.get_data(), X, k), "the fixed-size write buffer gets other bytes"); done(k); }
H(u_skip) { u32 n = count(); Sym s = content(n); Out o = {X, sizeof X, 0}; put(o, 24); put(o, 9); put(o, 0x7A); put_varint(o, n); raw(o, V, n); put(o, 24); put(o, s.z); ::vsbig::Points q; u32 how = choose(3, "how"), left;
  if (how == 0) { RBuf r(X, o.n); sym_assert(q.deserialize(r) == Error::NO_ERRORS, "a long unknown field is refused"); left = o.n - r.p; }
  else if (how == 1) { static ::EmbeddedProto::ReadBufferFixedSize<MAX> f; __builtin_memcpy(f.get_data(), X, o.n); f.set_bytes_written(o.n); sym_assert(q.deserialize(f) == Error::NO_ERRORS, "a long unknown field is refused"); left = f.advance() ? 1 : 0; }
  else { u32 c = o.n; X[c] = 24; X[c + 1] = 1; RBuf r(X, o.n + 2); ::EmbeddedProto::ReadBufferSection t(r, c); sym_assert(q.deserialize(t) == Error::NO_ERRORS, "a long unknown field is refused"); left = o.n - r.p; }
  sym_assert(left == 0, "a long unknown field is not consumed exactly"); sym_assert(q.get_z() == s.z && q.get_r().get_length() == 0, "a long unknown field changes the message"); done(n); }
// inside a submessage
H(u_nested) { u32 n = count(); Sym s = content(n); Out o = {X, sizeof X, 0}; put(o, 10); put_varint(o, n + vlen(n) + 1 + 2); put(o, 0x7A); put_varint(o, n); raw(o, V, n); put(o, 24); put(o, 5); put(o, 24); put(o, s.z); static ::vsbig::Holder q; RBuf r(X, o.n); sym_assert(q.deserialize(r) == Error::NO_ERRORS && r.p == o.n, "a long unknown field in a submessage is not skipped"); sym_assert(q.get_z() == s.z && q.get_in().get_z() == 5 && !q.get_in().has_s(), "a long unknown field in a submessage changes the message"); done(n); }
// C11 copies, C12 clear
template<class T> static void copy() { u32 n = count(); Sym s = content(n); static typename T::M m, d; fill<T>(m, n, s); u32 how = choose(2, "how"); if (how) { static typename T::M c(m); sym_assert(T::is(c, n) && c.get_z() == s.z, "a copy of a long message differs"); } else { d = m; sym_assert(T::is(d, n) && d.get_z() == s.z, "a long message assigned differs"); } sym_assert(T::is(m, n), "copying changes a long message"); m.clear(); if (!how) sym_assert(T::is(d, n), "a copy depends on its source"); done(n); }
template<class T> static void clear() { u32 n = count(); Sym s = content(n); static typename T::M m; fill<T>(m, n, s); m.clear(); sym_assert(T::len(m) == 0 && m.get_z() == 0 && m.serialized_size() == 0, "clear() of a long message"); WBuf w(Y, sizeof Y, 0xFFFFFFFFu); sym_assert(m.serialize(w) == Error::NO_ERRORS && w.n == 0, "a cleared message serializes to something"); T::set(m, n < 3 ? n : 3); sym_assert(T::is(m, n < 3 ? n : 3), "content after clear()"); done(n); }
#define ALLOF(T) H(e_##T) { enc<T>(); } H(s_##T) { size<T>(); } H(c_##T) { cap<T>(); } H(t_##T) { trip<T>(); } H(d_##T) { dec<T>(); } H(x_##T) { cut<T>(); } H(b_##T) { bufs<T>(); } H(p_##T) { copy<T>(); } H(k_##T) { clear<T>(); }
ALLOF(Text) ALLOF(Blob) ALLOF(Choice) ALLOF(Holder) ALLOF(Flags) ALLOF(Words) ALLOF(Points) ALLOF(Lines) ALLOF(Pages) ALLOF(Notes)
H(o_Text) { over<Text, 70000>(); } H(o_Blob) { over<Blob, 70000>(); } H(o_Flags) { over<Flags, 66000>(); }
// C13: string and bytes fields
template<class F, class O> static void text() { using C = typename std::remove_const<typename std::remove_pointer<decltype(((F*)0)->get_const())>::type>::type; u32 n = count(); Sym s = content(70001); static F f; static O o; sym_assert(f.get_max_length() == 70000, "maximum length");
  u32 how = choose(4, "how");
  if (how == 0) { sym_assert(f.set((const C*)V, n) == Error::NO_ERRORS, "content that fits is refused"); sym_assert(text_is(f, n), "long content"); }
  else if (how == 1) { o.set((const C*)V, n); f = o; sym_assert(text_is(f, n) && text_is(o, n), "long content assigned from another field"); O p(o); sym_assert(text_is(p, n), "copy of long content"); }
  else if (how == 2) { sym_assume(n > 0); f[n - 1] = (C)s.c; sym_assert(f.get_length() == n && f.get_const(n - 1) == (C)s.c, "indexed write far into the field"); C v = (C)1; sym_assert(f.get_const(n - 1, v) == Error::NO_ERRORS && v == (C)s.c, "checked read far into the field"); sym_assert(f.get_const(n, v) == Error::INDEX_OUT_OF_BOUND, "checked read right after the end"); sym_assert(&f.get_const(n < 70000 ? n : 69999) == f.get_const() + (n < 70000 ? n : 69999), "element far into the field"); f.get(0) = (C)s.a; sym_assert(f.get_length() == n, "an indexed write inside shortens the field"); f.clear(); sym_assert(f.get_length() == 0, "clear"); }
  else { f.set((const C*)V, n); u32 b = (u32)f.set((const C*)V, 70001); sym_assert(b == (u32)Error::ARRAY_FULL && text_is(f, n), "content one too long is accepted or changes the field"); u32 c = (u32)f.set((const C*)V, 65536u * 65535u + 3u); sym_assert(c == (u32)Error::ARRAY_FULL && text_is(f, n), "content far too long is accepted or changes the field"); }
  done(n); }
H(f_str) { text<EmbeddedProto::FieldString<70000>, EmbeddedProto::FieldString<69999>>(); } H(f_byt) { text<EmbeddedProto::FieldBytes<70000>, EmbeddedProto::FieldBytes<69999>>(); }
H(f_cstr) { u32 n = count(); Sym s = content(n); sym_assume(s.a && s.b && s.c); V[n] = 0; static EmbeddedProto::FieldString<70000> f; if (choose(2, "how")) f = (const char*)V; else f.set((const char*)V); sym_assert(text_is(f, n), "a long C string"); V[n] = 1; V[n + 1] = 0; done(n); }
// C14: repeated fields
H(f_rep) { static EmbeddedProto::RepeatedFieldFixedSize<EmbeddedProto::uint32, 70000> f; u32 n = count(), a = sym_u32("a"), b = sym_u32("b"); EmbeddedProto::uint32 x, y; x = a; y = b; sym_assume(n > 1);
  f.set(n - 1, x); sym_assert(f.get_length() == n && f.get_const(n - 1).get() == a, "indexed write far into the array"); f.set(0, y); sym_assert(f.get_length() == n && f[0].get() == b && f.get_const(n - 1).get() == a, "an indexed write at the start disturbs the rest"); sym_assert(f.get_size() == n * sizeof(x), "size"); sym_assert(f.get_max_length() == 70000 && f.get_max_size() == 70000 * sizeof(x), "limits");
  EmbeddedProto::uint32 v; sym_assert(f.get_const(n, v) == Error::INDEX_OUT_OF_BOUND, "checked read right after the end"); sym_assert(f.get_const(n - 1, v) == Error::NO_ERRORS && v.get() == a, "checked read of the last element");
  Error e = f.add(y); sym_assert(n < 70000 ? e == Error::NO_ERRORS && f.get_length() == n + 1 && f.get_const(n).get() == b : e == Error::ARRAY_FULL && f.get_length() == n, "add() to a long array");
  u32 far = sym_u32("index"); sym_assume(far >= 70000); sym_assert(&f.get_const(far) == &f.get_const(0) + 69999, "an index too large is not limited to the last element");
  f.clear(); sym_assert(f.get_length() == 0, "clear"); static EmbeddedProto::uint32 d[70001]; d[0] = a; d[n - 1] = b; sym_assert(f.set_data(d, n) == Error::NO_ERRORS && f.get_length() == n && f.get_const(0).get() == a && f.get_const(n - 1).get() == b, "bulk assignment"); sym_assert(f.set_data(d, 70001) == Error::ARRAY_FULL && f.get_length() == n, "bulk assignment that does not fit"); done(n); }
// C15, C16, C17: buffers
H(r_fixed) { u32 n = count(); Sym s = content(n); static ::EmbeddedProto::ReadBufferFixedSize<70000> b; __builtin_memcpy(b.get_data(), V, n); u32 how = choose(2, "how"), k = how ? n + 70000 : n; b.set_bytes_written(k); u32 w = how ? 70000 : n; u8 x;
  sym_assert(b.get_max_size() == 70000 && b.get_size() == w, "size of a long buffer"); sym_assert(b.peek(x) && x == V[0], "first byte"); sym_assert(b.advance(n - 1), "advance inside"); sym_assert(b.pop(x) && x == V[n - 1], "byte far into the buffer"); if (!how) sym_assert(!b.pop(x) && !b.peek(x) && !b.advance(1), "a buffer read to its end is not empty"); else { sym_assert(b.advance(70000 - n), "advance to the end"); sym_assert(!b.pop(x), "a buffer read to its end is not empty"); }
  b.clear(); __builtin_memcpy(b.get_data(), V, n); b.set_bytes_written(n); u32 too = sym_u32("too many"); sym_assume(too > n); sym_assert(!b.advance(too), "advance beyond the end"); if (!how && n < 70000) { b.clear(); b.set_bytes_written(n); sym_assert(b.push(s.z), "push into a buffer with room"); sym_assert(b.advance(n) && b.pop(x) && x == s.z, "a byte pushed far into the buffer"); } done(n); }
H(w_fixed) { u32 n = count(); Sym s = content(n); static ::EmbeddedProto::WriteBufferFixedSize<70000> b; sym_assert(b.push(V, n) && b.get_size() == n && b.get_available_size() == 70000 - n && sym_equal(b.get_data(), V, n), "a long push"); sym_assert(b.get_max_size() == 70000, "maximum"); bool f = b.push(V, 70001 - n); sym_assert(!f && b.get_size() == n && sym_equal(b.get_data(), V, n), "a push one too long is accepted"); u32 big = sym_u32("length"); sym_assume(big > 70000 - n); sym_assert(!b.push(V, big) && b.get_size() == n, "a push too long is accepted");
  sym_assert(b.push(s.z) == (n < 70000), "push of one byte"); if (n < 70000) { sym_assert(b.get_size() == n + 1 && b.get_data()[n] == s.z, "a byte pushed far into the buffer"); sym_assert(b.push(V, 69999 - n) && b.get_size() == 70000 && b.get_available_size() == 0 && !b.push(s.z), "filling to the last byte"); } b.clear(); sym_assert(b.get_size() == 0 && b.get_available_size() == 70000, "clear");
  ::EmbeddedProto::MessageSizeCalculator c; sym_assert(c.push(V, n) && c.push(V, n) && c.push(s.z) && c.get_size() == 2 * n + 1, "bytes counted"); done(n); }
H(sec) { u32 n = count(); Sym s = content(n + 4); (void)s; RBuf p(V, n + 4); u32 nest = choose(2, "nested"); ::EmbeddedProto::ReadBufferSection o(p, nest ? n + 2 : 0xFFFFFFFFu); ::EmbeddedProto::ReadBufferInterface& par = nest ? (::EmbeddedProto::ReadBufferInterface&)o : (::EmbeddedProto::ReadBufferInterface&)p; ::EmbeddedProto::ReadBufferSection t(par, n); u8 x;
  sym_assert(t.get_size() == n && t.get_max_size() == n, "size of a long section"); u32 how = choose(3, "how");
  if (how == 0) { sym_assert(t.advance(n - 1) && t.get_size() == 1, "advance inside a long section"); sym_assert(t.pop(x) && x == V[n - 1], "last byte of a long section"); } else if (how == 1) { sym_assert(t.advance(n) && t.get_size() == 0, "advance to the end of a long section"); } else { u32 k = sym_u32("too many"); sym_assume(k > n); sym_assert(!t.advance(k), "advance beyond a long section"); }
  sym_assert(!t.pop(x) && !t.peek(x) && !t.advance(), "a section read to its end is not empty"); sym_assert(p.p == n, "a section does not end where it should"); sym_assert(p.pop(x) && x == V[n], "the parent does not continue after the section"); done(n); }
