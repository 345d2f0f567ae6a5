// C21: the primitives of WireFormatter over their whole domains.
#include "bytes.hpp"
using W = ::EmbeddedProto::WireFormatter; using WT = W::WireType;
template<class V, class U> static V bits(U u) { V v; static_assert(sizeof v == sizeof u, ""); __builtin_memcpy(&v, &u, sizeof u); return v; }
// ---- encoders. f(buffer) writes; expected bytes in o; every capacity from 0 to one more than needed
template<class FN> static void encodes(FN f, const Out& o) {
  u8 got[32]; u32 c = choose(o.n + 2, "capacity"); WBuf w(got, 32, c); Error e = f(w);
  if (c >= o.n) { sym_assert(e == Error::NO_ERRORS, "an encoder fails although its output fits"); sym_assert(w.n == o.n, "number of bytes encoded"); sym_cover("fits"); }
  else { sym_assert(e == Error::BUFFER_FULL, "an encoder does not report BUFFER_FULL"); sym_cover("full"); }
  u32 eq = w.n <= o.n; for (u32 i = 0; i < w.n && i < o.n; i++) eq &= got[i] == o.d[i]; sym_assert(eq, "encoded bytes"); sym_cover("checked"); obs32(w.n); sym_observe(got, w.n);
}
static u32 field_number() { u32 n = sym_u32("number"); sym_assume(n >= 1 && n < (1u << 29)); return n; }
#define EXP u8 ex[32]; Out o = {ex, 32, 0}
static u64 zz32(u32 v) { return (u32)((v << 1) ^ (0u - (v >> 31))); } static u64 zz64(u64 v) { return (v << 1) ^ (0ull - (v >> 63)); }
H(h_varint32) { u32 v = sym_u32("v"); EXP; put_varint(o, v); encodes([&](WBuf& w) { return W::SerializeVarint(v, w); }, o); }
H(h_varint64) { u64 v = sym_u64("v"); EXP; put_varint(o, v); encodes([&](WBuf& w) { return W::SerializeVarint(v, w); }, o); }
H(h_fixed32) { u32 v = sym_u32("v"); EXP; put_fixed(o, v, 4); u32 k = choose(3, "f"); encodes([&](WBuf& w) { return k == 0 ? W::SerializeFixedNoTag(v, w) : k == 1 ? W::SerialzieSFixedNoTag((i32)v, w) : W::SerialzieFloatNoTag(bits<float>(v), w); }, o); }
H(h_fixed64) { u64 v = sym_u64("v"); EXP; put_fixed(o, v, 8); u32 k = choose(3, "f"); encodes([&](WBuf& w) { return k == 0 ? W::SerializeFixedNoTag(v, w) : k == 1 ? W::SerialzieSFixedNoTag((i64)v, w) : W::SerialzieDoubleNoTag(bits<double>(v), w); }, o); }
H(h_tagged32) { u32 n = field_number(), v = sym_u32("v"), k = choose(4, "f"); EXP; put_tag(o, n, 0); put_varint(o, k == 2 ? zz32(v) : (u64)v);
  encodes([&](WBuf& w) { return k == 0 ? W::SerializeInt(n, (i32)v, w) : k == 1 ? W::SerializeUInt(n, v, w) : k == 2 ? W::SerializeSInt(n, (i32)v, w) : W::SerializeEnum(n, v, w); }, o); }
H(h_tagged64) { u32 n = field_number(), k = choose(3, "f"); u64 v = sym_u64("v"); EXP; put_tag(o, n, 0); put_varint(o, k == 2 ? zz64(v) : v);
  encodes([&](WBuf& w) { return k == 0 ? W::SerializeInt(n, (i64)v, w) : k == 1 ? W::SerializeUInt(n, v, w) : W::SerializeSInt(n, (i64)v, w); }, o); }
H(h_taggedfix) { u32 n = field_number(), k = choose(7, "f"); u64 v = sym_u64("v"); EXP; if (k < 3) { put_tag(o, n, 5); put_fixed(o, (u32)v, 4); } else if (k < 6) { put_tag(o, n, 1); put_fixed(o, v, 8); } else { put_tag(o, n, 0); put(o, v & 1); }
  encodes([&](WBuf& w) { return k == 0 ? W::SerializeFixed(n, (u32)v, w) : k == 1 ? W::SerializeSFixed(n, (i32)v, w) : k == 2 ? W::SerializeFloat(n, bits<float>((u32)v), w) : k == 3 ? W::SerializeFixed(n, v, w) : k == 4 ? W::SerializeSFixed(n, (i64)v, w) : k == 5 ? W::SerializeDouble(n, bits<double>(v), w) : W::SerializeBool(n, (v & 1) != 0, w); }, o); }
// ---- zig-zag and tag
H(h_zigzag) { u32 v = sym_u32("v"); u64 x = sym_u64("x"); sym_assert(W::ZigZagEncode((i32)v) == (u32)zz32(v), "zig-zag of 32 bits"); sym_assert((u32)W::ZigZagDecode(W::ZigZagEncode((i32)v)) == v, "zig-zag of 32 bits is not inverted"); sym_assert(W::ZigZagEncode(W::ZigZagDecode(v)) == v, "zig-zag of 32 bits is not a bijection");
  sym_assert(W::ZigZagEncode((i64)x) == zz64(x), "zig-zag of 64 bits"); sym_assert((u64)W::ZigZagDecode(W::ZigZagEncode((i64)x)) == x, "zig-zag of 64 bits is not inverted"); sym_assert(W::ZigZagEncode(W::ZigZagDecode(x)) == x, "zig-zag of 64 bits is not a bijection");
  u32 n = sym_u32("number"), t = sym_u32("type"); sym_assume(n < (1u << 29) && t < 6); sym_assert(W::MakeTag(n, (WT)t) == n * 8 + t, "tag"); sym_cover("checked"); obs32(v); }
// ---- decoders on any bytes: n of them, arbitrary; r = value after the call, same as the reference, untouched on error
template<class FN> static void decodes(u32 max, u32 width, u32 kind, FN f) {
  u8 d[12]; u32 n = choose(max + 2, "bytes"); if (n) sym_bytes(d, n, "input"); u64 init = sym_u64("before"); if (width == 4) init = (u32)init; else if (width == 1) init &= 1;
  In in = {d, 0, n, 0, 0}; u64 v = 0; u32 e;
  if (kind == 1) e = get_fixed(in, width, v); else e = get_varint(in, max, v);
  if (!e) { if (kind == 2) v = width == 4 ? (((u32)v >> 1) ^ (0u - ((u32)v & 1))) : ((v >> 1) ^ (0ull - (v & 1))); if (kind == 3) v = v != 0; if (width == 4) v = (u32)v; }
  RBuf r(d, n); u64 got = init; u32 ge = f(r, got);
  sym_assert(ge == e, "result of a decoder"); sym_assert(r.p == in.p, "number of bytes a decoder consumes");
  if (e) { sym_assert(got == init, "a decoder that fails changes the value"); if (e == E_LONG) sym_cover("overlong"); sym_cover("failed"); } else { sym_assert(got == v, "decoded value"); sym_cover("decoded"); }
  sym_cover("checked"); obs32(ge); sym_observe(&got, 8);
}
#define DECODE(name, max, width, kind, T, call) H(name) { decodes(max, width, kind, [](RBuf& r, u64& g) { typename std::conditional<width == 4, u32, u64>::type u = (typename std::conditional<width == 4, u32, u64>::type)g; T x = bits<T>(u); u32 e = (u32)call(r, x); g = bits<decltype(u)>(x); return e; }); }
DECODE(d_var32, 5, 4, 0, uint32_t, W::DeserializeVarint) DECODE(d_var64, 10, 8, 0, uint64_t, W::DeserializeVarint)
DECODE(d_uint32, 5, 4, 0, uint32_t, W::DeserializeUInt) DECODE(d_uint64, 10, 8, 0, uint64_t, W::DeserializeUInt)
DECODE(d_int32, 10, 4, 0, int32_t, W::DeserializeInt) DECODE(d_int64, 10, 8, 0, int64_t, W::DeserializeInt)
DECODE(d_sint32, 10, 4, 2, int32_t, W::DeserializeSInt) DECODE(d_sint64, 10, 8, 2, int64_t, W::DeserializeSInt)
DECODE(d_fix32, 4, 4, 1, uint32_t, W::DeserializeFixed) DECODE(d_fix64, 8, 8, 1, uint64_t, W::DeserializeFixed)
DECODE(d_sfix32, 4, 4, 1, int32_t, W::DeserializeSFixed) DECODE(d_sfix64, 8, 8, 1, int64_t, W::DeserializeSFixed)
DECODE(d_float, 4, 4, 1, float, W::DeserializeFloat) DECODE(d_double, 8, 8, 1, double, W::DeserializeDouble)
enum class En : uint32_t { A = 0 };
DECODE(d_enum, 10, 4, 0, En, W::DeserializeEnum)
H(d_bool) { decodes(10, 1, 3, [](RBuf& r, u64& g) { bool b = (g & 1) != 0; u32 e = (u32)W::DeserializeBool(r, b); g = b; return e; }); }
H(d_tag) {
  u8 d[8]; u32 n = choose(7, "bytes"); if (n) sym_bytes(d, n, "input"); In in = {d, 0, n, 0, 0}; u64 v = 0; u32 e = get_varint(in, 5, v); if (!e && (v & 7) > 5) e = E_WT;
  WT t = (WT)1; u32 id = sym_u32("before"), id0 = id; RBuf r(d, n); u32 ge = (u32)W::DeserializeTag(r, t, id); sym_assert(ge == e, "result of DeserializeTag"); sym_assert(r.p == in.p, "number of bytes DeserializeTag consumes");
  if (e) sym_assert(t == (WT)1 && id == id0, "DeserializeTag fails but changes its results"); else sym_assert((u32)t == ((u32)v & 7) && id == (u32)v >> 3, "decoded tag");
  sym_cover("checked"); obs32(ge);
}
// ---- decoding what was encoded gives the value back
H(r_var) { u32 a = sym_u32("a"); u64 b = sym_u64("b"); u8 d[32]; WBuf w(d, 32, 32); sym_assert(W::SerializeVarint(a, w) == Error::NO_ERRORS && W::SerializeVarint(b, w) == Error::NO_ERRORS, "encode"); RBuf r(d, w.n); u32 x = ~a; u64 y = ~b; sym_assert(W::DeserializeVarint(r, x) == Error::NO_ERRORS && x == a && W::DeserializeVarint(r, y) == Error::NO_ERRORS && y == b && r.p == w.n, "varints are not decoded to what was encoded"); sym_cover("checked"); obs32(w.n); }
// ---- scalar fields on their own: tag and value written for any number and value, every wire type but the own one refused
// without effect, decoding as the reference, size, conversions and comparisons
template<class F, u8 K, class V> static void field() {
  u8 raw[8] = {0}, raw2[8] = {0}; u32 sz = is64(K) ? 8 : 4; sym_bytes(raw, sz, "value"); sym_bytes(raw2, sz, "other"); if (K == K_BOOL) { sym_assume(u32at(raw) <= 1 && u32at(raw2) <= 1); }
  auto val = [](const u8* p) { V v; if (sizeof(V) == 1) { bool b = p[0] != 0; __builtin_memcpy(&v, &b, 1); } else __builtin_memcpy(&v, p, sizeof(V)); return v; };
  auto same = [&](const V& a, const u8* p) { V v = val(p); return __builtin_memcmp(&a, &v, sizeof v) == 0; };
  V v = val(raw), v2 = val(raw2); F f(v), g; u32 how = choose(5, "assign"); if (how == 0) g = v; else if (how == 1) g.set(v); else if (how == 2) g = f; else if (how == 3) g.set(f); else g.get() = v;
  sym_assert(same(f.get(), raw) && same(g.get(), raw) && same((V)g, raw), "value of a field");
  F h(f); f.set(v2); sym_assert(same(h.get(), raw) && same(f.get(), raw2), "a copied field is not independent");
  if (how == 0) { sym_assert((h == v2) == (v == v2) && (h != v2) == (v != v2) && (h < v2) == (v < v2) && (h > v2) == (v > v2) && (h <= v2) == (v <= v2) && (h >= v2) == (v >= v2), "comparison with a value");
    sym_assert((h == f) == (v == v2) && (h != f) == (v != v2) && (h < f) == (v < v2) && (h > f) == (v > v2) && (h <= f) == (v <= v2) && (h >= f) == (v >= v2), "comparison of fields"); }
  else if (how < 3) { u32 n = field_number(), idx = choose(2, "tagged"); EXP; if (idx) put_tag(o, n, wiretype(K)); put_scalar(o, K, raw);
    if (!idx) sym_assert(h.serialized_size() == o.n, "serialized_size of a field"); encodes([&](WBuf& w) { return idx ? h.serialize_with_id(n, w, how == 1) : h.serialize(w); }, o); }
  else { u8 d[12]; u32 max = wiretype(K) == 0 ? (K == K_U32 || K == K_ENUM ? 5 : 10) : sz, n = choose(max + 2, "bytes"), wt = choose(6, "wiretype"); if (n) sym_bytes(d, n, "input"); RBuf r(d, n);
    if (how == 3) wt = wiretype(K); In in = {d, 0, n, 0, 0}; u8 ex[8]; __builtin_memcpy(ex, raw, 8); u32 e = wt == wiretype(K) ? get_scalar(in, K, ex) : E_WT; u32 ge = how == 3 ? (u32)h.deserialize(r) : (u32)h.deserialize_check_type(r, (WT)wt);
    sym_assert(ge == e, "result of decoding a field"); sym_assert(r.p == in.p, "number of bytes consumed by decoding a field"); sym_assert(same(h.get(), ex), "value of a decoded field"); if (e == E_WT) sym_cover("wiretype"); else if (e) sym_cover("failed"); else sym_cover("decoded");
    h.clear(); u8 z[8] = {0}; sym_assert(same(h.get(), z), "clear() of a field"); obs32(ge); }
  sym_cover("checked");
}
#define FLD(n, T, K, V) H(f_##n) { field< ::EmbeddedProto::T, K, V>(); }
FLD(int32, int32, K_I32, i32) FLD(int64, int64, K_I64, i64) FLD(uint32, uint32, K_U32, u32) FLD(uint64, uint64, K_U64, u64) FLD(sint32, sint32, K_S32, i32) FLD(sint64, sint64, K_S64, i64) FLD(boolean, boolean, K_BOOL, bool)
FLD(fixed32, fixed32, K_F32, u32) FLD(fixed64, fixed64, K_F64, u64) FLD(sfixed32, sfixed32, K_SF32, i32) FLD(sfixed64, sfixed64, K_SF64, i64) FLD(float, floatfixed, K_FLT, float) FLD(double, doublefixed, K_DBL, double)
enum class En2 : uint32_t { A = 0, B = 1 };
FLD(enum, enumeration<En2>, K_ENUM, En2)
// ---- fields of different types compare as their values do
template<class A, class B> static void mixed() {
  typename A::TYPE a; typename B::TYPE b; sym_bytes(&a, sizeof a, "a"); sym_bytes(&b, sizeof b, "b"); A f(a); B g(b);
  sym_assert((f == g) == (a == b) && (f != g) == (a != b) && (f < g) == (a < b) && (f > g) == (a > b) && (f <= g) == (a <= b) && (f >= g) == (a >= b), "comparison of fields of different types"); sym_cover("checked"); obs32(f < g);
}
namespace EP = ::EmbeddedProto;
H(m_i32_i64) { mixed<EP::int32, EP::int64>(); } H(m_u64_u32) { mixed<EP::uint64, EP::uint32>(); } H(m_s32_sf32) { mixed<EP::sint32, EP::sfixed32>(); } H(m_f64_u32) { mixed<EP::fixed64, EP::uint32>(); } H(m_dbl_flt) { mixed<EP::doublefixed, EP::floatfixed>(); } H(m_i64_i32) { mixed<EP::sint64, EP::int32>(); }
