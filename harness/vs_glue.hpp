// Generated by tools/mkglue.py from schemas/*.proto. Do not edit.
#pragma once
#include "ref.hpp"
#include <vs.h>
#include <nopkg.h>
#include <sub/abc.h>
template<class T> struct G;
template<class T> static inline T from_bits(u32 v) { T r; static_assert(sizeof(T) == 4, ""); __builtin_memcpy(&r, &v, 4); return r; }
template<class T> static inline T from_bits(u64 v) { T r; static_assert(sizeof(T) == 8, ""); __builtin_memcpy(&r, &v, 8); return r; }
template<> inline bool from_bits<bool>(u32 v) { return v != 0; }
template<class T> struct Bits { using U = typename std::conditional<sizeof(T) == 8, u64, u32>::type; };
template<class T> static inline typename Bits<T>::U to_bits(T v) { typename Bits<T>::U r; __builtin_memcpy(&r, &v, sizeof r); return r; }
template<> inline u32 to_bits<bool>(bool v) { return v ? 1 : 0; }
template<class FS, u32 N> static inline void loadstr(FS& f, const Str<N>& s) {
  using C = typename std::remove_const<typename std::remove_pointer<decltype(f.get_const())>::type>::type;
  f.set(reinterpret_cast<const C*>(s.d), s.len);
}
template<class FS, u32 N> static inline void readstr(Str<N>& s, const FS& f) {
  s.len = f.get_length(); CHECK_CAP(s.len, N);
  for (u32 i = 0; i < s.len; i++) s.d[i] = (u8)f.get_const()[i];
}
// ---- vs.common.Point
using M_common_Point = ::vs::common::Point;
struct S_common_Point {
  u32 x;
  u32 y;
};
static const FD F_common_Point[] = {
  {1u, K_S32, C_PLAIN, 0, 0, (u32)offsetof(S_common_Point, x), (u32)0, (u32)sizeof(u32), nullptr, "x"},
  {2u, K_S32, C_PLAIN, 0, 0, (u32)offsetof(S_common_Point, y), (u32)0, (u32)sizeof(u32), nullptr, "y"},
};
static const MD D_common_Point = {F_common_Point, 2, (u32)sizeof(S_common_Point), "common_Point"};
static inline void load(M_common_Point& m, const S_common_Point& s) {
  (void)m; (void)s;
  m.set_x(from_bits<int32_t>(s.x));
  m.set_y(from_bits<int32_t>(s.y));
}
static inline void read(S_common_Point& s, const M_common_Point& m) {
  (void)m; ref_reset(D_common_Point, (u8*)&s);
  s.x = to_bits<int32_t>(m.get_x());
  s.y = to_bits<int32_t>(m.get_y());
}
static inline void clear_field(M_common_Point& m, u32 k) {
  (void)m; switch (k) {
    case 0: m.clear_x(); break;
    case 1: m.clear_y(); break;
    default: break;
  }
}
static inline bool set_field(M_common_Point& m, const S_common_Point& s, u32 k, u32 how = 0) {
  (void)m; (void)s; switch (k) {
    case 0: { int32_t e; e = from_bits<int32_t>(s.x); if (how == 0) { m.set_x(static_cast<int32_t&&>(e)); return true; } if (how == 1) { m.set_x(e); return true; } if (how == 2) { m.mutable_x() = e; return true; } return false; }
    case 1: { int32_t e; e = from_bits<int32_t>(s.y); if (how == 0) { m.set_y(static_cast<int32_t&&>(e)); return true; } if (how == 1) { m.set_y(e); return true; } if (how == 2) { m.mutable_y() = e; return true; } return false; }
    default: return false;
  }
}
static inline bool put_at(M_common_Point& m, const S_common_Point& s, u32 k, u32 at, u32 how) {
  (void)m; (void)s; (void)at; (void)how; switch (k) {
    default: return false;
  }
}
static inline void alias_check(const M_common_Point& m, u32 k) {
  (void)m; switch (k) {
    case 0: { sym_assert(to_bits<int32_t>(m.x()) == to_bits<int32_t>(m.get_x()), "x() and get_x() differ"); break; }
    case 1: { sym_assert(to_bits<int32_t>(m.y()) == to_bits<int32_t>(m.get_y()), "x() and get_x() differ"); break; }
    default: break;
  }
}
static inline bool touch_field(M_common_Point& m, u32 k) {
  (void)m; switch (k) {
    case 0: (void)m.mutable_x(); return true;
    case 1: (void)m.mutable_y(); return true;
    default: return false;
  }
}
static inline bool extend_field(M_common_Point& m, u32 k, u32 n) {
  (void)m; (void)n; switch (k) {
    default: return false;
  }
}
static inline void limits(const M_common_Point& m) {
  (void)m;
  static_assert(static_cast<u32>(M_common_Point::FieldNumber::X) == 1u, "number of field x");
  sym_assert(__builtin_strcmp(M_common_Point::X_NAME, "x") == 0, "name constant of field x");
  static_assert(std::is_same<decltype(m.x()), int32_t>::value, "type of field x");
  static_assert(static_cast<u32>(M_common_Point::FieldNumber::Y) == 2u, "number of field y");
  sym_assert(__builtin_strcmp(M_common_Point::Y_NAME, "y") == 0, "name constant of field y");
  static_assert(std::is_same<decltype(m.y()), int32_t>::value, "type of field y");
}
static inline const char* left_out(M_common_Point*, u32 n) { (void)n; return nullptr; }
static inline const char* number_name(M_common_Point*, u32 n) { return M_common_Point::field_number_to_name(static_cast<M_common_Point::FieldNumber>(n)); }
template<> struct G<M_common_Point> { using S = S_common_Point; static const MD& md() { return D_common_Point; } };

// ---- vs.other.Box
using M_other_Box = ::vs::other::Box;
struct S_other_Box {
  S_common_Point p;
  u32 l;
  u32 k;
};
static const FD F_other_Box[] = {
  {1u, K_MSG, C_PLAIN, 0, 0, (u32)offsetof(S_other_Box, p), (u32)0, (u32)sizeof(S_common_Point), &D_common_Point, "p"},
  {2u, K_ENUM, C_PLAIN, 0, 0, (u32)offsetof(S_other_Box, l), (u32)0, (u32)sizeof(u32), nullptr, "l"},
  {3u, K_ENUM, C_PLAIN, 0, 0, (u32)offsetof(S_other_Box, k), (u32)0, (u32)sizeof(u32), nullptr, "k"},
};
static const MD D_other_Box = {F_other_Box, 3, (u32)sizeof(S_other_Box), "other_Box"};
static inline void load(M_other_Box& m, const S_other_Box& s) {
  (void)m; (void)s;
  load(m.mutable_p(), s.p);
  m.set_l(static_cast<::vs::common::Level>(s.l));
  m.set_k(static_cast<::vs::other::Kind>(s.k));
}
static inline void read(S_other_Box& s, const M_other_Box& m) {
  (void)m; ref_reset(D_other_Box, (u8*)&s);
  read(s.p, m.get_p());
  s.l = static_cast<u32>(m.get_l());
  s.k = static_cast<u32>(m.get_k());
}
static inline void clear_field(M_other_Box& m, u32 k) {
  (void)m; switch (k) {
    case 0: m.clear_p(); break;
    case 1: m.clear_l(); break;
    case 2: m.clear_k(); break;
    default: break;
  }
}
static inline bool set_field(M_other_Box& m, const S_other_Box& s, u32 k, u32 how = 0) {
  (void)m; (void)s; switch (k) {
    case 0: { M_common_Point e; load(e, s.p); if (how == 0) { m.set_p(static_cast<M_common_Point&&>(e)); return true; } if (how == 1) { m.set_p(e); return true; } if (how == 2) { m.mutable_p() = e; return true; } return false; }
    case 1: { ::vs::common::Level e; e = static_cast<::vs::common::Level>(s.l); if (how == 0) { m.set_l(static_cast<::vs::common::Level&&>(e)); return true; } if (how == 1) { m.set_l(e); return true; } return false; }
    case 2: { ::vs::other::Kind e; e = static_cast<::vs::other::Kind>(s.k); if (how == 0) { m.set_k(static_cast<::vs::other::Kind&&>(e)); return true; } if (how == 1) { m.set_k(e); return true; } return false; }
    default: return false;
  }
}
static inline bool put_at(M_other_Box& m, const S_other_Box& s, u32 k, u32 at, u32 how) {
  (void)m; (void)s; (void)at; (void)how; switch (k) {
    default: return false;
  }
}
static inline void alias_check(const M_other_Box& m, u32 k) {
  (void)m; switch (k) {
    case 0: { sym_assert(&m.p() == &m.get_p(), "x() and get_x() differ"); break; }
    case 1: { sym_assert(m.l() == m.get_l(), "x() and get_x() differ"); break; }
    case 2: { sym_assert(m.k() == m.get_k(), "x() and get_x() differ"); break; }
    default: break;
  }
}
static inline bool touch_field(M_other_Box& m, u32 k) {
  (void)m; switch (k) {
    case 0: (void)m.mutable_p(); return true;
    default: return false;
  }
}
static inline bool extend_field(M_other_Box& m, u32 k, u32 n) {
  (void)m; (void)n; switch (k) {
    default: return false;
  }
}
static inline void limits(const M_other_Box& m) {
  (void)m;
  static_assert(static_cast<u32>(M_other_Box::FieldNumber::P) == 1u, "number of field p");
  sym_assert(__builtin_strcmp(M_other_Box::P_NAME, "p") == 0, "name constant of field p");
  static_assert(std::is_same<decltype(m.p()), const M_common_Point&>::value, "type of field p");
  static_assert(static_cast<u32>(M_other_Box::FieldNumber::L) == 2u, "number of field l");
  sym_assert(__builtin_strcmp(M_other_Box::L_NAME, "l") == 0, "name constant of field l");
  static_assert(std::is_same<decltype(m.l()), ::vs::common::Level>::value, "type of field l");
  static_assert(static_cast<u32>(M_other_Box::FieldNumber::K) == 3u, "number of field k");
  sym_assert(__builtin_strcmp(M_other_Box::K_NAME, "k") == 0, "name constant of field k");
  static_assert(std::is_same<decltype(m.k()), ::vs::other::Kind>::value, "type of field k");
}
static inline const char* left_out(M_other_Box*, u32 n) { (void)n; return nullptr; }
static inline const char* number_name(M_other_Box*, u32 n) { return M_other_Box::field_number_to_name(static_cast<M_other_Box::FieldNumber>(n)); }
template<> struct G<M_other_Box> { using S = S_other_Box; static const MD& md() { return D_other_Box; } };

// ---- .TopPlain.Leaf
using M_TopPlain_Leaf = ::TopPlain::Leaf;
struct S_TopPlain_Leaf {
  u32 v;
  u32 k;
};
static const FD F_TopPlain_Leaf[] = {
  {1u, K_U32, C_PLAIN, 0, 0, (u32)offsetof(S_TopPlain_Leaf, v), (u32)0, (u32)sizeof(u32), nullptr, "v"},
  {2u, K_ENUM, C_PLAIN, 0, 0, (u32)offsetof(S_TopPlain_Leaf, k), (u32)0, (u32)sizeof(u32), nullptr, "k"},
};
static const MD D_TopPlain_Leaf = {F_TopPlain_Leaf, 2, (u32)sizeof(S_TopPlain_Leaf), "TopPlain_Leaf"};
static inline void load(M_TopPlain_Leaf& m, const S_TopPlain_Leaf& s) {
  (void)m; (void)s;
  m.set_v(from_bits<uint32_t>(s.v));
  m.set_k(static_cast<::TopKind>(s.k));
}
static inline void read(S_TopPlain_Leaf& s, const M_TopPlain_Leaf& m) {
  (void)m; ref_reset(D_TopPlain_Leaf, (u8*)&s);
  s.v = to_bits<uint32_t>(m.get_v());
  s.k = static_cast<u32>(m.get_k());
}
static inline void clear_field(M_TopPlain_Leaf& m, u32 k) {
  (void)m; switch (k) {
    case 0: m.clear_v(); break;
    case 1: m.clear_k(); break;
    default: break;
  }
}
static inline bool set_field(M_TopPlain_Leaf& m, const S_TopPlain_Leaf& s, u32 k, u32 how = 0) {
  (void)m; (void)s; switch (k) {
    case 0: { uint32_t e; e = from_bits<uint32_t>(s.v); if (how == 0) { m.set_v(static_cast<uint32_t&&>(e)); return true; } if (how == 1) { m.set_v(e); return true; } if (how == 2) { m.mutable_v() = e; return true; } return false; }
    case 1: { ::TopKind e; e = static_cast<::TopKind>(s.k); if (how == 0) { m.set_k(static_cast<::TopKind&&>(e)); return true; } if (how == 1) { m.set_k(e); return true; } return false; }
    default: return false;
  }
}
static inline bool put_at(M_TopPlain_Leaf& m, const S_TopPlain_Leaf& s, u32 k, u32 at, u32 how) {
  (void)m; (void)s; (void)at; (void)how; switch (k) {
    default: return false;
  }
}
static inline void alias_check(const M_TopPlain_Leaf& m, u32 k) {
  (void)m; switch (k) {
    case 0: { sym_assert(to_bits<uint32_t>(m.v()) == to_bits<uint32_t>(m.get_v()), "x() and get_x() differ"); break; }
    case 1: { sym_assert(m.k() == m.get_k(), "x() and get_x() differ"); break; }
    default: break;
  }
}
static inline bool touch_field(M_TopPlain_Leaf& m, u32 k) {
  (void)m; switch (k) {
    case 0: (void)m.mutable_v(); return true;
    default: return false;
  }
}
static inline bool extend_field(M_TopPlain_Leaf& m, u32 k, u32 n) {
  (void)m; (void)n; switch (k) {
    default: return false;
  }
}
static inline void limits(const M_TopPlain_Leaf& m) {
  (void)m;
  static_assert(static_cast<u32>(M_TopPlain_Leaf::FieldNumber::V) == 1u, "number of field v");
  sym_assert(__builtin_strcmp(M_TopPlain_Leaf::V_NAME, "v") == 0, "name constant of field v");
  static_assert(std::is_same<decltype(m.v()), uint32_t>::value, "type of field v");
  static_assert(static_cast<u32>(M_TopPlain_Leaf::FieldNumber::K) == 2u, "number of field k");
  sym_assert(__builtin_strcmp(M_TopPlain_Leaf::K_NAME, "k") == 0, "name constant of field k");
  static_assert(std::is_same<decltype(m.k()), ::TopKind>::value, "type of field k");
}
static inline const char* left_out(M_TopPlain_Leaf*, u32 n) { (void)n; return nullptr; }
static inline const char* number_name(M_TopPlain_Leaf*, u32 n) { return M_TopPlain_Leaf::field_number_to_name(static_cast<M_TopPlain_Leaf::FieldNumber>(n)); }
template<> struct G<M_TopPlain_Leaf> { using S = S_TopPlain_Leaf; static const MD& md() { return D_TopPlain_Leaf; } };

// ---- .TopPlain
using M_TopPlain = ::TopPlain;
struct S_TopPlain {
  u32 kind;
  S_TopPlain_Leaf leaf;
  S_common_Point p;
  u32 n_leaves; S_TopPlain_Leaf leaves[2];
  u32 has_s; Str<2> s;
};
static const FD F_TopPlain[] = {
  {1u, K_ENUM, C_PLAIN, 0, 0, (u32)offsetof(S_TopPlain, kind), (u32)0, (u32)sizeof(u32), nullptr, "kind"},
  {2u, K_MSG, C_PLAIN, 0, 0, (u32)offsetof(S_TopPlain, leaf), (u32)0, (u32)sizeof(S_TopPlain_Leaf), &D_TopPlain_Leaf, "leaf"},
  {3u, K_MSG, C_PLAIN, 0, 0, (u32)offsetof(S_TopPlain, p), (u32)0, (u32)sizeof(S_common_Point), &D_common_Point, "p"},
  {4u, K_MSG, C_REP, 2, 0, (u32)offsetof(S_TopPlain, leaves), (u32)offsetof(S_TopPlain, n_leaves), (u32)sizeof(S_TopPlain_Leaf), &D_TopPlain_Leaf, "leaves"},
  {5u, K_STR, C_OPT, 0, 2, (u32)offsetof(S_TopPlain, s), (u32)offsetof(S_TopPlain, has_s), (u32)sizeof(Str<2>), nullptr, "s"},
};
static const MD D_TopPlain = {F_TopPlain, 5, (u32)sizeof(S_TopPlain), "TopPlain"};
static inline void load(M_TopPlain& m, const S_TopPlain& s) {
  (void)m; (void)s;
  m.set_kind(static_cast<::TopKind>(s.kind));
  load(m.mutable_leaf(), s.leaf);
  load(m.mutable_p(), s.p);
  for (u32 i = 0; i < s.n_leaves; i++) { load(m.mutable_leaves(i), s.leaves[i]); }
  if (s.has_s) { loadstr(m.mutable_s(), s.s); }
}
static inline void read(S_TopPlain& s, const M_TopPlain& m) {
  (void)m; ref_reset(D_TopPlain, (u8*)&s);
  s.kind = static_cast<u32>(m.get_kind());
  read(s.leaf, m.get_leaf());
  read(s.p, m.get_p());
  s.n_leaves = m.get_leaves().get_length(); CHECK_CAP(s.n_leaves, 2); for (u32 i = 0; i < s.n_leaves; i++) { read(s.leaves[i], m.get_leaves().get_const(i)); }
  s.has_s = m.has_s() ? 1 : 0; readstr(s.s, m.get_s());
}
static inline void clear_field(M_TopPlain& m, u32 k) {
  (void)m; switch (k) {
    case 0: m.clear_kind(); break;
    case 1: m.clear_leaf(); break;
    case 2: m.clear_p(); break;
    case 3: m.clear_leaves(); break;
    case 4: m.clear_s(); break;
    default: break;
  }
}
static inline bool set_field(M_TopPlain& m, const S_TopPlain& s, u32 k, u32 how = 0) {
  (void)m; (void)s; switch (k) {
    case 0: { ::TopKind e; e = static_cast<::TopKind>(s.kind); if (how == 0) { m.set_kind(static_cast<::TopKind&&>(e)); return true; } if (how == 1) { m.set_kind(e); return true; } return false; }
    case 1: { M_TopPlain_Leaf e; load(e, s.leaf); if (how == 0) { m.set_leaf(static_cast<M_TopPlain_Leaf&&>(e)); return true; } if (how == 1) { m.set_leaf(e); return true; } if (how == 2) { m.mutable_leaf() = e; return true; } return false; }
    case 2: { M_common_Point e; load(e, s.p); if (how == 0) { m.set_p(static_cast<M_common_Point&&>(e)); return true; } if (how == 1) { m.set_p(e); return true; } if (how == 2) { m.mutable_p() = e; return true; } return false; }
    case 3: { if (how == 3) { ::EmbeddedProto::RepeatedFieldFixedSize<M_TopPlain_Leaf, 2> a; for (u32 i = 0; i < s.n_leaves; i++) { M_TopPlain_Leaf e; load(e, s.leaves[i]); a.add(e); } m.set_leaves(a); return true; } for (u32 i = 0; i < s.n_leaves; i++) { M_TopPlain_Leaf e; load(e, s.leaves[i]); if (how == 0) m.set_leaves(i, static_cast<M_TopPlain_Leaf&&>(e)); else if (how == 1) m.set_leaves(i, e); else if (how == 2) m.mutable_leaves(i) = e; else return false; } return true; }
    case 4: { ::EmbeddedProto::FieldString<2> e; loadstr(e, s.s); if (how == 0) { m.set_s(static_cast<::EmbeddedProto::FieldString<2>&&>(e)); return true; } if (how == 1) { m.set_s(e); return true; } if (how == 2) { loadstr(m.mutable_s(), s.s); return true; } return false; }
    default: return false;
  }
}
static inline bool put_at(M_TopPlain& m, const S_TopPlain& s, u32 k, u32 at, u32 how) {
  (void)m; (void)s; (void)at; (void)how; switch (k) {
    case 3: { M_TopPlain_Leaf e; load(e, s.leaves[0]); if (how == 0) m.set_leaves(at, static_cast<M_TopPlain_Leaf&&>(e)); else if (how == 1) m.set_leaves(at, e); else if (how == 2) m.mutable_leaves(at) = e; else if (how == 3) m.mutable_leaves().set(at, e); else if (how == 4) m.mutable_leaves()[at] = e; else if (how == 5) m.add_leaves(e); else m.mutable_leaves().add(e); return true; }
    default: return false;
  }
}
static inline void alias_check(const M_TopPlain& m, u32 k) {
  (void)m; switch (k) {
    case 0: { sym_assert(m.kind() == m.get_kind(), "x() and get_x() differ"); break; }
    case 1: { sym_assert(&m.leaf() == &m.get_leaf(), "x() and get_x() differ"); break; }
    case 2: { sym_assert(&m.p() == &m.get_p(), "x() and get_x() differ"); break; }
    case 3: { sym_assert(&m.leaves() == &m.get_leaves(), "x() and get_x() differ"); for (u32 i = 0; i < m.get_leaves().get_length(); i++) sym_assert(&m.leaves(i) == &m.get_leaves().get_const(i), "x(i) is not the element of the array"); break; }
    case 4: { sym_assert(m.s() == m.get_s().get_const(), "x() and get_x() differ"); break; }
    default: break;
  }
}
static inline bool touch_field(M_TopPlain& m, u32 k) {
  (void)m; switch (k) {
    case 1: (void)m.mutable_leaf(); return true;
    case 2: (void)m.mutable_p(); return true;
    case 3: (void)m.mutable_leaves(); return true;
    case 4: (void)m.mutable_s(); return true;
    default: return false;
  }
}
static inline bool extend_field(M_TopPlain& m, u32 k, u32 n) {
  (void)m; (void)n; switch (k) {
    case 3: (void)m.mutable_leaves(n - 1); return true;
    case 4: (void)m.mutable_s().get(n - 1); return true;
    default: return false;
  }
}
static inline void limits(const M_TopPlain& m) {
  (void)m;
  static_assert(static_cast<u32>(M_TopPlain::FieldNumber::KIND) == 1u, "number of field kind");
  sym_assert(__builtin_strcmp(M_TopPlain::KIND_NAME, "kind") == 0, "name constant of field kind");
  static_assert(std::is_same<decltype(m.kind()), ::TopKind>::value, "type of field kind");
  static_assert(static_cast<u32>(M_TopPlain::FieldNumber::LEAF) == 2u, "number of field leaf");
  sym_assert(__builtin_strcmp(M_TopPlain::LEAF_NAME, "leaf") == 0, "name constant of field leaf");
  static_assert(std::is_same<decltype(m.leaf()), const M_TopPlain_Leaf&>::value, "type of field leaf");
  static_assert(static_cast<u32>(M_TopPlain::FieldNumber::P) == 3u, "number of field p");
  sym_assert(__builtin_strcmp(M_TopPlain::P_NAME, "p") == 0, "name constant of field p");
  static_assert(std::is_same<decltype(m.p()), const M_common_Point&>::value, "type of field p");
  static_assert(static_cast<u32>(M_TopPlain::FieldNumber::LEAVES) == 4u, "number of field leaves");
  sym_assert(__builtin_strcmp(M_TopPlain::LEAVES_NAME, "leaves") == 0, "name constant of field leaves");
  sym_assert(m.get_leaves().get_max_length() == 2u, "capacity of field leaves");
  static_assert(static_cast<u32>(M_TopPlain::FieldNumber::S) == 5u, "number of field s");
  sym_assert(__builtin_strcmp(M_TopPlain::S_NAME, "s") == 0, "name constant of field s");
  sym_assert(m.get_s().get_max_length() == 2u, "capacity of field s");
}
static inline const char* left_out(M_TopPlain*, u32 n) { (void)n; return nullptr; }
static inline const char* number_name(M_TopPlain*, u32 n) { return M_TopPlain::field_number_to_name(static_cast<M_TopPlain::FieldNumber>(n)); }
template<> struct G<M_TopPlain> { using S = S_TopPlain; static const MD& md() { return D_TopPlain; } };

// ---- a.b.c.Abc
using M_b_c_Abc = ::a::b::c::Abc;
struct S_b_c_Abc {
  u32 which_o;
  u32 m;
  S_common_Point p;
  S_TopPlain t;
  u32 om;
  u32 l;
};
static const FD F_b_c_Abc[] = {
  {1u, K_ENUM, C_PLAIN, 0, 0, (u32)offsetof(S_b_c_Abc, m), (u32)0, (u32)sizeof(u32), nullptr, "m"},
  {2u, K_MSG, C_PLAIN, 0, 0, (u32)offsetof(S_b_c_Abc, p), (u32)0, (u32)sizeof(S_common_Point), &D_common_Point, "p"},
  {3u, K_MSG, C_PLAIN, 0, 0, (u32)offsetof(S_b_c_Abc, t), (u32)0, (u32)sizeof(S_TopPlain), &D_TopPlain, "t"},
  {4u, K_ENUM, C_ONE, 0, 0, (u32)offsetof(S_b_c_Abc, om), (u32)offsetof(S_b_c_Abc, which_o), (u32)sizeof(u32), nullptr, "om"},
  {5u, K_ENUM, C_ONE, 0, 0, (u32)offsetof(S_b_c_Abc, l), (u32)offsetof(S_b_c_Abc, which_o), (u32)sizeof(u32), nullptr, "l"},
};
static const MD D_b_c_Abc = {F_b_c_Abc, 5, (u32)sizeof(S_b_c_Abc), "b_c_Abc"};
static inline void load(M_b_c_Abc& m, const S_b_c_Abc& s) {
  (void)m; (void)s;
  m.set_m(static_cast<::a::b::c::Mode>(s.m));
  load(m.mutable_p(), s.p);
  load(m.mutable_t(), s.t);
  if (s.which_o == 4u) { m.set_om(static_cast<::a::b::c::Mode>(s.om)); }
  if (s.which_o == 5u) { m.set_l(static_cast<::vs::common::Level>(s.l)); }
}
static inline void read(S_b_c_Abc& s, const M_b_c_Abc& m) {
  (void)m; ref_reset(D_b_c_Abc, (u8*)&s);
  s.which_o = static_cast<u32>(m.get_which_o());
  s.m = static_cast<u32>(m.get_m());
  read(s.p, m.get_p());
  read(s.t, m.get_t());
  HAS_ONE(m.has_om(), s.which_o, 4u); if (s.which_o == 4u) { s.om = static_cast<u32>(m.get_om()); }
  HAS_ONE(m.has_l(), s.which_o, 5u); if (s.which_o == 5u) { s.l = static_cast<u32>(m.get_l()); }
}
static inline void clear_field(M_b_c_Abc& m, u32 k) {
  (void)m; switch (k) {
    case 0: m.clear_m(); break;
    case 1: m.clear_p(); break;
    case 2: m.clear_t(); break;
    case 3: m.clear_om(); break;
    case 4: m.clear_l(); break;
    default: break;
  }
}
static inline bool set_field(M_b_c_Abc& m, const S_b_c_Abc& s, u32 k, u32 how = 0) {
  (void)m; (void)s; switch (k) {
    case 0: { ::a::b::c::Mode e; e = static_cast<::a::b::c::Mode>(s.m); if (how == 0) { m.set_m(static_cast<::a::b::c::Mode&&>(e)); return true; } if (how == 1) { m.set_m(e); return true; } return false; }
    case 1: { M_common_Point e; load(e, s.p); if (how == 0) { m.set_p(static_cast<M_common_Point&&>(e)); return true; } if (how == 1) { m.set_p(e); return true; } if (how == 2) { m.mutable_p() = e; return true; } return false; }
    case 2: { M_TopPlain e; load(e, s.t); if (how == 0) { m.set_t(static_cast<M_TopPlain&&>(e)); return true; } if (how == 1) { m.set_t(e); return true; } if (how == 2) { m.mutable_t() = e; return true; } return false; }
    case 3: { ::a::b::c::Mode e; e = static_cast<::a::b::c::Mode>(s.om); if (how == 0) { m.set_om(static_cast<::a::b::c::Mode&&>(e)); return true; } if (how == 1) { m.set_om(e); return true; } return false; }
    case 4: { ::vs::common::Level e; e = static_cast<::vs::common::Level>(s.l); if (how == 0) { m.set_l(static_cast<::vs::common::Level&&>(e)); return true; } if (how == 1) { m.set_l(e); return true; } return false; }
    default: return false;
  }
}
static inline bool put_at(M_b_c_Abc& m, const S_b_c_Abc& s, u32 k, u32 at, u32 how) {
  (void)m; (void)s; (void)at; (void)how; switch (k) {
    default: return false;
  }
}
static inline void alias_check(const M_b_c_Abc& m, u32 k) {
  (void)m; switch (k) {
    case 0: { sym_assert(m.m() == m.get_m(), "x() and get_x() differ"); break; }
    case 1: { sym_assert(&m.p() == &m.get_p(), "x() and get_x() differ"); break; }
    case 2: { sym_assert(&m.t() == &m.get_t(), "x() and get_x() differ"); break; }
    case 3: { if (m.has_om()) { sym_assert(m.om() == m.get_om(), "x() and get_x() differ"); } break; }
    case 4: { if (m.has_l()) { sym_assert(m.l() == m.get_l(), "x() and get_x() differ"); } break; }
    default: break;
  }
}
static inline bool touch_field(M_b_c_Abc& m, u32 k) {
  (void)m; switch (k) {
    case 1: (void)m.mutable_p(); return true;
    case 2: (void)m.mutable_t(); return true;
    default: return false;
  }
}
static inline bool extend_field(M_b_c_Abc& m, u32 k, u32 n) {
  (void)m; (void)n; switch (k) {
    default: return false;
  }
}
static inline void limits(const M_b_c_Abc& m) {
  (void)m;
  static_assert(static_cast<u32>(M_b_c_Abc::FieldNumber::M) == 1u, "number of field m");
  sym_assert(__builtin_strcmp(M_b_c_Abc::M_NAME, "m") == 0, "name constant of field m");
  static_assert(std::is_same<decltype(m.m()), ::a::b::c::Mode>::value, "type of field m");
  static_assert(static_cast<u32>(M_b_c_Abc::FieldNumber::P) == 2u, "number of field p");
  sym_assert(__builtin_strcmp(M_b_c_Abc::P_NAME, "p") == 0, "name constant of field p");
  static_assert(std::is_same<decltype(m.p()), const M_common_Point&>::value, "type of field p");
  static_assert(static_cast<u32>(M_b_c_Abc::FieldNumber::T) == 3u, "number of field t");
  sym_assert(__builtin_strcmp(M_b_c_Abc::T_NAME, "t") == 0, "name constant of field t");
  static_assert(std::is_same<decltype(m.t()), const M_TopPlain&>::value, "type of field t");
  static_assert(static_cast<u32>(M_b_c_Abc::FieldNumber::OM) == 4u, "number of field om");
  sym_assert(__builtin_strcmp(M_b_c_Abc::OM_NAME, "om") == 0, "name constant of field om");
  static_assert(std::is_same<decltype(m.om()), ::a::b::c::Mode>::value, "type of field om");
  static_assert(static_cast<u32>(M_b_c_Abc::FieldNumber::L) == 5u, "number of field l");
  sym_assert(__builtin_strcmp(M_b_c_Abc::L_NAME, "l") == 0, "name constant of field l");
  static_assert(std::is_same<decltype(m.l()), ::vs::common::Level>::value, "type of field l");
}
static inline const char* left_out(M_b_c_Abc*, u32 n) { (void)n; return nullptr; }
static inline const char* number_name(M_b_c_Abc*, u32 n) { return M_b_c_Abc::field_number_to_name(static_cast<M_b_c_Abc::FieldNumber>(n)); }
template<> struct G<M_b_c_Abc> { using S = S_b_c_Abc; static const MD& md() { return D_b_c_Abc; } };

// ---- vs.Scalars
using M_Scalars = ::vs::Scalars;
struct S_Scalars {
  u32 a_int32;
  u64 a_int64;
  u32 a_uint32;
  u64 a_uint64;
  u32 a_sint32;
  u64 a_sint64;
  u32 a_fixed32;
  u64 a_fixed64;
  u32 a_sfixed32;
  u64 a_sfixed64;
  u32 a_float;
  u64 a_double;
  u32 a_bool;
  u32 a_enum;
};
static const FD F_Scalars[] = {
  {1u, K_I32, C_PLAIN, 0, 0, (u32)offsetof(S_Scalars, a_int32), (u32)0, (u32)sizeof(u32), nullptr, "a_int32"},
  {2u, K_I64, C_PLAIN, 0, 0, (u32)offsetof(S_Scalars, a_int64), (u32)0, (u32)sizeof(u64), nullptr, "a_int64"},
  {3u, K_U32, C_PLAIN, 0, 0, (u32)offsetof(S_Scalars, a_uint32), (u32)0, (u32)sizeof(u32), nullptr, "a_uint32"},
  {4u, K_U64, C_PLAIN, 0, 0, (u32)offsetof(S_Scalars, a_uint64), (u32)0, (u32)sizeof(u64), nullptr, "a_uint64"},
  {5u, K_S32, C_PLAIN, 0, 0, (u32)offsetof(S_Scalars, a_sint32), (u32)0, (u32)sizeof(u32), nullptr, "a_sint32"},
  {6u, K_S64, C_PLAIN, 0, 0, (u32)offsetof(S_Scalars, a_sint64), (u32)0, (u32)sizeof(u64), nullptr, "a_sint64"},
  {10u, K_F32, C_PLAIN, 0, 0, (u32)offsetof(S_Scalars, a_fixed32), (u32)0, (u32)sizeof(u32), nullptr, "a_fixed32"},
  {9u, K_F64, C_PLAIN, 0, 0, (u32)offsetof(S_Scalars, a_fixed64), (u32)0, (u32)sizeof(u64), nullptr, "a_fixed64"},
  {8u, K_SF32, C_PLAIN, 0, 0, (u32)offsetof(S_Scalars, a_sfixed32), (u32)0, (u32)sizeof(u32), nullptr, "a_sfixed32"},
  {7u, K_SF64, C_PLAIN, 0, 0, (u32)offsetof(S_Scalars, a_sfixed64), (u32)0, (u32)sizeof(u64), nullptr, "a_sfixed64"},
  {11u, K_FLT, C_PLAIN, 0, 0, (u32)offsetof(S_Scalars, a_float), (u32)0, (u32)sizeof(u32), nullptr, "a_float"},
  {12u, K_DBL, C_PLAIN, 0, 0, (u32)offsetof(S_Scalars, a_double), (u32)0, (u32)sizeof(u64), nullptr, "a_double"},
  {15u, K_BOOL, C_PLAIN, 0, 0, (u32)offsetof(S_Scalars, a_bool), (u32)0, (u32)sizeof(u32), nullptr, "a_bool"},
  {14u, K_ENUM, C_PLAIN, 0, 0, (u32)offsetof(S_Scalars, a_enum), (u32)0, (u32)sizeof(u32), nullptr, "a_enum"},
};
static const MD D_Scalars = {F_Scalars, 14, (u32)sizeof(S_Scalars), "Scalars"};
static inline void load(M_Scalars& m, const S_Scalars& s) {
  (void)m; (void)s;
  m.set_a_int32(from_bits<int32_t>(s.a_int32));
  m.set_a_int64(from_bits<int64_t>(s.a_int64));
  m.set_a_uint32(from_bits<uint32_t>(s.a_uint32));
  m.set_a_uint64(from_bits<uint64_t>(s.a_uint64));
  m.set_a_sint32(from_bits<int32_t>(s.a_sint32));
  m.set_a_sint64(from_bits<int64_t>(s.a_sint64));
  m.set_a_fixed32(from_bits<uint32_t>(s.a_fixed32));
  m.set_a_fixed64(from_bits<uint64_t>(s.a_fixed64));
  m.set_a_sfixed32(from_bits<int32_t>(s.a_sfixed32));
  m.set_a_sfixed64(from_bits<int64_t>(s.a_sfixed64));
  m.set_a_float(from_bits<float>(s.a_float));
  m.set_a_double(from_bits<double>(s.a_double));
  m.set_a_bool(from_bits<bool>(s.a_bool));
  m.set_a_enum(static_cast<::vs::Color>(s.a_enum));
}
static inline void read(S_Scalars& s, const M_Scalars& m) {
  (void)m; ref_reset(D_Scalars, (u8*)&s);
  s.a_int32 = to_bits<int32_t>(m.get_a_int32());
  s.a_int64 = to_bits<int64_t>(m.get_a_int64());
  s.a_uint32 = to_bits<uint32_t>(m.get_a_uint32());
  s.a_uint64 = to_bits<uint64_t>(m.get_a_uint64());
  s.a_sint32 = to_bits<int32_t>(m.get_a_sint32());
  s.a_sint64 = to_bits<int64_t>(m.get_a_sint64());
  s.a_fixed32 = to_bits<uint32_t>(m.get_a_fixed32());
  s.a_fixed64 = to_bits<uint64_t>(m.get_a_fixed64());
  s.a_sfixed32 = to_bits<int32_t>(m.get_a_sfixed32());
  s.a_sfixed64 = to_bits<int64_t>(m.get_a_sfixed64());
  s.a_float = to_bits<float>(m.get_a_float());
  s.a_double = to_bits<double>(m.get_a_double());
  s.a_bool = to_bits<bool>(m.get_a_bool());
  s.a_enum = static_cast<u32>(m.get_a_enum());
}
static inline void clear_field(M_Scalars& m, u32 k) {
  (void)m; switch (k) {
    case 0: m.clear_a_int32(); break;
    case 1: m.clear_a_int64(); break;
    case 2: m.clear_a_uint32(); break;
    case 3: m.clear_a_uint64(); break;
    case 4: m.clear_a_sint32(); break;
    case 5: m.clear_a_sint64(); break;
    case 6: m.clear_a_fixed32(); break;
    case 7: m.clear_a_fixed64(); break;
    case 8: m.clear_a_sfixed32(); break;
    case 9: m.clear_a_sfixed64(); break;
    case 10: m.clear_a_float(); break;
    case 11: m.clear_a_double(); break;
    case 12: m.clear_a_bool(); break;
    case 13: m.clear_a_enum(); break;
    default: break;
  }
}
static inline bool set_field(M_Scalars& m, const S_Scalars& s, u32 k, u32 how = 0) {
  (void)m; (void)s; switch (k) {
    case 0: { int32_t e; e = from_bits<int32_t>(s.a_int32); if (how == 0) { m.set_a_int32(static_cast<int32_t&&>(e)); return true; } if (how == 1) { m.set_a_int32(e); return true; } if (how == 2) { m.mutable_a_int32() = e; return true; } return false; }
    case 1: { int64_t e; e = from_bits<int64_t>(s.a_int64); if (how == 0) { m.set_a_int64(static_cast<int64_t&&>(e)); return true; } if (how == 1) { m.set_a_int64(e); return true; } if (how == 2) { m.mutable_a_int64() = e; return true; } return false; }
    case 2: { uint32_t e; e = from_bits<uint32_t>(s.a_uint32); if (how == 0) { m.set_a_uint32(static_cast<uint32_t&&>(e)); return true; } if (how == 1) { m.set_a_uint32(e); return true; } if (how == 2) { m.mutable_a_uint32() = e; return true; } return false; }
    case 3: { uint64_t e; e = from_bits<uint64_t>(s.a_uint64); if (how == 0) { m.set_a_uint64(static_cast<uint64_t&&>(e)); return true; } if (how == 1) { m.set_a_uint64(e); return true; } if (how == 2) { m.mutable_a_uint64() = e; return true; } return false; }
    case 4: { int32_t e; e = from_bits<int32_t>(s.a_sint32); if (how == 0) { m.set_a_sint32(static_cast<int32_t&&>(e)); return true; } if (how == 1) { m.set_a_sint32(e); return true; } if (how == 2) { m.mutable_a_sint32() = e; return true; } return false; }
    case 5: { int64_t e; e = from_bits<int64_t>(s.a_sint64); if (how == 0) { m.set_a_sint64(static_cast<int64_t&&>(e)); return true; } if (how == 1) { m.set_a_sint64(e); return true; } if (how == 2) { m.mutable_a_sint64() = e; return true; } return false; }
    case 6: { uint32_t e; e = from_bits<uint32_t>(s.a_fixed32); if (how == 0) { m.set_a_fixed32(static_cast<uint32_t&&>(e)); return true; } if (how == 1) { m.set_a_fixed32(e); return true; } if (how == 2) { m.mutable_a_fixed32() = e; return true; } return false; }
    case 7: { uint64_t e; e = from_bits<uint64_t>(s.a_fixed64); if (how == 0) { m.set_a_fixed64(static_cast<uint64_t&&>(e)); return true; } if (how == 1) { m.set_a_fixed64(e); return true; } if (how == 2) { m.mutable_a_fixed64() = e; return true; } return false; }
    case 8: { int32_t e; e = from_bits<int32_t>(s.a_sfixed32); if (how == 0) { m.set_a_sfixed32(static_cast<int32_t&&>(e)); return true; } if (how == 1) { m.set_a_sfixed32(e); return true; } if (how == 2) { m.mutable_a_sfixed32() = e; return true; } return false; }
    case 9: { int64_t e; e = from_bits<int64_t>(s.a_sfixed64); if (how == 0) { m.set_a_sfixed64(static_cast<int64_t&&>(e)); return true; } if (how == 1) { m.set_a_sfixed64(e); return true; } if (how == 2) { m.mutable_a_sfixed64() = e; return true; } return false; }
    case 10: { float e; e = from_bits<float>(s.a_float); if (how == 0) { m.set_a_float(static_cast<float&&>(e)); return true; } if (how == 1) { m.set_a_float(e); return true; } if (how == 2) { m.mutable_a_float() = e; return true; } return false; }
    case 11: { double e; e = from_bits<double>(s.a_double); if (how == 0) { m.set_a_double(static_cast<double&&>(e)); return true; } if (how == 1) { m.set_a_double(e); return true; } if (how == 2) { m.mutable_a_double() = e; return true; } return false; }
    case 12: { bool e; e = from_bits<bool>(s.a_bool); if (how == 0) { m.set_a_bool(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_a_bool(e); return true; } if (how == 2) { m.mutable_a_bool() = e; return true; } return false; }
    case 13: { ::vs::Color e; e = static_cast<::vs::Color>(s.a_enum); if (how == 0) { m.set_a_enum(static_cast<::vs::Color&&>(e)); return true; } if (how == 1) { m.set_a_enum(e); return true; } return false; }
    default: return false;
  }
}
static inline bool put_at(M_Scalars& m, const S_Scalars& s, u32 k, u32 at, u32 how) {
  (void)m; (void)s; (void)at; (void)how; switch (k) {
    default: return false;
  }
}
static inline void alias_check(const M_Scalars& m, u32 k) {
  (void)m; switch (k) {
    case 0: { sym_assert(to_bits<int32_t>(m.a_int32()) == to_bits<int32_t>(m.get_a_int32()), "x() and get_x() differ"); break; }
    case 1: { sym_assert(to_bits<int64_t>(m.a_int64()) == to_bits<int64_t>(m.get_a_int64()), "x() and get_x() differ"); break; }
    case 2: { sym_assert(to_bits<uint32_t>(m.a_uint32()) == to_bits<uint32_t>(m.get_a_uint32()), "x() and get_x() differ"); break; }
    case 3: { sym_assert(to_bits<uint64_t>(m.a_uint64()) == to_bits<uint64_t>(m.get_a_uint64()), "x() and get_x() differ"); break; }
    case 4: { sym_assert(to_bits<int32_t>(m.a_sint32()) == to_bits<int32_t>(m.get_a_sint32()), "x() and get_x() differ"); break; }
    case 5: { sym_assert(to_bits<int64_t>(m.a_sint64()) == to_bits<int64_t>(m.get_a_sint64()), "x() and get_x() differ"); break; }
    case 6: { sym_assert(to_bits<uint32_t>(m.a_fixed32()) == to_bits<uint32_t>(m.get_a_fixed32()), "x() and get_x() differ"); break; }
    case 7: { sym_assert(to_bits<uint64_t>(m.a_fixed64()) == to_bits<uint64_t>(m.get_a_fixed64()), "x() and get_x() differ"); break; }
    case 8: { sym_assert(to_bits<int32_t>(m.a_sfixed32()) == to_bits<int32_t>(m.get_a_sfixed32()), "x() and get_x() differ"); break; }
    case 9: { sym_assert(to_bits<int64_t>(m.a_sfixed64()) == to_bits<int64_t>(m.get_a_sfixed64()), "x() and get_x() differ"); break; }
    case 10: { sym_assert(to_bits<float>(m.a_float()) == to_bits<float>(m.get_a_float()), "x() and get_x() differ"); break; }
    case 11: { sym_assert(to_bits<double>(m.a_double()) == to_bits<double>(m.get_a_double()), "x() and get_x() differ"); break; }
    case 12: { sym_assert(to_bits<bool>(m.a_bool()) == to_bits<bool>(m.get_a_bool()), "x() and get_x() differ"); break; }
    case 13: { sym_assert(m.a_enum() == m.get_a_enum(), "x() and get_x() differ"); break; }
    default: break;
  }
}
static inline bool touch_field(M_Scalars& m, u32 k) {
  (void)m; switch (k) {
    case 0: (void)m.mutable_a_int32(); return true;
    case 1: (void)m.mutable_a_int64(); return true;
    case 2: (void)m.mutable_a_uint32(); return true;
    case 3: (void)m.mutable_a_uint64(); return true;
    case 4: (void)m.mutable_a_sint32(); return true;
    case 5: (void)m.mutable_a_sint64(); return true;
    case 6: (void)m.mutable_a_fixed32(); return true;
    case 7: (void)m.mutable_a_fixed64(); return true;
    case 8: (void)m.mutable_a_sfixed32(); return true;
    case 9: (void)m.mutable_a_sfixed64(); return true;
    case 10: (void)m.mutable_a_float(); return true;
    case 11: (void)m.mutable_a_double(); return true;
    case 12: (void)m.mutable_a_bool(); return true;
    default: return false;
  }
}
static inline bool extend_field(M_Scalars& m, u32 k, u32 n) {
  (void)m; (void)n; switch (k) {
    default: return false;
  }
}
static inline void limits(const M_Scalars& m) {
  (void)m;
  static_assert(static_cast<u32>(M_Scalars::FieldNumber::A_INT32) == 1u, "number of field a_int32");
  sym_assert(__builtin_strcmp(M_Scalars::A_INT32_NAME, "a_int32") == 0, "name constant of field a_int32");
  static_assert(std::is_same<decltype(m.a_int32()), int32_t>::value, "type of field a_int32");
  static_assert(static_cast<u32>(M_Scalars::FieldNumber::A_INT64) == 2u, "number of field a_int64");
  sym_assert(__builtin_strcmp(M_Scalars::A_INT64_NAME, "a_int64") == 0, "name constant of field a_int64");
  static_assert(std::is_same<decltype(m.a_int64()), int64_t>::value, "type of field a_int64");
  static_assert(static_cast<u32>(M_Scalars::FieldNumber::A_UINT32) == 3u, "number of field a_uint32");
  sym_assert(__builtin_strcmp(M_Scalars::A_UINT32_NAME, "a_uint32") == 0, "name constant of field a_uint32");
  static_assert(std::is_same<decltype(m.a_uint32()), uint32_t>::value, "type of field a_uint32");
  static_assert(static_cast<u32>(M_Scalars::FieldNumber::A_UINT64) == 4u, "number of field a_uint64");
  sym_assert(__builtin_strcmp(M_Scalars::A_UINT64_NAME, "a_uint64") == 0, "name constant of field a_uint64");
  static_assert(std::is_same<decltype(m.a_uint64()), uint64_t>::value, "type of field a_uint64");
  static_assert(static_cast<u32>(M_Scalars::FieldNumber::A_SINT32) == 5u, "number of field a_sint32");
  sym_assert(__builtin_strcmp(M_Scalars::A_SINT32_NAME, "a_sint32") == 0, "name constant of field a_sint32");
  static_assert(std::is_same<decltype(m.a_sint32()), int32_t>::value, "type of field a_sint32");
  static_assert(static_cast<u32>(M_Scalars::FieldNumber::A_SINT64) == 6u, "number of field a_sint64");
  sym_assert(__builtin_strcmp(M_Scalars::A_SINT64_NAME, "a_sint64") == 0, "name constant of field a_sint64");
  static_assert(std::is_same<decltype(m.a_sint64()), int64_t>::value, "type of field a_sint64");
  static_assert(static_cast<u32>(M_Scalars::FieldNumber::A_FIXED32) == 10u, "number of field a_fixed32");
  sym_assert(__builtin_strcmp(M_Scalars::A_FIXED32_NAME, "a_fixed32") == 0, "name constant of field a_fixed32");
  static_assert(std::is_same<decltype(m.a_fixed32()), uint32_t>::value, "type of field a_fixed32");
  static_assert(static_cast<u32>(M_Scalars::FieldNumber::A_FIXED64) == 9u, "number of field a_fixed64");
  sym_assert(__builtin_strcmp(M_Scalars::A_FIXED64_NAME, "a_fixed64") == 0, "name constant of field a_fixed64");
  static_assert(std::is_same<decltype(m.a_fixed64()), uint64_t>::value, "type of field a_fixed64");
  static_assert(static_cast<u32>(M_Scalars::FieldNumber::A_SFIXED32) == 8u, "number of field a_sfixed32");
  sym_assert(__builtin_strcmp(M_Scalars::A_SFIXED32_NAME, "a_sfixed32") == 0, "name constant of field a_sfixed32");
  static_assert(std::is_same<decltype(m.a_sfixed32()), int32_t>::value, "type of field a_sfixed32");
  static_assert(static_cast<u32>(M_Scalars::FieldNumber::A_SFIXED64) == 7u, "number of field a_sfixed64");
  sym_assert(__builtin_strcmp(M_Scalars::A_SFIXED64_NAME, "a_sfixed64") == 0, "name constant of field a_sfixed64");
  static_assert(std::is_same<decltype(m.a_sfixed64()), int64_t>::value, "type of field a_sfixed64");
  static_assert(static_cast<u32>(M_Scalars::FieldNumber::A_FLOAT) == 11u, "number of field a_float");
  sym_assert(__builtin_strcmp(M_Scalars::A_FLOAT_NAME, "a_float") == 0, "name constant of field a_float");
  static_assert(std::is_same<decltype(m.a_float()), float>::value, "type of field a_float");
  static_assert(static_cast<u32>(M_Scalars::FieldNumber::A_DOUBLE) == 12u, "number of field a_double");
  sym_assert(__builtin_strcmp(M_Scalars::A_DOUBLE_NAME, "a_double") == 0, "name constant of field a_double");
  static_assert(std::is_same<decltype(m.a_double()), double>::value, "type of field a_double");
  static_assert(static_cast<u32>(M_Scalars::FieldNumber::A_BOOL) == 15u, "number of field a_bool");
  sym_assert(__builtin_strcmp(M_Scalars::A_BOOL_NAME, "a_bool") == 0, "name constant of field a_bool");
  static_assert(std::is_same<decltype(m.a_bool()), bool>::value, "type of field a_bool");
  static_assert(static_cast<u32>(M_Scalars::FieldNumber::A_ENUM) == 14u, "number of field a_enum");
  sym_assert(__builtin_strcmp(M_Scalars::A_ENUM_NAME, "a_enum") == 0, "name constant of field a_enum");
  static_assert(std::is_same<decltype(m.a_enum()), ::vs::Color>::value, "type of field a_enum");
}
static inline const char* left_out(M_Scalars*, u32 n) { (void)n; return nullptr; }
static inline const char* number_name(M_Scalars*, u32 n) { return M_Scalars::field_number_to_name(static_cast<M_Scalars::FieldNumber>(n)); }
template<> struct G<M_Scalars> { using S = S_Scalars; static const MD& md() { return D_Scalars; } };

// ---- vs.Tags
using M_Tags = ::vs::Tags;
struct S_Tags {
  u32 t1;
  u32 t2;
  u32 t3;
  u32 t4;
  u64 t5;
  Str<2> t6;
  u32 n_t7; u32 t7[2];
  S_common_Point t8;
  u64 t9;
};
static const FD F_Tags[] = {
  {15u, K_U32, C_PLAIN, 0, 0, (u32)offsetof(S_Tags, t1), (u32)0, (u32)sizeof(u32), nullptr, "t1"},
  {16u, K_U32, C_PLAIN, 0, 0, (u32)offsetof(S_Tags, t2), (u32)0, (u32)sizeof(u32), nullptr, "t2"},
  {2047u, K_BOOL, C_PLAIN, 0, 0, (u32)offsetof(S_Tags, t3), (u32)0, (u32)sizeof(u32), nullptr, "t3"},
  {2048u, K_F32, C_PLAIN, 0, 0, (u32)offsetof(S_Tags, t4), (u32)0, (u32)sizeof(u32), nullptr, "t4"},
  {262143u, K_S64, C_PLAIN, 0, 0, (u32)offsetof(S_Tags, t5), (u32)0, (u32)sizeof(u64), nullptr, "t5"},
  {262144u, K_STR, C_PLAIN, 0, 2, (u32)offsetof(S_Tags, t6), (u32)0, (u32)sizeof(Str<2>), nullptr, "t6"},
  {33554431u, K_U32, C_REP, 2, 0, (u32)offsetof(S_Tags, t7), (u32)offsetof(S_Tags, n_t7), (u32)sizeof(u32), nullptr, "t7"},
  {33554432u, K_MSG, C_PLAIN, 0, 0, (u32)offsetof(S_Tags, t8), (u32)0, (u32)sizeof(S_common_Point), &D_common_Point, "t8"},
  {536870911u, K_DBL, C_PLAIN, 0, 0, (u32)offsetof(S_Tags, t9), (u32)0, (u32)sizeof(u64), nullptr, "t9"},
};
static const MD D_Tags = {F_Tags, 9, (u32)sizeof(S_Tags), "Tags"};
static inline void load(M_Tags& m, const S_Tags& s) {
  (void)m; (void)s;
  m.set_t1(from_bits<uint32_t>(s.t1));
  m.set_t2(from_bits<uint32_t>(s.t2));
  m.set_t3(from_bits<bool>(s.t3));
  m.set_t4(from_bits<uint32_t>(s.t4));
  m.set_t5(from_bits<int64_t>(s.t5));
  loadstr(m.mutable_t6(), s.t6);
  for (u32 i = 0; i < s.n_t7; i++) m.add_t7(from_bits<uint32_t>(s.t7[i]));
  load(m.mutable_t8(), s.t8);
  m.set_t9(from_bits<double>(s.t9));
}
static inline void read(S_Tags& s, const M_Tags& m) {
  (void)m; ref_reset(D_Tags, (u8*)&s);
  s.t1 = to_bits<uint32_t>(m.get_t1());
  s.t2 = to_bits<uint32_t>(m.get_t2());
  s.t3 = to_bits<bool>(m.get_t3());
  s.t4 = to_bits<uint32_t>(m.get_t4());
  s.t5 = to_bits<int64_t>(m.get_t5());
  readstr(s.t6, m.get_t6());
  s.n_t7 = m.get_t7().get_length(); CHECK_CAP(s.n_t7, 2); for (u32 i = 0; i < s.n_t7; i++) { s.t7[i] = to_bits<uint32_t>(m.get_t7().get_const(i).get()); }
  read(s.t8, m.get_t8());
  s.t9 = to_bits<double>(m.get_t9());
}
static inline void clear_field(M_Tags& m, u32 k) {
  (void)m; switch (k) {
    case 0: m.clear_t1(); break;
    case 1: m.clear_t2(); break;
    case 2: m.clear_t3(); break;
    case 3: m.clear_t4(); break;
    case 4: m.clear_t5(); break;
    case 5: m.clear_t6(); break;
    case 6: m.clear_t7(); break;
    case 7: m.clear_t8(); break;
    case 8: m.clear_t9(); break;
    default: break;
  }
}
static inline bool set_field(M_Tags& m, const S_Tags& s, u32 k, u32 how = 0) {
  (void)m; (void)s; switch (k) {
    case 0: { uint32_t e; e = from_bits<uint32_t>(s.t1); if (how == 0) { m.set_t1(static_cast<uint32_t&&>(e)); return true; } if (how == 1) { m.set_t1(e); return true; } if (how == 2) { m.mutable_t1() = e; return true; } return false; }
    case 1: { uint32_t e; e = from_bits<uint32_t>(s.t2); if (how == 0) { m.set_t2(static_cast<uint32_t&&>(e)); return true; } if (how == 1) { m.set_t2(e); return true; } if (how == 2) { m.mutable_t2() = e; return true; } return false; }
    case 2: { bool e; e = from_bits<bool>(s.t3); if (how == 0) { m.set_t3(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_t3(e); return true; } if (how == 2) { m.mutable_t3() = e; return true; } return false; }
    case 3: { uint32_t e; e = from_bits<uint32_t>(s.t4); if (how == 0) { m.set_t4(static_cast<uint32_t&&>(e)); return true; } if (how == 1) { m.set_t4(e); return true; } if (how == 2) { m.mutable_t4() = e; return true; } return false; }
    case 4: { int64_t e; e = from_bits<int64_t>(s.t5); if (how == 0) { m.set_t5(static_cast<int64_t&&>(e)); return true; } if (how == 1) { m.set_t5(e); return true; } if (how == 2) { m.mutable_t5() = e; return true; } return false; }
    case 5: { ::EmbeddedProto::FieldString<2> e; loadstr(e, s.t6); if (how == 0) { m.set_t6(static_cast<::EmbeddedProto::FieldString<2>&&>(e)); return true; } if (how == 1) { m.set_t6(e); return true; } if (how == 2) { loadstr(m.mutable_t6(), s.t6); return true; } return false; }
    case 6: { if (how == 3) { ::EmbeddedProto::RepeatedFieldFixedSize<::EmbeddedProto::uint32, 2> a; for (u32 i = 0; i < s.n_t7; i++) { uint32_t e; e = from_bits<uint32_t>(s.t7[i]); a.add(e); } m.set_t7(a); return true; } for (u32 i = 0; i < s.n_t7; i++) { uint32_t e; e = from_bits<uint32_t>(s.t7[i]); ::EmbeddedProto::uint32 c; c = e; if (how == 0) m.set_t7(i, static_cast<::EmbeddedProto::uint32&&>(c)); else if (how == 1) m.set_t7(i, c); else if (how == 2) m.mutable_t7(i) = c; else return false; } return true; }
    case 7: { M_common_Point e; load(e, s.t8); if (how == 0) { m.set_t8(static_cast<M_common_Point&&>(e)); return true; } if (how == 1) { m.set_t8(e); return true; } if (how == 2) { m.mutable_t8() = e; return true; } return false; }
    case 8: { double e; e = from_bits<double>(s.t9); if (how == 0) { m.set_t9(static_cast<double&&>(e)); return true; } if (how == 1) { m.set_t9(e); return true; } if (how == 2) { m.mutable_t9() = e; return true; } return false; }
    default: return false;
  }
}
static inline bool put_at(M_Tags& m, const S_Tags& s, u32 k, u32 at, u32 how) {
  (void)m; (void)s; (void)at; (void)how; switch (k) {
    case 6: { ::EmbeddedProto::uint32 e; e = from_bits<uint32_t>(s.t7[0]); if (how == 0) m.set_t7(at, static_cast<::EmbeddedProto::uint32&&>(e)); else if (how == 1) m.set_t7(at, e); else if (how == 2) m.mutable_t7(at) = e; else if (how == 3) m.mutable_t7().set(at, e); else if (how == 4) m.mutable_t7()[at] = e; else if (how == 5) m.add_t7(e); else m.mutable_t7().add(e); return true; }
    default: return false;
  }
}
static inline void alias_check(const M_Tags& m, u32 k) {
  (void)m; switch (k) {
    case 0: { sym_assert(to_bits<uint32_t>(m.t1()) == to_bits<uint32_t>(m.get_t1()), "x() and get_x() differ"); break; }
    case 1: { sym_assert(to_bits<uint32_t>(m.t2()) == to_bits<uint32_t>(m.get_t2()), "x() and get_x() differ"); break; }
    case 2: { sym_assert(to_bits<bool>(m.t3()) == to_bits<bool>(m.get_t3()), "x() and get_x() differ"); break; }
    case 3: { sym_assert(to_bits<uint32_t>(m.t4()) == to_bits<uint32_t>(m.get_t4()), "x() and get_x() differ"); break; }
    case 4: { sym_assert(to_bits<int64_t>(m.t5()) == to_bits<int64_t>(m.get_t5()), "x() and get_x() differ"); break; }
    case 5: { sym_assert(m.t6() == m.get_t6().get_const(), "x() and get_x() differ"); break; }
    case 6: { sym_assert(&m.t7() == &m.get_t7(), "x() and get_x() differ"); for (u32 i = 0; i < m.get_t7().get_length(); i++) sym_assert(&m.t7(i) == &m.get_t7().get_const(i), "x(i) is not the element of the array"); break; }
    case 7: { sym_assert(&m.t8() == &m.get_t8(), "x() and get_x() differ"); break; }
    case 8: { sym_assert(to_bits<double>(m.t9()) == to_bits<double>(m.get_t9()), "x() and get_x() differ"); break; }
    default: break;
  }
}
static inline bool touch_field(M_Tags& m, u32 k) {
  (void)m; switch (k) {
    case 0: (void)m.mutable_t1(); return true;
    case 1: (void)m.mutable_t2(); return true;
    case 2: (void)m.mutable_t3(); return true;
    case 3: (void)m.mutable_t4(); return true;
    case 4: (void)m.mutable_t5(); return true;
    case 5: (void)m.mutable_t6(); return true;
    case 6: (void)m.mutable_t7(); return true;
    case 7: (void)m.mutable_t8(); return true;
    case 8: (void)m.mutable_t9(); return true;
    default: return false;
  }
}
static inline bool extend_field(M_Tags& m, u32 k, u32 n) {
  (void)m; (void)n; switch (k) {
    case 5: (void)m.mutable_t6().get(n - 1); return true;
    case 6: (void)m.mutable_t7(n - 1); return true;
    default: return false;
  }
}
static inline void limits(const M_Tags& m) {
  (void)m;
  static_assert(static_cast<u32>(M_Tags::FieldNumber::T1) == 15u, "number of field t1");
  sym_assert(__builtin_strcmp(M_Tags::T1_NAME, "t1") == 0, "name constant of field t1");
  static_assert(std::is_same<decltype(m.t1()), uint32_t>::value, "type of field t1");
  static_assert(static_cast<u32>(M_Tags::FieldNumber::T2) == 16u, "number of field t2");
  sym_assert(__builtin_strcmp(M_Tags::T2_NAME, "t2") == 0, "name constant of field t2");
  static_assert(std::is_same<decltype(m.t2()), uint32_t>::value, "type of field t2");
  static_assert(static_cast<u32>(M_Tags::FieldNumber::T3) == 2047u, "number of field t3");
  sym_assert(__builtin_strcmp(M_Tags::T3_NAME, "t3") == 0, "name constant of field t3");
  static_assert(std::is_same<decltype(m.t3()), bool>::value, "type of field t3");
  static_assert(static_cast<u32>(M_Tags::FieldNumber::T4) == 2048u, "number of field t4");
  sym_assert(__builtin_strcmp(M_Tags::T4_NAME, "t4") == 0, "name constant of field t4");
  static_assert(std::is_same<decltype(m.t4()), uint32_t>::value, "type of field t4");
  static_assert(static_cast<u32>(M_Tags::FieldNumber::T5) == 262143u, "number of field t5");
  sym_assert(__builtin_strcmp(M_Tags::T5_NAME, "t5") == 0, "name constant of field t5");
  static_assert(std::is_same<decltype(m.t5()), int64_t>::value, "type of field t5");
  static_assert(static_cast<u32>(M_Tags::FieldNumber::T6) == 262144u, "number of field t6");
  sym_assert(__builtin_strcmp(M_Tags::T6_NAME, "t6") == 0, "name constant of field t6");
  sym_assert(m.get_t6().get_max_length() == 2u, "capacity of field t6");
  static_assert(static_cast<u32>(M_Tags::FieldNumber::T7) == 33554431u, "number of field t7");
  sym_assert(__builtin_strcmp(M_Tags::T7_NAME, "t7") == 0, "name constant of field t7");
  sym_assert(m.get_t7().get_max_length() == 2u, "capacity of field t7");
  static_assert(static_cast<u32>(M_Tags::FieldNumber::T8) == 33554432u, "number of field t8");
  sym_assert(__builtin_strcmp(M_Tags::T8_NAME, "t8") == 0, "name constant of field t8");
  static_assert(std::is_same<decltype(m.t8()), const M_common_Point&>::value, "type of field t8");
  static_assert(static_cast<u32>(M_Tags::FieldNumber::T9) == 536870911u, "number of field t9");
  sym_assert(__builtin_strcmp(M_Tags::T9_NAME, "t9") == 0, "name constant of field t9");
  static_assert(std::is_same<decltype(m.t9()), double>::value, "type of field t9");
}
static inline const char* left_out(M_Tags*, u32 n) { (void)n; return nullptr; }
static inline const char* number_name(M_Tags*, u32 n) { return M_Tags::field_number_to_name(static_cast<M_Tags::FieldNumber>(n)); }
template<> struct G<M_Tags> { using S = S_Tags; static const MD& md() { return D_Tags; } };

// ---- vs.Opts
using M_Opts = ::vs::Opts;
struct S_Opts {
  u32 has_o_int32; u32 o_int32;
  u32 has_o_uint64; u64 o_uint64;
  u32 has_o_sint32; u32 o_sint32;
  u32 has_o_fixed32; u32 o_fixed32;
  u32 has_o_sfixed64; u64 o_sfixed64;
  u32 has_o_float; u32 o_float;
  u32 has_o_double; u64 o_double;
  u32 has_o_bool; u32 o_bool;
  u32 has_o_enum; u32 o_enum;
  u32 has_o_str; Str<3> o_str;
  u32 has_o_byt; Str<3> o_byt;
  u32 has_o_msg; S_common_Point o_msg;
  u32 plain;
};
static const FD F_Opts[] = {
  {1u, K_I32, C_OPT, 0, 0, (u32)offsetof(S_Opts, o_int32), (u32)offsetof(S_Opts, has_o_int32), (u32)sizeof(u32), nullptr, "o_int32"},
  {2u, K_U64, C_OPT, 0, 0, (u32)offsetof(S_Opts, o_uint64), (u32)offsetof(S_Opts, has_o_uint64), (u32)sizeof(u64), nullptr, "o_uint64"},
  {3u, K_S32, C_OPT, 0, 0, (u32)offsetof(S_Opts, o_sint32), (u32)offsetof(S_Opts, has_o_sint32), (u32)sizeof(u32), nullptr, "o_sint32"},
  {4u, K_F32, C_OPT, 0, 0, (u32)offsetof(S_Opts, o_fixed32), (u32)offsetof(S_Opts, has_o_fixed32), (u32)sizeof(u32), nullptr, "o_fixed32"},
  {5u, K_SF64, C_OPT, 0, 0, (u32)offsetof(S_Opts, o_sfixed64), (u32)offsetof(S_Opts, has_o_sfixed64), (u32)sizeof(u64), nullptr, "o_sfixed64"},
  {6u, K_FLT, C_OPT, 0, 0, (u32)offsetof(S_Opts, o_float), (u32)offsetof(S_Opts, has_o_float), (u32)sizeof(u32), nullptr, "o_float"},
  {7u, K_DBL, C_OPT, 0, 0, (u32)offsetof(S_Opts, o_double), (u32)offsetof(S_Opts, has_o_double), (u32)sizeof(u64), nullptr, "o_double"},
  {8u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts, o_bool), (u32)offsetof(S_Opts, has_o_bool), (u32)sizeof(u32), nullptr, "o_bool"},
  {9u, K_ENUM, C_OPT, 0, 0, (u32)offsetof(S_Opts, o_enum), (u32)offsetof(S_Opts, has_o_enum), (u32)sizeof(u32), nullptr, "o_enum"},
  {10u, K_STR, C_OPT, 0, 3, (u32)offsetof(S_Opts, o_str), (u32)offsetof(S_Opts, has_o_str), (u32)sizeof(Str<3>), nullptr, "o_str"},
  {11u, K_BYT, C_OPT, 0, 3, (u32)offsetof(S_Opts, o_byt), (u32)offsetof(S_Opts, has_o_byt), (u32)sizeof(Str<3>), nullptr, "o_byt"},
  {12u, K_MSG, C_OPT, 0, 0, (u32)offsetof(S_Opts, o_msg), (u32)offsetof(S_Opts, has_o_msg), (u32)sizeof(S_common_Point), &D_common_Point, "o_msg"},
  {13u, K_U32, C_PLAIN, 0, 0, (u32)offsetof(S_Opts, plain), (u32)0, (u32)sizeof(u32), nullptr, "plain"},
};
static const MD D_Opts = {F_Opts, 13, (u32)sizeof(S_Opts), "Opts"};
static inline void load(M_Opts& m, const S_Opts& s) {
  (void)m; (void)s;
  if (s.has_o_int32) { m.set_o_int32(from_bits<int32_t>(s.o_int32)); }
  if (s.has_o_uint64) { m.set_o_uint64(from_bits<uint64_t>(s.o_uint64)); }
  if (s.has_o_sint32) { m.set_o_sint32(from_bits<int32_t>(s.o_sint32)); }
  if (s.has_o_fixed32) { m.set_o_fixed32(from_bits<uint32_t>(s.o_fixed32)); }
  if (s.has_o_sfixed64) { m.set_o_sfixed64(from_bits<int64_t>(s.o_sfixed64)); }
  if (s.has_o_float) { m.set_o_float(from_bits<float>(s.o_float)); }
  if (s.has_o_double) { m.set_o_double(from_bits<double>(s.o_double)); }
  if (s.has_o_bool) { m.set_o_bool(from_bits<bool>(s.o_bool)); }
  if (s.has_o_enum) { m.set_o_enum(static_cast<::vs::Color>(s.o_enum)); }
  if (s.has_o_str) { loadstr(m.mutable_o_str(), s.o_str); }
  if (s.has_o_byt) { loadstr(m.mutable_o_byt(), s.o_byt); }
  if (s.has_o_msg) { load(m.mutable_o_msg(), s.o_msg); }
  m.set_plain(from_bits<uint32_t>(s.plain));
}
static inline void read(S_Opts& s, const M_Opts& m) {
  (void)m; ref_reset(D_Opts, (u8*)&s);
  s.has_o_int32 = m.has_o_int32() ? 1 : 0; s.o_int32 = to_bits<int32_t>(m.get_o_int32());
  s.has_o_uint64 = m.has_o_uint64() ? 1 : 0; s.o_uint64 = to_bits<uint64_t>(m.get_o_uint64());
  s.has_o_sint32 = m.has_o_sint32() ? 1 : 0; s.o_sint32 = to_bits<int32_t>(m.get_o_sint32());
  s.has_o_fixed32 = m.has_o_fixed32() ? 1 : 0; s.o_fixed32 = to_bits<uint32_t>(m.get_o_fixed32());
  s.has_o_sfixed64 = m.has_o_sfixed64() ? 1 : 0; s.o_sfixed64 = to_bits<int64_t>(m.get_o_sfixed64());
  s.has_o_float = m.has_o_float() ? 1 : 0; s.o_float = to_bits<float>(m.get_o_float());
  s.has_o_double = m.has_o_double() ? 1 : 0; s.o_double = to_bits<double>(m.get_o_double());
  s.has_o_bool = m.has_o_bool() ? 1 : 0; s.o_bool = to_bits<bool>(m.get_o_bool());
  s.has_o_enum = m.has_o_enum() ? 1 : 0; s.o_enum = static_cast<u32>(m.get_o_enum());
  s.has_o_str = m.has_o_str() ? 1 : 0; readstr(s.o_str, m.get_o_str());
  s.has_o_byt = m.has_o_byt() ? 1 : 0; readstr(s.o_byt, m.get_o_byt());
  s.has_o_msg = m.has_o_msg() ? 1 : 0; read(s.o_msg, m.get_o_msg());
  s.plain = to_bits<uint32_t>(m.get_plain());
}
static inline void clear_field(M_Opts& m, u32 k) {
  (void)m; switch (k) {
    case 0: m.clear_o_int32(); break;
    case 1: m.clear_o_uint64(); break;
    case 2: m.clear_o_sint32(); break;
    case 3: m.clear_o_fixed32(); break;
    case 4: m.clear_o_sfixed64(); break;
    case 5: m.clear_o_float(); break;
    case 6: m.clear_o_double(); break;
    case 7: m.clear_o_bool(); break;
    case 8: m.clear_o_enum(); break;
    case 9: m.clear_o_str(); break;
    case 10: m.clear_o_byt(); break;
    case 11: m.clear_o_msg(); break;
    case 12: m.clear_plain(); break;
    default: break;
  }
}
static inline bool set_field(M_Opts& m, const S_Opts& s, u32 k, u32 how = 0) {
  (void)m; (void)s; switch (k) {
    case 0: { int32_t e; e = from_bits<int32_t>(s.o_int32); if (how == 0) { m.set_o_int32(static_cast<int32_t&&>(e)); return true; } if (how == 1) { m.set_o_int32(e); return true; } if (how == 2) { m.mutable_o_int32() = e; return true; } return false; }
    case 1: { uint64_t e; e = from_bits<uint64_t>(s.o_uint64); if (how == 0) { m.set_o_uint64(static_cast<uint64_t&&>(e)); return true; } if (how == 1) { m.set_o_uint64(e); return true; } if (how == 2) { m.mutable_o_uint64() = e; return true; } return false; }
    case 2: { int32_t e; e = from_bits<int32_t>(s.o_sint32); if (how == 0) { m.set_o_sint32(static_cast<int32_t&&>(e)); return true; } if (how == 1) { m.set_o_sint32(e); return true; } if (how == 2) { m.mutable_o_sint32() = e; return true; } return false; }
    case 3: { uint32_t e; e = from_bits<uint32_t>(s.o_fixed32); if (how == 0) { m.set_o_fixed32(static_cast<uint32_t&&>(e)); return true; } if (how == 1) { m.set_o_fixed32(e); return true; } if (how == 2) { m.mutable_o_fixed32() = e; return true; } return false; }
    case 4: { int64_t e; e = from_bits<int64_t>(s.o_sfixed64); if (how == 0) { m.set_o_sfixed64(static_cast<int64_t&&>(e)); return true; } if (how == 1) { m.set_o_sfixed64(e); return true; } if (how == 2) { m.mutable_o_sfixed64() = e; return true; } return false; }
    case 5: { float e; e = from_bits<float>(s.o_float); if (how == 0) { m.set_o_float(static_cast<float&&>(e)); return true; } if (how == 1) { m.set_o_float(e); return true; } if (how == 2) { m.mutable_o_float() = e; return true; } return false; }
    case 6: { double e; e = from_bits<double>(s.o_double); if (how == 0) { m.set_o_double(static_cast<double&&>(e)); return true; } if (how == 1) { m.set_o_double(e); return true; } if (how == 2) { m.mutable_o_double() = e; return true; } return false; }
    case 7: { bool e; e = from_bits<bool>(s.o_bool); if (how == 0) { m.set_o_bool(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_o_bool(e); return true; } if (how == 2) { m.mutable_o_bool() = e; return true; } return false; }
    case 8: { ::vs::Color e; e = static_cast<::vs::Color>(s.o_enum); if (how == 0) { m.set_o_enum(static_cast<::vs::Color&&>(e)); return true; } if (how == 1) { m.set_o_enum(e); return true; } return false; }
    case 9: { ::EmbeddedProto::FieldString<3> e; loadstr(e, s.o_str); if (how == 0) { m.set_o_str(static_cast<::EmbeddedProto::FieldString<3>&&>(e)); return true; } if (how == 1) { m.set_o_str(e); return true; } if (how == 2) { loadstr(m.mutable_o_str(), s.o_str); return true; } return false; }
    case 10: { ::EmbeddedProto::FieldBytes<3> e; loadstr(e, s.o_byt); if (how == 0) { m.set_o_byt(static_cast<::EmbeddedProto::FieldBytes<3>&&>(e)); return true; } if (how == 1) { m.set_o_byt(e); return true; } if (how == 2) { loadstr(m.mutable_o_byt(), s.o_byt); return true; } return false; }
    case 11: { M_common_Point e; load(e, s.o_msg); if (how == 0) { m.set_o_msg(static_cast<M_common_Point&&>(e)); return true; } if (how == 1) { m.set_o_msg(e); return true; } if (how == 2) { m.mutable_o_msg() = e; return true; } return false; }
    case 12: { uint32_t e; e = from_bits<uint32_t>(s.plain); if (how == 0) { m.set_plain(static_cast<uint32_t&&>(e)); return true; } if (how == 1) { m.set_plain(e); return true; } if (how == 2) { m.mutable_plain() = e; return true; } return false; }
    default: return false;
  }
}
static inline bool put_at(M_Opts& m, const S_Opts& s, u32 k, u32 at, u32 how) {
  (void)m; (void)s; (void)at; (void)how; switch (k) {
    default: return false;
  }
}
static inline void alias_check(const M_Opts& m, u32 k) {
  (void)m; switch (k) {
    case 0: { sym_assert(to_bits<int32_t>(m.o_int32()) == to_bits<int32_t>(m.get_o_int32()), "x() and get_x() differ"); break; }
    case 1: { sym_assert(to_bits<uint64_t>(m.o_uint64()) == to_bits<uint64_t>(m.get_o_uint64()), "x() and get_x() differ"); break; }
    case 2: { sym_assert(to_bits<int32_t>(m.o_sint32()) == to_bits<int32_t>(m.get_o_sint32()), "x() and get_x() differ"); break; }
    case 3: { sym_assert(to_bits<uint32_t>(m.o_fixed32()) == to_bits<uint32_t>(m.get_o_fixed32()), "x() and get_x() differ"); break; }
    case 4: { sym_assert(to_bits<int64_t>(m.o_sfixed64()) == to_bits<int64_t>(m.get_o_sfixed64()), "x() and get_x() differ"); break; }
    case 5: { sym_assert(to_bits<float>(m.o_float()) == to_bits<float>(m.get_o_float()), "x() and get_x() differ"); break; }
    case 6: { sym_assert(to_bits<double>(m.o_double()) == to_bits<double>(m.get_o_double()), "x() and get_x() differ"); break; }
    case 7: { sym_assert(to_bits<bool>(m.o_bool()) == to_bits<bool>(m.get_o_bool()), "x() and get_x() differ"); break; }
    case 8: { sym_assert(m.o_enum() == m.get_o_enum(), "x() and get_x() differ"); break; }
    case 9: { sym_assert(m.o_str() == m.get_o_str().get_const(), "x() and get_x() differ"); break; }
    case 10: { sym_assert(m.o_byt() == m.get_o_byt().get_const(), "x() and get_x() differ"); break; }
    case 11: { sym_assert(&m.o_msg() == &m.get_o_msg(), "x() and get_x() differ"); break; }
    case 12: { sym_assert(to_bits<uint32_t>(m.plain()) == to_bits<uint32_t>(m.get_plain()), "x() and get_x() differ"); break; }
    default: break;
  }
}
static inline bool touch_field(M_Opts& m, u32 k) {
  (void)m; switch (k) {
    case 0: (void)m.mutable_o_int32(); return true;
    case 1: (void)m.mutable_o_uint64(); return true;
    case 2: (void)m.mutable_o_sint32(); return true;
    case 3: (void)m.mutable_o_fixed32(); return true;
    case 4: (void)m.mutable_o_sfixed64(); return true;
    case 5: (void)m.mutable_o_float(); return true;
    case 6: (void)m.mutable_o_double(); return true;
    case 7: (void)m.mutable_o_bool(); return true;
    case 9: (void)m.mutable_o_str(); return true;
    case 10: (void)m.mutable_o_byt(); return true;
    case 11: (void)m.mutable_o_msg(); return true;
    case 12: (void)m.mutable_plain(); return true;
    default: return false;
  }
}
static inline bool extend_field(M_Opts& m, u32 k, u32 n) {
  (void)m; (void)n; switch (k) {
    case 9: (void)m.mutable_o_str().get(n - 1); return true;
    case 10: (void)m.mutable_o_byt().get(n - 1); return true;
    default: return false;
  }
}
static inline void limits(const M_Opts& m) {
  (void)m;
  static_assert(static_cast<u32>(M_Opts::FieldNumber::O_INT32) == 1u, "number of field o_int32");
  sym_assert(__builtin_strcmp(M_Opts::O_INT32_NAME, "o_int32") == 0, "name constant of field o_int32");
  static_assert(std::is_same<decltype(m.o_int32()), int32_t>::value, "type of field o_int32");
  static_assert(static_cast<u32>(M_Opts::FieldNumber::O_UINT64) == 2u, "number of field o_uint64");
  sym_assert(__builtin_strcmp(M_Opts::O_UINT64_NAME, "o_uint64") == 0, "name constant of field o_uint64");
  static_assert(std::is_same<decltype(m.o_uint64()), uint64_t>::value, "type of field o_uint64");
  static_assert(static_cast<u32>(M_Opts::FieldNumber::O_SINT32) == 3u, "number of field o_sint32");
  sym_assert(__builtin_strcmp(M_Opts::O_SINT32_NAME, "o_sint32") == 0, "name constant of field o_sint32");
  static_assert(std::is_same<decltype(m.o_sint32()), int32_t>::value, "type of field o_sint32");
  static_assert(static_cast<u32>(M_Opts::FieldNumber::O_FIXED32) == 4u, "number of field o_fixed32");
  sym_assert(__builtin_strcmp(M_Opts::O_FIXED32_NAME, "o_fixed32") == 0, "name constant of field o_fixed32");
  static_assert(std::is_same<decltype(m.o_fixed32()), uint32_t>::value, "type of field o_fixed32");
  static_assert(static_cast<u32>(M_Opts::FieldNumber::O_SFIXED64) == 5u, "number of field o_sfixed64");
  sym_assert(__builtin_strcmp(M_Opts::O_SFIXED64_NAME, "o_sfixed64") == 0, "name constant of field o_sfixed64");
  static_assert(std::is_same<decltype(m.o_sfixed64()), int64_t>::value, "type of field o_sfixed64");
  static_assert(static_cast<u32>(M_Opts::FieldNumber::O_FLOAT) == 6u, "number of field o_float");
  sym_assert(__builtin_strcmp(M_Opts::O_FLOAT_NAME, "o_float") == 0, "name constant of field o_float");
  static_assert(std::is_same<decltype(m.o_float()), float>::value, "type of field o_float");
  static_assert(static_cast<u32>(M_Opts::FieldNumber::O_DOUBLE) == 7u, "number of field o_double");
  sym_assert(__builtin_strcmp(M_Opts::O_DOUBLE_NAME, "o_double") == 0, "name constant of field o_double");
  static_assert(std::is_same<decltype(m.o_double()), double>::value, "type of field o_double");
  static_assert(static_cast<u32>(M_Opts::FieldNumber::O_BOOL) == 8u, "number of field o_bool");
  sym_assert(__builtin_strcmp(M_Opts::O_BOOL_NAME, "o_bool") == 0, "name constant of field o_bool");
  static_assert(std::is_same<decltype(m.o_bool()), bool>::value, "type of field o_bool");
  static_assert(static_cast<u32>(M_Opts::FieldNumber::O_ENUM) == 9u, "number of field o_enum");
  sym_assert(__builtin_strcmp(M_Opts::O_ENUM_NAME, "o_enum") == 0, "name constant of field o_enum");
  static_assert(std::is_same<decltype(m.o_enum()), ::vs::Color>::value, "type of field o_enum");
  static_assert(static_cast<u32>(M_Opts::FieldNumber::O_STR) == 10u, "number of field o_str");
  sym_assert(__builtin_strcmp(M_Opts::O_STR_NAME, "o_str") == 0, "name constant of field o_str");
  sym_assert(m.get_o_str().get_max_length() == 3u, "capacity of field o_str");
  static_assert(static_cast<u32>(M_Opts::FieldNumber::O_BYT) == 11u, "number of field o_byt");
  sym_assert(__builtin_strcmp(M_Opts::O_BYT_NAME, "o_byt") == 0, "name constant of field o_byt");
  sym_assert(m.get_o_byt().get_max_length() == 3u, "capacity of field o_byt");
  static_assert(static_cast<u32>(M_Opts::FieldNumber::O_MSG) == 12u, "number of field o_msg");
  sym_assert(__builtin_strcmp(M_Opts::O_MSG_NAME, "o_msg") == 0, "name constant of field o_msg");
  static_assert(std::is_same<decltype(m.o_msg()), const M_common_Point&>::value, "type of field o_msg");
  static_assert(static_cast<u32>(M_Opts::FieldNumber::PLAIN) == 13u, "number of field plain");
  sym_assert(__builtin_strcmp(M_Opts::PLAIN_NAME, "plain") == 0, "name constant of field plain");
  static_assert(std::is_same<decltype(m.plain()), uint32_t>::value, "type of field plain");
}
static inline const char* left_out(M_Opts*, u32 n) { (void)n; return nullptr; }
static inline const char* number_name(M_Opts*, u32 n) { return M_Opts::field_number_to_name(static_cast<M_Opts::FieldNumber>(n)); }
template<> struct G<M_Opts> { using S = S_Opts; static const MD& md() { return D_Opts; } };

// ---- vs.Opts40
using M_Opts40 = ::vs::Opts40;
struct S_Opts40 {
  u32 has_p01; u32 p01;
  u32 has_p02; u32 p02;
  u32 has_p03; u32 p03;
  u32 has_p04; u32 p04;
  u32 has_p05; u32 p05;
  u32 has_p06; u32 p06;
  u32 has_p07; u32 p07;
  u32 has_p08; u32 p08;
  u32 has_p09; u32 p09;
  u32 has_p10; u32 p10;
  u32 has_p11; u32 p11;
  u32 has_p12; u32 p12;
  u32 has_p13; u32 p13;
  u32 has_p14; u32 p14;
  u32 has_p15; u32 p15;
  u32 has_p16; u32 p16;
  u32 has_p17; u32 p17;
  u32 has_p18; u32 p18;
  u32 has_p19; u32 p19;
  u32 has_p20; u32 p20;
  u32 has_p21; u32 p21;
  u32 has_p22; u32 p22;
  u32 has_p23; u32 p23;
  u32 has_p24; u32 p24;
  u32 has_p25; u32 p25;
  u32 has_p26; u32 p26;
  u32 has_p27; u32 p27;
  u32 has_p28; u32 p28;
  u32 has_p29; u32 p29;
  u32 has_p30; u32 p30;
  u32 has_p31; u32 p31;
  u32 has_p32; u32 p32;
  u32 has_p33; u32 p33;
  u32 has_p34; u32 p34;
  u32 has_p35; u32 p35;
  u32 has_p36; u32 p36;
  u32 has_p37; u32 p37;
  u32 has_p38; u32 p38;
  u32 has_p39; u32 p39;
  u32 has_p40; u32 p40;
};
static const FD F_Opts40[] = {
  {1u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts40, p01), (u32)offsetof(S_Opts40, has_p01), (u32)sizeof(u32), nullptr, "p01"},
  {2u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts40, p02), (u32)offsetof(S_Opts40, has_p02), (u32)sizeof(u32), nullptr, "p02"},
  {3u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts40, p03), (u32)offsetof(S_Opts40, has_p03), (u32)sizeof(u32), nullptr, "p03"},
  {4u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts40, p04), (u32)offsetof(S_Opts40, has_p04), (u32)sizeof(u32), nullptr, "p04"},
  {5u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts40, p05), (u32)offsetof(S_Opts40, has_p05), (u32)sizeof(u32), nullptr, "p05"},
  {6u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts40, p06), (u32)offsetof(S_Opts40, has_p06), (u32)sizeof(u32), nullptr, "p06"},
  {7u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts40, p07), (u32)offsetof(S_Opts40, has_p07), (u32)sizeof(u32), nullptr, "p07"},
  {8u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts40, p08), (u32)offsetof(S_Opts40, has_p08), (u32)sizeof(u32), nullptr, "p08"},
  {9u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts40, p09), (u32)offsetof(S_Opts40, has_p09), (u32)sizeof(u32), nullptr, "p09"},
  {10u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts40, p10), (u32)offsetof(S_Opts40, has_p10), (u32)sizeof(u32), nullptr, "p10"},
  {11u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts40, p11), (u32)offsetof(S_Opts40, has_p11), (u32)sizeof(u32), nullptr, "p11"},
  {12u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts40, p12), (u32)offsetof(S_Opts40, has_p12), (u32)sizeof(u32), nullptr, "p12"},
  {13u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts40, p13), (u32)offsetof(S_Opts40, has_p13), (u32)sizeof(u32), nullptr, "p13"},
  {14u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts40, p14), (u32)offsetof(S_Opts40, has_p14), (u32)sizeof(u32), nullptr, "p14"},
  {15u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts40, p15), (u32)offsetof(S_Opts40, has_p15), (u32)sizeof(u32), nullptr, "p15"},
  {16u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts40, p16), (u32)offsetof(S_Opts40, has_p16), (u32)sizeof(u32), nullptr, "p16"},
  {17u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts40, p17), (u32)offsetof(S_Opts40, has_p17), (u32)sizeof(u32), nullptr, "p17"},
  {18u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts40, p18), (u32)offsetof(S_Opts40, has_p18), (u32)sizeof(u32), nullptr, "p18"},
  {19u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts40, p19), (u32)offsetof(S_Opts40, has_p19), (u32)sizeof(u32), nullptr, "p19"},
  {20u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts40, p20), (u32)offsetof(S_Opts40, has_p20), (u32)sizeof(u32), nullptr, "p20"},
  {21u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts40, p21), (u32)offsetof(S_Opts40, has_p21), (u32)sizeof(u32), nullptr, "p21"},
  {22u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts40, p22), (u32)offsetof(S_Opts40, has_p22), (u32)sizeof(u32), nullptr, "p22"},
  {23u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts40, p23), (u32)offsetof(S_Opts40, has_p23), (u32)sizeof(u32), nullptr, "p23"},
  {24u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts40, p24), (u32)offsetof(S_Opts40, has_p24), (u32)sizeof(u32), nullptr, "p24"},
  {25u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts40, p25), (u32)offsetof(S_Opts40, has_p25), (u32)sizeof(u32), nullptr, "p25"},
  {26u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts40, p26), (u32)offsetof(S_Opts40, has_p26), (u32)sizeof(u32), nullptr, "p26"},
  {27u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts40, p27), (u32)offsetof(S_Opts40, has_p27), (u32)sizeof(u32), nullptr, "p27"},
  {28u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts40, p28), (u32)offsetof(S_Opts40, has_p28), (u32)sizeof(u32), nullptr, "p28"},
  {29u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts40, p29), (u32)offsetof(S_Opts40, has_p29), (u32)sizeof(u32), nullptr, "p29"},
  {30u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts40, p30), (u32)offsetof(S_Opts40, has_p30), (u32)sizeof(u32), nullptr, "p30"},
  {31u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts40, p31), (u32)offsetof(S_Opts40, has_p31), (u32)sizeof(u32), nullptr, "p31"},
  {32u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts40, p32), (u32)offsetof(S_Opts40, has_p32), (u32)sizeof(u32), nullptr, "p32"},
  {33u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts40, p33), (u32)offsetof(S_Opts40, has_p33), (u32)sizeof(u32), nullptr, "p33"},
  {34u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts40, p34), (u32)offsetof(S_Opts40, has_p34), (u32)sizeof(u32), nullptr, "p34"},
  {35u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts40, p35), (u32)offsetof(S_Opts40, has_p35), (u32)sizeof(u32), nullptr, "p35"},
  {36u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts40, p36), (u32)offsetof(S_Opts40, has_p36), (u32)sizeof(u32), nullptr, "p36"},
  {37u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts40, p37), (u32)offsetof(S_Opts40, has_p37), (u32)sizeof(u32), nullptr, "p37"},
  {38u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts40, p38), (u32)offsetof(S_Opts40, has_p38), (u32)sizeof(u32), nullptr, "p38"},
  {39u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts40, p39), (u32)offsetof(S_Opts40, has_p39), (u32)sizeof(u32), nullptr, "p39"},
  {40u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts40, p40), (u32)offsetof(S_Opts40, has_p40), (u32)sizeof(u32), nullptr, "p40"},
};
static const MD D_Opts40 = {F_Opts40, 40, (u32)sizeof(S_Opts40), "Opts40"};
static inline void load(M_Opts40& m, const S_Opts40& s) {
  (void)m; (void)s;
  if (s.has_p01) { m.set_p01(from_bits<bool>(s.p01)); }
  if (s.has_p02) { m.set_p02(from_bits<bool>(s.p02)); }
  if (s.has_p03) { m.set_p03(from_bits<bool>(s.p03)); }
  if (s.has_p04) { m.set_p04(from_bits<bool>(s.p04)); }
  if (s.has_p05) { m.set_p05(from_bits<bool>(s.p05)); }
  if (s.has_p06) { m.set_p06(from_bits<bool>(s.p06)); }
  if (s.has_p07) { m.set_p07(from_bits<bool>(s.p07)); }
  if (s.has_p08) { m.set_p08(from_bits<bool>(s.p08)); }
  if (s.has_p09) { m.set_p09(from_bits<bool>(s.p09)); }
  if (s.has_p10) { m.set_p10(from_bits<bool>(s.p10)); }
  if (s.has_p11) { m.set_p11(from_bits<bool>(s.p11)); }
  if (s.has_p12) { m.set_p12(from_bits<bool>(s.p12)); }
  if (s.has_p13) { m.set_p13(from_bits<bool>(s.p13)); }
  if (s.has_p14) { m.set_p14(from_bits<bool>(s.p14)); }
  if (s.has_p15) { m.set_p15(from_bits<bool>(s.p15)); }
  if (s.has_p16) { m.set_p16(from_bits<bool>(s.p16)); }
  if (s.has_p17) { m.set_p17(from_bits<bool>(s.p17)); }
  if (s.has_p18) { m.set_p18(from_bits<bool>(s.p18)); }
  if (s.has_p19) { m.set_p19(from_bits<bool>(s.p19)); }
  if (s.has_p20) { m.set_p20(from_bits<bool>(s.p20)); }
  if (s.has_p21) { m.set_p21(from_bits<bool>(s.p21)); }
  if (s.has_p22) { m.set_p22(from_bits<bool>(s.p22)); }
  if (s.has_p23) { m.set_p23(from_bits<bool>(s.p23)); }
  if (s.has_p24) { m.set_p24(from_bits<bool>(s.p24)); }
  if (s.has_p25) { m.set_p25(from_bits<bool>(s.p25)); }
  if (s.has_p26) { m.set_p26(from_bits<bool>(s.p26)); }
  if (s.has_p27) { m.set_p27(from_bits<bool>(s.p27)); }
  if (s.has_p28) { m.set_p28(from_bits<bool>(s.p28)); }
  if (s.has_p29) { m.set_p29(from_bits<bool>(s.p29)); }
  if (s.has_p30) { m.set_p30(from_bits<bool>(s.p30)); }
  if (s.has_p31) { m.set_p31(from_bits<bool>(s.p31)); }
  if (s.has_p32) { m.set_p32(from_bits<bool>(s.p32)); }
  if (s.has_p33) { m.set_p33(from_bits<bool>(s.p33)); }
  if (s.has_p34) { m.set_p34(from_bits<bool>(s.p34)); }
  if (s.has_p35) { m.set_p35(from_bits<bool>(s.p35)); }
  if (s.has_p36) { m.set_p36(from_bits<bool>(s.p36)); }
  if (s.has_p37) { m.set_p37(from_bits<bool>(s.p37)); }
  if (s.has_p38) { m.set_p38(from_bits<bool>(s.p38)); }
  if (s.has_p39) { m.set_p39(from_bits<bool>(s.p39)); }
  if (s.has_p40) { m.set_p40(from_bits<bool>(s.p40)); }
}
static inline void read(S_Opts40& s, const M_Opts40& m) {
  (void)m; ref_reset(D_Opts40, (u8*)&s);
  s.has_p01 = m.has_p01() ? 1 : 0; s.p01 = to_bits<bool>(m.get_p01());
  s.has_p02 = m.has_p02() ? 1 : 0; s.p02 = to_bits<bool>(m.get_p02());
  s.has_p03 = m.has_p03() ? 1 : 0; s.p03 = to_bits<bool>(m.get_p03());
  s.has_p04 = m.has_p04() ? 1 : 0; s.p04 = to_bits<bool>(m.get_p04());
  s.has_p05 = m.has_p05() ? 1 : 0; s.p05 = to_bits<bool>(m.get_p05());
  s.has_p06 = m.has_p06() ? 1 : 0; s.p06 = to_bits<bool>(m.get_p06());
  s.has_p07 = m.has_p07() ? 1 : 0; s.p07 = to_bits<bool>(m.get_p07());
  s.has_p08 = m.has_p08() ? 1 : 0; s.p08 = to_bits<bool>(m.get_p08());
  s.has_p09 = m.has_p09() ? 1 : 0; s.p09 = to_bits<bool>(m.get_p09());
  s.has_p10 = m.has_p10() ? 1 : 0; s.p10 = to_bits<bool>(m.get_p10());
  s.has_p11 = m.has_p11() ? 1 : 0; s.p11 = to_bits<bool>(m.get_p11());
  s.has_p12 = m.has_p12() ? 1 : 0; s.p12 = to_bits<bool>(m.get_p12());
  s.has_p13 = m.has_p13() ? 1 : 0; s.p13 = to_bits<bool>(m.get_p13());
  s.has_p14 = m.has_p14() ? 1 : 0; s.p14 = to_bits<bool>(m.get_p14());
  s.has_p15 = m.has_p15() ? 1 : 0; s.p15 = to_bits<bool>(m.get_p15());
  s.has_p16 = m.has_p16() ? 1 : 0; s.p16 = to_bits<bool>(m.get_p16());
  s.has_p17 = m.has_p17() ? 1 : 0; s.p17 = to_bits<bool>(m.get_p17());
  s.has_p18 = m.has_p18() ? 1 : 0; s.p18 = to_bits<bool>(m.get_p18());
  s.has_p19 = m.has_p19() ? 1 : 0; s.p19 = to_bits<bool>(m.get_p19());
  s.has_p20 = m.has_p20() ? 1 : 0; s.p20 = to_bits<bool>(m.get_p20());
  s.has_p21 = m.has_p21() ? 1 : 0; s.p21 = to_bits<bool>(m.get_p21());
  s.has_p22 = m.has_p22() ? 1 : 0; s.p22 = to_bits<bool>(m.get_p22());
  s.has_p23 = m.has_p23() ? 1 : 0; s.p23 = to_bits<bool>(m.get_p23());
  s.has_p24 = m.has_p24() ? 1 : 0; s.p24 = to_bits<bool>(m.get_p24());
  s.has_p25 = m.has_p25() ? 1 : 0; s.p25 = to_bits<bool>(m.get_p25());
  s.has_p26 = m.has_p26() ? 1 : 0; s.p26 = to_bits<bool>(m.get_p26());
  s.has_p27 = m.has_p27() ? 1 : 0; s.p27 = to_bits<bool>(m.get_p27());
  s.has_p28 = m.has_p28() ? 1 : 0; s.p28 = to_bits<bool>(m.get_p28());
  s.has_p29 = m.has_p29() ? 1 : 0; s.p29 = to_bits<bool>(m.get_p29());
  s.has_p30 = m.has_p30() ? 1 : 0; s.p30 = to_bits<bool>(m.get_p30());
  s.has_p31 = m.has_p31() ? 1 : 0; s.p31 = to_bits<bool>(m.get_p31());
  s.has_p32 = m.has_p32() ? 1 : 0; s.p32 = to_bits<bool>(m.get_p32());
  s.has_p33 = m.has_p33() ? 1 : 0; s.p33 = to_bits<bool>(m.get_p33());
  s.has_p34 = m.has_p34() ? 1 : 0; s.p34 = to_bits<bool>(m.get_p34());
  s.has_p35 = m.has_p35() ? 1 : 0; s.p35 = to_bits<bool>(m.get_p35());
  s.has_p36 = m.has_p36() ? 1 : 0; s.p36 = to_bits<bool>(m.get_p36());
  s.has_p37 = m.has_p37() ? 1 : 0; s.p37 = to_bits<bool>(m.get_p37());
  s.has_p38 = m.has_p38() ? 1 : 0; s.p38 = to_bits<bool>(m.get_p38());
  s.has_p39 = m.has_p39() ? 1 : 0; s.p39 = to_bits<bool>(m.get_p39());
  s.has_p40 = m.has_p40() ? 1 : 0; s.p40 = to_bits<bool>(m.get_p40());
}
static inline void clear_field(M_Opts40& m, u32 k) {
  (void)m; switch (k) {
    case 0: m.clear_p01(); break;
    case 1: m.clear_p02(); break;
    case 2: m.clear_p03(); break;
    case 3: m.clear_p04(); break;
    case 4: m.clear_p05(); break;
    case 5: m.clear_p06(); break;
    case 6: m.clear_p07(); break;
    case 7: m.clear_p08(); break;
    case 8: m.clear_p09(); break;
    case 9: m.clear_p10(); break;
    case 10: m.clear_p11(); break;
    case 11: m.clear_p12(); break;
    case 12: m.clear_p13(); break;
    case 13: m.clear_p14(); break;
    case 14: m.clear_p15(); break;
    case 15: m.clear_p16(); break;
    case 16: m.clear_p17(); break;
    case 17: m.clear_p18(); break;
    case 18: m.clear_p19(); break;
    case 19: m.clear_p20(); break;
    case 20: m.clear_p21(); break;
    case 21: m.clear_p22(); break;
    case 22: m.clear_p23(); break;
    case 23: m.clear_p24(); break;
    case 24: m.clear_p25(); break;
    case 25: m.clear_p26(); break;
    case 26: m.clear_p27(); break;
    case 27: m.clear_p28(); break;
    case 28: m.clear_p29(); break;
    case 29: m.clear_p30(); break;
    case 30: m.clear_p31(); break;
    case 31: m.clear_p32(); break;
    case 32: m.clear_p33(); break;
    case 33: m.clear_p34(); break;
    case 34: m.clear_p35(); break;
    case 35: m.clear_p36(); break;
    case 36: m.clear_p37(); break;
    case 37: m.clear_p38(); break;
    case 38: m.clear_p39(); break;
    case 39: m.clear_p40(); break;
    default: break;
  }
}
static inline bool set_field(M_Opts40& m, const S_Opts40& s, u32 k, u32 how = 0) {
  (void)m; (void)s; switch (k) {
    case 0: { bool e; e = from_bits<bool>(s.p01); if (how == 0) { m.set_p01(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p01(e); return true; } if (how == 2) { m.mutable_p01() = e; return true; } return false; }
    case 1: { bool e; e = from_bits<bool>(s.p02); if (how == 0) { m.set_p02(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p02(e); return true; } if (how == 2) { m.mutable_p02() = e; return true; } return false; }
    case 2: { bool e; e = from_bits<bool>(s.p03); if (how == 0) { m.set_p03(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p03(e); return true; } if (how == 2) { m.mutable_p03() = e; return true; } return false; }
    case 3: { bool e; e = from_bits<bool>(s.p04); if (how == 0) { m.set_p04(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p04(e); return true; } if (how == 2) { m.mutable_p04() = e; return true; } return false; }
    case 4: { bool e; e = from_bits<bool>(s.p05); if (how == 0) { m.set_p05(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p05(e); return true; } if (how == 2) { m.mutable_p05() = e; return true; } return false; }
    case 5: { bool e; e = from_bits<bool>(s.p06); if (how == 0) { m.set_p06(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p06(e); return true; } if (how == 2) { m.mutable_p06() = e; return true; } return false; }
    case 6: { bool e; e = from_bits<bool>(s.p07); if (how == 0) { m.set_p07(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p07(e); return true; } if (how == 2) { m.mutable_p07() = e; return true; } return false; }
    case 7: { bool e; e = from_bits<bool>(s.p08); if (how == 0) { m.set_p08(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p08(e); return true; } if (how == 2) { m.mutable_p08() = e; return true; } return false; }
    case 8: { bool e; e = from_bits<bool>(s.p09); if (how == 0) { m.set_p09(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p09(e); return true; } if (how == 2) { m.mutable_p09() = e; return true; } return false; }
    case 9: { bool e; e = from_bits<bool>(s.p10); if (how == 0) { m.set_p10(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p10(e); return true; } if (how == 2) { m.mutable_p10() = e; return true; } return false; }
    case 10: { bool e; e = from_bits<bool>(s.p11); if (how == 0) { m.set_p11(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p11(e); return true; } if (how == 2) { m.mutable_p11() = e; return true; } return false; }
    case 11: { bool e; e = from_bits<bool>(s.p12); if (how == 0) { m.set_p12(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p12(e); return true; } if (how == 2) { m.mutable_p12() = e; return true; } return false; }
    case 12: { bool e; e = from_bits<bool>(s.p13); if (how == 0) { m.set_p13(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p13(e); return true; } if (how == 2) { m.mutable_p13() = e; return true; } return false; }
    case 13: { bool e; e = from_bits<bool>(s.p14); if (how == 0) { m.set_p14(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p14(e); return true; } if (how == 2) { m.mutable_p14() = e; return true; } return false; }
    case 14: { bool e; e = from_bits<bool>(s.p15); if (how == 0) { m.set_p15(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p15(e); return true; } if (how == 2) { m.mutable_p15() = e; return true; } return false; }
    case 15: { bool e; e = from_bits<bool>(s.p16); if (how == 0) { m.set_p16(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p16(e); return true; } if (how == 2) { m.mutable_p16() = e; return true; } return false; }
    case 16: { bool e; e = from_bits<bool>(s.p17); if (how == 0) { m.set_p17(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p17(e); return true; } if (how == 2) { m.mutable_p17() = e; return true; } return false; }
    case 17: { bool e; e = from_bits<bool>(s.p18); if (how == 0) { m.set_p18(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p18(e); return true; } if (how == 2) { m.mutable_p18() = e; return true; } return false; }
    case 18: { bool e; e = from_bits<bool>(s.p19); if (how == 0) { m.set_p19(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p19(e); return true; } if (how == 2) { m.mutable_p19() = e; return true; } return false; }
    case 19: { bool e; e = from_bits<bool>(s.p20); if (how == 0) { m.set_p20(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p20(e); return true; } if (how == 2) { m.mutable_p20() = e; return true; } return false; }
    case 20: { bool e; e = from_bits<bool>(s.p21); if (how == 0) { m.set_p21(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p21(e); return true; } if (how == 2) { m.mutable_p21() = e; return true; } return false; }
    case 21: { bool e; e = from_bits<bool>(s.p22); if (how == 0) { m.set_p22(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p22(e); return true; } if (how == 2) { m.mutable_p22() = e; return true; } return false; }
    case 22: { bool e; e = from_bits<bool>(s.p23); if (how == 0) { m.set_p23(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p23(e); return true; } if (how == 2) { m.mutable_p23() = e; return true; } return false; }
    case 23: { bool e; e = from_bits<bool>(s.p24); if (how == 0) { m.set_p24(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p24(e); return true; } if (how == 2) { m.mutable_p24() = e; return true; } return false; }
    case 24: { bool e; e = from_bits<bool>(s.p25); if (how == 0) { m.set_p25(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p25(e); return true; } if (how == 2) { m.mutable_p25() = e; return true; } return false; }
    case 25: { bool e; e = from_bits<bool>(s.p26); if (how == 0) { m.set_p26(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p26(e); return true; } if (how == 2) { m.mutable_p26() = e; return true; } return false; }
    case 26: { bool e; e = from_bits<bool>(s.p27); if (how == 0) { m.set_p27(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p27(e); return true; } if (how == 2) { m.mutable_p27() = e; return true; } return false; }
    case 27: { bool e; e = from_bits<bool>(s.p28); if (how == 0) { m.set_p28(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p28(e); return true; } if (how == 2) { m.mutable_p28() = e; return true; } return false; }
    case 28: { bool e; e = from_bits<bool>(s.p29); if (how == 0) { m.set_p29(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p29(e); return true; } if (how == 2) { m.mutable_p29() = e; return true; } return false; }
    case 29: { bool e; e = from_bits<bool>(s.p30); if (how == 0) { m.set_p30(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p30(e); return true; } if (how == 2) { m.mutable_p30() = e; return true; } return false; }
    case 30: { bool e; e = from_bits<bool>(s.p31); if (how == 0) { m.set_p31(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p31(e); return true; } if (how == 2) { m.mutable_p31() = e; return true; } return false; }
    case 31: { bool e; e = from_bits<bool>(s.p32); if (how == 0) { m.set_p32(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p32(e); return true; } if (how == 2) { m.mutable_p32() = e; return true; } return false; }
    case 32: { bool e; e = from_bits<bool>(s.p33); if (how == 0) { m.set_p33(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p33(e); return true; } if (how == 2) { m.mutable_p33() = e; return true; } return false; }
    case 33: { bool e; e = from_bits<bool>(s.p34); if (how == 0) { m.set_p34(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p34(e); return true; } if (how == 2) { m.mutable_p34() = e; return true; } return false; }
    case 34: { bool e; e = from_bits<bool>(s.p35); if (how == 0) { m.set_p35(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p35(e); return true; } if (how == 2) { m.mutable_p35() = e; return true; } return false; }
    case 35: { bool e; e = from_bits<bool>(s.p36); if (how == 0) { m.set_p36(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p36(e); return true; } if (how == 2) { m.mutable_p36() = e; return true; } return false; }
    case 36: { bool e; e = from_bits<bool>(s.p37); if (how == 0) { m.set_p37(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p37(e); return true; } if (how == 2) { m.mutable_p37() = e; return true; } return false; }
    case 37: { bool e; e = from_bits<bool>(s.p38); if (how == 0) { m.set_p38(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p38(e); return true; } if (how == 2) { m.mutable_p38() = e; return true; } return false; }
    case 38: { bool e; e = from_bits<bool>(s.p39); if (how == 0) { m.set_p39(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p39(e); return true; } if (how == 2) { m.mutable_p39() = e; return true; } return false; }
    case 39: { bool e; e = from_bits<bool>(s.p40); if (how == 0) { m.set_p40(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p40(e); return true; } if (how == 2) { m.mutable_p40() = e; return true; } return false; }
    default: return false;
  }
}
static inline bool put_at(M_Opts40& m, const S_Opts40& s, u32 k, u32 at, u32 how) {
  (void)m; (void)s; (void)at; (void)how; switch (k) {
    default: return false;
  }
}
static inline void alias_check(const M_Opts40& m, u32 k) {
  (void)m; switch (k) {
    case 0: { sym_assert(to_bits<bool>(m.p01()) == to_bits<bool>(m.get_p01()), "x() and get_x() differ"); break; }
    case 1: { sym_assert(to_bits<bool>(m.p02()) == to_bits<bool>(m.get_p02()), "x() and get_x() differ"); break; }
    case 2: { sym_assert(to_bits<bool>(m.p03()) == to_bits<bool>(m.get_p03()), "x() and get_x() differ"); break; }
    case 3: { sym_assert(to_bits<bool>(m.p04()) == to_bits<bool>(m.get_p04()), "x() and get_x() differ"); break; }
    case 4: { sym_assert(to_bits<bool>(m.p05()) == to_bits<bool>(m.get_p05()), "x() and get_x() differ"); break; }
    case 5: { sym_assert(to_bits<bool>(m.p06()) == to_bits<bool>(m.get_p06()), "x() and get_x() differ"); break; }
    case 6: { sym_assert(to_bits<bool>(m.p07()) == to_bits<bool>(m.get_p07()), "x() and get_x() differ"); break; }
    case 7: { sym_assert(to_bits<bool>(m.p08()) == to_bits<bool>(m.get_p08()), "x() and get_x() differ"); break; }
    case 8: { sym_assert(to_bits<bool>(m.p09()) == to_bits<bool>(m.get_p09()), "x() and get_x() differ"); break; }
    case 9: { sym_assert(to_bits<bool>(m.p10()) == to_bits<bool>(m.get_p10()), "x() and get_x() differ"); break; }
    case 10: { sym_assert(to_bits<bool>(m.p11()) == to_bits<bool>(m.get_p11()), "x() and get_x() differ"); break; }
    case 11: { sym_assert(to_bits<bool>(m.p12()) == to_bits<bool>(m.get_p12()), "x() and get_x() differ"); break; }
    case 12: { sym_assert(to_bits<bool>(m.p13()) == to_bits<bool>(m.get_p13()), "x() and get_x() differ"); break; }
    case 13: { sym_assert(to_bits<bool>(m.p14()) == to_bits<bool>(m.get_p14()), "x() and get_x() differ"); break; }
    case 14: { sym_assert(to_bits<bool>(m.p15()) == to_bits<bool>(m.get_p15()), "x() and get_x() differ"); break; }
    case 15: { sym_assert(to_bits<bool>(m.p16()) == to_bits<bool>(m.get_p16()), "x() and get_x() differ"); break; }
    case 16: { sym_assert(to_bits<bool>(m.p17()) == to_bits<bool>(m.get_p17()), "x() and get_x() differ"); break; }
    case 17: { sym_assert(to_bits<bool>(m.p18()) == to_bits<bool>(m.get_p18()), "x() and get_x() differ"); break; }
    case 18: { sym_assert(to_bits<bool>(m.p19()) == to_bits<bool>(m.get_p19()), "x() and get_x() differ"); break; }
    case 19: { sym_assert(to_bits<bool>(m.p20()) == to_bits<bool>(m.get_p20()), "x() and get_x() differ"); break; }
    case 20: { sym_assert(to_bits<bool>(m.p21()) == to_bits<bool>(m.get_p21()), "x() and get_x() differ"); break; }
    case 21: { sym_assert(to_bits<bool>(m.p22()) == to_bits<bool>(m.get_p22()), "x() and get_x() differ"); break; }
    case 22: { sym_assert(to_bits<bool>(m.p23()) == to_bits<bool>(m.get_p23()), "x() and get_x() differ"); break; }
    case 23: { sym_assert(to_bits<bool>(m.p24()) == to_bits<bool>(m.get_p24()), "x() and get_x() differ"); break; }
    case 24: { sym_assert(to_bits<bool>(m.p25()) == to_bits<bool>(m.get_p25()), "x() and get_x() differ"); break; }
    case 25: { sym_assert(to_bits<bool>(m.p26()) == to_bits<bool>(m.get_p26()), "x() and get_x() differ"); break; }
    case 26: { sym_assert(to_bits<bool>(m.p27()) == to_bits<bool>(m.get_p27()), "x() and get_x() differ"); break; }
    case 27: { sym_assert(to_bits<bool>(m.p28()) == to_bits<bool>(m.get_p28()), "x() and get_x() differ"); break; }
    case 28: { sym_assert(to_bits<bool>(m.p29()) == to_bits<bool>(m.get_p29()), "x() and get_x() differ"); break; }
    case 29: { sym_assert(to_bits<bool>(m.p30()) == to_bits<bool>(m.get_p30()), "x() and get_x() differ"); break; }
    case 30: { sym_assert(to_bits<bool>(m.p31()) == to_bits<bool>(m.get_p31()), "x() and get_x() differ"); break; }
    case 31: { sym_assert(to_bits<bool>(m.p32()) == to_bits<bool>(m.get_p32()), "x() and get_x() differ"); break; }
    case 32: { sym_assert(to_bits<bool>(m.p33()) == to_bits<bool>(m.get_p33()), "x() and get_x() differ"); break; }
    case 33: { sym_assert(to_bits<bool>(m.p34()) == to_bits<bool>(m.get_p34()), "x() and get_x() differ"); break; }
    case 34: { sym_assert(to_bits<bool>(m.p35()) == to_bits<bool>(m.get_p35()), "x() and get_x() differ"); break; }
    case 35: { sym_assert(to_bits<bool>(m.p36()) == to_bits<bool>(m.get_p36()), "x() and get_x() differ"); break; }
    case 36: { sym_assert(to_bits<bool>(m.p37()) == to_bits<bool>(m.get_p37()), "x() and get_x() differ"); break; }
    case 37: { sym_assert(to_bits<bool>(m.p38()) == to_bits<bool>(m.get_p38()), "x() and get_x() differ"); break; }
    case 38: { sym_assert(to_bits<bool>(m.p39()) == to_bits<bool>(m.get_p39()), "x() and get_x() differ"); break; }
    case 39: { sym_assert(to_bits<bool>(m.p40()) == to_bits<bool>(m.get_p40()), "x() and get_x() differ"); break; }
    default: break;
  }
}
static inline bool touch_field(M_Opts40& m, u32 k) {
  (void)m; switch (k) {
    case 0: (void)m.mutable_p01(); return true;
    case 1: (void)m.mutable_p02(); return true;
    case 2: (void)m.mutable_p03(); return true;
    case 3: (void)m.mutable_p04(); return true;
    case 4: (void)m.mutable_p05(); return true;
    case 5: (void)m.mutable_p06(); return true;
    case 6: (void)m.mutable_p07(); return true;
    case 7: (void)m.mutable_p08(); return true;
    case 8: (void)m.mutable_p09(); return true;
    case 9: (void)m.mutable_p10(); return true;
    case 10: (void)m.mutable_p11(); return true;
    case 11: (void)m.mutable_p12(); return true;
    case 12: (void)m.mutable_p13(); return true;
    case 13: (void)m.mutable_p14(); return true;
    case 14: (void)m.mutable_p15(); return true;
    case 15: (void)m.mutable_p16(); return true;
    case 16: (void)m.mutable_p17(); return true;
    case 17: (void)m.mutable_p18(); return true;
    case 18: (void)m.mutable_p19(); return true;
    case 19: (void)m.mutable_p20(); return true;
    case 20: (void)m.mutable_p21(); return true;
    case 21: (void)m.mutable_p22(); return true;
    case 22: (void)m.mutable_p23(); return true;
    case 23: (void)m.mutable_p24(); return true;
    case 24: (void)m.mutable_p25(); return true;
    case 25: (void)m.mutable_p26(); return true;
    case 26: (void)m.mutable_p27(); return true;
    case 27: (void)m.mutable_p28(); return true;
    case 28: (void)m.mutable_p29(); return true;
    case 29: (void)m.mutable_p30(); return true;
    case 30: (void)m.mutable_p31(); return true;
    case 31: (void)m.mutable_p32(); return true;
    case 32: (void)m.mutable_p33(); return true;
    case 33: (void)m.mutable_p34(); return true;
    case 34: (void)m.mutable_p35(); return true;
    case 35: (void)m.mutable_p36(); return true;
    case 36: (void)m.mutable_p37(); return true;
    case 37: (void)m.mutable_p38(); return true;
    case 38: (void)m.mutable_p39(); return true;
    case 39: (void)m.mutable_p40(); return true;
    default: return false;
  }
}
static inline bool extend_field(M_Opts40& m, u32 k, u32 n) {
  (void)m; (void)n; switch (k) {
    default: return false;
  }
}
static inline void limits(const M_Opts40& m) {
  (void)m;
  static_assert(static_cast<u32>(M_Opts40::FieldNumber::P01) == 1u, "number of field p01");
  sym_assert(__builtin_strcmp(M_Opts40::P01_NAME, "p01") == 0, "name constant of field p01");
  static_assert(std::is_same<decltype(m.p01()), bool>::value, "type of field p01");
  static_assert(static_cast<u32>(M_Opts40::FieldNumber::P02) == 2u, "number of field p02");
  sym_assert(__builtin_strcmp(M_Opts40::P02_NAME, "p02") == 0, "name constant of field p02");
  static_assert(std::is_same<decltype(m.p02()), bool>::value, "type of field p02");
  static_assert(static_cast<u32>(M_Opts40::FieldNumber::P03) == 3u, "number of field p03");
  sym_assert(__builtin_strcmp(M_Opts40::P03_NAME, "p03") == 0, "name constant of field p03");
  static_assert(std::is_same<decltype(m.p03()), bool>::value, "type of field p03");
  static_assert(static_cast<u32>(M_Opts40::FieldNumber::P04) == 4u, "number of field p04");
  sym_assert(__builtin_strcmp(M_Opts40::P04_NAME, "p04") == 0, "name constant of field p04");
  static_assert(std::is_same<decltype(m.p04()), bool>::value, "type of field p04");
  static_assert(static_cast<u32>(M_Opts40::FieldNumber::P05) == 5u, "number of field p05");
  sym_assert(__builtin_strcmp(M_Opts40::P05_NAME, "p05") == 0, "name constant of field p05");
  static_assert(std::is_same<decltype(m.p05()), bool>::value, "type of field p05");
  static_assert(static_cast<u32>(M_Opts40::FieldNumber::P06) == 6u, "number of field p06");
  sym_assert(__builtin_strcmp(M_Opts40::P06_NAME, "p06") == 0, "name constant of field p06");
  static_assert(std::is_same<decltype(m.p06()), bool>::value, "type of field p06");
  static_assert(static_cast<u32>(M_Opts40::FieldNumber::P07) == 7u, "number of field p07");
  sym_assert(__builtin_strcmp(M_Opts40::P07_NAME, "p07") == 0, "name constant of field p07");
  static_assert(std::is_same<decltype(m.p07()), bool>::value, "type of field p07");
  static_assert(static_cast<u32>(M_Opts40::FieldNumber::P08) == 8u, "number of field p08");
  sym_assert(__builtin_strcmp(M_Opts40::P08_NAME, "p08") == 0, "name constant of field p08");
  static_assert(std::is_same<decltype(m.p08()), bool>::value, "type of field p08");
  static_assert(static_cast<u32>(M_Opts40::FieldNumber::P09) == 9u, "number of field p09");
  sym_assert(__builtin_strcmp(M_Opts40::P09_NAME, "p09") == 0, "name constant of field p09");
  static_assert(std::is_same<decltype(m.p09()), bool>::value, "type of field p09");
  static_assert(static_cast<u32>(M_Opts40::FieldNumber::P10) == 10u, "number of field p10");
  sym_assert(__builtin_strcmp(M_Opts40::P10_NAME, "p10") == 0, "name constant of field p10");
  static_assert(std::is_same<decltype(m.p10()), bool>::value, "type of field p10");
  static_assert(static_cast<u32>(M_Opts40::FieldNumber::P11) == 11u, "number of field p11");
  sym_assert(__builtin_strcmp(M_Opts40::P11_NAME, "p11") == 0, "name constant of field p11");
  static_assert(std::is_same<decltype(m.p11()), bool>::value, "type of field p11");
  static_assert(static_cast<u32>(M_Opts40::FieldNumber::P12) == 12u, "number of field p12");
  sym_assert(__builtin_strcmp(M_Opts40::P12_NAME, "p12") == 0, "name constant of field p12");
  static_assert(std::is_same<decltype(m.p12()), bool>::value, "type of field p12");
  static_assert(static_cast<u32>(M_Opts40::FieldNumber::P13) == 13u, "number of field p13");
  sym_assert(__builtin_strcmp(M_Opts40::P13_NAME, "p13") == 0, "name constant of field p13");
  static_assert(std::is_same<decltype(m.p13()), bool>::value, "type of field p13");
  static_assert(static_cast<u32>(M_Opts40::FieldNumber::P14) == 14u, "number of field p14");
  sym_assert(__builtin_strcmp(M_Opts40::P14_NAME, "p14") == 0, "name constant of field p14");
  static_assert(std::is_same<decltype(m.p14()), bool>::value, "type of field p14");
  static_assert(static_cast<u32>(M_Opts40::FieldNumber::P15) == 15u, "number of field p15");
  sym_assert(__builtin_strcmp(M_Opts40::P15_NAME, "p15") == 0, "name constant of field p15");
  static_assert(std::is_same<decltype(m.p15()), bool>::value, "type of field p15");
  static_assert(static_cast<u32>(M_Opts40::FieldNumber::P16) == 16u, "number of field p16");
  sym_assert(__builtin_strcmp(M_Opts40::P16_NAME, "p16") == 0, "name constant of field p16");
  static_assert(std::is_same<decltype(m.p16()), bool>::value, "type of field p16");
  static_assert(static_cast<u32>(M_Opts40::FieldNumber::P17) == 17u, "number of field p17");
  sym_assert(__builtin_strcmp(M_Opts40::P17_NAME, "p17") == 0, "name constant of field p17");
  static_assert(std::is_same<decltype(m.p17()), bool>::value, "type of field p17");
  static_assert(static_cast<u32>(M_Opts40::FieldNumber::P18) == 18u, "number of field p18");
  sym_assert(__builtin_strcmp(M_Opts40::P18_NAME, "p18") == 0, "name constant of field p18");
  static_assert(std::is_same<decltype(m.p18()), bool>::value, "type of field p18");
  static_assert(static_cast<u32>(M_Opts40::FieldNumber::P19) == 19u, "number of field p19");
  sym_assert(__builtin_strcmp(M_Opts40::P19_NAME, "p19") == 0, "name constant of field p19");
  static_assert(std::is_same<decltype(m.p19()), bool>::value, "type of field p19");
  static_assert(static_cast<u32>(M_Opts40::FieldNumber::P20) == 20u, "number of field p20");
  sym_assert(__builtin_strcmp(M_Opts40::P20_NAME, "p20") == 0, "name constant of field p20");
  static_assert(std::is_same<decltype(m.p20()), bool>::value, "type of field p20");
  static_assert(static_cast<u32>(M_Opts40::FieldNumber::P21) == 21u, "number of field p21");
  sym_assert(__builtin_strcmp(M_Opts40::P21_NAME, "p21") == 0, "name constant of field p21");
  static_assert(std::is_same<decltype(m.p21()), bool>::value, "type of field p21");
  static_assert(static_cast<u32>(M_Opts40::FieldNumber::P22) == 22u, "number of field p22");
  sym_assert(__builtin_strcmp(M_Opts40::P22_NAME, "p22") == 0, "name constant of field p22");
  static_assert(std::is_same<decltype(m.p22()), bool>::value, "type of field p22");
  static_assert(static_cast<u32>(M_Opts40::FieldNumber::P23) == 23u, "number of field p23");
  sym_assert(__builtin_strcmp(M_Opts40::P23_NAME, "p23") == 0, "name constant of field p23");
  static_assert(std::is_same<decltype(m.p23()), bool>::value, "type of field p23");
  static_assert(static_cast<u32>(M_Opts40::FieldNumber::P24) == 24u, "number of field p24");
  sym_assert(__builtin_strcmp(M_Opts40::P24_NAME, "p24") == 0, "name constant of field p24");
  static_assert(std::is_same<decltype(m.p24()), bool>::value, "type of field p24");
  static_assert(static_cast<u32>(M_Opts40::FieldNumber::P25) == 25u, "number of field p25");
  sym_assert(__builtin_strcmp(M_Opts40::P25_NAME, "p25") == 0, "name constant of field p25");
  static_assert(std::is_same<decltype(m.p25()), bool>::value, "type of field p25");
  static_assert(static_cast<u32>(M_Opts40::FieldNumber::P26) == 26u, "number of field p26");
  sym_assert(__builtin_strcmp(M_Opts40::P26_NAME, "p26") == 0, "name constant of field p26");
  static_assert(std::is_same<decltype(m.p26()), bool>::value, "type of field p26");
  static_assert(static_cast<u32>(M_Opts40::FieldNumber::P27) == 27u, "number of field p27");
  sym_assert(__builtin_strcmp(M_Opts40::P27_NAME, "p27") == 0, "name constant of field p27");
  static_assert(std::is_same<decltype(m.p27()), bool>::value, "type of field p27");
  static_assert(static_cast<u32>(M_Opts40::FieldNumber::P28) == 28u, "number of field p28");
  sym_assert(__builtin_strcmp(M_Opts40::P28_NAME, "p28") == 0, "name constant of field p28");
  static_assert(std::is_same<decltype(m.p28()), bool>::value, "type of field p28");
  static_assert(static_cast<u32>(M_Opts40::FieldNumber::P29) == 29u, "number of field p29");
  sym_assert(__builtin_strcmp(M_Opts40::P29_NAME, "p29") == 0, "name constant of field p29");
  static_assert(std::is_same<decltype(m.p29()), bool>::value, "type of field p29");
  static_assert(static_cast<u32>(M_Opts40::FieldNumber::P30) == 30u, "number of field p30");
  sym_assert(__builtin_strcmp(M_Opts40::P30_NAME, "p30") == 0, "name constant of field p30");
  static_assert(std::is_same<decltype(m.p30()), bool>::value, "type of field p30");
  static_assert(static_cast<u32>(M_Opts40::FieldNumber::P31) == 31u, "number of field p31");
  sym_assert(__builtin_strcmp(M_Opts40::P31_NAME, "p31") == 0, "name constant of field p31");
  static_assert(std::is_same<decltype(m.p31()), bool>::value, "type of field p31");
  static_assert(static_cast<u32>(M_Opts40::FieldNumber::P32) == 32u, "number of field p32");
  sym_assert(__builtin_strcmp(M_Opts40::P32_NAME, "p32") == 0, "name constant of field p32");
  static_assert(std::is_same<decltype(m.p32()), bool>::value, "type of field p32");
  static_assert(static_cast<u32>(M_Opts40::FieldNumber::P33) == 33u, "number of field p33");
  sym_assert(__builtin_strcmp(M_Opts40::P33_NAME, "p33") == 0, "name constant of field p33");
  static_assert(std::is_same<decltype(m.p33()), bool>::value, "type of field p33");
  static_assert(static_cast<u32>(M_Opts40::FieldNumber::P34) == 34u, "number of field p34");
  sym_assert(__builtin_strcmp(M_Opts40::P34_NAME, "p34") == 0, "name constant of field p34");
  static_assert(std::is_same<decltype(m.p34()), bool>::value, "type of field p34");
  static_assert(static_cast<u32>(M_Opts40::FieldNumber::P35) == 35u, "number of field p35");
  sym_assert(__builtin_strcmp(M_Opts40::P35_NAME, "p35") == 0, "name constant of field p35");
  static_assert(std::is_same<decltype(m.p35()), bool>::value, "type of field p35");
  static_assert(static_cast<u32>(M_Opts40::FieldNumber::P36) == 36u, "number of field p36");
  sym_assert(__builtin_strcmp(M_Opts40::P36_NAME, "p36") == 0, "name constant of field p36");
  static_assert(std::is_same<decltype(m.p36()), bool>::value, "type of field p36");
  static_assert(static_cast<u32>(M_Opts40::FieldNumber::P37) == 37u, "number of field p37");
  sym_assert(__builtin_strcmp(M_Opts40::P37_NAME, "p37") == 0, "name constant of field p37");
  static_assert(std::is_same<decltype(m.p37()), bool>::value, "type of field p37");
  static_assert(static_cast<u32>(M_Opts40::FieldNumber::P38) == 38u, "number of field p38");
  sym_assert(__builtin_strcmp(M_Opts40::P38_NAME, "p38") == 0, "name constant of field p38");
  static_assert(std::is_same<decltype(m.p38()), bool>::value, "type of field p38");
  static_assert(static_cast<u32>(M_Opts40::FieldNumber::P39) == 39u, "number of field p39");
  sym_assert(__builtin_strcmp(M_Opts40::P39_NAME, "p39") == 0, "name constant of field p39");
  static_assert(std::is_same<decltype(m.p39()), bool>::value, "type of field p39");
  static_assert(static_cast<u32>(M_Opts40::FieldNumber::P40) == 40u, "number of field p40");
  sym_assert(__builtin_strcmp(M_Opts40::P40_NAME, "p40") == 0, "name constant of field p40");
  static_assert(std::is_same<decltype(m.p40()), bool>::value, "type of field p40");
}
static inline const char* left_out(M_Opts40*, u32 n) { (void)n; return nullptr; }
static inline const char* number_name(M_Opts40*, u32 n) { return M_Opts40::field_number_to_name(static_cast<M_Opts40::FieldNumber>(n)); }
template<> struct G<M_Opts40> { using S = S_Opts40; static const MD& md() { return D_Opts40; } };

// ---- vs.Opts70
using M_Opts70 = ::vs::Opts70;
struct S_Opts70 {
  u32 has_q01; u32 q01;
  u32 has_q02; u32 q02;
  u32 has_q03; u32 q03;
  u32 has_q04; u32 q04;
  u32 has_q05; u32 q05;
  u32 has_q06; u32 q06;
  u32 has_q07; u32 q07;
  u32 has_q08; u32 q08;
  u32 has_q09; u32 q09;
  u32 has_q10; u32 q10;
  u32 has_q11; u32 q11;
  u32 has_q12; u32 q12;
  u32 has_q13; u32 q13;
  u32 has_q14; u32 q14;
  u32 has_q15; u32 q15;
  u32 has_q16; u32 q16;
  u32 has_q17; u32 q17;
  u32 has_q18; u32 q18;
  u32 has_q19; u32 q19;
  u32 has_q20; u32 q20;
  u32 has_q21; u32 q21;
  u32 has_q22; u32 q22;
  u32 has_q23; u32 q23;
  u32 has_q24; u32 q24;
  u32 has_q25; u32 q25;
  u32 has_q26; u32 q26;
  u32 has_q27; u32 q27;
  u32 has_q28; u32 q28;
  u32 has_q29; u32 q29;
  u32 has_q30; u32 q30;
  u32 has_q31; u32 q31;
  u32 has_q32; u32 q32;
  u32 has_q33; u32 q33;
  u32 has_q34; u32 q34;
  u32 has_q35; u32 q35;
  u32 has_q36; u32 q36;
  u32 has_q37; u32 q37;
  u32 has_q38; u32 q38;
  u32 has_q39; u32 q39;
  u32 has_q40; u32 q40;
  u32 has_q41; u32 q41;
  u32 has_q42; u32 q42;
  u32 has_q43; u32 q43;
  u32 has_q44; u32 q44;
  u32 has_q45; u32 q45;
  u32 has_q46; u32 q46;
  u32 has_q47; u32 q47;
  u32 has_q48; u32 q48;
  u32 has_q49; u32 q49;
  u32 has_q50; u32 q50;
  u32 has_q51; u32 q51;
  u32 has_q52; u32 q52;
  u32 has_q53; u32 q53;
  u32 has_q54; u32 q54;
  u32 has_q55; u32 q55;
  u32 has_q56; u32 q56;
  u32 has_q57; u32 q57;
  u32 has_q58; u32 q58;
  u32 has_q59; u32 q59;
  u32 has_q60; u32 q60;
  u32 has_q61; u32 q61;
  u32 has_q62; u32 q62;
  u32 has_q63; u32 q63;
  u32 has_q64; u32 q64;
  u32 has_q65; u32 q65;
  u32 has_q66; u32 q66;
  u32 has_q67; u32 q67;
  u32 has_q68; u32 q68;
  u32 has_q69; u32 q69;
  u32 has_q70; u32 q70;
};
static const FD F_Opts70[] = {
  {1u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q01), (u32)offsetof(S_Opts70, has_q01), (u32)sizeof(u32), nullptr, "q01"},
  {2u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q02), (u32)offsetof(S_Opts70, has_q02), (u32)sizeof(u32), nullptr, "q02"},
  {3u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q03), (u32)offsetof(S_Opts70, has_q03), (u32)sizeof(u32), nullptr, "q03"},
  {4u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q04), (u32)offsetof(S_Opts70, has_q04), (u32)sizeof(u32), nullptr, "q04"},
  {5u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q05), (u32)offsetof(S_Opts70, has_q05), (u32)sizeof(u32), nullptr, "q05"},
  {6u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q06), (u32)offsetof(S_Opts70, has_q06), (u32)sizeof(u32), nullptr, "q06"},
  {7u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q07), (u32)offsetof(S_Opts70, has_q07), (u32)sizeof(u32), nullptr, "q07"},
  {8u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q08), (u32)offsetof(S_Opts70, has_q08), (u32)sizeof(u32), nullptr, "q08"},
  {9u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q09), (u32)offsetof(S_Opts70, has_q09), (u32)sizeof(u32), nullptr, "q09"},
  {10u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q10), (u32)offsetof(S_Opts70, has_q10), (u32)sizeof(u32), nullptr, "q10"},
  {11u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q11), (u32)offsetof(S_Opts70, has_q11), (u32)sizeof(u32), nullptr, "q11"},
  {12u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q12), (u32)offsetof(S_Opts70, has_q12), (u32)sizeof(u32), nullptr, "q12"},
  {13u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q13), (u32)offsetof(S_Opts70, has_q13), (u32)sizeof(u32), nullptr, "q13"},
  {14u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q14), (u32)offsetof(S_Opts70, has_q14), (u32)sizeof(u32), nullptr, "q14"},
  {15u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q15), (u32)offsetof(S_Opts70, has_q15), (u32)sizeof(u32), nullptr, "q15"},
  {16u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q16), (u32)offsetof(S_Opts70, has_q16), (u32)sizeof(u32), nullptr, "q16"},
  {17u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q17), (u32)offsetof(S_Opts70, has_q17), (u32)sizeof(u32), nullptr, "q17"},
  {18u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q18), (u32)offsetof(S_Opts70, has_q18), (u32)sizeof(u32), nullptr, "q18"},
  {19u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q19), (u32)offsetof(S_Opts70, has_q19), (u32)sizeof(u32), nullptr, "q19"},
  {20u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q20), (u32)offsetof(S_Opts70, has_q20), (u32)sizeof(u32), nullptr, "q20"},
  {21u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q21), (u32)offsetof(S_Opts70, has_q21), (u32)sizeof(u32), nullptr, "q21"},
  {22u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q22), (u32)offsetof(S_Opts70, has_q22), (u32)sizeof(u32), nullptr, "q22"},
  {23u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q23), (u32)offsetof(S_Opts70, has_q23), (u32)sizeof(u32), nullptr, "q23"},
  {24u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q24), (u32)offsetof(S_Opts70, has_q24), (u32)sizeof(u32), nullptr, "q24"},
  {25u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q25), (u32)offsetof(S_Opts70, has_q25), (u32)sizeof(u32), nullptr, "q25"},
  {26u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q26), (u32)offsetof(S_Opts70, has_q26), (u32)sizeof(u32), nullptr, "q26"},
  {27u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q27), (u32)offsetof(S_Opts70, has_q27), (u32)sizeof(u32), nullptr, "q27"},
  {28u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q28), (u32)offsetof(S_Opts70, has_q28), (u32)sizeof(u32), nullptr, "q28"},
  {29u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q29), (u32)offsetof(S_Opts70, has_q29), (u32)sizeof(u32), nullptr, "q29"},
  {30u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q30), (u32)offsetof(S_Opts70, has_q30), (u32)sizeof(u32), nullptr, "q30"},
  {31u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q31), (u32)offsetof(S_Opts70, has_q31), (u32)sizeof(u32), nullptr, "q31"},
  {32u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q32), (u32)offsetof(S_Opts70, has_q32), (u32)sizeof(u32), nullptr, "q32"},
  {33u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q33), (u32)offsetof(S_Opts70, has_q33), (u32)sizeof(u32), nullptr, "q33"},
  {34u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q34), (u32)offsetof(S_Opts70, has_q34), (u32)sizeof(u32), nullptr, "q34"},
  {35u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q35), (u32)offsetof(S_Opts70, has_q35), (u32)sizeof(u32), nullptr, "q35"},
  {36u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q36), (u32)offsetof(S_Opts70, has_q36), (u32)sizeof(u32), nullptr, "q36"},
  {37u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q37), (u32)offsetof(S_Opts70, has_q37), (u32)sizeof(u32), nullptr, "q37"},
  {38u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q38), (u32)offsetof(S_Opts70, has_q38), (u32)sizeof(u32), nullptr, "q38"},
  {39u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q39), (u32)offsetof(S_Opts70, has_q39), (u32)sizeof(u32), nullptr, "q39"},
  {40u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q40), (u32)offsetof(S_Opts70, has_q40), (u32)sizeof(u32), nullptr, "q40"},
  {41u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q41), (u32)offsetof(S_Opts70, has_q41), (u32)sizeof(u32), nullptr, "q41"},
  {42u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q42), (u32)offsetof(S_Opts70, has_q42), (u32)sizeof(u32), nullptr, "q42"},
  {43u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q43), (u32)offsetof(S_Opts70, has_q43), (u32)sizeof(u32), nullptr, "q43"},
  {44u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q44), (u32)offsetof(S_Opts70, has_q44), (u32)sizeof(u32), nullptr, "q44"},
  {45u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q45), (u32)offsetof(S_Opts70, has_q45), (u32)sizeof(u32), nullptr, "q45"},
  {46u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q46), (u32)offsetof(S_Opts70, has_q46), (u32)sizeof(u32), nullptr, "q46"},
  {47u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q47), (u32)offsetof(S_Opts70, has_q47), (u32)sizeof(u32), nullptr, "q47"},
  {48u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q48), (u32)offsetof(S_Opts70, has_q48), (u32)sizeof(u32), nullptr, "q48"},
  {49u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q49), (u32)offsetof(S_Opts70, has_q49), (u32)sizeof(u32), nullptr, "q49"},
  {50u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q50), (u32)offsetof(S_Opts70, has_q50), (u32)sizeof(u32), nullptr, "q50"},
  {51u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q51), (u32)offsetof(S_Opts70, has_q51), (u32)sizeof(u32), nullptr, "q51"},
  {52u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q52), (u32)offsetof(S_Opts70, has_q52), (u32)sizeof(u32), nullptr, "q52"},
  {53u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q53), (u32)offsetof(S_Opts70, has_q53), (u32)sizeof(u32), nullptr, "q53"},
  {54u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q54), (u32)offsetof(S_Opts70, has_q54), (u32)sizeof(u32), nullptr, "q54"},
  {55u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q55), (u32)offsetof(S_Opts70, has_q55), (u32)sizeof(u32), nullptr, "q55"},
  {56u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q56), (u32)offsetof(S_Opts70, has_q56), (u32)sizeof(u32), nullptr, "q56"},
  {57u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q57), (u32)offsetof(S_Opts70, has_q57), (u32)sizeof(u32), nullptr, "q57"},
  {58u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q58), (u32)offsetof(S_Opts70, has_q58), (u32)sizeof(u32), nullptr, "q58"},
  {59u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q59), (u32)offsetof(S_Opts70, has_q59), (u32)sizeof(u32), nullptr, "q59"},
  {60u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q60), (u32)offsetof(S_Opts70, has_q60), (u32)sizeof(u32), nullptr, "q60"},
  {61u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q61), (u32)offsetof(S_Opts70, has_q61), (u32)sizeof(u32), nullptr, "q61"},
  {62u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q62), (u32)offsetof(S_Opts70, has_q62), (u32)sizeof(u32), nullptr, "q62"},
  {63u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q63), (u32)offsetof(S_Opts70, has_q63), (u32)sizeof(u32), nullptr, "q63"},
  {64u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q64), (u32)offsetof(S_Opts70, has_q64), (u32)sizeof(u32), nullptr, "q64"},
  {65u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q65), (u32)offsetof(S_Opts70, has_q65), (u32)sizeof(u32), nullptr, "q65"},
  {66u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q66), (u32)offsetof(S_Opts70, has_q66), (u32)sizeof(u32), nullptr, "q66"},
  {67u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q67), (u32)offsetof(S_Opts70, has_q67), (u32)sizeof(u32), nullptr, "q67"},
  {68u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q68), (u32)offsetof(S_Opts70, has_q68), (u32)sizeof(u32), nullptr, "q68"},
  {69u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q69), (u32)offsetof(S_Opts70, has_q69), (u32)sizeof(u32), nullptr, "q69"},
  {70u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts70, q70), (u32)offsetof(S_Opts70, has_q70), (u32)sizeof(u32), nullptr, "q70"},
};
static const MD D_Opts70 = {F_Opts70, 70, (u32)sizeof(S_Opts70), "Opts70"};
static inline void load(M_Opts70& m, const S_Opts70& s) {
  (void)m; (void)s;
  if (s.has_q01) { m.set_q01(from_bits<bool>(s.q01)); }
  if (s.has_q02) { m.set_q02(from_bits<bool>(s.q02)); }
  if (s.has_q03) { m.set_q03(from_bits<bool>(s.q03)); }
  if (s.has_q04) { m.set_q04(from_bits<bool>(s.q04)); }
  if (s.has_q05) { m.set_q05(from_bits<bool>(s.q05)); }
  if (s.has_q06) { m.set_q06(from_bits<bool>(s.q06)); }
  if (s.has_q07) { m.set_q07(from_bits<bool>(s.q07)); }
  if (s.has_q08) { m.set_q08(from_bits<bool>(s.q08)); }
  if (s.has_q09) { m.set_q09(from_bits<bool>(s.q09)); }
  if (s.has_q10) { m.set_q10(from_bits<bool>(s.q10)); }
  if (s.has_q11) { m.set_q11(from_bits<bool>(s.q11)); }
  if (s.has_q12) { m.set_q12(from_bits<bool>(s.q12)); }
  if (s.has_q13) { m.set_q13(from_bits<bool>(s.q13)); }
  if (s.has_q14) { m.set_q14(from_bits<bool>(s.q14)); }
  if (s.has_q15) { m.set_q15(from_bits<bool>(s.q15)); }
  if (s.has_q16) { m.set_q16(from_bits<bool>(s.q16)); }
  if (s.has_q17) { m.set_q17(from_bits<bool>(s.q17)); }
  if (s.has_q18) { m.set_q18(from_bits<bool>(s.q18)); }
  if (s.has_q19) { m.set_q19(from_bits<bool>(s.q19)); }
  if (s.has_q20) { m.set_q20(from_bits<bool>(s.q20)); }
  if (s.has_q21) { m.set_q21(from_bits<bool>(s.q21)); }
  if (s.has_q22) { m.set_q22(from_bits<bool>(s.q22)); }
  if (s.has_q23) { m.set_q23(from_bits<bool>(s.q23)); }
  if (s.has_q24) { m.set_q24(from_bits<bool>(s.q24)); }
  if (s.has_q25) { m.set_q25(from_bits<bool>(s.q25)); }
  if (s.has_q26) { m.set_q26(from_bits<bool>(s.q26)); }
  if (s.has_q27) { m.set_q27(from_bits<bool>(s.q27)); }
  if (s.has_q28) { m.set_q28(from_bits<bool>(s.q28)); }
  if (s.has_q29) { m.set_q29(from_bits<bool>(s.q29)); }
  if (s.has_q30) { m.set_q30(from_bits<bool>(s.q30)); }
  if (s.has_q31) { m.set_q31(from_bits<bool>(s.q31)); }
  if (s.has_q32) { m.set_q32(from_bits<bool>(s.q32)); }
  if (s.has_q33) { m.set_q33(from_bits<bool>(s.q33)); }
  if (s.has_q34) { m.set_q34(from_bits<bool>(s.q34)); }
  if (s.has_q35) { m.set_q35(from_bits<bool>(s.q35)); }
  if (s.has_q36) { m.set_q36(from_bits<bool>(s.q36)); }
  if (s.has_q37) { m.set_q37(from_bits<bool>(s.q37)); }
  if (s.has_q38) { m.set_q38(from_bits<bool>(s.q38)); }
  if (s.has_q39) { m.set_q39(from_bits<bool>(s.q39)); }
  if (s.has_q40) { m.set_q40(from_bits<bool>(s.q40)); }
  if (s.has_q41) { m.set_q41(from_bits<bool>(s.q41)); }
  if (s.has_q42) { m.set_q42(from_bits<bool>(s.q42)); }
  if (s.has_q43) { m.set_q43(from_bits<bool>(s.q43)); }
  if (s.has_q44) { m.set_q44(from_bits<bool>(s.q44)); }
  if (s.has_q45) { m.set_q45(from_bits<bool>(s.q45)); }
  if (s.has_q46) { m.set_q46(from_bits<bool>(s.q46)); }
  if (s.has_q47) { m.set_q47(from_bits<bool>(s.q47)); }
  if (s.has_q48) { m.set_q48(from_bits<bool>(s.q48)); }
  if (s.has_q49) { m.set_q49(from_bits<bool>(s.q49)); }
  if (s.has_q50) { m.set_q50(from_bits<bool>(s.q50)); }
  if (s.has_q51) { m.set_q51(from_bits<bool>(s.q51)); }
  if (s.has_q52) { m.set_q52(from_bits<bool>(s.q52)); }
  if (s.has_q53) { m.set_q53(from_bits<bool>(s.q53)); }
  if (s.has_q54) { m.set_q54(from_bits<bool>(s.q54)); }
  if (s.has_q55) { m.set_q55(from_bits<bool>(s.q55)); }
  if (s.has_q56) { m.set_q56(from_bits<bool>(s.q56)); }
  if (s.has_q57) { m.set_q57(from_bits<bool>(s.q57)); }
  if (s.has_q58) { m.set_q58(from_bits<bool>(s.q58)); }
  if (s.has_q59) { m.set_q59(from_bits<bool>(s.q59)); }
  if (s.has_q60) { m.set_q60(from_bits<bool>(s.q60)); }
  if (s.has_q61) { m.set_q61(from_bits<bool>(s.q61)); }
  if (s.has_q62) { m.set_q62(from_bits<bool>(s.q62)); }
  if (s.has_q63) { m.set_q63(from_bits<bool>(s.q63)); }
  if (s.has_q64) { m.set_q64(from_bits<bool>(s.q64)); }
  if (s.has_q65) { m.set_q65(from_bits<bool>(s.q65)); }
  if (s.has_q66) { m.set_q66(from_bits<bool>(s.q66)); }
  if (s.has_q67) { m.set_q67(from_bits<bool>(s.q67)); }
  if (s.has_q68) { m.set_q68(from_bits<bool>(s.q68)); }
  if (s.has_q69) { m.set_q69(from_bits<bool>(s.q69)); }
  if (s.has_q70) { m.set_q70(from_bits<bool>(s.q70)); }
}
static inline void read(S_Opts70& s, const M_Opts70& m) {
  (void)m; ref_reset(D_Opts70, (u8*)&s);
  s.has_q01 = m.has_q01() ? 1 : 0; s.q01 = to_bits<bool>(m.get_q01());
  s.has_q02 = m.has_q02() ? 1 : 0; s.q02 = to_bits<bool>(m.get_q02());
  s.has_q03 = m.has_q03() ? 1 : 0; s.q03 = to_bits<bool>(m.get_q03());
  s.has_q04 = m.has_q04() ? 1 : 0; s.q04 = to_bits<bool>(m.get_q04());
  s.has_q05 = m.has_q05() ? 1 : 0; s.q05 = to_bits<bool>(m.get_q05());
  s.has_q06 = m.has_q06() ? 1 : 0; s.q06 = to_bits<bool>(m.get_q06());
  s.has_q07 = m.has_q07() ? 1 : 0; s.q07 = to_bits<bool>(m.get_q07());
  s.has_q08 = m.has_q08() ? 1 : 0; s.q08 = to_bits<bool>(m.get_q08());
  s.has_q09 = m.has_q09() ? 1 : 0; s.q09 = to_bits<bool>(m.get_q09());
  s.has_q10 = m.has_q10() ? 1 : 0; s.q10 = to_bits<bool>(m.get_q10());
  s.has_q11 = m.has_q11() ? 1 : 0; s.q11 = to_bits<bool>(m.get_q11());
  s.has_q12 = m.has_q12() ? 1 : 0; s.q12 = to_bits<bool>(m.get_q12());
  s.has_q13 = m.has_q13() ? 1 : 0; s.q13 = to_bits<bool>(m.get_q13());
  s.has_q14 = m.has_q14() ? 1 : 0; s.q14 = to_bits<bool>(m.get_q14());
  s.has_q15 = m.has_q15() ? 1 : 0; s.q15 = to_bits<bool>(m.get_q15());
  s.has_q16 = m.has_q16() ? 1 : 0; s.q16 = to_bits<bool>(m.get_q16());
  s.has_q17 = m.has_q17() ? 1 : 0; s.q17 = to_bits<bool>(m.get_q17());
  s.has_q18 = m.has_q18() ? 1 : 0; s.q18 = to_bits<bool>(m.get_q18());
  s.has_q19 = m.has_q19() ? 1 : 0; s.q19 = to_bits<bool>(m.get_q19());
  s.has_q20 = m.has_q20() ? 1 : 0; s.q20 = to_bits<bool>(m.get_q20());
  s.has_q21 = m.has_q21() ? 1 : 0; s.q21 = to_bits<bool>(m.get_q21());
  s.has_q22 = m.has_q22() ? 1 : 0; s.q22 = to_bits<bool>(m.get_q22());
  s.has_q23 = m.has_q23() ? 1 : 0; s.q23 = to_bits<bool>(m.get_q23());
  s.has_q24 = m.has_q24() ? 1 : 0; s.q24 = to_bits<bool>(m.get_q24());
  s.has_q25 = m.has_q25() ? 1 : 0; s.q25 = to_bits<bool>(m.get_q25());
  s.has_q26 = m.has_q26() ? 1 : 0; s.q26 = to_bits<bool>(m.get_q26());
  s.has_q27 = m.has_q27() ? 1 : 0; s.q27 = to_bits<bool>(m.get_q27());
  s.has_q28 = m.has_q28() ? 1 : 0; s.q28 = to_bits<bool>(m.get_q28());
  s.has_q29 = m.has_q29() ? 1 : 0; s.q29 = to_bits<bool>(m.get_q29());
  s.has_q30 = m.has_q30() ? 1 : 0; s.q30 = to_bits<bool>(m.get_q30());
  s.has_q31 = m.has_q31() ? 1 : 0; s.q31 = to_bits<bool>(m.get_q31());
  s.has_q32 = m.has_q32() ? 1 : 0; s.q32 = to_bits<bool>(m.get_q32());
  s.has_q33 = m.has_q33() ? 1 : 0; s.q33 = to_bits<bool>(m.get_q33());
  s.has_q34 = m.has_q34() ? 1 : 0; s.q34 = to_bits<bool>(m.get_q34());
  s.has_q35 = m.has_q35() ? 1 : 0; s.q35 = to_bits<bool>(m.get_q35());
  s.has_q36 = m.has_q36() ? 1 : 0; s.q36 = to_bits<bool>(m.get_q36());
  s.has_q37 = m.has_q37() ? 1 : 0; s.q37 = to_bits<bool>(m.get_q37());
  s.has_q38 = m.has_q38() ? 1 : 0; s.q38 = to_bits<bool>(m.get_q38());
  s.has_q39 = m.has_q39() ? 1 : 0; s.q39 = to_bits<bool>(m.get_q39());
  s.has_q40 = m.has_q40() ? 1 : 0; s.q40 = to_bits<bool>(m.get_q40());
  s.has_q41 = m.has_q41() ? 1 : 0; s.q41 = to_bits<bool>(m.get_q41());
  s.has_q42 = m.has_q42() ? 1 : 0; s.q42 = to_bits<bool>(m.get_q42());
  s.has_q43 = m.has_q43() ? 1 : 0; s.q43 = to_bits<bool>(m.get_q43());
  s.has_q44 = m.has_q44() ? 1 : 0; s.q44 = to_bits<bool>(m.get_q44());
  s.has_q45 = m.has_q45() ? 1 : 0; s.q45 = to_bits<bool>(m.get_q45());
  s.has_q46 = m.has_q46() ? 1 : 0; s.q46 = to_bits<bool>(m.get_q46());
  s.has_q47 = m.has_q47() ? 1 : 0; s.q47 = to_bits<bool>(m.get_q47());
  s.has_q48 = m.has_q48() ? 1 : 0; s.q48 = to_bits<bool>(m.get_q48());
  s.has_q49 = m.has_q49() ? 1 : 0; s.q49 = to_bits<bool>(m.get_q49());
  s.has_q50 = m.has_q50() ? 1 : 0; s.q50 = to_bits<bool>(m.get_q50());
  s.has_q51 = m.has_q51() ? 1 : 0; s.q51 = to_bits<bool>(m.get_q51());
  s.has_q52 = m.has_q52() ? 1 : 0; s.q52 = to_bits<bool>(m.get_q52());
  s.has_q53 = m.has_q53() ? 1 : 0; s.q53 = to_bits<bool>(m.get_q53());
  s.has_q54 = m.has_q54() ? 1 : 0; s.q54 = to_bits<bool>(m.get_q54());
  s.has_q55 = m.has_q55() ? 1 : 0; s.q55 = to_bits<bool>(m.get_q55());
  s.has_q56 = m.has_q56() ? 1 : 0; s.q56 = to_bits<bool>(m.get_q56());
  s.has_q57 = m.has_q57() ? 1 : 0; s.q57 = to_bits<bool>(m.get_q57());
  s.has_q58 = m.has_q58() ? 1 : 0; s.q58 = to_bits<bool>(m.get_q58());
  s.has_q59 = m.has_q59() ? 1 : 0; s.q59 = to_bits<bool>(m.get_q59());
  s.has_q60 = m.has_q60() ? 1 : 0; s.q60 = to_bits<bool>(m.get_q60());
  s.has_q61 = m.has_q61() ? 1 : 0; s.q61 = to_bits<bool>(m.get_q61());
  s.has_q62 = m.has_q62() ? 1 : 0; s.q62 = to_bits<bool>(m.get_q62());
  s.has_q63 = m.has_q63() ? 1 : 0; s.q63 = to_bits<bool>(m.get_q63());
  s.has_q64 = m.has_q64() ? 1 : 0; s.q64 = to_bits<bool>(m.get_q64());
  s.has_q65 = m.has_q65() ? 1 : 0; s.q65 = to_bits<bool>(m.get_q65());
  s.has_q66 = m.has_q66() ? 1 : 0; s.q66 = to_bits<bool>(m.get_q66());
  s.has_q67 = m.has_q67() ? 1 : 0; s.q67 = to_bits<bool>(m.get_q67());
  s.has_q68 = m.has_q68() ? 1 : 0; s.q68 = to_bits<bool>(m.get_q68());
  s.has_q69 = m.has_q69() ? 1 : 0; s.q69 = to_bits<bool>(m.get_q69());
  s.has_q70 = m.has_q70() ? 1 : 0; s.q70 = to_bits<bool>(m.get_q70());
}
static inline void clear_field(M_Opts70& m, u32 k) {
  (void)m; switch (k) {
    case 0: m.clear_q01(); break;
    case 1: m.clear_q02(); break;
    case 2: m.clear_q03(); break;
    case 3: m.clear_q04(); break;
    case 4: m.clear_q05(); break;
    case 5: m.clear_q06(); break;
    case 6: m.clear_q07(); break;
    case 7: m.clear_q08(); break;
    case 8: m.clear_q09(); break;
    case 9: m.clear_q10(); break;
    case 10: m.clear_q11(); break;
    case 11: m.clear_q12(); break;
    case 12: m.clear_q13(); break;
    case 13: m.clear_q14(); break;
    case 14: m.clear_q15(); break;
    case 15: m.clear_q16(); break;
    case 16: m.clear_q17(); break;
    case 17: m.clear_q18(); break;
    case 18: m.clear_q19(); break;
    case 19: m.clear_q20(); break;
    case 20: m.clear_q21(); break;
    case 21: m.clear_q22(); break;
    case 22: m.clear_q23(); break;
    case 23: m.clear_q24(); break;
    case 24: m.clear_q25(); break;
    case 25: m.clear_q26(); break;
    case 26: m.clear_q27(); break;
    case 27: m.clear_q28(); break;
    case 28: m.clear_q29(); break;
    case 29: m.clear_q30(); break;
    case 30: m.clear_q31(); break;
    case 31: m.clear_q32(); break;
    case 32: m.clear_q33(); break;
    case 33: m.clear_q34(); break;
    case 34: m.clear_q35(); break;
    case 35: m.clear_q36(); break;
    case 36: m.clear_q37(); break;
    case 37: m.clear_q38(); break;
    case 38: m.clear_q39(); break;
    case 39: m.clear_q40(); break;
    case 40: m.clear_q41(); break;
    case 41: m.clear_q42(); break;
    case 42: m.clear_q43(); break;
    case 43: m.clear_q44(); break;
    case 44: m.clear_q45(); break;
    case 45: m.clear_q46(); break;
    case 46: m.clear_q47(); break;
    case 47: m.clear_q48(); break;
    case 48: m.clear_q49(); break;
    case 49: m.clear_q50(); break;
    case 50: m.clear_q51(); break;
    case 51: m.clear_q52(); break;
    case 52: m.clear_q53(); break;
    case 53: m.clear_q54(); break;
    case 54: m.clear_q55(); break;
    case 55: m.clear_q56(); break;
    case 56: m.clear_q57(); break;
    case 57: m.clear_q58(); break;
    case 58: m.clear_q59(); break;
    case 59: m.clear_q60(); break;
    case 60: m.clear_q61(); break;
    case 61: m.clear_q62(); break;
    case 62: m.clear_q63(); break;
    case 63: m.clear_q64(); break;
    case 64: m.clear_q65(); break;
    case 65: m.clear_q66(); break;
    case 66: m.clear_q67(); break;
    case 67: m.clear_q68(); break;
    case 68: m.clear_q69(); break;
    case 69: m.clear_q70(); break;
    default: break;
  }
}
static inline bool set_field(M_Opts70& m, const S_Opts70& s, u32 k, u32 how = 0) {
  (void)m; (void)s; switch (k) {
    case 0: { bool e; e = from_bits<bool>(s.q01); if (how == 0) { m.set_q01(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q01(e); return true; } if (how == 2) { m.mutable_q01() = e; return true; } return false; }
    case 1: { bool e; e = from_bits<bool>(s.q02); if (how == 0) { m.set_q02(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q02(e); return true; } if (how == 2) { m.mutable_q02() = e; return true; } return false; }
    case 2: { bool e; e = from_bits<bool>(s.q03); if (how == 0) { m.set_q03(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q03(e); return true; } if (how == 2) { m.mutable_q03() = e; return true; } return false; }
    case 3: { bool e; e = from_bits<bool>(s.q04); if (how == 0) { m.set_q04(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q04(e); return true; } if (how == 2) { m.mutable_q04() = e; return true; } return false; }
    case 4: { bool e; e = from_bits<bool>(s.q05); if (how == 0) { m.set_q05(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q05(e); return true; } if (how == 2) { m.mutable_q05() = e; return true; } return false; }
    case 5: { bool e; e = from_bits<bool>(s.q06); if (how == 0) { m.set_q06(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q06(e); return true; } if (how == 2) { m.mutable_q06() = e; return true; } return false; }
    case 6: { bool e; e = from_bits<bool>(s.q07); if (how == 0) { m.set_q07(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q07(e); return true; } if (how == 2) { m.mutable_q07() = e; return true; } return false; }
    case 7: { bool e; e = from_bits<bool>(s.q08); if (how == 0) { m.set_q08(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q08(e); return true; } if (how == 2) { m.mutable_q08() = e; return true; } return false; }
    case 8: { bool e; e = from_bits<bool>(s.q09); if (how == 0) { m.set_q09(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q09(e); return true; } if (how == 2) { m.mutable_q09() = e; return true; } return false; }
    case 9: { bool e; e = from_bits<bool>(s.q10); if (how == 0) { m.set_q10(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q10(e); return true; } if (how == 2) { m.mutable_q10() = e; return true; } return false; }
    case 10: { bool e; e = from_bits<bool>(s.q11); if (how == 0) { m.set_q11(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q11(e); return true; } if (how == 2) { m.mutable_q11() = e; return true; } return false; }
    case 11: { bool e; e = from_bits<bool>(s.q12); if (how == 0) { m.set_q12(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q12(e); return true; } if (how == 2) { m.mutable_q12() = e; return true; } return false; }
    case 12: { bool e; e = from_bits<bool>(s.q13); if (how == 0) { m.set_q13(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q13(e); return true; } if (how == 2) { m.mutable_q13() = e; return true; } return false; }
    case 13: { bool e; e = from_bits<bool>(s.q14); if (how == 0) { m.set_q14(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q14(e); return true; } if (how == 2) { m.mutable_q14() = e; return true; } return false; }
    case 14: { bool e; e = from_bits<bool>(s.q15); if (how == 0) { m.set_q15(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q15(e); return true; } if (how == 2) { m.mutable_q15() = e; return true; } return false; }
    case 15: { bool e; e = from_bits<bool>(s.q16); if (how == 0) { m.set_q16(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q16(e); return true; } if (how == 2) { m.mutable_q16() = e; return true; } return false; }
    case 16: { bool e; e = from_bits<bool>(s.q17); if (how == 0) { m.set_q17(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q17(e); return true; } if (how == 2) { m.mutable_q17() = e; return true; } return false; }
    case 17: { bool e; e = from_bits<bool>(s.q18); if (how == 0) { m.set_q18(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q18(e); return true; } if (how == 2) { m.mutable_q18() = e; return true; } return false; }
    case 18: { bool e; e = from_bits<bool>(s.q19); if (how == 0) { m.set_q19(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q19(e); return true; } if (how == 2) { m.mutable_q19() = e; return true; } return false; }
    case 19: { bool e; e = from_bits<bool>(s.q20); if (how == 0) { m.set_q20(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q20(e); return true; } if (how == 2) { m.mutable_q20() = e; return true; } return false; }
    case 20: { bool e; e = from_bits<bool>(s.q21); if (how == 0) { m.set_q21(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q21(e); return true; } if (how == 2) { m.mutable_q21() = e; return true; } return false; }
    case 21: { bool e; e = from_bits<bool>(s.q22); if (how == 0) { m.set_q22(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q22(e); return true; } if (how == 2) { m.mutable_q22() = e; return true; } return false; }
    case 22: { bool e; e = from_bits<bool>(s.q23); if (how == 0) { m.set_q23(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q23(e); return true; } if (how == 2) { m.mutable_q23() = e; return true; } return false; }
    case 23: { bool e; e = from_bits<bool>(s.q24); if (how == 0) { m.set_q24(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q24(e); return true; } if (how == 2) { m.mutable_q24() = e; return true; } return false; }
    case 24: { bool e; e = from_bits<bool>(s.q25); if (how == 0) { m.set_q25(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q25(e); return true; } if (how == 2) { m.mutable_q25() = e; return true; } return false; }
    case 25: { bool e; e = from_bits<bool>(s.q26); if (how == 0) { m.set_q26(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q26(e); return true; } if (how == 2) { m.mutable_q26() = e; return true; } return false; }
    case 26: { bool e; e = from_bits<bool>(s.q27); if (how == 0) { m.set_q27(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q27(e); return true; } if (how == 2) { m.mutable_q27() = e; return true; } return false; }
    case 27: { bool e; e = from_bits<bool>(s.q28); if (how == 0) { m.set_q28(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q28(e); return true; } if (how == 2) { m.mutable_q28() = e; return true; } return false; }
    case 28: { bool e; e = from_bits<bool>(s.q29); if (how == 0) { m.set_q29(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q29(e); return true; } if (how == 2) { m.mutable_q29() = e; return true; } return false; }
    case 29: { bool e; e = from_bits<bool>(s.q30); if (how == 0) { m.set_q30(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q30(e); return true; } if (how == 2) { m.mutable_q30() = e; return true; } return false; }
    case 30: { bool e; e = from_bits<bool>(s.q31); if (how == 0) { m.set_q31(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q31(e); return true; } if (how == 2) { m.mutable_q31() = e; return true; } return false; }
    case 31: { bool e; e = from_bits<bool>(s.q32); if (how == 0) { m.set_q32(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q32(e); return true; } if (how == 2) { m.mutable_q32() = e; return true; } return false; }
    case 32: { bool e; e = from_bits<bool>(s.q33); if (how == 0) { m.set_q33(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q33(e); return true; } if (how == 2) { m.mutable_q33() = e; return true; } return false; }
    case 33: { bool e; e = from_bits<bool>(s.q34); if (how == 0) { m.set_q34(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q34(e); return true; } if (how == 2) { m.mutable_q34() = e; return true; } return false; }
    case 34: { bool e; e = from_bits<bool>(s.q35); if (how == 0) { m.set_q35(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q35(e); return true; } if (how == 2) { m.mutable_q35() = e; return true; } return false; }
    case 35: { bool e; e = from_bits<bool>(s.q36); if (how == 0) { m.set_q36(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q36(e); return true; } if (how == 2) { m.mutable_q36() = e; return true; } return false; }
    case 36: { bool e; e = from_bits<bool>(s.q37); if (how == 0) { m.set_q37(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q37(e); return true; } if (how == 2) { m.mutable_q37() = e; return true; } return false; }
    case 37: { bool e; e = from_bits<bool>(s.q38); if (how == 0) { m.set_q38(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q38(e); return true; } if (how == 2) { m.mutable_q38() = e; return true; } return false; }
    case 38: { bool e; e = from_bits<bool>(s.q39); if (how == 0) { m.set_q39(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q39(e); return true; } if (how == 2) { m.mutable_q39() = e; return true; } return false; }
    case 39: { bool e; e = from_bits<bool>(s.q40); if (how == 0) { m.set_q40(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q40(e); return true; } if (how == 2) { m.mutable_q40() = e; return true; } return false; }
    case 40: { bool e; e = from_bits<bool>(s.q41); if (how == 0) { m.set_q41(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q41(e); return true; } if (how == 2) { m.mutable_q41() = e; return true; } return false; }
    case 41: { bool e; e = from_bits<bool>(s.q42); if (how == 0) { m.set_q42(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q42(e); return true; } if (how == 2) { m.mutable_q42() = e; return true; } return false; }
    case 42: { bool e; e = from_bits<bool>(s.q43); if (how == 0) { m.set_q43(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q43(e); return true; } if (how == 2) { m.mutable_q43() = e; return true; } return false; }
    case 43: { bool e; e = from_bits<bool>(s.q44); if (how == 0) { m.set_q44(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q44(e); return true; } if (how == 2) { m.mutable_q44() = e; return true; } return false; }
    case 44: { bool e; e = from_bits<bool>(s.q45); if (how == 0) { m.set_q45(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q45(e); return true; } if (how == 2) { m.mutable_q45() = e; return true; } return false; }
    case 45: { bool e; e = from_bits<bool>(s.q46); if (how == 0) { m.set_q46(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q46(e); return true; } if (how == 2) { m.mutable_q46() = e; return true; } return false; }
    case 46: { bool e; e = from_bits<bool>(s.q47); if (how == 0) { m.set_q47(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q47(e); return true; } if (how == 2) { m.mutable_q47() = e; return true; } return false; }
    case 47: { bool e; e = from_bits<bool>(s.q48); if (how == 0) { m.set_q48(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q48(e); return true; } if (how == 2) { m.mutable_q48() = e; return true; } return false; }
    case 48: { bool e; e = from_bits<bool>(s.q49); if (how == 0) { m.set_q49(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q49(e); return true; } if (how == 2) { m.mutable_q49() = e; return true; } return false; }
    case 49: { bool e; e = from_bits<bool>(s.q50); if (how == 0) { m.set_q50(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q50(e); return true; } if (how == 2) { m.mutable_q50() = e; return true; } return false; }
    case 50: { bool e; e = from_bits<bool>(s.q51); if (how == 0) { m.set_q51(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q51(e); return true; } if (how == 2) { m.mutable_q51() = e; return true; } return false; }
    case 51: { bool e; e = from_bits<bool>(s.q52); if (how == 0) { m.set_q52(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q52(e); return true; } if (how == 2) { m.mutable_q52() = e; return true; } return false; }
    case 52: { bool e; e = from_bits<bool>(s.q53); if (how == 0) { m.set_q53(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q53(e); return true; } if (how == 2) { m.mutable_q53() = e; return true; } return false; }
    case 53: { bool e; e = from_bits<bool>(s.q54); if (how == 0) { m.set_q54(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q54(e); return true; } if (how == 2) { m.mutable_q54() = e; return true; } return false; }
    case 54: { bool e; e = from_bits<bool>(s.q55); if (how == 0) { m.set_q55(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q55(e); return true; } if (how == 2) { m.mutable_q55() = e; return true; } return false; }
    case 55: { bool e; e = from_bits<bool>(s.q56); if (how == 0) { m.set_q56(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q56(e); return true; } if (how == 2) { m.mutable_q56() = e; return true; } return false; }
    case 56: { bool e; e = from_bits<bool>(s.q57); if (how == 0) { m.set_q57(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q57(e); return true; } if (how == 2) { m.mutable_q57() = e; return true; } return false; }
    case 57: { bool e; e = from_bits<bool>(s.q58); if (how == 0) { m.set_q58(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q58(e); return true; } if (how == 2) { m.mutable_q58() = e; return true; } return false; }
    case 58: { bool e; e = from_bits<bool>(s.q59); if (how == 0) { m.set_q59(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q59(e); return true; } if (how == 2) { m.mutable_q59() = e; return true; } return false; }
    case 59: { bool e; e = from_bits<bool>(s.q60); if (how == 0) { m.set_q60(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q60(e); return true; } if (how == 2) { m.mutable_q60() = e; return true; } return false; }
    case 60: { bool e; e = from_bits<bool>(s.q61); if (how == 0) { m.set_q61(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q61(e); return true; } if (how == 2) { m.mutable_q61() = e; return true; } return false; }
    case 61: { bool e; e = from_bits<bool>(s.q62); if (how == 0) { m.set_q62(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q62(e); return true; } if (how == 2) { m.mutable_q62() = e; return true; } return false; }
    case 62: { bool e; e = from_bits<bool>(s.q63); if (how == 0) { m.set_q63(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q63(e); return true; } if (how == 2) { m.mutable_q63() = e; return true; } return false; }
    case 63: { bool e; e = from_bits<bool>(s.q64); if (how == 0) { m.set_q64(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q64(e); return true; } if (how == 2) { m.mutable_q64() = e; return true; } return false; }
    case 64: { bool e; e = from_bits<bool>(s.q65); if (how == 0) { m.set_q65(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q65(e); return true; } if (how == 2) { m.mutable_q65() = e; return true; } return false; }
    case 65: { bool e; e = from_bits<bool>(s.q66); if (how == 0) { m.set_q66(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q66(e); return true; } if (how == 2) { m.mutable_q66() = e; return true; } return false; }
    case 66: { bool e; e = from_bits<bool>(s.q67); if (how == 0) { m.set_q67(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q67(e); return true; } if (how == 2) { m.mutable_q67() = e; return true; } return false; }
    case 67: { bool e; e = from_bits<bool>(s.q68); if (how == 0) { m.set_q68(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q68(e); return true; } if (how == 2) { m.mutable_q68() = e; return true; } return false; }
    case 68: { bool e; e = from_bits<bool>(s.q69); if (how == 0) { m.set_q69(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q69(e); return true; } if (how == 2) { m.mutable_q69() = e; return true; } return false; }
    case 69: { bool e; e = from_bits<bool>(s.q70); if (how == 0) { m.set_q70(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_q70(e); return true; } if (how == 2) { m.mutable_q70() = e; return true; } return false; }
    default: return false;
  }
}
static inline bool put_at(M_Opts70& m, const S_Opts70& s, u32 k, u32 at, u32 how) {
  (void)m; (void)s; (void)at; (void)how; switch (k) {
    default: return false;
  }
}
static inline void alias_check(const M_Opts70& m, u32 k) {
  (void)m; switch (k) {
    case 0: { sym_assert(to_bits<bool>(m.q01()) == to_bits<bool>(m.get_q01()), "x() and get_x() differ"); break; }
    case 1: { sym_assert(to_bits<bool>(m.q02()) == to_bits<bool>(m.get_q02()), "x() and get_x() differ"); break; }
    case 2: { sym_assert(to_bits<bool>(m.q03()) == to_bits<bool>(m.get_q03()), "x() and get_x() differ"); break; }
    case 3: { sym_assert(to_bits<bool>(m.q04()) == to_bits<bool>(m.get_q04()), "x() and get_x() differ"); break; }
    case 4: { sym_assert(to_bits<bool>(m.q05()) == to_bits<bool>(m.get_q05()), "x() and get_x() differ"); break; }
    case 5: { sym_assert(to_bits<bool>(m.q06()) == to_bits<bool>(m.get_q06()), "x() and get_x() differ"); break; }
    case 6: { sym_assert(to_bits<bool>(m.q07()) == to_bits<bool>(m.get_q07()), "x() and get_x() differ"); break; }
    case 7: { sym_assert(to_bits<bool>(m.q08()) == to_bits<bool>(m.get_q08()), "x() and get_x() differ"); break; }
    case 8: { sym_assert(to_bits<bool>(m.q09()) == to_bits<bool>(m.get_q09()), "x() and get_x() differ"); break; }
    case 9: { sym_assert(to_bits<bool>(m.q10()) == to_bits<bool>(m.get_q10()), "x() and get_x() differ"); break; }
    case 10: { sym_assert(to_bits<bool>(m.q11()) == to_bits<bool>(m.get_q11()), "x() and get_x() differ"); break; }
    case 11: { sym_assert(to_bits<bool>(m.q12()) == to_bits<bool>(m.get_q12()), "x() and get_x() differ"); break; }
    case 12: { sym_assert(to_bits<bool>(m.q13()) == to_bits<bool>(m.get_q13()), "x() and get_x() differ"); break; }
    case 13: { sym_assert(to_bits<bool>(m.q14()) == to_bits<bool>(m.get_q14()), "x() and get_x() differ"); break; }
    case 14: { sym_assert(to_bits<bool>(m.q15()) == to_bits<bool>(m.get_q15()), "x() and get_x() differ"); break; }
    case 15: { sym_assert(to_bits<bool>(m.q16()) == to_bits<bool>(m.get_q16()), "x() and get_x() differ"); break; }
    case 16: { sym_assert(to_bits<bool>(m.q17()) == to_bits<bool>(m.get_q17()), "x() and get_x() differ"); break; }
    case 17: { sym_assert(to_bits<bool>(m.q18()) == to_bits<bool>(m.get_q18()), "x() and get_x() differ"); break; }
    case 18: { sym_assert(to_bits<bool>(m.q19()) == to_bits<bool>(m.get_q19()), "x() and get_x() differ"); break; }
    case 19: { sym_assert(to_bits<bool>(m.q20()) == to_bits<bool>(m.get_q20()), "x() and get_x() differ"); break; }
    case 20: { sym_assert(to_bits<bool>(m.q21()) == to_bits<bool>(m.get_q21()), "x() and get_x() differ"); break; }
    case 21: { sym_assert(to_bits<bool>(m.q22()) == to_bits<bool>(m.get_q22()), "x() and get_x() differ"); break; }
    case 22: { sym_assert(to_bits<bool>(m.q23()) == to_bits<bool>(m.get_q23()), "x() and get_x() differ"); break; }
    case 23: { sym_assert(to_bits<bool>(m.q24()) == to_bits<bool>(m.get_q24()), "x() and get_x() differ"); break; }
    case 24: { sym_assert(to_bits<bool>(m.q25()) == to_bits<bool>(m.get_q25()), "x() and get_x() differ"); break; }
    case 25: { sym_assert(to_bits<bool>(m.q26()) == to_bits<bool>(m.get_q26()), "x() and get_x() differ"); break; }
    case 26: { sym_assert(to_bits<bool>(m.q27()) == to_bits<bool>(m.get_q27()), "x() and get_x() differ"); break; }
    case 27: { sym_assert(to_bits<bool>(m.q28()) == to_bits<bool>(m.get_q28()), "x() and get_x() differ"); break; }
    case 28: { sym_assert(to_bits<bool>(m.q29()) == to_bits<bool>(m.get_q29()), "x() and get_x() differ"); break; }
    case 29: { sym_assert(to_bits<bool>(m.q30()) == to_bits<bool>(m.get_q30()), "x() and get_x() differ"); break; }
    case 30: { sym_assert(to_bits<bool>(m.q31()) == to_bits<bool>(m.get_q31()), "x() and get_x() differ"); break; }
    case 31: { sym_assert(to_bits<bool>(m.q32()) == to_bits<bool>(m.get_q32()), "x() and get_x() differ"); break; }
    case 32: { sym_assert(to_bits<bool>(m.q33()) == to_bits<bool>(m.get_q33()), "x() and get_x() differ"); break; }
    case 33: { sym_assert(to_bits<bool>(m.q34()) == to_bits<bool>(m.get_q34()), "x() and get_x() differ"); break; }
    case 34: { sym_assert(to_bits<bool>(m.q35()) == to_bits<bool>(m.get_q35()), "x() and get_x() differ"); break; }
    case 35: { sym_assert(to_bits<bool>(m.q36()) == to_bits<bool>(m.get_q36()), "x() and get_x() differ"); break; }
    case 36: { sym_assert(to_bits<bool>(m.q37()) == to_bits<bool>(m.get_q37()), "x() and get_x() differ"); break; }
    case 37: { sym_assert(to_bits<bool>(m.q38()) == to_bits<bool>(m.get_q38()), "x() and get_x() differ"); break; }
    case 38: { sym_assert(to_bits<bool>(m.q39()) == to_bits<bool>(m.get_q39()), "x() and get_x() differ"); break; }
    case 39: { sym_assert(to_bits<bool>(m.q40()) == to_bits<bool>(m.get_q40()), "x() and get_x() differ"); break; }
    case 40: { sym_assert(to_bits<bool>(m.q41()) == to_bits<bool>(m.get_q41()), "x() and get_x() differ"); break; }
    case 41: { sym_assert(to_bits<bool>(m.q42()) == to_bits<bool>(m.get_q42()), "x() and get_x() differ"); break; }
    case 42: { sym_assert(to_bits<bool>(m.q43()) == to_bits<bool>(m.get_q43()), "x() and get_x() differ"); break; }
    case 43: { sym_assert(to_bits<bool>(m.q44()) == to_bits<bool>(m.get_q44()), "x() and get_x() differ"); break; }
    case 44: { sym_assert(to_bits<bool>(m.q45()) == to_bits<bool>(m.get_q45()), "x() and get_x() differ"); break; }
    case 45: { sym_assert(to_bits<bool>(m.q46()) == to_bits<bool>(m.get_q46()), "x() and get_x() differ"); break; }
    case 46: { sym_assert(to_bits<bool>(m.q47()) == to_bits<bool>(m.get_q47()), "x() and get_x() differ"); break; }
    case 47: { sym_assert(to_bits<bool>(m.q48()) == to_bits<bool>(m.get_q48()), "x() and get_x() differ"); break; }
    case 48: { sym_assert(to_bits<bool>(m.q49()) == to_bits<bool>(m.get_q49()), "x() and get_x() differ"); break; }
    case 49: { sym_assert(to_bits<bool>(m.q50()) == to_bits<bool>(m.get_q50()), "x() and get_x() differ"); break; }
    case 50: { sym_assert(to_bits<bool>(m.q51()) == to_bits<bool>(m.get_q51()), "x() and get_x() differ"); break; }
    case 51: { sym_assert(to_bits<bool>(m.q52()) == to_bits<bool>(m.get_q52()), "x() and get_x() differ"); break; }
    case 52: { sym_assert(to_bits<bool>(m.q53()) == to_bits<bool>(m.get_q53()), "x() and get_x() differ"); break; }
    case 53: { sym_assert(to_bits<bool>(m.q54()) == to_bits<bool>(m.get_q54()), "x() and get_x() differ"); break; }
    case 54: { sym_assert(to_bits<bool>(m.q55()) == to_bits<bool>(m.get_q55()), "x() and get_x() differ"); break; }
    case 55: { sym_assert(to_bits<bool>(m.q56()) == to_bits<bool>(m.get_q56()), "x() and get_x() differ"); break; }
    case 56: { sym_assert(to_bits<bool>(m.q57()) == to_bits<bool>(m.get_q57()), "x() and get_x() differ"); break; }
    case 57: { sym_assert(to_bits<bool>(m.q58()) == to_bits<bool>(m.get_q58()), "x() and get_x() differ"); break; }
    case 58: { sym_assert(to_bits<bool>(m.q59()) == to_bits<bool>(m.get_q59()), "x() and get_x() differ"); break; }
    case 59: { sym_assert(to_bits<bool>(m.q60()) == to_bits<bool>(m.get_q60()), "x() and get_x() differ"); break; }
    case 60: { sym_assert(to_bits<bool>(m.q61()) == to_bits<bool>(m.get_q61()), "x() and get_x() differ"); break; }
    case 61: { sym_assert(to_bits<bool>(m.q62()) == to_bits<bool>(m.get_q62()), "x() and get_x() differ"); break; }
    case 62: { sym_assert(to_bits<bool>(m.q63()) == to_bits<bool>(m.get_q63()), "x() and get_x() differ"); break; }
    case 63: { sym_assert(to_bits<bool>(m.q64()) == to_bits<bool>(m.get_q64()), "x() and get_x() differ"); break; }
    case 64: { sym_assert(to_bits<bool>(m.q65()) == to_bits<bool>(m.get_q65()), "x() and get_x() differ"); break; }
    case 65: { sym_assert(to_bits<bool>(m.q66()) == to_bits<bool>(m.get_q66()), "x() and get_x() differ"); break; }
    case 66: { sym_assert(to_bits<bool>(m.q67()) == to_bits<bool>(m.get_q67()), "x() and get_x() differ"); break; }
    case 67: { sym_assert(to_bits<bool>(m.q68()) == to_bits<bool>(m.get_q68()), "x() and get_x() differ"); break; }
    case 68: { sym_assert(to_bits<bool>(m.q69()) == to_bits<bool>(m.get_q69()), "x() and get_x() differ"); break; }
    case 69: { sym_assert(to_bits<bool>(m.q70()) == to_bits<bool>(m.get_q70()), "x() and get_x() differ"); break; }
    default: break;
  }
}
static inline bool touch_field(M_Opts70& m, u32 k) {
  (void)m; switch (k) {
    case 0: (void)m.mutable_q01(); return true;
    case 1: (void)m.mutable_q02(); return true;
    case 2: (void)m.mutable_q03(); return true;
    case 3: (void)m.mutable_q04(); return true;
    case 4: (void)m.mutable_q05(); return true;
    case 5: (void)m.mutable_q06(); return true;
    case 6: (void)m.mutable_q07(); return true;
    case 7: (void)m.mutable_q08(); return true;
    case 8: (void)m.mutable_q09(); return true;
    case 9: (void)m.mutable_q10(); return true;
    case 10: (void)m.mutable_q11(); return true;
    case 11: (void)m.mutable_q12(); return true;
    case 12: (void)m.mutable_q13(); return true;
    case 13: (void)m.mutable_q14(); return true;
    case 14: (void)m.mutable_q15(); return true;
    case 15: (void)m.mutable_q16(); return true;
    case 16: (void)m.mutable_q17(); return true;
    case 17: (void)m.mutable_q18(); return true;
    case 18: (void)m.mutable_q19(); return true;
    case 19: (void)m.mutable_q20(); return true;
    case 20: (void)m.mutable_q21(); return true;
    case 21: (void)m.mutable_q22(); return true;
    case 22: (void)m.mutable_q23(); return true;
    case 23: (void)m.mutable_q24(); return true;
    case 24: (void)m.mutable_q25(); return true;
    case 25: (void)m.mutable_q26(); return true;
    case 26: (void)m.mutable_q27(); return true;
    case 27: (void)m.mutable_q28(); return true;
    case 28: (void)m.mutable_q29(); return true;
    case 29: (void)m.mutable_q30(); return true;
    case 30: (void)m.mutable_q31(); return true;
    case 31: (void)m.mutable_q32(); return true;
    case 32: (void)m.mutable_q33(); return true;
    case 33: (void)m.mutable_q34(); return true;
    case 34: (void)m.mutable_q35(); return true;
    case 35: (void)m.mutable_q36(); return true;
    case 36: (void)m.mutable_q37(); return true;
    case 37: (void)m.mutable_q38(); return true;
    case 38: (void)m.mutable_q39(); return true;
    case 39: (void)m.mutable_q40(); return true;
    case 40: (void)m.mutable_q41(); return true;
    case 41: (void)m.mutable_q42(); return true;
    case 42: (void)m.mutable_q43(); return true;
    case 43: (void)m.mutable_q44(); return true;
    case 44: (void)m.mutable_q45(); return true;
    case 45: (void)m.mutable_q46(); return true;
    case 46: (void)m.mutable_q47(); return true;
    case 47: (void)m.mutable_q48(); return true;
    case 48: (void)m.mutable_q49(); return true;
    case 49: (void)m.mutable_q50(); return true;
    case 50: (void)m.mutable_q51(); return true;
    case 51: (void)m.mutable_q52(); return true;
    case 52: (void)m.mutable_q53(); return true;
    case 53: (void)m.mutable_q54(); return true;
    case 54: (void)m.mutable_q55(); return true;
    case 55: (void)m.mutable_q56(); return true;
    case 56: (void)m.mutable_q57(); return true;
    case 57: (void)m.mutable_q58(); return true;
    case 58: (void)m.mutable_q59(); return true;
    case 59: (void)m.mutable_q60(); return true;
    case 60: (void)m.mutable_q61(); return true;
    case 61: (void)m.mutable_q62(); return true;
    case 62: (void)m.mutable_q63(); return true;
    case 63: (void)m.mutable_q64(); return true;
    case 64: (void)m.mutable_q65(); return true;
    case 65: (void)m.mutable_q66(); return true;
    case 66: (void)m.mutable_q67(); return true;
    case 67: (void)m.mutable_q68(); return true;
    case 68: (void)m.mutable_q69(); return true;
    case 69: (void)m.mutable_q70(); return true;
    default: return false;
  }
}
static inline bool extend_field(M_Opts70& m, u32 k, u32 n) {
  (void)m; (void)n; switch (k) {
    default: return false;
  }
}
static inline void limits(const M_Opts70& m) {
  (void)m;
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q01) == 1u, "number of field q01");
  sym_assert(__builtin_strcmp(M_Opts70::Q01_NAME, "q01") == 0, "name constant of field q01");
  static_assert(std::is_same<decltype(m.q01()), bool>::value, "type of field q01");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q02) == 2u, "number of field q02");
  sym_assert(__builtin_strcmp(M_Opts70::Q02_NAME, "q02") == 0, "name constant of field q02");
  static_assert(std::is_same<decltype(m.q02()), bool>::value, "type of field q02");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q03) == 3u, "number of field q03");
  sym_assert(__builtin_strcmp(M_Opts70::Q03_NAME, "q03") == 0, "name constant of field q03");
  static_assert(std::is_same<decltype(m.q03()), bool>::value, "type of field q03");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q04) == 4u, "number of field q04");
  sym_assert(__builtin_strcmp(M_Opts70::Q04_NAME, "q04") == 0, "name constant of field q04");
  static_assert(std::is_same<decltype(m.q04()), bool>::value, "type of field q04");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q05) == 5u, "number of field q05");
  sym_assert(__builtin_strcmp(M_Opts70::Q05_NAME, "q05") == 0, "name constant of field q05");
  static_assert(std::is_same<decltype(m.q05()), bool>::value, "type of field q05");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q06) == 6u, "number of field q06");
  sym_assert(__builtin_strcmp(M_Opts70::Q06_NAME, "q06") == 0, "name constant of field q06");
  static_assert(std::is_same<decltype(m.q06()), bool>::value, "type of field q06");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q07) == 7u, "number of field q07");
  sym_assert(__builtin_strcmp(M_Opts70::Q07_NAME, "q07") == 0, "name constant of field q07");
  static_assert(std::is_same<decltype(m.q07()), bool>::value, "type of field q07");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q08) == 8u, "number of field q08");
  sym_assert(__builtin_strcmp(M_Opts70::Q08_NAME, "q08") == 0, "name constant of field q08");
  static_assert(std::is_same<decltype(m.q08()), bool>::value, "type of field q08");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q09) == 9u, "number of field q09");
  sym_assert(__builtin_strcmp(M_Opts70::Q09_NAME, "q09") == 0, "name constant of field q09");
  static_assert(std::is_same<decltype(m.q09()), bool>::value, "type of field q09");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q10) == 10u, "number of field q10");
  sym_assert(__builtin_strcmp(M_Opts70::Q10_NAME, "q10") == 0, "name constant of field q10");
  static_assert(std::is_same<decltype(m.q10()), bool>::value, "type of field q10");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q11) == 11u, "number of field q11");
  sym_assert(__builtin_strcmp(M_Opts70::Q11_NAME, "q11") == 0, "name constant of field q11");
  static_assert(std::is_same<decltype(m.q11()), bool>::value, "type of field q11");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q12) == 12u, "number of field q12");
  sym_assert(__builtin_strcmp(M_Opts70::Q12_NAME, "q12") == 0, "name constant of field q12");
  static_assert(std::is_same<decltype(m.q12()), bool>::value, "type of field q12");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q13) == 13u, "number of field q13");
  sym_assert(__builtin_strcmp(M_Opts70::Q13_NAME, "q13") == 0, "name constant of field q13");
  static_assert(std::is_same<decltype(m.q13()), bool>::value, "type of field q13");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q14) == 14u, "number of field q14");
  sym_assert(__builtin_strcmp(M_Opts70::Q14_NAME, "q14") == 0, "name constant of field q14");
  static_assert(std::is_same<decltype(m.q14()), bool>::value, "type of field q14");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q15) == 15u, "number of field q15");
  sym_assert(__builtin_strcmp(M_Opts70::Q15_NAME, "q15") == 0, "name constant of field q15");
  static_assert(std::is_same<decltype(m.q15()), bool>::value, "type of field q15");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q16) == 16u, "number of field q16");
  sym_assert(__builtin_strcmp(M_Opts70::Q16_NAME, "q16") == 0, "name constant of field q16");
  static_assert(std::is_same<decltype(m.q16()), bool>::value, "type of field q16");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q17) == 17u, "number of field q17");
  sym_assert(__builtin_strcmp(M_Opts70::Q17_NAME, "q17") == 0, "name constant of field q17");
  static_assert(std::is_same<decltype(m.q17()), bool>::value, "type of field q17");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q18) == 18u, "number of field q18");
  sym_assert(__builtin_strcmp(M_Opts70::Q18_NAME, "q18") == 0, "name constant of field q18");
  static_assert(std::is_same<decltype(m.q18()), bool>::value, "type of field q18");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q19) == 19u, "number of field q19");
  sym_assert(__builtin_strcmp(M_Opts70::Q19_NAME, "q19") == 0, "name constant of field q19");
  static_assert(std::is_same<decltype(m.q19()), bool>::value, "type of field q19");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q20) == 20u, "number of field q20");
  sym_assert(__builtin_strcmp(M_Opts70::Q20_NAME, "q20") == 0, "name constant of field q20");
  static_assert(std::is_same<decltype(m.q20()), bool>::value, "type of field q20");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q21) == 21u, "number of field q21");
  sym_assert(__builtin_strcmp(M_Opts70::Q21_NAME, "q21") == 0, "name constant of field q21");
  static_assert(std::is_same<decltype(m.q21()), bool>::value, "type of field q21");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q22) == 22u, "number of field q22");
  sym_assert(__builtin_strcmp(M_Opts70::Q22_NAME, "q22") == 0, "name constant of field q22");
  static_assert(std::is_same<decltype(m.q22()), bool>::value, "type of field q22");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q23) == 23u, "number of field q23");
  sym_assert(__builtin_strcmp(M_Opts70::Q23_NAME, "q23") == 0, "name constant of field q23");
  static_assert(std::is_same<decltype(m.q23()), bool>::value, "type of field q23");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q24) == 24u, "number of field q24");
  sym_assert(__builtin_strcmp(M_Opts70::Q24_NAME, "q24") == 0, "name constant of field q24");
  static_assert(std::is_same<decltype(m.q24()), bool>::value, "type of field q24");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q25) == 25u, "number of field q25");
  sym_assert(__builtin_strcmp(M_Opts70::Q25_NAME, "q25") == 0, "name constant of field q25");
  static_assert(std::is_same<decltype(m.q25()), bool>::value, "type of field q25");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q26) == 26u, "number of field q26");
  sym_assert(__builtin_strcmp(M_Opts70::Q26_NAME, "q26") == 0, "name constant of field q26");
  static_assert(std::is_same<decltype(m.q26()), bool>::value, "type of field q26");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q27) == 27u, "number of field q27");
  sym_assert(__builtin_strcmp(M_Opts70::Q27_NAME, "q27") == 0, "name constant of field q27");
  static_assert(std::is_same<decltype(m.q27()), bool>::value, "type of field q27");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q28) == 28u, "number of field q28");
  sym_assert(__builtin_strcmp(M_Opts70::Q28_NAME, "q28") == 0, "name constant of field q28");
  static_assert(std::is_same<decltype(m.q28()), bool>::value, "type of field q28");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q29) == 29u, "number of field q29");
  sym_assert(__builtin_strcmp(M_Opts70::Q29_NAME, "q29") == 0, "name constant of field q29");
  static_assert(std::is_same<decltype(m.q29()), bool>::value, "type of field q29");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q30) == 30u, "number of field q30");
  sym_assert(__builtin_strcmp(M_Opts70::Q30_NAME, "q30") == 0, "name constant of field q30");
  static_assert(std::is_same<decltype(m.q30()), bool>::value, "type of field q30");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q31) == 31u, "number of field q31");
  sym_assert(__builtin_strcmp(M_Opts70::Q31_NAME, "q31") == 0, "name constant of field q31");
  static_assert(std::is_same<decltype(m.q31()), bool>::value, "type of field q31");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q32) == 32u, "number of field q32");
  sym_assert(__builtin_strcmp(M_Opts70::Q32_NAME, "q32") == 0, "name constant of field q32");
  static_assert(std::is_same<decltype(m.q32()), bool>::value, "type of field q32");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q33) == 33u, "number of field q33");
  sym_assert(__builtin_strcmp(M_Opts70::Q33_NAME, "q33") == 0, "name constant of field q33");
  static_assert(std::is_same<decltype(m.q33()), bool>::value, "type of field q33");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q34) == 34u, "number of field q34");
  sym_assert(__builtin_strcmp(M_Opts70::Q34_NAME, "q34") == 0, "name constant of field q34");
  static_assert(std::is_same<decltype(m.q34()), bool>::value, "type of field q34");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q35) == 35u, "number of field q35");
  sym_assert(__builtin_strcmp(M_Opts70::Q35_NAME, "q35") == 0, "name constant of field q35");
  static_assert(std::is_same<decltype(m.q35()), bool>::value, "type of field q35");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q36) == 36u, "number of field q36");
  sym_assert(__builtin_strcmp(M_Opts70::Q36_NAME, "q36") == 0, "name constant of field q36");
  static_assert(std::is_same<decltype(m.q36()), bool>::value, "type of field q36");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q37) == 37u, "number of field q37");
  sym_assert(__builtin_strcmp(M_Opts70::Q37_NAME, "q37") == 0, "name constant of field q37");
  static_assert(std::is_same<decltype(m.q37()), bool>::value, "type of field q37");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q38) == 38u, "number of field q38");
  sym_assert(__builtin_strcmp(M_Opts70::Q38_NAME, "q38") == 0, "name constant of field q38");
  static_assert(std::is_same<decltype(m.q38()), bool>::value, "type of field q38");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q39) == 39u, "number of field q39");
  sym_assert(__builtin_strcmp(M_Opts70::Q39_NAME, "q39") == 0, "name constant of field q39");
  static_assert(std::is_same<decltype(m.q39()), bool>::value, "type of field q39");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q40) == 40u, "number of field q40");
  sym_assert(__builtin_strcmp(M_Opts70::Q40_NAME, "q40") == 0, "name constant of field q40");
  static_assert(std::is_same<decltype(m.q40()), bool>::value, "type of field q40");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q41) == 41u, "number of field q41");
  sym_assert(__builtin_strcmp(M_Opts70::Q41_NAME, "q41") == 0, "name constant of field q41");
  static_assert(std::is_same<decltype(m.q41()), bool>::value, "type of field q41");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q42) == 42u, "number of field q42");
  sym_assert(__builtin_strcmp(M_Opts70::Q42_NAME, "q42") == 0, "name constant of field q42");
  static_assert(std::is_same<decltype(m.q42()), bool>::value, "type of field q42");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q43) == 43u, "number of field q43");
  sym_assert(__builtin_strcmp(M_Opts70::Q43_NAME, "q43") == 0, "name constant of field q43");
  static_assert(std::is_same<decltype(m.q43()), bool>::value, "type of field q43");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q44) == 44u, "number of field q44");
  sym_assert(__builtin_strcmp(M_Opts70::Q44_NAME, "q44") == 0, "name constant of field q44");
  static_assert(std::is_same<decltype(m.q44()), bool>::value, "type of field q44");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q45) == 45u, "number of field q45");
  sym_assert(__builtin_strcmp(M_Opts70::Q45_NAME, "q45") == 0, "name constant of field q45");
  static_assert(std::is_same<decltype(m.q45()), bool>::value, "type of field q45");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q46) == 46u, "number of field q46");
  sym_assert(__builtin_strcmp(M_Opts70::Q46_NAME, "q46") == 0, "name constant of field q46");
  static_assert(std::is_same<decltype(m.q46()), bool>::value, "type of field q46");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q47) == 47u, "number of field q47");
  sym_assert(__builtin_strcmp(M_Opts70::Q47_NAME, "q47") == 0, "name constant of field q47");
  static_assert(std::is_same<decltype(m.q47()), bool>::value, "type of field q47");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q48) == 48u, "number of field q48");
  sym_assert(__builtin_strcmp(M_Opts70::Q48_NAME, "q48") == 0, "name constant of field q48");
  static_assert(std::is_same<decltype(m.q48()), bool>::value, "type of field q48");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q49) == 49u, "number of field q49");
  sym_assert(__builtin_strcmp(M_Opts70::Q49_NAME, "q49") == 0, "name constant of field q49");
  static_assert(std::is_same<decltype(m.q49()), bool>::value, "type of field q49");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q50) == 50u, "number of field q50");
  sym_assert(__builtin_strcmp(M_Opts70::Q50_NAME, "q50") == 0, "name constant of field q50");
  static_assert(std::is_same<decltype(m.q50()), bool>::value, "type of field q50");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q51) == 51u, "number of field q51");
  sym_assert(__builtin_strcmp(M_Opts70::Q51_NAME, "q51") == 0, "name constant of field q51");
  static_assert(std::is_same<decltype(m.q51()), bool>::value, "type of field q51");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q52) == 52u, "number of field q52");
  sym_assert(__builtin_strcmp(M_Opts70::Q52_NAME, "q52") == 0, "name constant of field q52");
  static_assert(std::is_same<decltype(m.q52()), bool>::value, "type of field q52");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q53) == 53u, "number of field q53");
  sym_assert(__builtin_strcmp(M_Opts70::Q53_NAME, "q53") == 0, "name constant of field q53");
  static_assert(std::is_same<decltype(m.q53()), bool>::value, "type of field q53");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q54) == 54u, "number of field q54");
  sym_assert(__builtin_strcmp(M_Opts70::Q54_NAME, "q54") == 0, "name constant of field q54");
  static_assert(std::is_same<decltype(m.q54()), bool>::value, "type of field q54");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q55) == 55u, "number of field q55");
  sym_assert(__builtin_strcmp(M_Opts70::Q55_NAME, "q55") == 0, "name constant of field q55");
  static_assert(std::is_same<decltype(m.q55()), bool>::value, "type of field q55");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q56) == 56u, "number of field q56");
  sym_assert(__builtin_strcmp(M_Opts70::Q56_NAME, "q56") == 0, "name constant of field q56");
  static_assert(std::is_same<decltype(m.q56()), bool>::value, "type of field q56");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q57) == 57u, "number of field q57");
  sym_assert(__builtin_strcmp(M_Opts70::Q57_NAME, "q57") == 0, "name constant of field q57");
  static_assert(std::is_same<decltype(m.q57()), bool>::value, "type of field q57");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q58) == 58u, "number of field q58");
  sym_assert(__builtin_strcmp(M_Opts70::Q58_NAME, "q58") == 0, "name constant of field q58");
  static_assert(std::is_same<decltype(m.q58()), bool>::value, "type of field q58");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q59) == 59u, "number of field q59");
  sym_assert(__builtin_strcmp(M_Opts70::Q59_NAME, "q59") == 0, "name constant of field q59");
  static_assert(std::is_same<decltype(m.q59()), bool>::value, "type of field q59");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q60) == 60u, "number of field q60");
  sym_assert(__builtin_strcmp(M_Opts70::Q60_NAME, "q60") == 0, "name constant of field q60");
  static_assert(std::is_same<decltype(m.q60()), bool>::value, "type of field q60");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q61) == 61u, "number of field q61");
  sym_assert(__builtin_strcmp(M_Opts70::Q61_NAME, "q61") == 0, "name constant of field q61");
  static_assert(std::is_same<decltype(m.q61()), bool>::value, "type of field q61");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q62) == 62u, "number of field q62");
  sym_assert(__builtin_strcmp(M_Opts70::Q62_NAME, "q62") == 0, "name constant of field q62");
  static_assert(std::is_same<decltype(m.q62()), bool>::value, "type of field q62");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q63) == 63u, "number of field q63");
  sym_assert(__builtin_strcmp(M_Opts70::Q63_NAME, "q63") == 0, "name constant of field q63");
  static_assert(std::is_same<decltype(m.q63()), bool>::value, "type of field q63");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q64) == 64u, "number of field q64");
  sym_assert(__builtin_strcmp(M_Opts70::Q64_NAME, "q64") == 0, "name constant of field q64");
  static_assert(std::is_same<decltype(m.q64()), bool>::value, "type of field q64");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q65) == 65u, "number of field q65");
  sym_assert(__builtin_strcmp(M_Opts70::Q65_NAME, "q65") == 0, "name constant of field q65");
  static_assert(std::is_same<decltype(m.q65()), bool>::value, "type of field q65");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q66) == 66u, "number of field q66");
  sym_assert(__builtin_strcmp(M_Opts70::Q66_NAME, "q66") == 0, "name constant of field q66");
  static_assert(std::is_same<decltype(m.q66()), bool>::value, "type of field q66");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q67) == 67u, "number of field q67");
  sym_assert(__builtin_strcmp(M_Opts70::Q67_NAME, "q67") == 0, "name constant of field q67");
  static_assert(std::is_same<decltype(m.q67()), bool>::value, "type of field q67");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q68) == 68u, "number of field q68");
  sym_assert(__builtin_strcmp(M_Opts70::Q68_NAME, "q68") == 0, "name constant of field q68");
  static_assert(std::is_same<decltype(m.q68()), bool>::value, "type of field q68");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q69) == 69u, "number of field q69");
  sym_assert(__builtin_strcmp(M_Opts70::Q69_NAME, "q69") == 0, "name constant of field q69");
  static_assert(std::is_same<decltype(m.q69()), bool>::value, "type of field q69");
  static_assert(static_cast<u32>(M_Opts70::FieldNumber::Q70) == 70u, "number of field q70");
  sym_assert(__builtin_strcmp(M_Opts70::Q70_NAME, "q70") == 0, "name constant of field q70");
  static_assert(std::is_same<decltype(m.q70()), bool>::value, "type of field q70");
}
static inline const char* left_out(M_Opts70*, u32 n) { (void)n; return nullptr; }
static inline const char* number_name(M_Opts70*, u32 n) { return M_Opts70::field_number_to_name(static_cast<M_Opts70::FieldNumber>(n)); }
template<> struct G<M_Opts70> { using S = S_Opts70; static const MD& md() { return D_Opts70; } };

// ---- vs.Strs
using M_Strs = ::vs::Strs<3>;
struct S_Strs {
  Str<4> s;
  Str<3> b;
  u32 z;
  Str<3> t;
};
static const FD F_Strs[] = {
  {1u, K_STR, C_PLAIN, 0, 4, (u32)offsetof(S_Strs, s), (u32)0, (u32)sizeof(Str<4>), nullptr, "s"},
  {2u, K_BYT, C_PLAIN, 0, 3, (u32)offsetof(S_Strs, b), (u32)0, (u32)sizeof(Str<3>), nullptr, "b"},
  {3u, K_U32, C_PLAIN, 0, 0, (u32)offsetof(S_Strs, z), (u32)0, (u32)sizeof(u32), nullptr, "z"},
  {4u, K_STR, C_PLAIN, 0, 3, (u32)offsetof(S_Strs, t), (u32)0, (u32)sizeof(Str<3>), nullptr, "t"},
};
static const MD D_Strs = {F_Strs, 4, (u32)sizeof(S_Strs), "Strs"};
static inline void load(M_Strs& m, const S_Strs& s) {
  (void)m; (void)s;
  loadstr(m.mutable_s(), s.s);
  loadstr(m.mutable_b(), s.b);
  m.set_z(from_bits<uint32_t>(s.z));
  loadstr(m.mutable_t(), s.t);
}
static inline void read(S_Strs& s, const M_Strs& m) {
  (void)m; ref_reset(D_Strs, (u8*)&s);
  readstr(s.s, m.get_s());
  readstr(s.b, m.get_b());
  s.z = to_bits<uint32_t>(m.get_z());
  readstr(s.t, m.get_t());
}
static inline void clear_field(M_Strs& m, u32 k) {
  (void)m; switch (k) {
    case 0: m.clear_s(); break;
    case 1: m.clear_b(); break;
    case 2: m.clear_z(); break;
    case 3: m.clear_t(); break;
    default: break;
  }
}
static inline bool set_field(M_Strs& m, const S_Strs& s, u32 k, u32 how = 0) {
  (void)m; (void)s; switch (k) {
    case 0: { ::EmbeddedProto::FieldString<4> e; loadstr(e, s.s); if (how == 0) { m.set_s(static_cast<::EmbeddedProto::FieldString<4>&&>(e)); return true; } if (how == 1) { m.set_s(e); return true; } if (how == 2) { loadstr(m.mutable_s(), s.s); return true; } return false; }
    case 1: { ::EmbeddedProto::FieldBytes<3> e; loadstr(e, s.b); if (how == 0) { m.set_b(static_cast<::EmbeddedProto::FieldBytes<3>&&>(e)); return true; } if (how == 1) { m.set_b(e); return true; } if (how == 2) { loadstr(m.mutable_b(), s.b); return true; } return false; }
    case 2: { uint32_t e; e = from_bits<uint32_t>(s.z); if (how == 0) { m.set_z(static_cast<uint32_t&&>(e)); return true; } if (how == 1) { m.set_z(e); return true; } if (how == 2) { m.mutable_z() = e; return true; } return false; }
    case 3: { ::EmbeddedProto::FieldString<3> e; loadstr(e, s.t); if (how == 0) { m.set_t(static_cast<::EmbeddedProto::FieldString<3>&&>(e)); return true; } if (how == 1) { m.set_t(e); return true; } if (how == 2) { loadstr(m.mutable_t(), s.t); return true; } return false; }
    default: return false;
  }
}
static inline bool put_at(M_Strs& m, const S_Strs& s, u32 k, u32 at, u32 how) {
  (void)m; (void)s; (void)at; (void)how; switch (k) {
    default: return false;
  }
}
static inline void alias_check(const M_Strs& m, u32 k) {
  (void)m; switch (k) {
    case 0: { sym_assert(m.s() == m.get_s().get_const(), "x() and get_x() differ"); break; }
    case 1: { sym_assert(m.b() == m.get_b().get_const(), "x() and get_x() differ"); break; }
    case 2: { sym_assert(to_bits<uint32_t>(m.z()) == to_bits<uint32_t>(m.get_z()), "x() and get_x() differ"); break; }
    case 3: { sym_assert(m.t() == m.get_t().get_const(), "x() and get_x() differ"); break; }
    default: break;
  }
}
static inline bool touch_field(M_Strs& m, u32 k) {
  (void)m; switch (k) {
    case 0: (void)m.mutable_s(); return true;
    case 1: (void)m.mutable_b(); return true;
    case 2: (void)m.mutable_z(); return true;
    case 3: (void)m.mutable_t(); return true;
    default: return false;
  }
}
static inline bool extend_field(M_Strs& m, u32 k, u32 n) {
  (void)m; (void)n; switch (k) {
    case 0: (void)m.mutable_s().get(n - 1); return true;
    case 1: (void)m.mutable_b().get(n - 1); return true;
    case 3: (void)m.mutable_t().get(n - 1); return true;
    default: return false;
  }
}
static inline void limits(const M_Strs& m) {
  (void)m;
  static_assert(static_cast<u32>(M_Strs::FieldNumber::S) == 1u, "number of field s");
  sym_assert(__builtin_strcmp(M_Strs::S_NAME, "s") == 0, "name constant of field s");
  sym_assert(m.get_s().get_max_length() == 4u, "capacity of field s");
  static_assert(static_cast<u32>(M_Strs::FieldNumber::B) == 2u, "number of field b");
  sym_assert(__builtin_strcmp(M_Strs::B_NAME, "b") == 0, "name constant of field b");
  sym_assert(m.get_b().get_max_length() == 3u, "capacity of field b");
  static_assert(static_cast<u32>(M_Strs::FieldNumber::Z) == 3u, "number of field z");
  sym_assert(__builtin_strcmp(M_Strs::Z_NAME, "z") == 0, "name constant of field z");
  static_assert(std::is_same<decltype(m.z()), uint32_t>::value, "type of field z");
  static_assert(static_cast<u32>(M_Strs::FieldNumber::T) == 4u, "number of field t");
  sym_assert(__builtin_strcmp(M_Strs::T_NAME, "t") == 0, "name constant of field t");
  sym_assert(m.get_t().get_max_length() == 3u, "capacity of field t");
}
static inline const char* left_out(M_Strs*, u32 n) { (void)n; return nullptr; }
static inline const char* number_name(M_Strs*, u32 n) { return M_Strs::field_number_to_name(static_cast<M_Strs::FieldNumber>(n)); }
template<> struct G<M_Strs> { using S = S_Strs; static const MD& md() { return D_Strs; } };

// ---- vs.StrBig
using M_StrBig = ::vs::StrBig;
struct S_StrBig {
  Str<300> s;
  Str<130> b;
  u32 z;
};
static const FD F_StrBig[] = {
  {1u, K_STR, C_PLAIN, 0, 300, (u32)offsetof(S_StrBig, s), (u32)0, (u32)sizeof(Str<300>), nullptr, "s"},
  {2u, K_BYT, C_PLAIN, 0, 130, (u32)offsetof(S_StrBig, b), (u32)0, (u32)sizeof(Str<130>), nullptr, "b"},
  {3u, K_U32, C_PLAIN, 0, 0, (u32)offsetof(S_StrBig, z), (u32)0, (u32)sizeof(u32), nullptr, "z"},
};
static const MD D_StrBig = {F_StrBig, 3, (u32)sizeof(S_StrBig), "StrBig"};
static inline void load(M_StrBig& m, const S_StrBig& s) {
  (void)m; (void)s;
  loadstr(m.mutable_s(), s.s);
  loadstr(m.mutable_b(), s.b);
  m.set_z(from_bits<uint32_t>(s.z));
}
static inline void read(S_StrBig& s, const M_StrBig& m) {
  (void)m; ref_reset(D_StrBig, (u8*)&s);
  readstr(s.s, m.get_s());
  readstr(s.b, m.get_b());
  s.z = to_bits<uint32_t>(m.get_z());
}
static inline void clear_field(M_StrBig& m, u32 k) {
  (void)m; switch (k) {
    case 0: m.clear_s(); break;
    case 1: m.clear_b(); break;
    case 2: m.clear_z(); break;
    default: break;
  }
}
static inline bool set_field(M_StrBig& m, const S_StrBig& s, u32 k, u32 how = 0) {
  (void)m; (void)s; switch (k) {
    case 0: { ::EmbeddedProto::FieldString<300> e; loadstr(e, s.s); if (how == 0) { m.set_s(static_cast<::EmbeddedProto::FieldString<300>&&>(e)); return true; } if (how == 1) { m.set_s(e); return true; } if (how == 2) { loadstr(m.mutable_s(), s.s); return true; } return false; }
    case 1: { ::EmbeddedProto::FieldBytes<130> e; loadstr(e, s.b); if (how == 0) { m.set_b(static_cast<::EmbeddedProto::FieldBytes<130>&&>(e)); return true; } if (how == 1) { m.set_b(e); return true; } if (how == 2) { loadstr(m.mutable_b(), s.b); return true; } return false; }
    case 2: { uint32_t e; e = from_bits<uint32_t>(s.z); if (how == 0) { m.set_z(static_cast<uint32_t&&>(e)); return true; } if (how == 1) { m.set_z(e); return true; } if (how == 2) { m.mutable_z() = e; return true; } return false; }
    default: return false;
  }
}
static inline bool put_at(M_StrBig& m, const S_StrBig& s, u32 k, u32 at, u32 how) {
  (void)m; (void)s; (void)at; (void)how; switch (k) {
    default: return false;
  }
}
static inline void alias_check(const M_StrBig& m, u32 k) {
  (void)m; switch (k) {
    case 0: { sym_assert(m.s() == m.get_s().get_const(), "x() and get_x() differ"); break; }
    case 1: { sym_assert(m.b() == m.get_b().get_const(), "x() and get_x() differ"); break; }
    case 2: { sym_assert(to_bits<uint32_t>(m.z()) == to_bits<uint32_t>(m.get_z()), "x() and get_x() differ"); break; }
    default: break;
  }
}
static inline bool touch_field(M_StrBig& m, u32 k) {
  (void)m; switch (k) {
    case 0: (void)m.mutable_s(); return true;
    case 1: (void)m.mutable_b(); return true;
    case 2: (void)m.mutable_z(); return true;
    default: return false;
  }
}
static inline bool extend_field(M_StrBig& m, u32 k, u32 n) {
  (void)m; (void)n; switch (k) {
    case 0: (void)m.mutable_s().get(n - 1); return true;
    case 1: (void)m.mutable_b().get(n - 1); return true;
    default: return false;
  }
}
static inline void limits(const M_StrBig& m) {
  (void)m;
  static_assert(static_cast<u32>(M_StrBig::FieldNumber::S) == 1u, "number of field s");
  sym_assert(__builtin_strcmp(M_StrBig::S_NAME, "s") == 0, "name constant of field s");
  sym_assert(m.get_s().get_max_length() == 300u, "capacity of field s");
  static_assert(static_cast<u32>(M_StrBig::FieldNumber::B) == 2u, "number of field b");
  sym_assert(__builtin_strcmp(M_StrBig::B_NAME, "b") == 0, "name constant of field b");
  sym_assert(m.get_b().get_max_length() == 130u, "capacity of field b");
  static_assert(static_cast<u32>(M_StrBig::FieldNumber::Z) == 3u, "number of field z");
  sym_assert(__builtin_strcmp(M_StrBig::Z_NAME, "z") == 0, "name constant of field z");
  static_assert(std::is_same<decltype(m.z()), uint32_t>::value, "type of field z");
}
static inline const char* left_out(M_StrBig*, u32 n) { (void)n; return nullptr; }
static inline const char* number_name(M_StrBig*, u32 n) { return M_StrBig::field_number_to_name(static_cast<M_StrBig::FieldNumber>(n)); }
template<> struct G<M_StrBig> { using S = S_StrBig; static const MD& md() { return D_StrBig; } };

// ---- vs.Reps
using M_Reps = ::vs::Reps<2>;
struct S_Reps {
  u32 n_r_int32; u32 r_int32[3];
  u32 n_r_uint64; u64 r_uint64[2];
  u32 n_r_sint32; u32 r_sint32[2];
  u32 n_r_fixed32; u32 r_fixed32[3];
  u32 n_r_sfixed64; u64 r_sfixed64[2];
  u32 n_r_float; u32 r_float[2];
  u32 n_r_double; u64 r_double[2];
  u32 n_r_bool; u32 r_bool[4];
  u32 n_r_enum; u32 r_enum[2];
  u32 n_r_uint32; u32 r_uint32[2];
  u32 n_r_int64; u64 r_int64[2];
  u32 n_r_sint64; u64 r_sint64[2];
  u32 n_r_fixed64; u64 r_fixed64[2];
  u32 n_r_sfixed32; u32 r_sfixed32[2];
};
static const FD F_Reps[] = {
  {1u, K_I32, C_REP, 3, 0, (u32)offsetof(S_Reps, r_int32), (u32)offsetof(S_Reps, n_r_int32), (u32)sizeof(u32), nullptr, "r_int32"},
  {2u, K_U64, C_REP, 2, 0, (u32)offsetof(S_Reps, r_uint64), (u32)offsetof(S_Reps, n_r_uint64), (u32)sizeof(u64), nullptr, "r_uint64"},
  {3u, K_S32, C_REP, 2, 0, (u32)offsetof(S_Reps, r_sint32), (u32)offsetof(S_Reps, n_r_sint32), (u32)sizeof(u32), nullptr, "r_sint32"},
  {4u, K_F32, C_REP, 3, 0, (u32)offsetof(S_Reps, r_fixed32), (u32)offsetof(S_Reps, n_r_fixed32), (u32)sizeof(u32), nullptr, "r_fixed32"},
  {5u, K_SF64, C_REP, 2, 0, (u32)offsetof(S_Reps, r_sfixed64), (u32)offsetof(S_Reps, n_r_sfixed64), (u32)sizeof(u64), nullptr, "r_sfixed64"},
  {6u, K_FLT, C_REP, 2, 0, (u32)offsetof(S_Reps, r_float), (u32)offsetof(S_Reps, n_r_float), (u32)sizeof(u32), nullptr, "r_float"},
  {7u, K_DBL, C_REP, 2, 0, (u32)offsetof(S_Reps, r_double), (u32)offsetof(S_Reps, n_r_double), (u32)sizeof(u64), nullptr, "r_double"},
  {8u, K_BOOL, C_REP, 4, 0, (u32)offsetof(S_Reps, r_bool), (u32)offsetof(S_Reps, n_r_bool), (u32)sizeof(u32), nullptr, "r_bool"},
  {9u, K_ENUM, C_REP, 2, 0, (u32)offsetof(S_Reps, r_enum), (u32)offsetof(S_Reps, n_r_enum), (u32)sizeof(u32), nullptr, "r_enum"},
  {10u, K_U32, C_REP, 2, 0, (u32)offsetof(S_Reps, r_uint32), (u32)offsetof(S_Reps, n_r_uint32), (u32)sizeof(u32), nullptr, "r_uint32"},
  {11u, K_I64, C_REP, 2, 0, (u32)offsetof(S_Reps, r_int64), (u32)offsetof(S_Reps, n_r_int64), (u32)sizeof(u64), nullptr, "r_int64"},
  {12u, K_S64, C_REP, 2, 0, (u32)offsetof(S_Reps, r_sint64), (u32)offsetof(S_Reps, n_r_sint64), (u32)sizeof(u64), nullptr, "r_sint64"},
  {13u, K_F64, C_REP, 2, 0, (u32)offsetof(S_Reps, r_fixed64), (u32)offsetof(S_Reps, n_r_fixed64), (u32)sizeof(u64), nullptr, "r_fixed64"},
  {14u, K_SF32, C_REP, 2, 0, (u32)offsetof(S_Reps, r_sfixed32), (u32)offsetof(S_Reps, n_r_sfixed32), (u32)sizeof(u32), nullptr, "r_sfixed32"},
};
static const MD D_Reps = {F_Reps, 14, (u32)sizeof(S_Reps), "Reps"};
static inline void load(M_Reps& m, const S_Reps& s) {
  (void)m; (void)s;
  for (u32 i = 0; i < s.n_r_int32; i++) m.add_r_int32(from_bits<int32_t>(s.r_int32[i]));
  for (u32 i = 0; i < s.n_r_uint64; i++) m.add_r_uint64(from_bits<uint64_t>(s.r_uint64[i]));
  for (u32 i = 0; i < s.n_r_sint32; i++) m.add_r_sint32(from_bits<int32_t>(s.r_sint32[i]));
  for (u32 i = 0; i < s.n_r_fixed32; i++) m.add_r_fixed32(from_bits<uint32_t>(s.r_fixed32[i]));
  for (u32 i = 0; i < s.n_r_sfixed64; i++) m.add_r_sfixed64(from_bits<int64_t>(s.r_sfixed64[i]));
  for (u32 i = 0; i < s.n_r_float; i++) m.add_r_float(from_bits<float>(s.r_float[i]));
  for (u32 i = 0; i < s.n_r_double; i++) m.add_r_double(from_bits<double>(s.r_double[i]));
  for (u32 i = 0; i < s.n_r_bool; i++) m.add_r_bool(from_bits<bool>(s.r_bool[i]));
  for (u32 i = 0; i < s.n_r_enum; i++) m.add_r_enum(static_cast<::vs::Color>(s.r_enum[i]));
  for (u32 i = 0; i < s.n_r_uint32; i++) m.add_r_uint32(from_bits<uint32_t>(s.r_uint32[i]));
  for (u32 i = 0; i < s.n_r_int64; i++) m.add_r_int64(from_bits<int64_t>(s.r_int64[i]));
  for (u32 i = 0; i < s.n_r_sint64; i++) m.add_r_sint64(from_bits<int64_t>(s.r_sint64[i]));
  for (u32 i = 0; i < s.n_r_fixed64; i++) m.add_r_fixed64(from_bits<uint64_t>(s.r_fixed64[i]));
  for (u32 i = 0; i < s.n_r_sfixed32; i++) m.add_r_sfixed32(from_bits<int32_t>(s.r_sfixed32[i]));
}
static inline void read(S_Reps& s, const M_Reps& m) {
  (void)m; ref_reset(D_Reps, (u8*)&s);
  s.n_r_int32 = m.get_r_int32().get_length(); CHECK_CAP(s.n_r_int32, 3); for (u32 i = 0; i < s.n_r_int32; i++) { s.r_int32[i] = to_bits<int32_t>(m.get_r_int32().get_const(i).get()); }
  s.n_r_uint64 = m.get_r_uint64().get_length(); CHECK_CAP(s.n_r_uint64, 2); for (u32 i = 0; i < s.n_r_uint64; i++) { s.r_uint64[i] = to_bits<uint64_t>(m.get_r_uint64().get_const(i).get()); }
  s.n_r_sint32 = m.get_r_sint32().get_length(); CHECK_CAP(s.n_r_sint32, 2); for (u32 i = 0; i < s.n_r_sint32; i++) { s.r_sint32[i] = to_bits<int32_t>(m.get_r_sint32().get_const(i).get()); }
  s.n_r_fixed32 = m.get_r_fixed32().get_length(); CHECK_CAP(s.n_r_fixed32, 3); for (u32 i = 0; i < s.n_r_fixed32; i++) { s.r_fixed32[i] = to_bits<uint32_t>(m.get_r_fixed32().get_const(i).get()); }
  s.n_r_sfixed64 = m.get_r_sfixed64().get_length(); CHECK_CAP(s.n_r_sfixed64, 2); for (u32 i = 0; i < s.n_r_sfixed64; i++) { s.r_sfixed64[i] = to_bits<int64_t>(m.get_r_sfixed64().get_const(i).get()); }
  s.n_r_float = m.get_r_float().get_length(); CHECK_CAP(s.n_r_float, 2); for (u32 i = 0; i < s.n_r_float; i++) { s.r_float[i] = to_bits<float>(m.get_r_float().get_const(i).get()); }
  s.n_r_double = m.get_r_double().get_length(); CHECK_CAP(s.n_r_double, 2); for (u32 i = 0; i < s.n_r_double; i++) { s.r_double[i] = to_bits<double>(m.get_r_double().get_const(i).get()); }
  s.n_r_bool = m.get_r_bool().get_length(); CHECK_CAP(s.n_r_bool, 4); for (u32 i = 0; i < s.n_r_bool; i++) { s.r_bool[i] = to_bits<bool>(m.get_r_bool().get_const(i).get()); }
  s.n_r_enum = m.get_r_enum().get_length(); CHECK_CAP(s.n_r_enum, 2); for (u32 i = 0; i < s.n_r_enum; i++) { s.r_enum[i] = static_cast<u32>(m.get_r_enum().get_const(i).get()); }
  s.n_r_uint32 = m.get_r_uint32().get_length(); CHECK_CAP(s.n_r_uint32, 2); for (u32 i = 0; i < s.n_r_uint32; i++) { s.r_uint32[i] = to_bits<uint32_t>(m.get_r_uint32().get_const(i).get()); }
  s.n_r_int64 = m.get_r_int64().get_length(); CHECK_CAP(s.n_r_int64, 2); for (u32 i = 0; i < s.n_r_int64; i++) { s.r_int64[i] = to_bits<int64_t>(m.get_r_int64().get_const(i).get()); }
  s.n_r_sint64 = m.get_r_sint64().get_length(); CHECK_CAP(s.n_r_sint64, 2); for (u32 i = 0; i < s.n_r_sint64; i++) { s.r_sint64[i] = to_bits<int64_t>(m.get_r_sint64().get_const(i).get()); }
  s.n_r_fixed64 = m.get_r_fixed64().get_length(); CHECK_CAP(s.n_r_fixed64, 2); for (u32 i = 0; i < s.n_r_fixed64; i++) { s.r_fixed64[i] = to_bits<uint64_t>(m.get_r_fixed64().get_const(i).get()); }
  s.n_r_sfixed32 = m.get_r_sfixed32().get_length(); CHECK_CAP(s.n_r_sfixed32, 2); for (u32 i = 0; i < s.n_r_sfixed32; i++) { s.r_sfixed32[i] = to_bits<int32_t>(m.get_r_sfixed32().get_const(i).get()); }
}
static inline void clear_field(M_Reps& m, u32 k) {
  (void)m; switch (k) {
    case 0: m.clear_r_int32(); break;
    case 1: m.clear_r_uint64(); break;
    case 2: m.clear_r_sint32(); break;
    case 3: m.clear_r_fixed32(); break;
    case 4: m.clear_r_sfixed64(); break;
    case 5: m.clear_r_float(); break;
    case 6: m.clear_r_double(); break;
    case 7: m.clear_r_bool(); break;
    case 8: m.clear_r_enum(); break;
    case 9: m.clear_r_uint32(); break;
    case 10: m.clear_r_int64(); break;
    case 11: m.clear_r_sint64(); break;
    case 12: m.clear_r_fixed64(); break;
    case 13: m.clear_r_sfixed32(); break;
    default: break;
  }
}
static inline bool set_field(M_Reps& m, const S_Reps& s, u32 k, u32 how = 0) {
  (void)m; (void)s; switch (k) {
    case 0: { if (how == 3) { ::EmbeddedProto::RepeatedFieldFixedSize<::EmbeddedProto::int32, 3> a; for (u32 i = 0; i < s.n_r_int32; i++) { int32_t e; e = from_bits<int32_t>(s.r_int32[i]); a.add(e); } m.set_r_int32(a); return true; } for (u32 i = 0; i < s.n_r_int32; i++) { int32_t e; e = from_bits<int32_t>(s.r_int32[i]); ::EmbeddedProto::int32 c; c = e; if (how == 0) m.set_r_int32(i, static_cast<::EmbeddedProto::int32&&>(c)); else if (how == 1) m.set_r_int32(i, c); else if (how == 2) m.mutable_r_int32(i) = c; else return false; } return true; }
    case 1: { if (how == 3) { ::EmbeddedProto::RepeatedFieldFixedSize<::EmbeddedProto::uint64, 2> a; for (u32 i = 0; i < s.n_r_uint64; i++) { uint64_t e; e = from_bits<uint64_t>(s.r_uint64[i]); a.add(e); } m.set_r_uint64(a); return true; } for (u32 i = 0; i < s.n_r_uint64; i++) { uint64_t e; e = from_bits<uint64_t>(s.r_uint64[i]); ::EmbeddedProto::uint64 c; c = e; if (how == 0) m.set_r_uint64(i, static_cast<::EmbeddedProto::uint64&&>(c)); else if (how == 1) m.set_r_uint64(i, c); else if (how == 2) m.mutable_r_uint64(i) = c; else return false; } return true; }
    case 2: { if (how == 3) { ::EmbeddedProto::RepeatedFieldFixedSize<::EmbeddedProto::sint32, 2> a; for (u32 i = 0; i < s.n_r_sint32; i++) { int32_t e; e = from_bits<int32_t>(s.r_sint32[i]); a.add(e); } m.set_r_sint32(a); return true; } for (u32 i = 0; i < s.n_r_sint32; i++) { int32_t e; e = from_bits<int32_t>(s.r_sint32[i]); ::EmbeddedProto::sint32 c; c = e; if (how == 0) m.set_r_sint32(i, static_cast<::EmbeddedProto::sint32&&>(c)); else if (how == 1) m.set_r_sint32(i, c); else if (how == 2) m.mutable_r_sint32(i) = c; else return false; } return true; }
    case 3: { if (how == 3) { ::EmbeddedProto::RepeatedFieldFixedSize<::EmbeddedProto::fixed32, 3> a; for (u32 i = 0; i < s.n_r_fixed32; i++) { uint32_t e; e = from_bits<uint32_t>(s.r_fixed32[i]); a.add(e); } m.set_r_fixed32(a); return true; } for (u32 i = 0; i < s.n_r_fixed32; i++) { uint32_t e; e = from_bits<uint32_t>(s.r_fixed32[i]); ::EmbeddedProto::fixed32 c; c = e; if (how == 0) m.set_r_fixed32(i, static_cast<::EmbeddedProto::fixed32&&>(c)); else if (how == 1) m.set_r_fixed32(i, c); else if (how == 2) m.mutable_r_fixed32(i) = c; else return false; } return true; }
    case 4: { if (how == 3) { ::EmbeddedProto::RepeatedFieldFixedSize<::EmbeddedProto::sfixed64, 2> a; for (u32 i = 0; i < s.n_r_sfixed64; i++) { int64_t e; e = from_bits<int64_t>(s.r_sfixed64[i]); a.add(e); } m.set_r_sfixed64(a); return true; } for (u32 i = 0; i < s.n_r_sfixed64; i++) { int64_t e; e = from_bits<int64_t>(s.r_sfixed64[i]); ::EmbeddedProto::sfixed64 c; c = e; if (how == 0) m.set_r_sfixed64(i, static_cast<::EmbeddedProto::sfixed64&&>(c)); else if (how == 1) m.set_r_sfixed64(i, c); else if (how == 2) m.mutable_r_sfixed64(i) = c; else return false; } return true; }
    case 5: { if (how == 3) { ::EmbeddedProto::RepeatedFieldFixedSize<::EmbeddedProto::floatfixed, 2> a; for (u32 i = 0; i < s.n_r_float; i++) { float e; e = from_bits<float>(s.r_float[i]); a.add(e); } m.set_r_float(a); return true; } for (u32 i = 0; i < s.n_r_float; i++) { float e; e = from_bits<float>(s.r_float[i]); ::EmbeddedProto::floatfixed c; c = e; if (how == 0) m.set_r_float(i, static_cast<::EmbeddedProto::floatfixed&&>(c)); else if (how == 1) m.set_r_float(i, c); else if (how == 2) m.mutable_r_float(i) = c; else return false; } return true; }
    case 6: { if (how == 3) { ::EmbeddedProto::RepeatedFieldFixedSize<::EmbeddedProto::doublefixed, 2> a; for (u32 i = 0; i < s.n_r_double; i++) { double e; e = from_bits<double>(s.r_double[i]); a.add(e); } m.set_r_double(a); return true; } for (u32 i = 0; i < s.n_r_double; i++) { double e; e = from_bits<double>(s.r_double[i]); ::EmbeddedProto::doublefixed c; c = e; if (how == 0) m.set_r_double(i, static_cast<::EmbeddedProto::doublefixed&&>(c)); else if (how == 1) m.set_r_double(i, c); else if (how == 2) m.mutable_r_double(i) = c; else return false; } return true; }
    case 7: { if (how == 3) { ::EmbeddedProto::RepeatedFieldFixedSize<::EmbeddedProto::boolean, 4> a; for (u32 i = 0; i < s.n_r_bool; i++) { bool e; e = from_bits<bool>(s.r_bool[i]); a.add(e); } m.set_r_bool(a); return true; } for (u32 i = 0; i < s.n_r_bool; i++) { bool e; e = from_bits<bool>(s.r_bool[i]); ::EmbeddedProto::boolean c; c = e; if (how == 0) m.set_r_bool(i, static_cast<::EmbeddedProto::boolean&&>(c)); else if (how == 1) m.set_r_bool(i, c); else if (how == 2) m.mutable_r_bool(i) = c; else return false; } return true; }
    case 8: { if (how == 3) { ::EmbeddedProto::RepeatedFieldFixedSize<::EmbeddedProto::enumeration<::vs::Color>, 2> a; for (u32 i = 0; i < s.n_r_enum; i++) { ::vs::Color e; e = static_cast<::vs::Color>(s.r_enum[i]); a.add(e); } m.set_r_enum(a); return true; } for (u32 i = 0; i < s.n_r_enum; i++) { ::vs::Color e; e = static_cast<::vs::Color>(s.r_enum[i]); ::EmbeddedProto::enumeration<::vs::Color> c; c = e; if (how == 0) m.set_r_enum(i, static_cast<::EmbeddedProto::enumeration<::vs::Color>&&>(c)); else if (how == 1) m.set_r_enum(i, c); else if (how == 2) m.mutable_r_enum(i) = c; else return false; } return true; }
    case 9: { if (how == 3) { ::EmbeddedProto::RepeatedFieldFixedSize<::EmbeddedProto::uint32, 2> a; for (u32 i = 0; i < s.n_r_uint32; i++) { uint32_t e; e = from_bits<uint32_t>(s.r_uint32[i]); a.add(e); } m.set_r_uint32(a); return true; } for (u32 i = 0; i < s.n_r_uint32; i++) { uint32_t e; e = from_bits<uint32_t>(s.r_uint32[i]); ::EmbeddedProto::uint32 c; c = e; if (how == 0) m.set_r_uint32(i, static_cast<::EmbeddedProto::uint32&&>(c)); else if (how == 1) m.set_r_uint32(i, c); else if (how == 2) m.mutable_r_uint32(i) = c; else return false; } return true; }
    case 10: { if (how == 3) { ::EmbeddedProto::RepeatedFieldFixedSize<::EmbeddedProto::int64, 2> a; for (u32 i = 0; i < s.n_r_int64; i++) { int64_t e; e = from_bits<int64_t>(s.r_int64[i]); a.add(e); } m.set_r_int64(a); return true; } for (u32 i = 0; i < s.n_r_int64; i++) { int64_t e; e = from_bits<int64_t>(s.r_int64[i]); ::EmbeddedProto::int64 c; c = e; if (how == 0) m.set_r_int64(i, static_cast<::EmbeddedProto::int64&&>(c)); else if (how == 1) m.set_r_int64(i, c); else if (how == 2) m.mutable_r_int64(i) = c; else return false; } return true; }
    case 11: { if (how == 3) { ::EmbeddedProto::RepeatedFieldFixedSize<::EmbeddedProto::sint64, 2> a; for (u32 i = 0; i < s.n_r_sint64; i++) { int64_t e; e = from_bits<int64_t>(s.r_sint64[i]); a.add(e); } m.set_r_sint64(a); return true; } for (u32 i = 0; i < s.n_r_sint64; i++) { int64_t e; e = from_bits<int64_t>(s.r_sint64[i]); ::EmbeddedProto::sint64 c; c = e; if (how == 0) m.set_r_sint64(i, static_cast<::EmbeddedProto::sint64&&>(c)); else if (how == 1) m.set_r_sint64(i, c); else if (how == 2) m.mutable_r_sint64(i) = c; else return false; } return true; }
    case 12: { if (how == 3) { ::EmbeddedProto::RepeatedFieldFixedSize<::EmbeddedProto::fixed64, 2> a; for (u32 i = 0; i < s.n_r_fixed64; i++) { uint64_t e; e = from_bits<uint64_t>(s.r_fixed64[i]); a.add(e); } m.set_r_fixed64(a); return true; } for (u32 i = 0; i < s.n_r_fixed64; i++) { uint64_t e; e = from_bits<uint64_t>(s.r_fixed64[i]); ::EmbeddedProto::fixed64 c; c = e; if (how == 0) m.set_r_fixed64(i, static_cast<::EmbeddedProto::fixed64&&>(c)); else if (how == 1) m.set_r_fixed64(i, c); else if (how == 2) m.mutable_r_fixed64(i) = c; else return false; } return true; }
    case 13: { if (how == 3) { ::EmbeddedProto::RepeatedFieldFixedSize<::EmbeddedProto::sfixed32, 2> a; for (u32 i = 0; i < s.n_r_sfixed32; i++) { int32_t e; e = from_bits<int32_t>(s.r_sfixed32[i]); a.add(e); } m.set_r_sfixed32(a); return true; } for (u32 i = 0; i < s.n_r_sfixed32; i++) { int32_t e; e = from_bits<int32_t>(s.r_sfixed32[i]); ::EmbeddedProto::sfixed32 c; c = e; if (how == 0) m.set_r_sfixed32(i, static_cast<::EmbeddedProto::sfixed32&&>(c)); else if (how == 1) m.set_r_sfixed32(i, c); else if (how == 2) m.mutable_r_sfixed32(i) = c; else return false; } return true; }
    default: return false;
  }
}
static inline bool put_at(M_Reps& m, const S_Reps& s, u32 k, u32 at, u32 how) {
  (void)m; (void)s; (void)at; (void)how; switch (k) {
    case 0: { ::EmbeddedProto::int32 e; e = from_bits<int32_t>(s.r_int32[0]); if (how == 0) m.set_r_int32(at, static_cast<::EmbeddedProto::int32&&>(e)); else if (how == 1) m.set_r_int32(at, e); else if (how == 2) m.mutable_r_int32(at) = e; else if (how == 3) m.mutable_r_int32().set(at, e); else if (how == 4) m.mutable_r_int32()[at] = e; else if (how == 5) m.add_r_int32(e); else m.mutable_r_int32().add(e); return true; }
    case 1: { ::EmbeddedProto::uint64 e; e = from_bits<uint64_t>(s.r_uint64[0]); if (how == 0) m.set_r_uint64(at, static_cast<::EmbeddedProto::uint64&&>(e)); else if (how == 1) m.set_r_uint64(at, e); else if (how == 2) m.mutable_r_uint64(at) = e; else if (how == 3) m.mutable_r_uint64().set(at, e); else if (how == 4) m.mutable_r_uint64()[at] = e; else if (how == 5) m.add_r_uint64(e); else m.mutable_r_uint64().add(e); return true; }
    case 2: { ::EmbeddedProto::sint32 e; e = from_bits<int32_t>(s.r_sint32[0]); if (how == 0) m.set_r_sint32(at, static_cast<::EmbeddedProto::sint32&&>(e)); else if (how == 1) m.set_r_sint32(at, e); else if (how == 2) m.mutable_r_sint32(at) = e; else if (how == 3) m.mutable_r_sint32().set(at, e); else if (how == 4) m.mutable_r_sint32()[at] = e; else if (how == 5) m.add_r_sint32(e); else m.mutable_r_sint32().add(e); return true; }
    case 3: { ::EmbeddedProto::fixed32 e; e = from_bits<uint32_t>(s.r_fixed32[0]); if (how == 0) m.set_r_fixed32(at, static_cast<::EmbeddedProto::fixed32&&>(e)); else if (how == 1) m.set_r_fixed32(at, e); else if (how == 2) m.mutable_r_fixed32(at) = e; else if (how == 3) m.mutable_r_fixed32().set(at, e); else if (how == 4) m.mutable_r_fixed32()[at] = e; else if (how == 5) m.add_r_fixed32(e); else m.mutable_r_fixed32().add(e); return true; }
    case 4: { ::EmbeddedProto::sfixed64 e; e = from_bits<int64_t>(s.r_sfixed64[0]); if (how == 0) m.set_r_sfixed64(at, static_cast<::EmbeddedProto::sfixed64&&>(e)); else if (how == 1) m.set_r_sfixed64(at, e); else if (how == 2) m.mutable_r_sfixed64(at) = e; else if (how == 3) m.mutable_r_sfixed64().set(at, e); else if (how == 4) m.mutable_r_sfixed64()[at] = e; else if (how == 5) m.add_r_sfixed64(e); else m.mutable_r_sfixed64().add(e); return true; }
    case 5: { ::EmbeddedProto::floatfixed e; e = from_bits<float>(s.r_float[0]); if (how == 0) m.set_r_float(at, static_cast<::EmbeddedProto::floatfixed&&>(e)); else if (how == 1) m.set_r_float(at, e); else if (how == 2) m.mutable_r_float(at) = e; else if (how == 3) m.mutable_r_float().set(at, e); else if (how == 4) m.mutable_r_float()[at] = e; else if (how == 5) m.add_r_float(e); else m.mutable_r_float().add(e); return true; }
    case 6: { ::EmbeddedProto::doublefixed e; e = from_bits<double>(s.r_double[0]); if (how == 0) m.set_r_double(at, static_cast<::EmbeddedProto::doublefixed&&>(e)); else if (how == 1) m.set_r_double(at, e); else if (how == 2) m.mutable_r_double(at) = e; else if (how == 3) m.mutable_r_double().set(at, e); else if (how == 4) m.mutable_r_double()[at] = e; else if (how == 5) m.add_r_double(e); else m.mutable_r_double().add(e); return true; }
    case 7: { ::EmbeddedProto::boolean e; e = from_bits<bool>(s.r_bool[0]); if (how == 0) m.set_r_bool(at, static_cast<::EmbeddedProto::boolean&&>(e)); else if (how == 1) m.set_r_bool(at, e); else if (how == 2) m.mutable_r_bool(at) = e; else if (how == 3) m.mutable_r_bool().set(at, e); else if (how == 4) m.mutable_r_bool()[at] = e; else if (how == 5) m.add_r_bool(e); else m.mutable_r_bool().add(e); return true; }
    case 8: { ::EmbeddedProto::enumeration<::vs::Color> e; e = static_cast<::vs::Color>(s.r_enum[0]); if (how == 0) m.set_r_enum(at, static_cast<::EmbeddedProto::enumeration<::vs::Color>&&>(e)); else if (how == 1) m.set_r_enum(at, e); else if (how == 2) m.mutable_r_enum(at) = e; else if (how == 3) m.mutable_r_enum().set(at, e); else if (how == 4) m.mutable_r_enum()[at] = e; else if (how == 5) m.add_r_enum(e); else m.mutable_r_enum().add(e); return true; }
    case 9: { ::EmbeddedProto::uint32 e; e = from_bits<uint32_t>(s.r_uint32[0]); if (how == 0) m.set_r_uint32(at, static_cast<::EmbeddedProto::uint32&&>(e)); else if (how == 1) m.set_r_uint32(at, e); else if (how == 2) m.mutable_r_uint32(at) = e; else if (how == 3) m.mutable_r_uint32().set(at, e); else if (how == 4) m.mutable_r_uint32()[at] = e; else if (how == 5) m.add_r_uint32(e); else m.mutable_r_uint32().add(e); return true; }
    case 10: { ::EmbeddedProto::int64 e; e = from_bits<int64_t>(s.r_int64[0]); if (how == 0) m.set_r_int64(at, static_cast<::EmbeddedProto::int64&&>(e)); else if (how == 1) m.set_r_int64(at, e); else if (how == 2) m.mutable_r_int64(at) = e; else if (how == 3) m.mutable_r_int64().set(at, e); else if (how == 4) m.mutable_r_int64()[at] = e; else if (how == 5) m.add_r_int64(e); else m.mutable_r_int64().add(e); return true; }
    case 11: { ::EmbeddedProto::sint64 e; e = from_bits<int64_t>(s.r_sint64[0]); if (how == 0) m.set_r_sint64(at, static_cast<::EmbeddedProto::sint64&&>(e)); else if (how == 1) m.set_r_sint64(at, e); else if (how == 2) m.mutable_r_sint64(at) = e; else if (how == 3) m.mutable_r_sint64().set(at, e); else if (how == 4) m.mutable_r_sint64()[at] = e; else if (how == 5) m.add_r_sint64(e); else m.mutable_r_sint64().add(e); return true; }
    case 12: { ::EmbeddedProto::fixed64 e; e = from_bits<uint64_t>(s.r_fixed64[0]); if (how == 0) m.set_r_fixed64(at, static_cast<::EmbeddedProto::fixed64&&>(e)); else if (how == 1) m.set_r_fixed64(at, e); else if (how == 2) m.mutable_r_fixed64(at) = e; else if (how == 3) m.mutable_r_fixed64().set(at, e); else if (how == 4) m.mutable_r_fixed64()[at] = e; else if (how == 5) m.add_r_fixed64(e); else m.mutable_r_fixed64().add(e); return true; }
    case 13: { ::EmbeddedProto::sfixed32 e; e = from_bits<int32_t>(s.r_sfixed32[0]); if (how == 0) m.set_r_sfixed32(at, static_cast<::EmbeddedProto::sfixed32&&>(e)); else if (how == 1) m.set_r_sfixed32(at, e); else if (how == 2) m.mutable_r_sfixed32(at) = e; else if (how == 3) m.mutable_r_sfixed32().set(at, e); else if (how == 4) m.mutable_r_sfixed32()[at] = e; else if (how == 5) m.add_r_sfixed32(e); else m.mutable_r_sfixed32().add(e); return true; }
    default: return false;
  }
}
static inline void alias_check(const M_Reps& m, u32 k) {
  (void)m; switch (k) {
    case 0: { sym_assert(&m.r_int32() == &m.get_r_int32(), "x() and get_x() differ"); for (u32 i = 0; i < m.get_r_int32().get_length(); i++) sym_assert(&m.r_int32(i) == &m.get_r_int32().get_const(i), "x(i) is not the element of the array"); break; }
    case 1: { sym_assert(&m.r_uint64() == &m.get_r_uint64(), "x() and get_x() differ"); for (u32 i = 0; i < m.get_r_uint64().get_length(); i++) sym_assert(&m.r_uint64(i) == &m.get_r_uint64().get_const(i), "x(i) is not the element of the array"); break; }
    case 2: { sym_assert(&m.r_sint32() == &m.get_r_sint32(), "x() and get_x() differ"); for (u32 i = 0; i < m.get_r_sint32().get_length(); i++) sym_assert(&m.r_sint32(i) == &m.get_r_sint32().get_const(i), "x(i) is not the element of the array"); break; }
    case 3: { sym_assert(&m.r_fixed32() == &m.get_r_fixed32(), "x() and get_x() differ"); for (u32 i = 0; i < m.get_r_fixed32().get_length(); i++) sym_assert(&m.r_fixed32(i) == &m.get_r_fixed32().get_const(i), "x(i) is not the element of the array"); break; }
    case 4: { sym_assert(&m.r_sfixed64() == &m.get_r_sfixed64(), "x() and get_x() differ"); for (u32 i = 0; i < m.get_r_sfixed64().get_length(); i++) sym_assert(&m.r_sfixed64(i) == &m.get_r_sfixed64().get_const(i), "x(i) is not the element of the array"); break; }
    case 5: { sym_assert(&m.r_float() == &m.get_r_float(), "x() and get_x() differ"); for (u32 i = 0; i < m.get_r_float().get_length(); i++) sym_assert(&m.r_float(i) == &m.get_r_float().get_const(i), "x(i) is not the element of the array"); break; }
    case 6: { sym_assert(&m.r_double() == &m.get_r_double(), "x() and get_x() differ"); for (u32 i = 0; i < m.get_r_double().get_length(); i++) sym_assert(&m.r_double(i) == &m.get_r_double().get_const(i), "x(i) is not the element of the array"); break; }
    case 7: { sym_assert(&m.r_bool() == &m.get_r_bool(), "x() and get_x() differ"); for (u32 i = 0; i < m.get_r_bool().get_length(); i++) sym_assert(&m.r_bool(i) == &m.get_r_bool().get_const(i), "x(i) is not the element of the array"); break; }
    case 8: { sym_assert(&m.r_enum() == &m.get_r_enum(), "x() and get_x() differ"); for (u32 i = 0; i < m.get_r_enum().get_length(); i++) sym_assert(&m.r_enum(i) == &m.get_r_enum().get_const(i), "x(i) is not the element of the array"); break; }
    case 9: { sym_assert(&m.r_uint32() == &m.get_r_uint32(), "x() and get_x() differ"); for (u32 i = 0; i < m.get_r_uint32().get_length(); i++) sym_assert(&m.r_uint32(i) == &m.get_r_uint32().get_const(i), "x(i) is not the element of the array"); break; }
    case 10: { sym_assert(&m.r_int64() == &m.get_r_int64(), "x() and get_x() differ"); for (u32 i = 0; i < m.get_r_int64().get_length(); i++) sym_assert(&m.r_int64(i) == &m.get_r_int64().get_const(i), "x(i) is not the element of the array"); break; }
    case 11: { sym_assert(&m.r_sint64() == &m.get_r_sint64(), "x() and get_x() differ"); for (u32 i = 0; i < m.get_r_sint64().get_length(); i++) sym_assert(&m.r_sint64(i) == &m.get_r_sint64().get_const(i), "x(i) is not the element of the array"); break; }
    case 12: { sym_assert(&m.r_fixed64() == &m.get_r_fixed64(), "x() and get_x() differ"); for (u32 i = 0; i < m.get_r_fixed64().get_length(); i++) sym_assert(&m.r_fixed64(i) == &m.get_r_fixed64().get_const(i), "x(i) is not the element of the array"); break; }
    case 13: { sym_assert(&m.r_sfixed32() == &m.get_r_sfixed32(), "x() and get_x() differ"); for (u32 i = 0; i < m.get_r_sfixed32().get_length(); i++) sym_assert(&m.r_sfixed32(i) == &m.get_r_sfixed32().get_const(i), "x(i) is not the element of the array"); break; }
    default: break;
  }
}
static inline bool touch_field(M_Reps& m, u32 k) {
  (void)m; switch (k) {
    case 0: (void)m.mutable_r_int32(); return true;
    case 1: (void)m.mutable_r_uint64(); return true;
    case 2: (void)m.mutable_r_sint32(); return true;
    case 3: (void)m.mutable_r_fixed32(); return true;
    case 4: (void)m.mutable_r_sfixed64(); return true;
    case 5: (void)m.mutable_r_float(); return true;
    case 6: (void)m.mutable_r_double(); return true;
    case 7: (void)m.mutable_r_bool(); return true;
    case 8: (void)m.mutable_r_enum(); return true;
    case 9: (void)m.mutable_r_uint32(); return true;
    case 10: (void)m.mutable_r_int64(); return true;
    case 11: (void)m.mutable_r_sint64(); return true;
    case 12: (void)m.mutable_r_fixed64(); return true;
    case 13: (void)m.mutable_r_sfixed32(); return true;
    default: return false;
  }
}
static inline bool extend_field(M_Reps& m, u32 k, u32 n) {
  (void)m; (void)n; switch (k) {
    case 0: (void)m.mutable_r_int32(n - 1); return true;
    case 1: (void)m.mutable_r_uint64(n - 1); return true;
    case 2: (void)m.mutable_r_sint32(n - 1); return true;
    case 3: (void)m.mutable_r_fixed32(n - 1); return true;
    case 4: (void)m.mutable_r_sfixed64(n - 1); return true;
    case 5: (void)m.mutable_r_float(n - 1); return true;
    case 6: (void)m.mutable_r_double(n - 1); return true;
    case 7: (void)m.mutable_r_bool(n - 1); return true;
    case 8: (void)m.mutable_r_enum(n - 1); return true;
    case 9: (void)m.mutable_r_uint32(n - 1); return true;
    case 10: (void)m.mutable_r_int64(n - 1); return true;
    case 11: (void)m.mutable_r_sint64(n - 1); return true;
    case 12: (void)m.mutable_r_fixed64(n - 1); return true;
    case 13: (void)m.mutable_r_sfixed32(n - 1); return true;
    default: return false;
  }
}
static inline void limits(const M_Reps& m) {
  (void)m;
  static_assert(static_cast<u32>(M_Reps::FieldNumber::R_INT32) == 1u, "number of field r_int32");
  sym_assert(__builtin_strcmp(M_Reps::R_INT32_NAME, "r_int32") == 0, "name constant of field r_int32");
  sym_assert(m.get_r_int32().get_max_length() == 3u, "capacity of field r_int32");
  static_assert(static_cast<u32>(M_Reps::FieldNumber::R_UINT64) == 2u, "number of field r_uint64");
  sym_assert(__builtin_strcmp(M_Reps::R_UINT64_NAME, "r_uint64") == 0, "name constant of field r_uint64");
  sym_assert(m.get_r_uint64().get_max_length() == 2u, "capacity of field r_uint64");
  static_assert(static_cast<u32>(M_Reps::FieldNumber::R_SINT32) == 3u, "number of field r_sint32");
  sym_assert(__builtin_strcmp(M_Reps::R_SINT32_NAME, "r_sint32") == 0, "name constant of field r_sint32");
  sym_assert(m.get_r_sint32().get_max_length() == 2u, "capacity of field r_sint32");
  static_assert(static_cast<u32>(M_Reps::FieldNumber::R_FIXED32) == 4u, "number of field r_fixed32");
  sym_assert(__builtin_strcmp(M_Reps::R_FIXED32_NAME, "r_fixed32") == 0, "name constant of field r_fixed32");
  sym_assert(m.get_r_fixed32().get_max_length() == 3u, "capacity of field r_fixed32");
  static_assert(static_cast<u32>(M_Reps::FieldNumber::R_SFIXED64) == 5u, "number of field r_sfixed64");
  sym_assert(__builtin_strcmp(M_Reps::R_SFIXED64_NAME, "r_sfixed64") == 0, "name constant of field r_sfixed64");
  sym_assert(m.get_r_sfixed64().get_max_length() == 2u, "capacity of field r_sfixed64");
  static_assert(static_cast<u32>(M_Reps::FieldNumber::R_FLOAT) == 6u, "number of field r_float");
  sym_assert(__builtin_strcmp(M_Reps::R_FLOAT_NAME, "r_float") == 0, "name constant of field r_float");
  sym_assert(m.get_r_float().get_max_length() == 2u, "capacity of field r_float");
  static_assert(static_cast<u32>(M_Reps::FieldNumber::R_DOUBLE) == 7u, "number of field r_double");
  sym_assert(__builtin_strcmp(M_Reps::R_DOUBLE_NAME, "r_double") == 0, "name constant of field r_double");
  sym_assert(m.get_r_double().get_max_length() == 2u, "capacity of field r_double");
  static_assert(static_cast<u32>(M_Reps::FieldNumber::R_BOOL) == 8u, "number of field r_bool");
  sym_assert(__builtin_strcmp(M_Reps::R_BOOL_NAME, "r_bool") == 0, "name constant of field r_bool");
  sym_assert(m.get_r_bool().get_max_length() == 4u, "capacity of field r_bool");
  static_assert(static_cast<u32>(M_Reps::FieldNumber::R_ENUM) == 9u, "number of field r_enum");
  sym_assert(__builtin_strcmp(M_Reps::R_ENUM_NAME, "r_enum") == 0, "name constant of field r_enum");
  sym_assert(m.get_r_enum().get_max_length() == 2u, "capacity of field r_enum");
  static_assert(static_cast<u32>(M_Reps::FieldNumber::R_UINT32) == 10u, "number of field r_uint32");
  sym_assert(__builtin_strcmp(M_Reps::R_UINT32_NAME, "r_uint32") == 0, "name constant of field r_uint32");
  sym_assert(m.get_r_uint32().get_max_length() == 2u, "capacity of field r_uint32");
  static_assert(static_cast<u32>(M_Reps::FieldNumber::R_INT64) == 11u, "number of field r_int64");
  sym_assert(__builtin_strcmp(M_Reps::R_INT64_NAME, "r_int64") == 0, "name constant of field r_int64");
  sym_assert(m.get_r_int64().get_max_length() == 2u, "capacity of field r_int64");
  static_assert(static_cast<u32>(M_Reps::FieldNumber::R_SINT64) == 12u, "number of field r_sint64");
  sym_assert(__builtin_strcmp(M_Reps::R_SINT64_NAME, "r_sint64") == 0, "name constant of field r_sint64");
  sym_assert(m.get_r_sint64().get_max_length() == 2u, "capacity of field r_sint64");
  static_assert(static_cast<u32>(M_Reps::FieldNumber::R_FIXED64) == 13u, "number of field r_fixed64");
  sym_assert(__builtin_strcmp(M_Reps::R_FIXED64_NAME, "r_fixed64") == 0, "name constant of field r_fixed64");
  sym_assert(m.get_r_fixed64().get_max_length() == 2u, "capacity of field r_fixed64");
  static_assert(static_cast<u32>(M_Reps::FieldNumber::R_SFIXED32) == 14u, "number of field r_sfixed32");
  sym_assert(__builtin_strcmp(M_Reps::R_SFIXED32_NAME, "r_sfixed32") == 0, "name constant of field r_sfixed32");
  sym_assert(m.get_r_sfixed32().get_max_length() == 2u, "capacity of field r_sfixed32");
}
static inline const char* left_out(M_Reps*, u32 n) { (void)n; return nullptr; }
static inline const char* number_name(M_Reps*, u32 n) { return M_Reps::field_number_to_name(static_cast<M_Reps::FieldNumber>(n)); }
template<> struct G<M_Reps> { using S = S_Reps; static const MD& md() { return D_Reps; } };

// ---- vs.RepBig
using M_RepBig = ::vs::RepBig;
struct S_RepBig {
  u32 n_r; u32 r[140];
  u32 n_f; u64 f[20];
};
static const FD F_RepBig[] = {
  {1u, K_U32, C_REP, 140, 0, (u32)offsetof(S_RepBig, r), (u32)offsetof(S_RepBig, n_r), (u32)sizeof(u32), nullptr, "r"},
  {2u, K_F64, C_REP, 20, 0, (u32)offsetof(S_RepBig, f), (u32)offsetof(S_RepBig, n_f), (u32)sizeof(u64), nullptr, "f"},
};
static const MD D_RepBig = {F_RepBig, 2, (u32)sizeof(S_RepBig), "RepBig"};
static inline void load(M_RepBig& m, const S_RepBig& s) {
  (void)m; (void)s;
  for (u32 i = 0; i < s.n_r; i++) m.add_r(from_bits<uint32_t>(s.r[i]));
  for (u32 i = 0; i < s.n_f; i++) m.add_f(from_bits<uint64_t>(s.f[i]));
}
static inline void read(S_RepBig& s, const M_RepBig& m) {
  (void)m; ref_reset(D_RepBig, (u8*)&s);
  s.n_r = m.get_r().get_length(); CHECK_CAP(s.n_r, 140); for (u32 i = 0; i < s.n_r; i++) { s.r[i] = to_bits<uint32_t>(m.get_r().get_const(i).get()); }
  s.n_f = m.get_f().get_length(); CHECK_CAP(s.n_f, 20); for (u32 i = 0; i < s.n_f; i++) { s.f[i] = to_bits<uint64_t>(m.get_f().get_const(i).get()); }
}
static inline void clear_field(M_RepBig& m, u32 k) {
  (void)m; switch (k) {
    case 0: m.clear_r(); break;
    case 1: m.clear_f(); break;
    default: break;
  }
}
static inline bool set_field(M_RepBig& m, const S_RepBig& s, u32 k, u32 how = 0) {
  (void)m; (void)s; switch (k) {
    case 0: { if (how == 3) { ::EmbeddedProto::RepeatedFieldFixedSize<::EmbeddedProto::uint32, 140> a; for (u32 i = 0; i < s.n_r; i++) { uint32_t e; e = from_bits<uint32_t>(s.r[i]); a.add(e); } m.set_r(a); return true; } for (u32 i = 0; i < s.n_r; i++) { uint32_t e; e = from_bits<uint32_t>(s.r[i]); ::EmbeddedProto::uint32 c; c = e; if (how == 0) m.set_r(i, static_cast<::EmbeddedProto::uint32&&>(c)); else if (how == 1) m.set_r(i, c); else if (how == 2) m.mutable_r(i) = c; else return false; } return true; }
    case 1: { if (how == 3) { ::EmbeddedProto::RepeatedFieldFixedSize<::EmbeddedProto::fixed64, 20> a; for (u32 i = 0; i < s.n_f; i++) { uint64_t e; e = from_bits<uint64_t>(s.f[i]); a.add(e); } m.set_f(a); return true; } for (u32 i = 0; i < s.n_f; i++) { uint64_t e; e = from_bits<uint64_t>(s.f[i]); ::EmbeddedProto::fixed64 c; c = e; if (how == 0) m.set_f(i, static_cast<::EmbeddedProto::fixed64&&>(c)); else if (how == 1) m.set_f(i, c); else if (how == 2) m.mutable_f(i) = c; else return false; } return true; }
    default: return false;
  }
}
static inline bool put_at(M_RepBig& m, const S_RepBig& s, u32 k, u32 at, u32 how) {
  (void)m; (void)s; (void)at; (void)how; switch (k) {
    case 0: { ::EmbeddedProto::uint32 e; e = from_bits<uint32_t>(s.r[0]); if (how == 0) m.set_r(at, static_cast<::EmbeddedProto::uint32&&>(e)); else if (how == 1) m.set_r(at, e); else if (how == 2) m.mutable_r(at) = e; else if (how == 3) m.mutable_r().set(at, e); else if (how == 4) m.mutable_r()[at] = e; else if (how == 5) m.add_r(e); else m.mutable_r().add(e); return true; }
    case 1: { ::EmbeddedProto::fixed64 e; e = from_bits<uint64_t>(s.f[0]); if (how == 0) m.set_f(at, static_cast<::EmbeddedProto::fixed64&&>(e)); else if (how == 1) m.set_f(at, e); else if (how == 2) m.mutable_f(at) = e; else if (how == 3) m.mutable_f().set(at, e); else if (how == 4) m.mutable_f()[at] = e; else if (how == 5) m.add_f(e); else m.mutable_f().add(e); return true; }
    default: return false;
  }
}
static inline void alias_check(const M_RepBig& m, u32 k) {
  (void)m; switch (k) {
    case 0: { sym_assert(&m.r() == &m.get_r(), "x() and get_x() differ"); for (u32 i = 0; i < m.get_r().get_length(); i++) sym_assert(&m.r(i) == &m.get_r().get_const(i), "x(i) is not the element of the array"); break; }
    case 1: { sym_assert(&m.f() == &m.get_f(), "x() and get_x() differ"); for (u32 i = 0; i < m.get_f().get_length(); i++) sym_assert(&m.f(i) == &m.get_f().get_const(i), "x(i) is not the element of the array"); break; }
    default: break;
  }
}
static inline bool touch_field(M_RepBig& m, u32 k) {
  (void)m; switch (k) {
    case 0: (void)m.mutable_r(); return true;
    case 1: (void)m.mutable_f(); return true;
    default: return false;
  }
}
static inline bool extend_field(M_RepBig& m, u32 k, u32 n) {
  (void)m; (void)n; switch (k) {
    case 0: (void)m.mutable_r(n - 1); return true;
    case 1: (void)m.mutable_f(n - 1); return true;
    default: return false;
  }
}
static inline void limits(const M_RepBig& m) {
  (void)m;
  static_assert(static_cast<u32>(M_RepBig::FieldNumber::R) == 1u, "number of field r");
  sym_assert(__builtin_strcmp(M_RepBig::R_NAME, "r") == 0, "name constant of field r");
  sym_assert(m.get_r().get_max_length() == 140u, "capacity of field r");
  static_assert(static_cast<u32>(M_RepBig::FieldNumber::F) == 2u, "number of field f");
  sym_assert(__builtin_strcmp(M_RepBig::F_NAME, "f") == 0, "name constant of field f");
  sym_assert(m.get_f().get_max_length() == 20u, "capacity of field f");
}
static inline const char* left_out(M_RepBig*, u32 n) { (void)n; return nullptr; }
static inline const char* number_name(M_RepBig*, u32 n) { return M_RepBig::field_number_to_name(static_cast<M_RepBig::FieldNumber>(n)); }
template<> struct G<M_RepBig> { using S = S_RepBig; static const MD& md() { return D_RepBig; } };

// ---- vs.RepMsg
using M_RepMsg = ::vs::RepMsg<2, 3, 2, 3>;
struct S_RepMsg {
  u32 n_pts; S_common_Point pts[2];
  u32 n_strs; Str<3> strs[2];
  u32 n_byts; Str<3> byts[2];
  u32 after;
};
static const FD F_RepMsg[] = {
  {1u, K_MSG, C_REP, 2, 0, (u32)offsetof(S_RepMsg, pts), (u32)offsetof(S_RepMsg, n_pts), (u32)sizeof(S_common_Point), &D_common_Point, "pts"},
  {2u, K_STR, C_REP, 2, 3, (u32)offsetof(S_RepMsg, strs), (u32)offsetof(S_RepMsg, n_strs), (u32)sizeof(Str<3>), nullptr, "strs"},
  {3u, K_BYT, C_REP, 2, 3, (u32)offsetof(S_RepMsg, byts), (u32)offsetof(S_RepMsg, n_byts), (u32)sizeof(Str<3>), nullptr, "byts"},
  {4u, K_U32, C_PLAIN, 0, 0, (u32)offsetof(S_RepMsg, after), (u32)0, (u32)sizeof(u32), nullptr, "after"},
};
static const MD D_RepMsg = {F_RepMsg, 4, (u32)sizeof(S_RepMsg), "RepMsg"};
static inline void load(M_RepMsg& m, const S_RepMsg& s) {
  (void)m; (void)s;
  for (u32 i = 0; i < s.n_pts; i++) { load(m.mutable_pts(i), s.pts[i]); }
  for (u32 i = 0; i < s.n_strs; i++) { loadstr(m.mutable_strs(i), s.strs[i]); }
  for (u32 i = 0; i < s.n_byts; i++) { loadstr(m.mutable_byts(i), s.byts[i]); }
  m.set_after(from_bits<uint32_t>(s.after));
}
static inline void read(S_RepMsg& s, const M_RepMsg& m) {
  (void)m; ref_reset(D_RepMsg, (u8*)&s);
  s.n_pts = m.get_pts().get_length(); CHECK_CAP(s.n_pts, 2); for (u32 i = 0; i < s.n_pts; i++) { read(s.pts[i], m.get_pts().get_const(i)); }
  s.n_strs = m.get_strs().get_length(); CHECK_CAP(s.n_strs, 2); for (u32 i = 0; i < s.n_strs; i++) { readstr(s.strs[i], m.get_strs().get_const(i)); }
  s.n_byts = m.get_byts().get_length(); CHECK_CAP(s.n_byts, 2); for (u32 i = 0; i < s.n_byts; i++) { readstr(s.byts[i], m.get_byts().get_const(i)); }
  s.after = to_bits<uint32_t>(m.get_after());
}
static inline void clear_field(M_RepMsg& m, u32 k) {
  (void)m; switch (k) {
    case 0: m.clear_pts(); break;
    case 1: m.clear_strs(); break;
    case 2: m.clear_byts(); break;
    case 3: m.clear_after(); break;
    default: break;
  }
}
static inline bool set_field(M_RepMsg& m, const S_RepMsg& s, u32 k, u32 how = 0) {
  (void)m; (void)s; switch (k) {
    case 0: { if (how == 3) { ::EmbeddedProto::RepeatedFieldFixedSize<M_common_Point, 2> a; for (u32 i = 0; i < s.n_pts; i++) { M_common_Point e; load(e, s.pts[i]); a.add(e); } m.set_pts(a); return true; } for (u32 i = 0; i < s.n_pts; i++) { M_common_Point e; load(e, s.pts[i]); if (how == 0) m.set_pts(i, static_cast<M_common_Point&&>(e)); else if (how == 1) m.set_pts(i, e); else if (how == 2) m.mutable_pts(i) = e; else return false; } return true; }
    case 1: { if (how == 3) { ::EmbeddedProto::RepeatedFieldFixedSize<::EmbeddedProto::FieldString<3>, 2> a; for (u32 i = 0; i < s.n_strs; i++) { ::EmbeddedProto::FieldString<3> e; loadstr(e, s.strs[i]); a.add(e); } m.set_strs(a); return true; } for (u32 i = 0; i < s.n_strs; i++) { ::EmbeddedProto::FieldString<3> e; loadstr(e, s.strs[i]); if (how == 0) m.set_strs(i, static_cast<::EmbeddedProto::FieldString<3>&&>(e)); else if (how == 1) m.set_strs(i, e); else if (how == 2) m.mutable_strs(i) = e; else return false; } return true; }
    case 2: { if (how == 3) { ::EmbeddedProto::RepeatedFieldFixedSize<::EmbeddedProto::FieldBytes<3>, 2> a; for (u32 i = 0; i < s.n_byts; i++) { ::EmbeddedProto::FieldBytes<3> e; loadstr(e, s.byts[i]); a.add(e); } m.set_byts(a); return true; } for (u32 i = 0; i < s.n_byts; i++) { ::EmbeddedProto::FieldBytes<3> e; loadstr(e, s.byts[i]); if (how == 0) m.set_byts(i, static_cast<::EmbeddedProto::FieldBytes<3>&&>(e)); else if (how == 1) m.set_byts(i, e); else if (how == 2) m.mutable_byts(i) = e; else return false; } return true; }
    case 3: { uint32_t e; e = from_bits<uint32_t>(s.after); if (how == 0) { m.set_after(static_cast<uint32_t&&>(e)); return true; } if (how == 1) { m.set_after(e); return true; } if (how == 2) { m.mutable_after() = e; return true; } return false; }
    default: return false;
  }
}
static inline bool put_at(M_RepMsg& m, const S_RepMsg& s, u32 k, u32 at, u32 how) {
  (void)m; (void)s; (void)at; (void)how; switch (k) {
    case 0: { M_common_Point e; load(e, s.pts[0]); if (how == 0) m.set_pts(at, static_cast<M_common_Point&&>(e)); else if (how == 1) m.set_pts(at, e); else if (how == 2) m.mutable_pts(at) = e; else if (how == 3) m.mutable_pts().set(at, e); else if (how == 4) m.mutable_pts()[at] = e; else if (how == 5) m.add_pts(e); else m.mutable_pts().add(e); return true; }
    case 1: { ::EmbeddedProto::FieldString<3> e; loadstr(e, s.strs[0]); if (how == 0) m.set_strs(at, static_cast<::EmbeddedProto::FieldString<3>&&>(e)); else if (how == 1) m.set_strs(at, e); else if (how == 2) m.mutable_strs(at) = e; else if (how == 3) m.mutable_strs().set(at, e); else if (how == 4) m.mutable_strs()[at] = e; else if (how == 5) m.add_strs(e); else m.mutable_strs().add(e); return true; }
    case 2: { ::EmbeddedProto::FieldBytes<3> e; loadstr(e, s.byts[0]); if (how == 0) m.set_byts(at, static_cast<::EmbeddedProto::FieldBytes<3>&&>(e)); else if (how == 1) m.set_byts(at, e); else if (how == 2) m.mutable_byts(at) = e; else if (how == 3) m.mutable_byts().set(at, e); else if (how == 4) m.mutable_byts()[at] = e; else if (how == 5) m.add_byts(e); else m.mutable_byts().add(e); return true; }
    default: return false;
  }
}
static inline void alias_check(const M_RepMsg& m, u32 k) {
  (void)m; switch (k) {
    case 0: { sym_assert(&m.pts() == &m.get_pts(), "x() and get_x() differ"); for (u32 i = 0; i < m.get_pts().get_length(); i++) sym_assert(&m.pts(i) == &m.get_pts().get_const(i), "x(i) is not the element of the array"); break; }
    case 1: { sym_assert(&m.strs() == &m.get_strs(), "x() and get_x() differ"); for (u32 i = 0; i < m.get_strs().get_length(); i++) sym_assert(&m.strs(i) == &m.get_strs().get_const(i), "x(i) is not the element of the array"); break; }
    case 2: { sym_assert(&m.byts() == &m.get_byts(), "x() and get_x() differ"); for (u32 i = 0; i < m.get_byts().get_length(); i++) sym_assert(&m.byts(i) == &m.get_byts().get_const(i), "x(i) is not the element of the array"); break; }
    case 3: { sym_assert(to_bits<uint32_t>(m.after()) == to_bits<uint32_t>(m.get_after()), "x() and get_x() differ"); break; }
    default: break;
  }
}
static inline bool touch_field(M_RepMsg& m, u32 k) {
  (void)m; switch (k) {
    case 0: (void)m.mutable_pts(); return true;
    case 1: (void)m.mutable_strs(); return true;
    case 2: (void)m.mutable_byts(); return true;
    case 3: (void)m.mutable_after(); return true;
    default: return false;
  }
}
static inline bool extend_field(M_RepMsg& m, u32 k, u32 n) {
  (void)m; (void)n; switch (k) {
    case 0: (void)m.mutable_pts(n - 1); return true;
    case 1: (void)m.mutable_strs(n - 1); return true;
    case 2: (void)m.mutable_byts(n - 1); return true;
    default: return false;
  }
}
static inline void limits(const M_RepMsg& m) {
  (void)m;
  static_assert(static_cast<u32>(M_RepMsg::FieldNumber::PTS) == 1u, "number of field pts");
  sym_assert(__builtin_strcmp(M_RepMsg::PTS_NAME, "pts") == 0, "name constant of field pts");
  sym_assert(m.get_pts().get_max_length() == 2u, "capacity of field pts");
  static_assert(static_cast<u32>(M_RepMsg::FieldNumber::STRS) == 2u, "number of field strs");
  sym_assert(__builtin_strcmp(M_RepMsg::STRS_NAME, "strs") == 0, "name constant of field strs");
  sym_assert(m.get_strs().get_max_length() == 2u, "capacity of field strs");
  sym_assert(m.get_strs().get_const(0).get_max_length() == 3u, "element capacity of field strs");
  static_assert(static_cast<u32>(M_RepMsg::FieldNumber::BYTS) == 3u, "number of field byts");
  sym_assert(__builtin_strcmp(M_RepMsg::BYTS_NAME, "byts") == 0, "name constant of field byts");
  sym_assert(m.get_byts().get_max_length() == 2u, "capacity of field byts");
  sym_assert(m.get_byts().get_const(0).get_max_length() == 3u, "element capacity of field byts");
  static_assert(static_cast<u32>(M_RepMsg::FieldNumber::AFTER) == 4u, "number of field after");
  sym_assert(__builtin_strcmp(M_RepMsg::AFTER_NAME, "after") == 0, "name constant of field after");
  static_assert(std::is_same<decltype(m.after()), uint32_t>::value, "type of field after");
}
static inline const char* left_out(M_RepMsg*, u32 n) { (void)n; return nullptr; }
static inline const char* number_name(M_RepMsg*, u32 n) { return M_RepMsg::field_number_to_name(static_cast<M_RepMsg::FieldNumber>(n)); }
template<> struct G<M_RepMsg> { using S = S_RepMsg; static const MD& md() { return D_RepMsg; } };

// ---- vs.Inner.Leaf
using M_Inner_Leaf = ::vs::Inner::Leaf;
struct S_Inner_Leaf {
  u32 v;
  u32 k;
};
static const FD F_Inner_Leaf[] = {
  {1u, K_U32, C_PLAIN, 0, 0, (u32)offsetof(S_Inner_Leaf, v), (u32)0, (u32)sizeof(u32), nullptr, "v"},
  {2u, K_ENUM, C_PLAIN, 0, 0, (u32)offsetof(S_Inner_Leaf, k), (u32)0, (u32)sizeof(u32), nullptr, "k"},
};
static const MD D_Inner_Leaf = {F_Inner_Leaf, 2, (u32)sizeof(S_Inner_Leaf), "Inner_Leaf"};
static inline void load(M_Inner_Leaf& m, const S_Inner_Leaf& s) {
  (void)m; (void)s;
  m.set_v(from_bits<uint32_t>(s.v));
  m.set_k(static_cast<::vs::Inner::Kind>(s.k));
}
static inline void read(S_Inner_Leaf& s, const M_Inner_Leaf& m) {
  (void)m; ref_reset(D_Inner_Leaf, (u8*)&s);
  s.v = to_bits<uint32_t>(m.get_v());
  s.k = static_cast<u32>(m.get_k());
}
static inline void clear_field(M_Inner_Leaf& m, u32 k) {
  (void)m; switch (k) {
    case 0: m.clear_v(); break;
    case 1: m.clear_k(); break;
    default: break;
  }
}
static inline bool set_field(M_Inner_Leaf& m, const S_Inner_Leaf& s, u32 k, u32 how = 0) {
  (void)m; (void)s; switch (k) {
    case 0: { uint32_t e; e = from_bits<uint32_t>(s.v); if (how == 0) { m.set_v(static_cast<uint32_t&&>(e)); return true; } if (how == 1) { m.set_v(e); return true; } if (how == 2) { m.mutable_v() = e; return true; } return false; }
    case 1: { ::vs::Inner::Kind e; e = static_cast<::vs::Inner::Kind>(s.k); if (how == 0) { m.set_k(static_cast<::vs::Inner::Kind&&>(e)); return true; } if (how == 1) { m.set_k(e); return true; } return false; }
    default: return false;
  }
}
static inline bool put_at(M_Inner_Leaf& m, const S_Inner_Leaf& s, u32 k, u32 at, u32 how) {
  (void)m; (void)s; (void)at; (void)how; switch (k) {
    default: return false;
  }
}
static inline void alias_check(const M_Inner_Leaf& m, u32 k) {
  (void)m; switch (k) {
    case 0: { sym_assert(to_bits<uint32_t>(m.v()) == to_bits<uint32_t>(m.get_v()), "x() and get_x() differ"); break; }
    case 1: { sym_assert(m.k() == m.get_k(), "x() and get_x() differ"); break; }
    default: break;
  }
}
static inline bool touch_field(M_Inner_Leaf& m, u32 k) {
  (void)m; switch (k) {
    case 0: (void)m.mutable_v(); return true;
    default: return false;
  }
}
static inline bool extend_field(M_Inner_Leaf& m, u32 k, u32 n) {
  (void)m; (void)n; switch (k) {
    default: return false;
  }
}
static inline void limits(const M_Inner_Leaf& m) {
  (void)m;
  static_assert(static_cast<u32>(M_Inner_Leaf::FieldNumber::V) == 1u, "number of field v");
  sym_assert(__builtin_strcmp(M_Inner_Leaf::V_NAME, "v") == 0, "name constant of field v");
  static_assert(std::is_same<decltype(m.v()), uint32_t>::value, "type of field v");
  static_assert(static_cast<u32>(M_Inner_Leaf::FieldNumber::K) == 2u, "number of field k");
  sym_assert(__builtin_strcmp(M_Inner_Leaf::K_NAME, "k") == 0, "name constant of field k");
  static_assert(std::is_same<decltype(m.k()), ::vs::Inner::Kind>::value, "type of field k");
}
static inline const char* left_out(M_Inner_Leaf*, u32 n) { (void)n; return nullptr; }
static inline const char* number_name(M_Inner_Leaf*, u32 n) { return M_Inner_Leaf::field_number_to_name(static_cast<M_Inner_Leaf::FieldNumber>(n)); }
template<> struct G<M_Inner_Leaf> { using S = S_Inner_Leaf; static const MD& md() { return D_Inner_Leaf; } };

// ---- vs.Inner
using M_Inner = ::vs::Inner;
struct S_Inner {
  S_Inner_Leaf leaf;
  u32 n;
  u32 n_leaves; S_Inner_Leaf leaves[2];
};
static const FD F_Inner[] = {
  {1u, K_MSG, C_PLAIN, 0, 0, (u32)offsetof(S_Inner, leaf), (u32)0, (u32)sizeof(S_Inner_Leaf), &D_Inner_Leaf, "leaf"},
  {2u, K_I32, C_PLAIN, 0, 0, (u32)offsetof(S_Inner, n), (u32)0, (u32)sizeof(u32), nullptr, "n"},
  {3u, K_MSG, C_REP, 2, 0, (u32)offsetof(S_Inner, leaves), (u32)offsetof(S_Inner, n_leaves), (u32)sizeof(S_Inner_Leaf), &D_Inner_Leaf, "leaves"},
};
static const MD D_Inner = {F_Inner, 3, (u32)sizeof(S_Inner), "Inner"};
static inline void load(M_Inner& m, const S_Inner& s) {
  (void)m; (void)s;
  load(m.mutable_leaf(), s.leaf);
  m.set_n(from_bits<int32_t>(s.n));
  for (u32 i = 0; i < s.n_leaves; i++) { load(m.mutable_leaves(i), s.leaves[i]); }
}
static inline void read(S_Inner& s, const M_Inner& m) {
  (void)m; ref_reset(D_Inner, (u8*)&s);
  read(s.leaf, m.get_leaf());
  s.n = to_bits<int32_t>(m.get_n());
  s.n_leaves = m.get_leaves().get_length(); CHECK_CAP(s.n_leaves, 2); for (u32 i = 0; i < s.n_leaves; i++) { read(s.leaves[i], m.get_leaves().get_const(i)); }
}
static inline void clear_field(M_Inner& m, u32 k) {
  (void)m; switch (k) {
    case 0: m.clear_leaf(); break;
    case 1: m.clear_n(); break;
    case 2: m.clear_leaves(); break;
    default: break;
  }
}
static inline bool set_field(M_Inner& m, const S_Inner& s, u32 k, u32 how = 0) {
  (void)m; (void)s; switch (k) {
    case 0: { M_Inner_Leaf e; load(e, s.leaf); if (how == 0) { m.set_leaf(static_cast<M_Inner_Leaf&&>(e)); return true; } if (how == 1) { m.set_leaf(e); return true; } if (how == 2) { m.mutable_leaf() = e; return true; } return false; }
    case 1: { int32_t e; e = from_bits<int32_t>(s.n); if (how == 0) { m.set_n(static_cast<int32_t&&>(e)); return true; } if (how == 1) { m.set_n(e); return true; } if (how == 2) { m.mutable_n() = e; return true; } return false; }
    case 2: { if (how == 3) { ::EmbeddedProto::RepeatedFieldFixedSize<M_Inner_Leaf, 2> a; for (u32 i = 0; i < s.n_leaves; i++) { M_Inner_Leaf e; load(e, s.leaves[i]); a.add(e); } m.set_leaves(a); return true; } for (u32 i = 0; i < s.n_leaves; i++) { M_Inner_Leaf e; load(e, s.leaves[i]); if (how == 0) m.set_leaves(i, static_cast<M_Inner_Leaf&&>(e)); else if (how == 1) m.set_leaves(i, e); else if (how == 2) m.mutable_leaves(i) = e; else return false; } return true; }
    default: return false;
  }
}
static inline bool put_at(M_Inner& m, const S_Inner& s, u32 k, u32 at, u32 how) {
  (void)m; (void)s; (void)at; (void)how; switch (k) {
    case 2: { M_Inner_Leaf e; load(e, s.leaves[0]); if (how == 0) m.set_leaves(at, static_cast<M_Inner_Leaf&&>(e)); else if (how == 1) m.set_leaves(at, e); else if (how == 2) m.mutable_leaves(at) = e; else if (how == 3) m.mutable_leaves().set(at, e); else if (how == 4) m.mutable_leaves()[at] = e; else if (how == 5) m.add_leaves(e); else m.mutable_leaves().add(e); return true; }
    default: return false;
  }
}
static inline void alias_check(const M_Inner& m, u32 k) {
  (void)m; switch (k) {
    case 0: { sym_assert(&m.leaf() == &m.get_leaf(), "x() and get_x() differ"); break; }
    case 1: { sym_assert(to_bits<int32_t>(m.n()) == to_bits<int32_t>(m.get_n()), "x() and get_x() differ"); break; }
    case 2: { sym_assert(&m.leaves() == &m.get_leaves(), "x() and get_x() differ"); for (u32 i = 0; i < m.get_leaves().get_length(); i++) sym_assert(&m.leaves(i) == &m.get_leaves().get_const(i), "x(i) is not the element of the array"); break; }
    default: break;
  }
}
static inline bool touch_field(M_Inner& m, u32 k) {
  (void)m; switch (k) {
    case 0: (void)m.mutable_leaf(); return true;
    case 1: (void)m.mutable_n(); return true;
    case 2: (void)m.mutable_leaves(); return true;
    default: return false;
  }
}
static inline bool extend_field(M_Inner& m, u32 k, u32 n) {
  (void)m; (void)n; switch (k) {
    case 2: (void)m.mutable_leaves(n - 1); return true;
    default: return false;
  }
}
static inline void limits(const M_Inner& m) {
  (void)m;
  static_assert(static_cast<u32>(M_Inner::FieldNumber::LEAF) == 1u, "number of field leaf");
  sym_assert(__builtin_strcmp(M_Inner::LEAF_NAME, "leaf") == 0, "name constant of field leaf");
  static_assert(std::is_same<decltype(m.leaf()), const M_Inner_Leaf&>::value, "type of field leaf");
  static_assert(static_cast<u32>(M_Inner::FieldNumber::N) == 2u, "number of field n");
  sym_assert(__builtin_strcmp(M_Inner::N_NAME, "n") == 0, "name constant of field n");
  static_assert(std::is_same<decltype(m.n()), int32_t>::value, "type of field n");
  static_assert(static_cast<u32>(M_Inner::FieldNumber::LEAVES) == 3u, "number of field leaves");
  sym_assert(__builtin_strcmp(M_Inner::LEAVES_NAME, "leaves") == 0, "name constant of field leaves");
  sym_assert(m.get_leaves().get_max_length() == 2u, "capacity of field leaves");
}
static inline const char* left_out(M_Inner*, u32 n) { (void)n; return nullptr; }
static inline const char* number_name(M_Inner*, u32 n) { return M_Inner::field_number_to_name(static_cast<M_Inner::FieldNumber>(n)); }
template<> struct G<M_Inner> { using S = S_Inner; static const MD& md() { return D_Inner; } };

// ---- vs.Nest
using M_Nest = ::vs::Nest;
struct S_Nest {
  u32 pre;
  S_Inner inner;
  u32 has_opt_inner; S_Inner opt_inner;
  u32 kind;
  u32 post;
};
static const FD F_Nest[] = {
  {1u, K_U32, C_PLAIN, 0, 0, (u32)offsetof(S_Nest, pre), (u32)0, (u32)sizeof(u32), nullptr, "pre"},
  {2u, K_MSG, C_PLAIN, 0, 0, (u32)offsetof(S_Nest, inner), (u32)0, (u32)sizeof(S_Inner), &D_Inner, "inner"},
  {3u, K_MSG, C_OPT, 0, 0, (u32)offsetof(S_Nest, opt_inner), (u32)offsetof(S_Nest, has_opt_inner), (u32)sizeof(S_Inner), &D_Inner, "opt_inner"},
  {4u, K_ENUM, C_PLAIN, 0, 0, (u32)offsetof(S_Nest, kind), (u32)0, (u32)sizeof(u32), nullptr, "kind"},
  {5u, K_U32, C_PLAIN, 0, 0, (u32)offsetof(S_Nest, post), (u32)0, (u32)sizeof(u32), nullptr, "post"},
};
static const MD D_Nest = {F_Nest, 5, (u32)sizeof(S_Nest), "Nest"};
static inline void load(M_Nest& m, const S_Nest& s) {
  (void)m; (void)s;
  m.set_pre(from_bits<uint32_t>(s.pre));
  load(m.mutable_inner(), s.inner);
  if (s.has_opt_inner) { load(m.mutable_opt_inner(), s.opt_inner); }
  m.set_kind(static_cast<::vs::Inner::Kind>(s.kind));
  m.set_post(from_bits<uint32_t>(s.post));
}
static inline void read(S_Nest& s, const M_Nest& m) {
  (void)m; ref_reset(D_Nest, (u8*)&s);
  s.pre = to_bits<uint32_t>(m.get_pre());
  read(s.inner, m.get_inner());
  s.has_opt_inner = m.has_opt_inner() ? 1 : 0; read(s.opt_inner, m.get_opt_inner());
  s.kind = static_cast<u32>(m.get_kind());
  s.post = to_bits<uint32_t>(m.get_post());
}
static inline void clear_field(M_Nest& m, u32 k) {
  (void)m; switch (k) {
    case 0: m.clear_pre(); break;
    case 1: m.clear_inner(); break;
    case 2: m.clear_opt_inner(); break;
    case 3: m.clear_kind(); break;
    case 4: m.clear_post(); break;
    default: break;
  }
}
static inline bool set_field(M_Nest& m, const S_Nest& s, u32 k, u32 how = 0) {
  (void)m; (void)s; switch (k) {
    case 0: { uint32_t e; e = from_bits<uint32_t>(s.pre); if (how == 0) { m.set_pre(static_cast<uint32_t&&>(e)); return true; } if (how == 1) { m.set_pre(e); return true; } if (how == 2) { m.mutable_pre() = e; return true; } return false; }
    case 1: { M_Inner e; load(e, s.inner); if (how == 0) { m.set_inner(static_cast<M_Inner&&>(e)); return true; } if (how == 1) { m.set_inner(e); return true; } if (how == 2) { m.mutable_inner() = e; return true; } return false; }
    case 2: { M_Inner e; load(e, s.opt_inner); if (how == 0) { m.set_opt_inner(static_cast<M_Inner&&>(e)); return true; } if (how == 1) { m.set_opt_inner(e); return true; } if (how == 2) { m.mutable_opt_inner() = e; return true; } return false; }
    case 3: { ::vs::Inner::Kind e; e = static_cast<::vs::Inner::Kind>(s.kind); if (how == 0) { m.set_kind(static_cast<::vs::Inner::Kind&&>(e)); return true; } if (how == 1) { m.set_kind(e); return true; } return false; }
    case 4: { uint32_t e; e = from_bits<uint32_t>(s.post); if (how == 0) { m.set_post(static_cast<uint32_t&&>(e)); return true; } if (how == 1) { m.set_post(e); return true; } if (how == 2) { m.mutable_post() = e; return true; } return false; }
    default: return false;
  }
}
static inline bool put_at(M_Nest& m, const S_Nest& s, u32 k, u32 at, u32 how) {
  (void)m; (void)s; (void)at; (void)how; switch (k) {
    default: return false;
  }
}
static inline void alias_check(const M_Nest& m, u32 k) {
  (void)m; switch (k) {
    case 0: { sym_assert(to_bits<uint32_t>(m.pre()) == to_bits<uint32_t>(m.get_pre()), "x() and get_x() differ"); break; }
    case 1: { sym_assert(&m.inner() == &m.get_inner(), "x() and get_x() differ"); break; }
    case 2: { sym_assert(&m.opt_inner() == &m.get_opt_inner(), "x() and get_x() differ"); break; }
    case 3: { sym_assert(m.kind() == m.get_kind(), "x() and get_x() differ"); break; }
    case 4: { sym_assert(to_bits<uint32_t>(m.post()) == to_bits<uint32_t>(m.get_post()), "x() and get_x() differ"); break; }
    default: break;
  }
}
static inline bool touch_field(M_Nest& m, u32 k) {
  (void)m; switch (k) {
    case 0: (void)m.mutable_pre(); return true;
    case 1: (void)m.mutable_inner(); return true;
    case 2: (void)m.mutable_opt_inner(); return true;
    case 4: (void)m.mutable_post(); return true;
    default: return false;
  }
}
static inline bool extend_field(M_Nest& m, u32 k, u32 n) {
  (void)m; (void)n; switch (k) {
    default: return false;
  }
}
static inline void limits(const M_Nest& m) {
  (void)m;
  static_assert(static_cast<u32>(M_Nest::FieldNumber::PRE) == 1u, "number of field pre");
  sym_assert(__builtin_strcmp(M_Nest::PRE_NAME, "pre") == 0, "name constant of field pre");
  static_assert(std::is_same<decltype(m.pre()), uint32_t>::value, "type of field pre");
  static_assert(static_cast<u32>(M_Nest::FieldNumber::INNER) == 2u, "number of field inner");
  sym_assert(__builtin_strcmp(M_Nest::INNER_NAME, "inner") == 0, "name constant of field inner");
  static_assert(std::is_same<decltype(m.inner()), const M_Inner&>::value, "type of field inner");
  static_assert(static_cast<u32>(M_Nest::FieldNumber::OPT_INNER) == 3u, "number of field opt_inner");
  sym_assert(__builtin_strcmp(M_Nest::OPT_INNER_NAME, "opt_inner") == 0, "name constant of field opt_inner");
  static_assert(std::is_same<decltype(m.opt_inner()), const M_Inner&>::value, "type of field opt_inner");
  static_assert(static_cast<u32>(M_Nest::FieldNumber::KIND) == 4u, "number of field kind");
  sym_assert(__builtin_strcmp(M_Nest::KIND_NAME, "kind") == 0, "name constant of field kind");
  static_assert(std::is_same<decltype(m.kind()), ::vs::Inner::Kind>::value, "type of field kind");
  static_assert(static_cast<u32>(M_Nest::FieldNumber::POST) == 5u, "number of field post");
  sym_assert(__builtin_strcmp(M_Nest::POST_NAME, "post") == 0, "name constant of field post");
  static_assert(std::is_same<decltype(m.post()), uint32_t>::value, "type of field post");
}
static inline const char* left_out(M_Nest*, u32 n) { (void)n; return nullptr; }
static inline const char* number_name(M_Nest*, u32 n) { return M_Nest::field_number_to_name(static_cast<M_Nest::FieldNumber>(n)); }
template<> struct G<M_Nest> { using S = S_Nest; static const MD& md() { return D_Nest; } };

// ---- vs.One
using M_One = ::vs::One;
struct S_One {
  u32 which_first;
  u32 which_second;
  u32 head;
  u32 tail;
  u32 f_int;
  Str<3> f_str;
  S_common_Point f_msg;
  u32 f_enum;
  u32 f_bool;
  u64 f_double;
  Str<2> f_byt;
  S_Inner f_inner;
  u64 s_u64;
  u32 s_float;
  u32 s_level;
};
static const FD F_One[] = {
  {1u, K_U32, C_PLAIN, 0, 0, (u32)offsetof(S_One, head), (u32)0, (u32)sizeof(u32), nullptr, "head"},
  {12u, K_U32, C_PLAIN, 0, 0, (u32)offsetof(S_One, tail), (u32)0, (u32)sizeof(u32), nullptr, "tail"},
  {2u, K_I32, C_ONE, 0, 0, (u32)offsetof(S_One, f_int), (u32)offsetof(S_One, which_first), (u32)sizeof(u32), nullptr, "f_int"},
  {3u, K_STR, C_ONE, 0, 3, (u32)offsetof(S_One, f_str), (u32)offsetof(S_One, which_first), (u32)sizeof(Str<3>), nullptr, "f_str"},
  {4u, K_MSG, C_ONE, 0, 0, (u32)offsetof(S_One, f_msg), (u32)offsetof(S_One, which_first), (u32)sizeof(S_common_Point), &D_common_Point, "f_msg"},
  {5u, K_ENUM, C_ONE, 0, 0, (u32)offsetof(S_One, f_enum), (u32)offsetof(S_One, which_first), (u32)sizeof(u32), nullptr, "f_enum"},
  {6u, K_BOOL, C_ONE, 0, 0, (u32)offsetof(S_One, f_bool), (u32)offsetof(S_One, which_first), (u32)sizeof(u32), nullptr, "f_bool"},
  {7u, K_DBL, C_ONE, 0, 0, (u32)offsetof(S_One, f_double), (u32)offsetof(S_One, which_first), (u32)sizeof(u64), nullptr, "f_double"},
  {8u, K_BYT, C_ONE, 0, 2, (u32)offsetof(S_One, f_byt), (u32)offsetof(S_One, which_first), (u32)sizeof(Str<2>), nullptr, "f_byt"},
  {16u, K_MSG, C_ONE, 0, 0, (u32)offsetof(S_One, f_inner), (u32)offsetof(S_One, which_first), (u32)sizeof(S_Inner), &D_Inner, "f_inner"},
  {9u, K_U64, C_ONE, 0, 0, (u32)offsetof(S_One, s_u64), (u32)offsetof(S_One, which_second), (u32)sizeof(u64), nullptr, "s_u64"},
  {10u, K_FLT, C_ONE, 0, 0, (u32)offsetof(S_One, s_float), (u32)offsetof(S_One, which_second), (u32)sizeof(u32), nullptr, "s_float"},
  {11u, K_ENUM, C_ONE, 0, 0, (u32)offsetof(S_One, s_level), (u32)offsetof(S_One, which_second), (u32)sizeof(u32), nullptr, "s_level"},
};
static const MD D_One = {F_One, 13, (u32)sizeof(S_One), "One"};
static inline void load(M_One& m, const S_One& s) {
  (void)m; (void)s;
  m.set_head(from_bits<uint32_t>(s.head));
  if (s.which_first == 2u) { m.set_f_int(from_bits<int32_t>(s.f_int)); }
  if (s.which_first == 3u) { loadstr(m.mutable_f_str(), s.f_str); }
  if (s.which_first == 4u) { load(m.mutable_f_msg(), s.f_msg); }
  if (s.which_first == 5u) { m.set_f_enum(static_cast<::vs::Color>(s.f_enum)); }
  if (s.which_first == 6u) { m.set_f_bool(from_bits<bool>(s.f_bool)); }
  if (s.which_first == 7u) { m.set_f_double(from_bits<double>(s.f_double)); }
  if (s.which_first == 8u) { loadstr(m.mutable_f_byt(), s.f_byt); }
  if (s.which_first == 16u) { load(m.mutable_f_inner(), s.f_inner); }
  if (s.which_second == 9u) { m.set_s_u64(from_bits<uint64_t>(s.s_u64)); }
  if (s.which_second == 10u) { m.set_s_float(from_bits<float>(s.s_float)); }
  if (s.which_second == 11u) { m.set_s_level(static_cast<::vs::common::Level>(s.s_level)); }
  m.set_tail(from_bits<uint32_t>(s.tail));
}
static inline void read(S_One& s, const M_One& m) {
  (void)m; ref_reset(D_One, (u8*)&s);
  s.which_first = static_cast<u32>(m.get_which_first());
  s.which_second = static_cast<u32>(m.get_which_second());
  s.head = to_bits<uint32_t>(m.get_head());
  HAS_ONE(m.has_f_int(), s.which_first, 2u); if (s.which_first == 2u) { s.f_int = to_bits<int32_t>(m.get_f_int()); }
  HAS_ONE(m.has_f_str(), s.which_first, 3u); if (s.which_first == 3u) { readstr(s.f_str, m.get_f_str()); }
  HAS_ONE(m.has_f_msg(), s.which_first, 4u); if (s.which_first == 4u) { read(s.f_msg, m.get_f_msg()); }
  HAS_ONE(m.has_f_enum(), s.which_first, 5u); if (s.which_first == 5u) { s.f_enum = static_cast<u32>(m.get_f_enum()); }
  HAS_ONE(m.has_f_bool(), s.which_first, 6u); if (s.which_first == 6u) { s.f_bool = to_bits<bool>(m.get_f_bool()); }
  HAS_ONE(m.has_f_double(), s.which_first, 7u); if (s.which_first == 7u) { s.f_double = to_bits<double>(m.get_f_double()); }
  HAS_ONE(m.has_f_byt(), s.which_first, 8u); if (s.which_first == 8u) { readstr(s.f_byt, m.get_f_byt()); }
  HAS_ONE(m.has_f_inner(), s.which_first, 16u); if (s.which_first == 16u) { read(s.f_inner, m.get_f_inner()); }
  HAS_ONE(m.has_s_u64(), s.which_second, 9u); if (s.which_second == 9u) { s.s_u64 = to_bits<uint64_t>(m.get_s_u64()); }
  HAS_ONE(m.has_s_float(), s.which_second, 10u); if (s.which_second == 10u) { s.s_float = to_bits<float>(m.get_s_float()); }
  HAS_ONE(m.has_s_level(), s.which_second, 11u); if (s.which_second == 11u) { s.s_level = static_cast<u32>(m.get_s_level()); }
  s.tail = to_bits<uint32_t>(m.get_tail());
}
static inline void clear_field(M_One& m, u32 k) {
  (void)m; switch (k) {
    case 0: m.clear_head(); break;
    case 1: m.clear_tail(); break;
    case 2: m.clear_f_int(); break;
    case 3: m.clear_f_str(); break;
    case 4: m.clear_f_msg(); break;
    case 5: m.clear_f_enum(); break;
    case 6: m.clear_f_bool(); break;
    case 7: m.clear_f_double(); break;
    case 8: m.clear_f_byt(); break;
    case 9: m.clear_f_inner(); break;
    case 10: m.clear_s_u64(); break;
    case 11: m.clear_s_float(); break;
    case 12: m.clear_s_level(); break;
    default: break;
  }
}
static inline bool set_field(M_One& m, const S_One& s, u32 k, u32 how = 0) {
  (void)m; (void)s; switch (k) {
    case 0: { uint32_t e; e = from_bits<uint32_t>(s.head); if (how == 0) { m.set_head(static_cast<uint32_t&&>(e)); return true; } if (how == 1) { m.set_head(e); return true; } if (how == 2) { m.mutable_head() = e; return true; } return false; }
    case 1: { uint32_t e; e = from_bits<uint32_t>(s.tail); if (how == 0) { m.set_tail(static_cast<uint32_t&&>(e)); return true; } if (how == 1) { m.set_tail(e); return true; } if (how == 2) { m.mutable_tail() = e; return true; } return false; }
    case 2: { int32_t e; e = from_bits<int32_t>(s.f_int); if (how == 0) { m.set_f_int(static_cast<int32_t&&>(e)); return true; } if (how == 1) { m.set_f_int(e); return true; } return false; }
    case 3: { ::EmbeddedProto::FieldString<3> e; loadstr(e, s.f_str); if (how == 0) { m.set_f_str(static_cast<::EmbeddedProto::FieldString<3>&&>(e)); return true; } if (how == 1) { m.set_f_str(e); return true; } if (how == 2) { loadstr(m.mutable_f_str(), s.f_str); return true; } return false; }
    case 4: { M_common_Point e; load(e, s.f_msg); if (how == 0) { m.set_f_msg(static_cast<M_common_Point&&>(e)); return true; } if (how == 1) { m.set_f_msg(e); return true; } if (how == 2) { m.mutable_f_msg() = e; return true; } return false; }
    case 5: { ::vs::Color e; e = static_cast<::vs::Color>(s.f_enum); if (how == 0) { m.set_f_enum(static_cast<::vs::Color&&>(e)); return true; } if (how == 1) { m.set_f_enum(e); return true; } return false; }
    case 6: { bool e; e = from_bits<bool>(s.f_bool); if (how == 0) { m.set_f_bool(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_f_bool(e); return true; } return false; }
    case 7: { double e; e = from_bits<double>(s.f_double); if (how == 0) { m.set_f_double(static_cast<double&&>(e)); return true; } if (how == 1) { m.set_f_double(e); return true; } return false; }
    case 8: { ::EmbeddedProto::FieldBytes<2> e; loadstr(e, s.f_byt); if (how == 0) { m.set_f_byt(static_cast<::EmbeddedProto::FieldBytes<2>&&>(e)); return true; } if (how == 1) { m.set_f_byt(e); return true; } if (how == 2) { loadstr(m.mutable_f_byt(), s.f_byt); return true; } return false; }
    case 9: { M_Inner e; load(e, s.f_inner); if (how == 0) { m.set_f_inner(static_cast<M_Inner&&>(e)); return true; } if (how == 1) { m.set_f_inner(e); return true; } if (how == 2) { m.mutable_f_inner() = e; return true; } return false; }
    case 10: { uint64_t e; e = from_bits<uint64_t>(s.s_u64); if (how == 0) { m.set_s_u64(static_cast<uint64_t&&>(e)); return true; } if (how == 1) { m.set_s_u64(e); return true; } return false; }
    case 11: { float e; e = from_bits<float>(s.s_float); if (how == 0) { m.set_s_float(static_cast<float&&>(e)); return true; } if (how == 1) { m.set_s_float(e); return true; } return false; }
    case 12: { ::vs::common::Level e; e = static_cast<::vs::common::Level>(s.s_level); if (how == 0) { m.set_s_level(static_cast<::vs::common::Level&&>(e)); return true; } if (how == 1) { m.set_s_level(e); return true; } return false; }
    default: return false;
  }
}
static inline bool put_at(M_One& m, const S_One& s, u32 k, u32 at, u32 how) {
  (void)m; (void)s; (void)at; (void)how; switch (k) {
    default: return false;
  }
}
static inline void alias_check(const M_One& m, u32 k) {
  (void)m; switch (k) {
    case 0: { sym_assert(to_bits<uint32_t>(m.head()) == to_bits<uint32_t>(m.get_head()), "x() and get_x() differ"); break; }
    case 1: { sym_assert(to_bits<uint32_t>(m.tail()) == to_bits<uint32_t>(m.get_tail()), "x() and get_x() differ"); break; }
    case 2: { if (m.has_f_int()) { sym_assert(to_bits<int32_t>(m.f_int()) == to_bits<int32_t>(m.get_f_int()), "x() and get_x() differ"); } break; }
    case 3: { if (m.has_f_str()) { sym_assert(m.f_str() == m.get_f_str().get_const(), "x() and get_x() differ"); } break; }
    case 4: { if (m.has_f_msg()) { sym_assert(&m.f_msg() == &m.get_f_msg(), "x() and get_x() differ"); } break; }
    case 5: { if (m.has_f_enum()) { sym_assert(m.f_enum() == m.get_f_enum(), "x() and get_x() differ"); } break; }
    case 6: { if (m.has_f_bool()) { sym_assert(to_bits<bool>(m.f_bool()) == to_bits<bool>(m.get_f_bool()), "x() and get_x() differ"); } break; }
    case 7: { if (m.has_f_double()) { sym_assert(to_bits<double>(m.f_double()) == to_bits<double>(m.get_f_double()), "x() and get_x() differ"); } break; }
    case 8: { if (m.has_f_byt()) { sym_assert(m.f_byt() == m.get_f_byt().get_const(), "x() and get_x() differ"); } break; }
    case 9: { if (m.has_f_inner()) { sym_assert(&m.f_inner() == &m.get_f_inner(), "x() and get_x() differ"); } break; }
    case 10: { if (m.has_s_u64()) { sym_assert(to_bits<uint64_t>(m.s_u64()) == to_bits<uint64_t>(m.get_s_u64()), "x() and get_x() differ"); } break; }
    case 11: { if (m.has_s_float()) { sym_assert(to_bits<float>(m.s_float()) == to_bits<float>(m.get_s_float()), "x() and get_x() differ"); } break; }
    case 12: { if (m.has_s_level()) { sym_assert(m.s_level() == m.get_s_level(), "x() and get_x() differ"); } break; }
    default: break;
  }
}
static inline bool touch_field(M_One& m, u32 k) {
  (void)m; switch (k) {
    case 0: (void)m.mutable_head(); return true;
    case 1: (void)m.mutable_tail(); return true;
    case 3: (void)m.mutable_f_str(); return true;
    case 4: (void)m.mutable_f_msg(); return true;
    case 8: (void)m.mutable_f_byt(); return true;
    case 9: (void)m.mutable_f_inner(); return true;
    default: return false;
  }
}
static inline bool extend_field(M_One& m, u32 k, u32 n) {
  (void)m; (void)n; switch (k) {
    case 3: (void)m.mutable_f_str().get(n - 1); return true;
    case 8: (void)m.mutable_f_byt().get(n - 1); return true;
    default: return false;
  }
}
static inline void limits(const M_One& m) {
  (void)m;
  static_assert(static_cast<u32>(M_One::FieldNumber::HEAD) == 1u, "number of field head");
  sym_assert(__builtin_strcmp(M_One::HEAD_NAME, "head") == 0, "name constant of field head");
  static_assert(std::is_same<decltype(m.head()), uint32_t>::value, "type of field head");
  static_assert(static_cast<u32>(M_One::FieldNumber::TAIL) == 12u, "number of field tail");
  sym_assert(__builtin_strcmp(M_One::TAIL_NAME, "tail") == 0, "name constant of field tail");
  static_assert(std::is_same<decltype(m.tail()), uint32_t>::value, "type of field tail");
  static_assert(static_cast<u32>(M_One::FieldNumber::F_INT) == 2u, "number of field f_int");
  sym_assert(__builtin_strcmp(M_One::F_INT_NAME, "f_int") == 0, "name constant of field f_int");
  static_assert(std::is_same<decltype(m.f_int()), int32_t>::value, "type of field f_int");
  static_assert(static_cast<u32>(M_One::FieldNumber::F_STR) == 3u, "number of field f_str");
  sym_assert(__builtin_strcmp(M_One::F_STR_NAME, "f_str") == 0, "name constant of field f_str");
  if (m.has_f_str()) sym_assert(m.get_f_str().get_max_length() == 3u, "capacity of field f_str");
  static_assert(static_cast<u32>(M_One::FieldNumber::F_MSG) == 4u, "number of field f_msg");
  sym_assert(__builtin_strcmp(M_One::F_MSG_NAME, "f_msg") == 0, "name constant of field f_msg");
  static_assert(std::is_same<decltype(m.f_msg()), const M_common_Point&>::value, "type of field f_msg");
  static_assert(static_cast<u32>(M_One::FieldNumber::F_ENUM) == 5u, "number of field f_enum");
  sym_assert(__builtin_strcmp(M_One::F_ENUM_NAME, "f_enum") == 0, "name constant of field f_enum");
  static_assert(std::is_same<decltype(m.f_enum()), ::vs::Color>::value, "type of field f_enum");
  static_assert(static_cast<u32>(M_One::FieldNumber::F_BOOL) == 6u, "number of field f_bool");
  sym_assert(__builtin_strcmp(M_One::F_BOOL_NAME, "f_bool") == 0, "name constant of field f_bool");
  static_assert(std::is_same<decltype(m.f_bool()), bool>::value, "type of field f_bool");
  static_assert(static_cast<u32>(M_One::FieldNumber::F_DOUBLE) == 7u, "number of field f_double");
  sym_assert(__builtin_strcmp(M_One::F_DOUBLE_NAME, "f_double") == 0, "name constant of field f_double");
  static_assert(std::is_same<decltype(m.f_double()), double>::value, "type of field f_double");
  static_assert(static_cast<u32>(M_One::FieldNumber::F_BYT) == 8u, "number of field f_byt");
  sym_assert(__builtin_strcmp(M_One::F_BYT_NAME, "f_byt") == 0, "name constant of field f_byt");
  if (m.has_f_byt()) sym_assert(m.get_f_byt().get_max_length() == 2u, "capacity of field f_byt");
  static_assert(static_cast<u32>(M_One::FieldNumber::F_INNER) == 16u, "number of field f_inner");
  sym_assert(__builtin_strcmp(M_One::F_INNER_NAME, "f_inner") == 0, "name constant of field f_inner");
  static_assert(std::is_same<decltype(m.f_inner()), const M_Inner&>::value, "type of field f_inner");
  static_assert(static_cast<u32>(M_One::FieldNumber::S_U64) == 9u, "number of field s_u64");
  sym_assert(__builtin_strcmp(M_One::S_U64_NAME, "s_u64") == 0, "name constant of field s_u64");
  static_assert(std::is_same<decltype(m.s_u64()), uint64_t>::value, "type of field s_u64");
  static_assert(static_cast<u32>(M_One::FieldNumber::S_FLOAT) == 10u, "number of field s_float");
  sym_assert(__builtin_strcmp(M_One::S_FLOAT_NAME, "s_float") == 0, "name constant of field s_float");
  static_assert(std::is_same<decltype(m.s_float()), float>::value, "type of field s_float");
  static_assert(static_cast<u32>(M_One::FieldNumber::S_LEVEL) == 11u, "number of field s_level");
  sym_assert(__builtin_strcmp(M_One::S_LEVEL_NAME, "s_level") == 0, "name constant of field s_level");
  static_assert(std::is_same<decltype(m.s_level()), ::vs::common::Level>::value, "type of field s_level");
}
static inline const char* left_out(M_One*, u32 n) { (void)n; return nullptr; }
static inline const char* number_name(M_One*, u32 n) { return M_One::field_number_to_name(static_cast<M_One::FieldNumber>(n)); }
template<> struct G<M_One> { using S = S_One; static const MD& md() { return D_One; } };

// ---- vs.Nothing
using M_Nothing = ::vs::Nothing;
struct S_Nothing {
  u32 dummy_;
};
static const MD D_Nothing = {nullptr, 0, (u32)sizeof(S_Nothing), "Nothing"};
static inline void load(M_Nothing& m, const S_Nothing& s) {
  (void)m; (void)s;
}
static inline void read(S_Nothing& s, const M_Nothing& m) {
  (void)m; ref_reset(D_Nothing, (u8*)&s);
}
static inline void clear_field(M_Nothing& m, u32 k) {
  (void)m; switch (k) {
    default: break;
  }
}
static inline bool set_field(M_Nothing& m, const S_Nothing& s, u32 k, u32 how = 0) {
  (void)m; (void)s; switch (k) {
    default: return false;
  }
}
static inline bool put_at(M_Nothing& m, const S_Nothing& s, u32 k, u32 at, u32 how) {
  (void)m; (void)s; (void)at; (void)how; switch (k) {
    default: return false;
  }
}
static inline void alias_check(const M_Nothing& m, u32 k) {
  (void)m; switch (k) {
    default: break;
  }
}
static inline bool touch_field(M_Nothing& m, u32 k) {
  (void)m; switch (k) {
    default: return false;
  }
}
static inline bool extend_field(M_Nothing& m, u32 k, u32 n) {
  (void)m; (void)n; switch (k) {
    default: return false;
  }
}
static inline void limits(const M_Nothing& m) {
  (void)m;
}
static inline const char* left_out(M_Nothing*, u32 n) { (void)n; return nullptr; }
static inline const char* number_name(M_Nothing*, u32 n) { return M_Nothing::field_number_to_name(static_cast<M_Nothing::FieldNumber>(n)); }
template<> struct G<M_Nothing> { using S = S_Nothing; static const MD& md() { return D_Nothing; } };

// ---- vs.HasNothing
using M_HasNothing = ::vs::HasNothing;
struct S_HasNothing {
  u32 which_o;
  S_Nothing a;
  u32 has_b; S_Nothing b;
  u32 n_c; S_Nothing c[2];
  S_Nothing d;
  u32 e;
};
static const FD F_HasNothing[] = {
  {1u, K_MSG, C_PLAIN, 0, 0, (u32)offsetof(S_HasNothing, a), (u32)0, (u32)sizeof(S_Nothing), &D_Nothing, "a"},
  {2u, K_MSG, C_OPT, 0, 0, (u32)offsetof(S_HasNothing, b), (u32)offsetof(S_HasNothing, has_b), (u32)sizeof(S_Nothing), &D_Nothing, "b"},
  {3u, K_MSG, C_REP, 2, 0, (u32)offsetof(S_HasNothing, c), (u32)offsetof(S_HasNothing, n_c), (u32)sizeof(S_Nothing), &D_Nothing, "c"},
  {4u, K_MSG, C_ONE, 0, 0, (u32)offsetof(S_HasNothing, d), (u32)offsetof(S_HasNothing, which_o), (u32)sizeof(S_Nothing), &D_Nothing, "d"},
  {5u, K_U32, C_ONE, 0, 0, (u32)offsetof(S_HasNothing, e), (u32)offsetof(S_HasNothing, which_o), (u32)sizeof(u32), nullptr, "e"},
};
static const MD D_HasNothing = {F_HasNothing, 5, (u32)sizeof(S_HasNothing), "HasNothing"};
static inline void load(M_HasNothing& m, const S_HasNothing& s) {
  (void)m; (void)s;
  load(m.mutable_a(), s.a);
  if (s.has_b) { load(m.mutable_b(), s.b); }
  for (u32 i = 0; i < s.n_c; i++) { load(m.mutable_c(i), s.c[i]); }
  if (s.which_o == 4u) { load(m.mutable_d(), s.d); }
  if (s.which_o == 5u) { m.set_e(from_bits<uint32_t>(s.e)); }
}
static inline void read(S_HasNothing& s, const M_HasNothing& m) {
  (void)m; ref_reset(D_HasNothing, (u8*)&s);
  s.which_o = static_cast<u32>(m.get_which_o());
  read(s.a, m.get_a());
  s.has_b = m.has_b() ? 1 : 0; read(s.b, m.get_b());
  s.n_c = m.get_c().get_length(); CHECK_CAP(s.n_c, 2); for (u32 i = 0; i < s.n_c; i++) { read(s.c[i], m.get_c().get_const(i)); }
  HAS_ONE(m.has_d(), s.which_o, 4u); if (s.which_o == 4u) { read(s.d, m.get_d()); }
  HAS_ONE(m.has_e(), s.which_o, 5u); if (s.which_o == 5u) { s.e = to_bits<uint32_t>(m.get_e()); }
}
static inline void clear_field(M_HasNothing& m, u32 k) {
  (void)m; switch (k) {
    case 0: m.clear_a(); break;
    case 1: m.clear_b(); break;
    case 2: m.clear_c(); break;
    case 3: m.clear_d(); break;
    case 4: m.clear_e(); break;
    default: break;
  }
}
static inline bool set_field(M_HasNothing& m, const S_HasNothing& s, u32 k, u32 how = 0) {
  (void)m; (void)s; switch (k) {
    case 0: { M_Nothing e; load(e, s.a); if (how == 0) { m.set_a(static_cast<M_Nothing&&>(e)); return true; } if (how == 1) { m.set_a(e); return true; } if (how == 2) { m.mutable_a() = e; return true; } return false; }
    case 1: { M_Nothing e; load(e, s.b); if (how == 0) { m.set_b(static_cast<M_Nothing&&>(e)); return true; } if (how == 1) { m.set_b(e); return true; } if (how == 2) { m.mutable_b() = e; return true; } return false; }
    case 2: { if (how == 3) { ::EmbeddedProto::RepeatedFieldFixedSize<M_Nothing, 2> a; for (u32 i = 0; i < s.n_c; i++) { M_Nothing e; load(e, s.c[i]); a.add(e); } m.set_c(a); return true; } for (u32 i = 0; i < s.n_c; i++) { M_Nothing e; load(e, s.c[i]); if (how == 0) m.set_c(i, static_cast<M_Nothing&&>(e)); else if (how == 1) m.set_c(i, e); else if (how == 2) m.mutable_c(i) = e; else return false; } return true; }
    case 3: { M_Nothing e; load(e, s.d); if (how == 0) { m.set_d(static_cast<M_Nothing&&>(e)); return true; } if (how == 1) { m.set_d(e); return true; } if (how == 2) { m.mutable_d() = e; return true; } return false; }
    case 4: { uint32_t e; e = from_bits<uint32_t>(s.e); if (how == 0) { m.set_e(static_cast<uint32_t&&>(e)); return true; } if (how == 1) { m.set_e(e); return true; } return false; }
    default: return false;
  }
}
static inline bool put_at(M_HasNothing& m, const S_HasNothing& s, u32 k, u32 at, u32 how) {
  (void)m; (void)s; (void)at; (void)how; switch (k) {
    case 2: { M_Nothing e; load(e, s.c[0]); if (how == 0) m.set_c(at, static_cast<M_Nothing&&>(e)); else if (how == 1) m.set_c(at, e); else if (how == 2) m.mutable_c(at) = e; else if (how == 3) m.mutable_c().set(at, e); else if (how == 4) m.mutable_c()[at] = e; else if (how == 5) m.add_c(e); else m.mutable_c().add(e); return true; }
    default: return false;
  }
}
static inline void alias_check(const M_HasNothing& m, u32 k) {
  (void)m; switch (k) {
    case 0: { sym_assert(&m.a() == &m.get_a(), "x() and get_x() differ"); break; }
    case 1: { sym_assert(&m.b() == &m.get_b(), "x() and get_x() differ"); break; }
    case 2: { sym_assert(&m.c() == &m.get_c(), "x() and get_x() differ"); for (u32 i = 0; i < m.get_c().get_length(); i++) sym_assert(&m.c(i) == &m.get_c().get_const(i), "x(i) is not the element of the array"); break; }
    case 3: { if (m.has_d()) { sym_assert(&m.d() == &m.get_d(), "x() and get_x() differ"); } break; }
    case 4: { if (m.has_e()) { sym_assert(to_bits<uint32_t>(m.e()) == to_bits<uint32_t>(m.get_e()), "x() and get_x() differ"); } break; }
    default: break;
  }
}
static inline bool touch_field(M_HasNothing& m, u32 k) {
  (void)m; switch (k) {
    case 0: (void)m.mutable_a(); return true;
    case 1: (void)m.mutable_b(); return true;
    case 2: (void)m.mutable_c(); return true;
    case 3: (void)m.mutable_d(); return true;
    default: return false;
  }
}
static inline bool extend_field(M_HasNothing& m, u32 k, u32 n) {
  (void)m; (void)n; switch (k) {
    case 2: (void)m.mutable_c(n - 1); return true;
    default: return false;
  }
}
static inline void limits(const M_HasNothing& m) {
  (void)m;
  static_assert(static_cast<u32>(M_HasNothing::FieldNumber::A) == 1u, "number of field a");
  sym_assert(__builtin_strcmp(M_HasNothing::A_NAME, "a") == 0, "name constant of field a");
  static_assert(std::is_same<decltype(m.a()), const M_Nothing&>::value, "type of field a");
  static_assert(static_cast<u32>(M_HasNothing::FieldNumber::B) == 2u, "number of field b");
  sym_assert(__builtin_strcmp(M_HasNothing::B_NAME, "b") == 0, "name constant of field b");
  static_assert(std::is_same<decltype(m.b()), const M_Nothing&>::value, "type of field b");
  static_assert(static_cast<u32>(M_HasNothing::FieldNumber::C) == 3u, "number of field c");
  sym_assert(__builtin_strcmp(M_HasNothing::C_NAME, "c") == 0, "name constant of field c");
  sym_assert(m.get_c().get_max_length() == 2u, "capacity of field c");
  static_assert(static_cast<u32>(M_HasNothing::FieldNumber::D) == 4u, "number of field d");
  sym_assert(__builtin_strcmp(M_HasNothing::D_NAME, "d") == 0, "name constant of field d");
  static_assert(std::is_same<decltype(m.d()), const M_Nothing&>::value, "type of field d");
  static_assert(static_cast<u32>(M_HasNothing::FieldNumber::E) == 5u, "number of field e");
  sym_assert(__builtin_strcmp(M_HasNothing::E_NAME, "e") == 0, "name constant of field e");
  static_assert(std::is_same<decltype(m.e()), uint32_t>::value, "type of field e");
}
static inline const char* left_out(M_HasNothing*, u32 n) { (void)n; return nullptr; }
static inline const char* number_name(M_HasNothing*, u32 n) { return M_HasNothing::field_number_to_name(static_cast<M_HasNothing::FieldNumber>(n)); }
template<> struct G<M_HasNothing> { using S = S_HasNothing; static const MD& md() { return D_HasNothing; } };

// ---- vs.RepStr
using M_RepStr = ::vs::RepStr;
struct S_RepStr {
  u32 n_s; Str<3> s[3];
  u32 z;
};
static const FD F_RepStr[] = {
  {1u, K_STR, C_REP, 3, 3, (u32)offsetof(S_RepStr, s), (u32)offsetof(S_RepStr, n_s), (u32)sizeof(Str<3>), nullptr, "s"},
  {2u, K_U32, C_PLAIN, 0, 0, (u32)offsetof(S_RepStr, z), (u32)0, (u32)sizeof(u32), nullptr, "z"},
};
static const MD D_RepStr = {F_RepStr, 2, (u32)sizeof(S_RepStr), "RepStr"};
static inline void load(M_RepStr& m, const S_RepStr& s) {
  (void)m; (void)s;
  for (u32 i = 0; i < s.n_s; i++) { loadstr(m.mutable_s(i), s.s[i]); }
  m.set_z(from_bits<uint32_t>(s.z));
}
static inline void read(S_RepStr& s, const M_RepStr& m) {
  (void)m; ref_reset(D_RepStr, (u8*)&s);
  s.n_s = m.get_s().get_length(); CHECK_CAP(s.n_s, 3); for (u32 i = 0; i < s.n_s; i++) { readstr(s.s[i], m.get_s().get_const(i)); }
  s.z = to_bits<uint32_t>(m.get_z());
}
static inline void clear_field(M_RepStr& m, u32 k) {
  (void)m; switch (k) {
    case 0: m.clear_s(); break;
    case 1: m.clear_z(); break;
    default: break;
  }
}
static inline bool set_field(M_RepStr& m, const S_RepStr& s, u32 k, u32 how = 0) {
  (void)m; (void)s; switch (k) {
    case 0: { if (how == 3) { ::EmbeddedProto::RepeatedFieldFixedSize<::EmbeddedProto::FieldString<3>, 3> a; for (u32 i = 0; i < s.n_s; i++) { ::EmbeddedProto::FieldString<3> e; loadstr(e, s.s[i]); a.add(e); } m.set_s(a); return true; } for (u32 i = 0; i < s.n_s; i++) { ::EmbeddedProto::FieldString<3> e; loadstr(e, s.s[i]); if (how == 0) m.set_s(i, static_cast<::EmbeddedProto::FieldString<3>&&>(e)); else if (how == 1) m.set_s(i, e); else if (how == 2) m.mutable_s(i) = e; else return false; } return true; }
    case 1: { uint32_t e; e = from_bits<uint32_t>(s.z); if (how == 0) { m.set_z(static_cast<uint32_t&&>(e)); return true; } if (how == 1) { m.set_z(e); return true; } if (how == 2) { m.mutable_z() = e; return true; } return false; }
    default: return false;
  }
}
static inline bool put_at(M_RepStr& m, const S_RepStr& s, u32 k, u32 at, u32 how) {
  (void)m; (void)s; (void)at; (void)how; switch (k) {
    case 0: { ::EmbeddedProto::FieldString<3> e; loadstr(e, s.s[0]); if (how == 0) m.set_s(at, static_cast<::EmbeddedProto::FieldString<3>&&>(e)); else if (how == 1) m.set_s(at, e); else if (how == 2) m.mutable_s(at) = e; else if (how == 3) m.mutable_s().set(at, e); else if (how == 4) m.mutable_s()[at] = e; else if (how == 5) m.add_s(e); else m.mutable_s().add(e); return true; }
    default: return false;
  }
}
static inline void alias_check(const M_RepStr& m, u32 k) {
  (void)m; switch (k) {
    case 0: { sym_assert(&m.s() == &m.get_s(), "x() and get_x() differ"); for (u32 i = 0; i < m.get_s().get_length(); i++) sym_assert(&m.s(i) == &m.get_s().get_const(i), "x(i) is not the element of the array"); break; }
    case 1: { sym_assert(to_bits<uint32_t>(m.z()) == to_bits<uint32_t>(m.get_z()), "x() and get_x() differ"); break; }
    default: break;
  }
}
static inline bool touch_field(M_RepStr& m, u32 k) {
  (void)m; switch (k) {
    case 0: (void)m.mutable_s(); return true;
    case 1: (void)m.mutable_z(); return true;
    default: return false;
  }
}
static inline bool extend_field(M_RepStr& m, u32 k, u32 n) {
  (void)m; (void)n; switch (k) {
    case 0: (void)m.mutable_s(n - 1); return true;
    default: return false;
  }
}
static inline void limits(const M_RepStr& m) {
  (void)m;
  static_assert(static_cast<u32>(M_RepStr::FieldNumber::S) == 1u, "number of field s");
  sym_assert(__builtin_strcmp(M_RepStr::S_NAME, "s") == 0, "name constant of field s");
  sym_assert(m.get_s().get_max_length() == 3u, "capacity of field s");
  sym_assert(m.get_s().get_const(0).get_max_length() == 3u, "element capacity of field s");
  static_assert(static_cast<u32>(M_RepStr::FieldNumber::Z) == 2u, "number of field z");
  sym_assert(__builtin_strcmp(M_RepStr::Z_NAME, "z") == 0, "name constant of field z");
  static_assert(std::is_same<decltype(m.z()), uint32_t>::value, "type of field z");
}
static inline const char* left_out(M_RepStr*, u32 n) { (void)n; return nullptr; }
static inline const char* number_name(M_RepStr*, u32 n) { return M_RepStr::field_number_to_name(static_cast<M_RepStr::FieldNumber>(n)); }
template<> struct G<M_RepStr> { using S = S_RepStr; static const MD& md() { return D_RepStr; } };

// ---- vs.TNest
using M_TNest = ::vs::TNest<3, 2, 3, 3, 3>;
struct S_TNest {
  u32 which_o;
  S_Strs a;
  u32 n_b; S_Strs b[2];
  u32 has_c; S_Strs c;
  S_Strs d;
  u32 e;
};
static const FD F_TNest[] = {
  {1u, K_MSG, C_PLAIN, 0, 0, (u32)offsetof(S_TNest, a), (u32)0, (u32)sizeof(S_Strs), &D_Strs, "a"},
  {2u, K_MSG, C_REP, 2, 0, (u32)offsetof(S_TNest, b), (u32)offsetof(S_TNest, n_b), (u32)sizeof(S_Strs), &D_Strs, "b"},
  {3u, K_MSG, C_OPT, 0, 0, (u32)offsetof(S_TNest, c), (u32)offsetof(S_TNest, has_c), (u32)sizeof(S_Strs), &D_Strs, "c"},
  {4u, K_MSG, C_ONE, 0, 0, (u32)offsetof(S_TNest, d), (u32)offsetof(S_TNest, which_o), (u32)sizeof(S_Strs), &D_Strs, "d"},
  {5u, K_U32, C_ONE, 0, 0, (u32)offsetof(S_TNest, e), (u32)offsetof(S_TNest, which_o), (u32)sizeof(u32), nullptr, "e"},
};
static const MD D_TNest = {F_TNest, 5, (u32)sizeof(S_TNest), "TNest"};
static inline void load(M_TNest& m, const S_TNest& s) {
  (void)m; (void)s;
  load(m.mutable_a(), s.a);
  for (u32 i = 0; i < s.n_b; i++) { load(m.mutable_b(i), s.b[i]); }
  if (s.has_c) { load(m.mutable_c(), s.c); }
  if (s.which_o == 4u) { load(m.mutable_d(), s.d); }
  if (s.which_o == 5u) { m.set_e(from_bits<uint32_t>(s.e)); }
}
static inline void read(S_TNest& s, const M_TNest& m) {
  (void)m; ref_reset(D_TNest, (u8*)&s);
  s.which_o = static_cast<u32>(m.get_which_o());
  read(s.a, m.get_a());
  s.n_b = m.get_b().get_length(); CHECK_CAP(s.n_b, 2); for (u32 i = 0; i < s.n_b; i++) { read(s.b[i], m.get_b().get_const(i)); }
  s.has_c = m.has_c() ? 1 : 0; read(s.c, m.get_c());
  HAS_ONE(m.has_d(), s.which_o, 4u); if (s.which_o == 4u) { read(s.d, m.get_d()); }
  HAS_ONE(m.has_e(), s.which_o, 5u); if (s.which_o == 5u) { s.e = to_bits<uint32_t>(m.get_e()); }
}
static inline void clear_field(M_TNest& m, u32 k) {
  (void)m; switch (k) {
    case 0: m.clear_a(); break;
    case 1: m.clear_b(); break;
    case 2: m.clear_c(); break;
    case 3: m.clear_d(); break;
    case 4: m.clear_e(); break;
    default: break;
  }
}
static inline bool set_field(M_TNest& m, const S_TNest& s, u32 k, u32 how = 0) {
  (void)m; (void)s; switch (k) {
    case 0: { M_Strs e; load(e, s.a); if (how == 0) { m.set_a(static_cast<M_Strs&&>(e)); return true; } if (how == 1) { m.set_a(e); return true; } if (how == 2) { m.mutable_a() = e; return true; } return false; }
    case 1: { if (how == 3) { ::EmbeddedProto::RepeatedFieldFixedSize<M_Strs, 2> a; for (u32 i = 0; i < s.n_b; i++) { M_Strs e; load(e, s.b[i]); a.add(e); } m.set_b(a); return true; } for (u32 i = 0; i < s.n_b; i++) { M_Strs e; load(e, s.b[i]); if (how == 0) m.set_b(i, static_cast<M_Strs&&>(e)); else if (how == 1) m.set_b(i, e); else if (how == 2) m.mutable_b(i) = e; else return false; } return true; }
    case 2: { M_Strs e; load(e, s.c); if (how == 0) { m.set_c(static_cast<M_Strs&&>(e)); return true; } if (how == 1) { m.set_c(e); return true; } if (how == 2) { m.mutable_c() = e; return true; } return false; }
    case 3: { M_Strs e; load(e, s.d); if (how == 0) { m.set_d(static_cast<M_Strs&&>(e)); return true; } if (how == 1) { m.set_d(e); return true; } if (how == 2) { m.mutable_d() = e; return true; } return false; }
    case 4: { uint32_t e; e = from_bits<uint32_t>(s.e); if (how == 0) { m.set_e(static_cast<uint32_t&&>(e)); return true; } if (how == 1) { m.set_e(e); return true; } return false; }
    default: return false;
  }
}
static inline bool put_at(M_TNest& m, const S_TNest& s, u32 k, u32 at, u32 how) {
  (void)m; (void)s; (void)at; (void)how; switch (k) {
    case 1: { M_Strs e; load(e, s.b[0]); if (how == 0) m.set_b(at, static_cast<M_Strs&&>(e)); else if (how == 1) m.set_b(at, e); else if (how == 2) m.mutable_b(at) = e; else if (how == 3) m.mutable_b().set(at, e); else if (how == 4) m.mutable_b()[at] = e; else if (how == 5) m.add_b(e); else m.mutable_b().add(e); return true; }
    default: return false;
  }
}
static inline void alias_check(const M_TNest& m, u32 k) {
  (void)m; switch (k) {
    case 0: { sym_assert(&m.a() == &m.get_a(), "x() and get_x() differ"); break; }
    case 1: { sym_assert(&m.b() == &m.get_b(), "x() and get_x() differ"); for (u32 i = 0; i < m.get_b().get_length(); i++) sym_assert(&m.b(i) == &m.get_b().get_const(i), "x(i) is not the element of the array"); break; }
    case 2: { sym_assert(&m.c() == &m.get_c(), "x() and get_x() differ"); break; }
    case 3: { if (m.has_d()) { sym_assert(&m.d() == &m.get_d(), "x() and get_x() differ"); } break; }
    case 4: { if (m.has_e()) { sym_assert(to_bits<uint32_t>(m.e()) == to_bits<uint32_t>(m.get_e()), "x() and get_x() differ"); } break; }
    default: break;
  }
}
static inline bool touch_field(M_TNest& m, u32 k) {
  (void)m; switch (k) {
    case 0: (void)m.mutable_a(); return true;
    case 1: (void)m.mutable_b(); return true;
    case 2: (void)m.mutable_c(); return true;
    case 3: (void)m.mutable_d(); return true;
    default: return false;
  }
}
static inline bool extend_field(M_TNest& m, u32 k, u32 n) {
  (void)m; (void)n; switch (k) {
    case 1: (void)m.mutable_b(n - 1); return true;
    default: return false;
  }
}
static inline void limits(const M_TNest& m) {
  (void)m;
  static_assert(static_cast<u32>(M_TNest::FieldNumber::A) == 1u, "number of field a");
  sym_assert(__builtin_strcmp(M_TNest::A_NAME, "a") == 0, "name constant of field a");
  static_assert(std::is_same<decltype(m.a()), const M_Strs&>::value, "type of field a");
  static_assert(static_cast<u32>(M_TNest::FieldNumber::B) == 2u, "number of field b");
  sym_assert(__builtin_strcmp(M_TNest::B_NAME, "b") == 0, "name constant of field b");
  sym_assert(m.get_b().get_max_length() == 2u, "capacity of field b");
  static_assert(static_cast<u32>(M_TNest::FieldNumber::C) == 3u, "number of field c");
  sym_assert(__builtin_strcmp(M_TNest::C_NAME, "c") == 0, "name constant of field c");
  static_assert(std::is_same<decltype(m.c()), const M_Strs&>::value, "type of field c");
  static_assert(static_cast<u32>(M_TNest::FieldNumber::D) == 4u, "number of field d");
  sym_assert(__builtin_strcmp(M_TNest::D_NAME, "d") == 0, "name constant of field d");
  static_assert(std::is_same<decltype(m.d()), const M_Strs&>::value, "type of field d");
  static_assert(static_cast<u32>(M_TNest::FieldNumber::E) == 5u, "number of field e");
  sym_assert(__builtin_strcmp(M_TNest::E_NAME, "e") == 0, "name constant of field e");
  static_assert(std::is_same<decltype(m.e()), uint32_t>::value, "type of field e");
}
static inline const char* left_out(M_TNest*, u32 n) { (void)n; return nullptr; }
static inline const char* number_name(M_TNest*, u32 n) { return M_TNest::field_number_to_name(static_cast<M_TNest::FieldNumber>(n)); }
template<> struct G<M_TNest> { using S = S_TNest; static const MD& md() { return D_TNest; } };

// ---- vs.OneMore
using M_OneMore = ::vs::OneMore;
struct S_OneMore {
  u32 which_all;
  u32 which_lone;
  u32 which_single;
  u64 a;
  u32 b;
  u32 c;
  u64 d;
  u32 e;
  u64 f;
  u32 g;
  u64 h;
  u32 k;
  Str<2> m;
};
static const FD F_OneMore[] = {
  {1u, K_I64, C_ONE, 0, 0, (u32)offsetof(S_OneMore, a), (u32)offsetof(S_OneMore, which_all), (u32)sizeof(u64), nullptr, "a"},
  {2u, K_U32, C_ONE, 0, 0, (u32)offsetof(S_OneMore, b), (u32)offsetof(S_OneMore, which_all), (u32)sizeof(u32), nullptr, "b"},
  {3u, K_S32, C_ONE, 0, 0, (u32)offsetof(S_OneMore, c), (u32)offsetof(S_OneMore, which_all), (u32)sizeof(u32), nullptr, "c"},
  {4u, K_S64, C_ONE, 0, 0, (u32)offsetof(S_OneMore, d), (u32)offsetof(S_OneMore, which_all), (u32)sizeof(u64), nullptr, "d"},
  {5u, K_F32, C_ONE, 0, 0, (u32)offsetof(S_OneMore, e), (u32)offsetof(S_OneMore, which_all), (u32)sizeof(u32), nullptr, "e"},
  {6u, K_F64, C_ONE, 0, 0, (u32)offsetof(S_OneMore, f), (u32)offsetof(S_OneMore, which_all), (u32)sizeof(u64), nullptr, "f"},
  {7u, K_SF32, C_ONE, 0, 0, (u32)offsetof(S_OneMore, g), (u32)offsetof(S_OneMore, which_all), (u32)sizeof(u32), nullptr, "g"},
  {8u, K_SF64, C_ONE, 0, 0, (u32)offsetof(S_OneMore, h), (u32)offsetof(S_OneMore, which_all), (u32)sizeof(u64), nullptr, "h"},
  {9u, K_ENUM, C_ONE, 0, 0, (u32)offsetof(S_OneMore, k), (u32)offsetof(S_OneMore, which_lone), (u32)sizeof(u32), nullptr, "k"},
  {20u, K_BYT, C_ONE, 0, 2, (u32)offsetof(S_OneMore, m), (u32)offsetof(S_OneMore, which_single), (u32)sizeof(Str<2>), nullptr, "m"},
};
static const MD D_OneMore = {F_OneMore, 10, (u32)sizeof(S_OneMore), "OneMore"};
static inline void load(M_OneMore& m, const S_OneMore& s) {
  (void)m; (void)s;
  if (s.which_all == 1u) { m.set_a(from_bits<int64_t>(s.a)); }
  if (s.which_all == 2u) { m.set_b(from_bits<uint32_t>(s.b)); }
  if (s.which_all == 3u) { m.set_c(from_bits<int32_t>(s.c)); }
  if (s.which_all == 4u) { m.set_d(from_bits<int64_t>(s.d)); }
  if (s.which_all == 5u) { m.set_e(from_bits<uint32_t>(s.e)); }
  if (s.which_all == 6u) { m.set_f(from_bits<uint64_t>(s.f)); }
  if (s.which_all == 7u) { m.set_g(from_bits<int32_t>(s.g)); }
  if (s.which_all == 8u) { m.set_h(from_bits<int64_t>(s.h)); }
  if (s.which_lone == 9u) { m.set_k(static_cast<::vs::Color>(s.k)); }
  if (s.which_single == 20u) { loadstr(m.mutable_m(), s.m); }
}
static inline void read(S_OneMore& s, const M_OneMore& m) {
  (void)m; ref_reset(D_OneMore, (u8*)&s);
  s.which_all = static_cast<u32>(m.get_which_all());
  s.which_lone = static_cast<u32>(m.get_which_lone());
  s.which_single = static_cast<u32>(m.get_which_single());
  HAS_ONE(m.has_a(), s.which_all, 1u); if (s.which_all == 1u) { s.a = to_bits<int64_t>(m.get_a()); }
  HAS_ONE(m.has_b(), s.which_all, 2u); if (s.which_all == 2u) { s.b = to_bits<uint32_t>(m.get_b()); }
  HAS_ONE(m.has_c(), s.which_all, 3u); if (s.which_all == 3u) { s.c = to_bits<int32_t>(m.get_c()); }
  HAS_ONE(m.has_d(), s.which_all, 4u); if (s.which_all == 4u) { s.d = to_bits<int64_t>(m.get_d()); }
  HAS_ONE(m.has_e(), s.which_all, 5u); if (s.which_all == 5u) { s.e = to_bits<uint32_t>(m.get_e()); }
  HAS_ONE(m.has_f(), s.which_all, 6u); if (s.which_all == 6u) { s.f = to_bits<uint64_t>(m.get_f()); }
  HAS_ONE(m.has_g(), s.which_all, 7u); if (s.which_all == 7u) { s.g = to_bits<int32_t>(m.get_g()); }
  HAS_ONE(m.has_h(), s.which_all, 8u); if (s.which_all == 8u) { s.h = to_bits<int64_t>(m.get_h()); }
  HAS_ONE(m.has_k(), s.which_lone, 9u); if (s.which_lone == 9u) { s.k = static_cast<u32>(m.get_k()); }
  HAS_ONE(m.has_m(), s.which_single, 20u); if (s.which_single == 20u) { readstr(s.m, m.get_m()); }
}
static inline void clear_field(M_OneMore& m, u32 k) {
  (void)m; switch (k) {
    case 0: m.clear_a(); break;
    case 1: m.clear_b(); break;
    case 2: m.clear_c(); break;
    case 3: m.clear_d(); break;
    case 4: m.clear_e(); break;
    case 5: m.clear_f(); break;
    case 6: m.clear_g(); break;
    case 7: m.clear_h(); break;
    case 8: m.clear_k(); break;
    case 9: m.clear_m(); break;
    default: break;
  }
}
static inline bool set_field(M_OneMore& m, const S_OneMore& s, u32 k, u32 how = 0) {
  (void)m; (void)s; switch (k) {
    case 0: { int64_t e; e = from_bits<int64_t>(s.a); if (how == 0) { m.set_a(static_cast<int64_t&&>(e)); return true; } if (how == 1) { m.set_a(e); return true; } return false; }
    case 1: { uint32_t e; e = from_bits<uint32_t>(s.b); if (how == 0) { m.set_b(static_cast<uint32_t&&>(e)); return true; } if (how == 1) { m.set_b(e); return true; } return false; }
    case 2: { int32_t e; e = from_bits<int32_t>(s.c); if (how == 0) { m.set_c(static_cast<int32_t&&>(e)); return true; } if (how == 1) { m.set_c(e); return true; } return false; }
    case 3: { int64_t e; e = from_bits<int64_t>(s.d); if (how == 0) { m.set_d(static_cast<int64_t&&>(e)); return true; } if (how == 1) { m.set_d(e); return true; } return false; }
    case 4: { uint32_t e; e = from_bits<uint32_t>(s.e); if (how == 0) { m.set_e(static_cast<uint32_t&&>(e)); return true; } if (how == 1) { m.set_e(e); return true; } return false; }
    case 5: { uint64_t e; e = from_bits<uint64_t>(s.f); if (how == 0) { m.set_f(static_cast<uint64_t&&>(e)); return true; } if (how == 1) { m.set_f(e); return true; } return false; }
    case 6: { int32_t e; e = from_bits<int32_t>(s.g); if (how == 0) { m.set_g(static_cast<int32_t&&>(e)); return true; } if (how == 1) { m.set_g(e); return true; } return false; }
    case 7: { int64_t e; e = from_bits<int64_t>(s.h); if (how == 0) { m.set_h(static_cast<int64_t&&>(e)); return true; } if (how == 1) { m.set_h(e); return true; } return false; }
    case 8: { ::vs::Color e; e = static_cast<::vs::Color>(s.k); if (how == 0) { m.set_k(static_cast<::vs::Color&&>(e)); return true; } if (how == 1) { m.set_k(e); return true; } return false; }
    case 9: { ::EmbeddedProto::FieldBytes<2> e; loadstr(e, s.m); if (how == 0) { m.set_m(static_cast<::EmbeddedProto::FieldBytes<2>&&>(e)); return true; } if (how == 1) { m.set_m(e); return true; } if (how == 2) { loadstr(m.mutable_m(), s.m); return true; } return false; }
    default: return false;
  }
}
static inline bool put_at(M_OneMore& m, const S_OneMore& s, u32 k, u32 at, u32 how) {
  (void)m; (void)s; (void)at; (void)how; switch (k) {
    default: return false;
  }
}
static inline void alias_check(const M_OneMore& m, u32 k) {
  (void)m; switch (k) {
    case 0: { if (m.has_a()) { sym_assert(to_bits<int64_t>(m.a()) == to_bits<int64_t>(m.get_a()), "x() and get_x() differ"); } break; }
    case 1: { if (m.has_b()) { sym_assert(to_bits<uint32_t>(m.b()) == to_bits<uint32_t>(m.get_b()), "x() and get_x() differ"); } break; }
    case 2: { if (m.has_c()) { sym_assert(to_bits<int32_t>(m.c()) == to_bits<int32_t>(m.get_c()), "x() and get_x() differ"); } break; }
    case 3: { if (m.has_d()) { sym_assert(to_bits<int64_t>(m.d()) == to_bits<int64_t>(m.get_d()), "x() and get_x() differ"); } break; }
    case 4: { if (m.has_e()) { sym_assert(to_bits<uint32_t>(m.e()) == to_bits<uint32_t>(m.get_e()), "x() and get_x() differ"); } break; }
    case 5: { if (m.has_f()) { sym_assert(to_bits<uint64_t>(m.f()) == to_bits<uint64_t>(m.get_f()), "x() and get_x() differ"); } break; }
    case 6: { if (m.has_g()) { sym_assert(to_bits<int32_t>(m.g()) == to_bits<int32_t>(m.get_g()), "x() and get_x() differ"); } break; }
    case 7: { if (m.has_h()) { sym_assert(to_bits<int64_t>(m.h()) == to_bits<int64_t>(m.get_h()), "x() and get_x() differ"); } break; }
    case 8: { if (m.has_k()) { sym_assert(m.k() == m.get_k(), "x() and get_x() differ"); } break; }
    case 9: { if (m.has_m()) { sym_assert(m.m() == m.get_m().get_const(), "x() and get_x() differ"); } break; }
    default: break;
  }
}
static inline bool touch_field(M_OneMore& m, u32 k) {
  (void)m; switch (k) {
    case 9: (void)m.mutable_m(); return true;
    default: return false;
  }
}
static inline bool extend_field(M_OneMore& m, u32 k, u32 n) {
  (void)m; (void)n; switch (k) {
    case 9: (void)m.mutable_m().get(n - 1); return true;
    default: return false;
  }
}
static inline void limits(const M_OneMore& m) {
  (void)m;
  static_assert(static_cast<u32>(M_OneMore::FieldNumber::A) == 1u, "number of field a");
  sym_assert(__builtin_strcmp(M_OneMore::A_NAME, "a") == 0, "name constant of field a");
  static_assert(std::is_same<decltype(m.a()), int64_t>::value, "type of field a");
  static_assert(static_cast<u32>(M_OneMore::FieldNumber::B) == 2u, "number of field b");
  sym_assert(__builtin_strcmp(M_OneMore::B_NAME, "b") == 0, "name constant of field b");
  static_assert(std::is_same<decltype(m.b()), uint32_t>::value, "type of field b");
  static_assert(static_cast<u32>(M_OneMore::FieldNumber::C) == 3u, "number of field c");
  sym_assert(__builtin_strcmp(M_OneMore::C_NAME, "c") == 0, "name constant of field c");
  static_assert(std::is_same<decltype(m.c()), int32_t>::value, "type of field c");
  static_assert(static_cast<u32>(M_OneMore::FieldNumber::D) == 4u, "number of field d");
  sym_assert(__builtin_strcmp(M_OneMore::D_NAME, "d") == 0, "name constant of field d");
  static_assert(std::is_same<decltype(m.d()), int64_t>::value, "type of field d");
  static_assert(static_cast<u32>(M_OneMore::FieldNumber::E) == 5u, "number of field e");
  sym_assert(__builtin_strcmp(M_OneMore::E_NAME, "e") == 0, "name constant of field e");
  static_assert(std::is_same<decltype(m.e()), uint32_t>::value, "type of field e");
  static_assert(static_cast<u32>(M_OneMore::FieldNumber::F) == 6u, "number of field f");
  sym_assert(__builtin_strcmp(M_OneMore::F_NAME, "f") == 0, "name constant of field f");
  static_assert(std::is_same<decltype(m.f()), uint64_t>::value, "type of field f");
  static_assert(static_cast<u32>(M_OneMore::FieldNumber::G) == 7u, "number of field g");
  sym_assert(__builtin_strcmp(M_OneMore::G_NAME, "g") == 0, "name constant of field g");
  static_assert(std::is_same<decltype(m.g()), int32_t>::value, "type of field g");
  static_assert(static_cast<u32>(M_OneMore::FieldNumber::H) == 8u, "number of field h");
  sym_assert(__builtin_strcmp(M_OneMore::H_NAME, "h") == 0, "name constant of field h");
  static_assert(std::is_same<decltype(m.h()), int64_t>::value, "type of field h");
  static_assert(static_cast<u32>(M_OneMore::FieldNumber::K) == 9u, "number of field k");
  sym_assert(__builtin_strcmp(M_OneMore::K_NAME, "k") == 0, "name constant of field k");
  static_assert(std::is_same<decltype(m.k()), ::vs::Color>::value, "type of field k");
  static_assert(static_cast<u32>(M_OneMore::FieldNumber::M) == 20u, "number of field m");
  sym_assert(__builtin_strcmp(M_OneMore::M_NAME, "m") == 0, "name constant of field m");
  if (m.has_m()) sym_assert(m.get_m().get_max_length() == 2u, "capacity of field m");
}
static inline const char* left_out(M_OneMore*, u32 n) { (void)n; return nullptr; }
static inline const char* number_name(M_OneMore*, u32 n) { return M_OneMore::field_number_to_name(static_cast<M_OneMore::FieldNumber>(n)); }
template<> struct G<M_OneMore> { using S = S_OneMore; static const MD& md() { return D_OneMore; } };

// ---- vs.Later
using M_Later = ::vs::Later;
struct S_Later {
  u32 v;
};
static const FD F_Later[] = {
  {1u, K_U32, C_PLAIN, 0, 0, (u32)offsetof(S_Later, v), (u32)0, (u32)sizeof(u32), nullptr, "v"},
};
static const MD D_Later = {F_Later, 1, (u32)sizeof(S_Later), "Later"};
static inline void load(M_Later& m, const S_Later& s) {
  (void)m; (void)s;
  m.set_v(from_bits<uint32_t>(s.v));
}
static inline void read(S_Later& s, const M_Later& m) {
  (void)m; ref_reset(D_Later, (u8*)&s);
  s.v = to_bits<uint32_t>(m.get_v());
}
static inline void clear_field(M_Later& m, u32 k) {
  (void)m; switch (k) {
    case 0: m.clear_v(); break;
    default: break;
  }
}
static inline bool set_field(M_Later& m, const S_Later& s, u32 k, u32 how = 0) {
  (void)m; (void)s; switch (k) {
    case 0: { uint32_t e; e = from_bits<uint32_t>(s.v); if (how == 0) { m.set_v(static_cast<uint32_t&&>(e)); return true; } if (how == 1) { m.set_v(e); return true; } if (how == 2) { m.mutable_v() = e; return true; } return false; }
    default: return false;
  }
}
static inline bool put_at(M_Later& m, const S_Later& s, u32 k, u32 at, u32 how) {
  (void)m; (void)s; (void)at; (void)how; switch (k) {
    default: return false;
  }
}
static inline void alias_check(const M_Later& m, u32 k) {
  (void)m; switch (k) {
    case 0: { sym_assert(to_bits<uint32_t>(m.v()) == to_bits<uint32_t>(m.get_v()), "x() and get_x() differ"); break; }
    default: break;
  }
}
static inline bool touch_field(M_Later& m, u32 k) {
  (void)m; switch (k) {
    case 0: (void)m.mutable_v(); return true;
    default: return false;
  }
}
static inline bool extend_field(M_Later& m, u32 k, u32 n) {
  (void)m; (void)n; switch (k) {
    default: return false;
  }
}
static inline void limits(const M_Later& m) {
  (void)m;
  static_assert(static_cast<u32>(M_Later::FieldNumber::V) == 1u, "number of field v");
  sym_assert(__builtin_strcmp(M_Later::V_NAME, "v") == 0, "name constant of field v");
  static_assert(std::is_same<decltype(m.v()), uint32_t>::value, "type of field v");
}
static inline const char* left_out(M_Later*, u32 n) { (void)n; return nullptr; }
static inline const char* number_name(M_Later*, u32 n) { return M_Later::field_number_to_name(static_cast<M_Later::FieldNumber>(n)); }
template<> struct G<M_Later> { using S = S_Later; static const MD& md() { return D_Later; } };

// ---- vs.OptMore
using M_OptMore = ::vs::OptMore;
struct S_OptMore {
  u32 has_a; u64 a;
  u32 has_b; u32 b;
  u32 has_c; u64 c;
  u32 has_d; u64 d;
  u32 has_e; u32 e;
  u32 has_f; S_Later f;
  u32 has_g; u32 g;
  u32 has_h; S_other_Box h;
};
static const FD F_OptMore[] = {
  {1u, K_I64, C_OPT, 0, 0, (u32)offsetof(S_OptMore, a), (u32)offsetof(S_OptMore, has_a), (u32)sizeof(u64), nullptr, "a"},
  {2u, K_U32, C_OPT, 0, 0, (u32)offsetof(S_OptMore, b), (u32)offsetof(S_OptMore, has_b), (u32)sizeof(u32), nullptr, "b"},
  {3u, K_S64, C_OPT, 0, 0, (u32)offsetof(S_OptMore, c), (u32)offsetof(S_OptMore, has_c), (u32)sizeof(u64), nullptr, "c"},
  {4u, K_F64, C_OPT, 0, 0, (u32)offsetof(S_OptMore, d), (u32)offsetof(S_OptMore, has_d), (u32)sizeof(u64), nullptr, "d"},
  {5u, K_SF32, C_OPT, 0, 0, (u32)offsetof(S_OptMore, e), (u32)offsetof(S_OptMore, has_e), (u32)sizeof(u32), nullptr, "e"},
  {6u, K_MSG, C_OPT, 0, 0, (u32)offsetof(S_OptMore, f), (u32)offsetof(S_OptMore, has_f), (u32)sizeof(S_Later), &D_Later, "f"},
  {16u, K_ENUM, C_OPT, 0, 0, (u32)offsetof(S_OptMore, g), (u32)offsetof(S_OptMore, has_g), (u32)sizeof(u32), nullptr, "g"},
  {17u, K_MSG, C_OPT, 0, 0, (u32)offsetof(S_OptMore, h), (u32)offsetof(S_OptMore, has_h), (u32)sizeof(S_other_Box), &D_other_Box, "h"},
};
static const MD D_OptMore = {F_OptMore, 8, (u32)sizeof(S_OptMore), "OptMore"};
static inline void load(M_OptMore& m, const S_OptMore& s) {
  (void)m; (void)s;
  if (s.has_a) { m.set_a(from_bits<int64_t>(s.a)); }
  if (s.has_b) { m.set_b(from_bits<uint32_t>(s.b)); }
  if (s.has_c) { m.set_c(from_bits<int64_t>(s.c)); }
  if (s.has_d) { m.set_d(from_bits<uint64_t>(s.d)); }
  if (s.has_e) { m.set_e(from_bits<int32_t>(s.e)); }
  if (s.has_f) { load(m.mutable_f(), s.f); }
  if (s.has_g) { m.set_g(static_cast<::vs::common::Level>(s.g)); }
  if (s.has_h) { load(m.mutable_h(), s.h); }
}
static inline void read(S_OptMore& s, const M_OptMore& m) {
  (void)m; ref_reset(D_OptMore, (u8*)&s);
  s.has_a = m.has_a() ? 1 : 0; s.a = to_bits<int64_t>(m.get_a());
  s.has_b = m.has_b() ? 1 : 0; s.b = to_bits<uint32_t>(m.get_b());
  s.has_c = m.has_c() ? 1 : 0; s.c = to_bits<int64_t>(m.get_c());
  s.has_d = m.has_d() ? 1 : 0; s.d = to_bits<uint64_t>(m.get_d());
  s.has_e = m.has_e() ? 1 : 0; s.e = to_bits<int32_t>(m.get_e());
  s.has_f = m.has_f() ? 1 : 0; read(s.f, m.get_f());
  s.has_g = m.has_g() ? 1 : 0; s.g = static_cast<u32>(m.get_g());
  s.has_h = m.has_h() ? 1 : 0; read(s.h, m.get_h());
}
static inline void clear_field(M_OptMore& m, u32 k) {
  (void)m; switch (k) {
    case 0: m.clear_a(); break;
    case 1: m.clear_b(); break;
    case 2: m.clear_c(); break;
    case 3: m.clear_d(); break;
    case 4: m.clear_e(); break;
    case 5: m.clear_f(); break;
    case 6: m.clear_g(); break;
    case 7: m.clear_h(); break;
    default: break;
  }
}
static inline bool set_field(M_OptMore& m, const S_OptMore& s, u32 k, u32 how = 0) {
  (void)m; (void)s; switch (k) {
    case 0: { int64_t e; e = from_bits<int64_t>(s.a); if (how == 0) { m.set_a(static_cast<int64_t&&>(e)); return true; } if (how == 1) { m.set_a(e); return true; } if (how == 2) { m.mutable_a() = e; return true; } return false; }
    case 1: { uint32_t e; e = from_bits<uint32_t>(s.b); if (how == 0) { m.set_b(static_cast<uint32_t&&>(e)); return true; } if (how == 1) { m.set_b(e); return true; } if (how == 2) { m.mutable_b() = e; return true; } return false; }
    case 2: { int64_t e; e = from_bits<int64_t>(s.c); if (how == 0) { m.set_c(static_cast<int64_t&&>(e)); return true; } if (how == 1) { m.set_c(e); return true; } if (how == 2) { m.mutable_c() = e; return true; } return false; }
    case 3: { uint64_t e; e = from_bits<uint64_t>(s.d); if (how == 0) { m.set_d(static_cast<uint64_t&&>(e)); return true; } if (how == 1) { m.set_d(e); return true; } if (how == 2) { m.mutable_d() = e; return true; } return false; }
    case 4: { int32_t e; e = from_bits<int32_t>(s.e); if (how == 0) { m.set_e(static_cast<int32_t&&>(e)); return true; } if (how == 1) { m.set_e(e); return true; } if (how == 2) { m.mutable_e() = e; return true; } return false; }
    case 5: { M_Later e; load(e, s.f); if (how == 0) { m.set_f(static_cast<M_Later&&>(e)); return true; } if (how == 1) { m.set_f(e); return true; } if (how == 2) { m.mutable_f() = e; return true; } return false; }
    case 6: { ::vs::common::Level e; e = static_cast<::vs::common::Level>(s.g); if (how == 0) { m.set_g(static_cast<::vs::common::Level&&>(e)); return true; } if (how == 1) { m.set_g(e); return true; } return false; }
    case 7: { M_other_Box e; load(e, s.h); if (how == 0) { m.set_h(static_cast<M_other_Box&&>(e)); return true; } if (how == 1) { m.set_h(e); return true; } if (how == 2) { m.mutable_h() = e; return true; } return false; }
    default: return false;
  }
}
static inline bool put_at(M_OptMore& m, const S_OptMore& s, u32 k, u32 at, u32 how) {
  (void)m; (void)s; (void)at; (void)how; switch (k) {
    default: return false;
  }
}
static inline void alias_check(const M_OptMore& m, u32 k) {
  (void)m; switch (k) {
    case 0: { sym_assert(to_bits<int64_t>(m.a()) == to_bits<int64_t>(m.get_a()), "x() and get_x() differ"); break; }
    case 1: { sym_assert(to_bits<uint32_t>(m.b()) == to_bits<uint32_t>(m.get_b()), "x() and get_x() differ"); break; }
    case 2: { sym_assert(to_bits<int64_t>(m.c()) == to_bits<int64_t>(m.get_c()), "x() and get_x() differ"); break; }
    case 3: { sym_assert(to_bits<uint64_t>(m.d()) == to_bits<uint64_t>(m.get_d()), "x() and get_x() differ"); break; }
    case 4: { sym_assert(to_bits<int32_t>(m.e()) == to_bits<int32_t>(m.get_e()), "x() and get_x() differ"); break; }
    case 5: { sym_assert(&m.f() == &m.get_f(), "x() and get_x() differ"); break; }
    case 6: { sym_assert(m.g() == m.get_g(), "x() and get_x() differ"); break; }
    case 7: { sym_assert(&m.h() == &m.get_h(), "x() and get_x() differ"); break; }
    default: break;
  }
}
static inline bool touch_field(M_OptMore& m, u32 k) {
  (void)m; switch (k) {
    case 0: (void)m.mutable_a(); return true;
    case 1: (void)m.mutable_b(); return true;
    case 2: (void)m.mutable_c(); return true;
    case 3: (void)m.mutable_d(); return true;
    case 4: (void)m.mutable_e(); return true;
    case 5: (void)m.mutable_f(); return true;
    case 7: (void)m.mutable_h(); return true;
    default: return false;
  }
}
static inline bool extend_field(M_OptMore& m, u32 k, u32 n) {
  (void)m; (void)n; switch (k) {
    default: return false;
  }
}
static inline void limits(const M_OptMore& m) {
  (void)m;
  static_assert(static_cast<u32>(M_OptMore::FieldNumber::A) == 1u, "number of field a");
  sym_assert(__builtin_strcmp(M_OptMore::A_NAME, "a") == 0, "name constant of field a");
  static_assert(std::is_same<decltype(m.a()), int64_t>::value, "type of field a");
  static_assert(static_cast<u32>(M_OptMore::FieldNumber::B) == 2u, "number of field b");
  sym_assert(__builtin_strcmp(M_OptMore::B_NAME, "b") == 0, "name constant of field b");
  static_assert(std::is_same<decltype(m.b()), uint32_t>::value, "type of field b");
  static_assert(static_cast<u32>(M_OptMore::FieldNumber::C) == 3u, "number of field c");
  sym_assert(__builtin_strcmp(M_OptMore::C_NAME, "c") == 0, "name constant of field c");
  static_assert(std::is_same<decltype(m.c()), int64_t>::value, "type of field c");
  static_assert(static_cast<u32>(M_OptMore::FieldNumber::D) == 4u, "number of field d");
  sym_assert(__builtin_strcmp(M_OptMore::D_NAME, "d") == 0, "name constant of field d");
  static_assert(std::is_same<decltype(m.d()), uint64_t>::value, "type of field d");
  static_assert(static_cast<u32>(M_OptMore::FieldNumber::E) == 5u, "number of field e");
  sym_assert(__builtin_strcmp(M_OptMore::E_NAME, "e") == 0, "name constant of field e");
  static_assert(std::is_same<decltype(m.e()), int32_t>::value, "type of field e");
  static_assert(static_cast<u32>(M_OptMore::FieldNumber::F) == 6u, "number of field f");
  sym_assert(__builtin_strcmp(M_OptMore::F_NAME, "f") == 0, "name constant of field f");
  static_assert(std::is_same<decltype(m.f()), const M_Later&>::value, "type of field f");
  static_assert(static_cast<u32>(M_OptMore::FieldNumber::G) == 16u, "number of field g");
  sym_assert(__builtin_strcmp(M_OptMore::G_NAME, "g") == 0, "name constant of field g");
  static_assert(std::is_same<decltype(m.g()), ::vs::common::Level>::value, "type of field g");
  static_assert(static_cast<u32>(M_OptMore::FieldNumber::H) == 17u, "number of field h");
  sym_assert(__builtin_strcmp(M_OptMore::H_NAME, "h") == 0, "name constant of field h");
  static_assert(std::is_same<decltype(m.h()), const M_other_Box&>::value, "type of field h");
}
static inline const char* left_out(M_OptMore*, u32 n) { (void)n; return nullptr; }
static inline const char* number_name(M_OptMore*, u32 n) { return M_OptMore::field_number_to_name(static_cast<M_OptMore::FieldNumber>(n)); }
template<> struct G<M_OptMore> { using S = S_OptMore; static const MD& md() { return D_OptMore; } };

// ---- vs.Names
using M_Names = ::vs::Names;
struct S_Names {
  u32 which_SomeChoice;
  u32 camelCase;
  u32 has_HTTPCode; u32 HTTPCode;
  u32 n_mixed_Case1; u32 mixed_Case1[2];
  u32 OneA;
  Str<2> oneB;
};
static const FD F_Names[] = {
  {1u, K_U32, C_PLAIN, 0, 0, (u32)offsetof(S_Names, camelCase), (u32)0, (u32)sizeof(u32), nullptr, "camelCase"},
  {2u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Names, HTTPCode), (u32)offsetof(S_Names, has_HTTPCode), (u32)sizeof(u32), nullptr, "HTTPCode"},
  {3u, K_U32, C_REP, 2, 0, (u32)offsetof(S_Names, mixed_Case1), (u32)offsetof(S_Names, n_mixed_Case1), (u32)sizeof(u32), nullptr, "mixed_Case1"},
  {4u, K_U32, C_ONE, 0, 0, (u32)offsetof(S_Names, OneA), (u32)offsetof(S_Names, which_SomeChoice), (u32)sizeof(u32), nullptr, "OneA"},
  {5u, K_STR, C_ONE, 0, 2, (u32)offsetof(S_Names, oneB), (u32)offsetof(S_Names, which_SomeChoice), (u32)sizeof(Str<2>), nullptr, "oneB"},
};
static const MD D_Names = {F_Names, 5, (u32)sizeof(S_Names), "Names"};
static inline void load(M_Names& m, const S_Names& s) {
  (void)m; (void)s;
  m.set_camelCase(from_bits<uint32_t>(s.camelCase));
  if (s.has_HTTPCode) { m.set_HTTPCode(from_bits<bool>(s.HTTPCode)); }
  for (u32 i = 0; i < s.n_mixed_Case1; i++) m.add_mixed_Case1(from_bits<uint32_t>(s.mixed_Case1[i]));
  if (s.which_SomeChoice == 4u) { m.set_OneA(from_bits<uint32_t>(s.OneA)); }
  if (s.which_SomeChoice == 5u) { loadstr(m.mutable_oneB(), s.oneB); }
}
static inline void read(S_Names& s, const M_Names& m) {
  (void)m; ref_reset(D_Names, (u8*)&s);
  s.which_SomeChoice = static_cast<u32>(m.get_which_SomeChoice());
  s.camelCase = to_bits<uint32_t>(m.get_camelCase());
  s.has_HTTPCode = m.has_HTTPCode() ? 1 : 0; s.HTTPCode = to_bits<bool>(m.get_HTTPCode());
  s.n_mixed_Case1 = m.get_mixed_Case1().get_length(); CHECK_CAP(s.n_mixed_Case1, 2); for (u32 i = 0; i < s.n_mixed_Case1; i++) { s.mixed_Case1[i] = to_bits<uint32_t>(m.get_mixed_Case1().get_const(i).get()); }
  HAS_ONE(m.has_OneA(), s.which_SomeChoice, 4u); if (s.which_SomeChoice == 4u) { s.OneA = to_bits<uint32_t>(m.get_OneA()); }
  HAS_ONE(m.has_oneB(), s.which_SomeChoice, 5u); if (s.which_SomeChoice == 5u) { readstr(s.oneB, m.get_oneB()); }
}
static inline void clear_field(M_Names& m, u32 k) {
  (void)m; switch (k) {
    case 0: m.clear_camelCase(); break;
    case 1: m.clear_HTTPCode(); break;
    case 2: m.clear_mixed_Case1(); break;
    case 3: m.clear_OneA(); break;
    case 4: m.clear_oneB(); break;
    default: break;
  }
}
static inline bool set_field(M_Names& m, const S_Names& s, u32 k, u32 how = 0) {
  (void)m; (void)s; switch (k) {
    case 0: { uint32_t e; e = from_bits<uint32_t>(s.camelCase); if (how == 0) { m.set_camelCase(static_cast<uint32_t&&>(e)); return true; } if (how == 1) { m.set_camelCase(e); return true; } if (how == 2) { m.mutable_camelCase() = e; return true; } return false; }
    case 1: { bool e; e = from_bits<bool>(s.HTTPCode); if (how == 0) { m.set_HTTPCode(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_HTTPCode(e); return true; } if (how == 2) { m.mutable_HTTPCode() = e; return true; } return false; }
    case 2: { if (how == 3) { ::EmbeddedProto::RepeatedFieldFixedSize<::EmbeddedProto::uint32, 2> a; for (u32 i = 0; i < s.n_mixed_Case1; i++) { uint32_t e; e = from_bits<uint32_t>(s.mixed_Case1[i]); a.add(e); } m.set_mixed_Case1(a); return true; } for (u32 i = 0; i < s.n_mixed_Case1; i++) { uint32_t e; e = from_bits<uint32_t>(s.mixed_Case1[i]); ::EmbeddedProto::uint32 c; c = e; if (how == 0) m.set_mixed_Case1(i, static_cast<::EmbeddedProto::uint32&&>(c)); else if (how == 1) m.set_mixed_Case1(i, c); else if (how == 2) m.mutable_mixed_Case1(i) = c; else return false; } return true; }
    case 3: { uint32_t e; e = from_bits<uint32_t>(s.OneA); if (how == 0) { m.set_OneA(static_cast<uint32_t&&>(e)); return true; } if (how == 1) { m.set_OneA(e); return true; } return false; }
    case 4: { ::EmbeddedProto::FieldString<2> e; loadstr(e, s.oneB); if (how == 0) { m.set_oneB(static_cast<::EmbeddedProto::FieldString<2>&&>(e)); return true; } if (how == 1) { m.set_oneB(e); return true; } if (how == 2) { loadstr(m.mutable_oneB(), s.oneB); return true; } return false; }
    default: return false;
  }
}
static inline bool put_at(M_Names& m, const S_Names& s, u32 k, u32 at, u32 how) {
  (void)m; (void)s; (void)at; (void)how; switch (k) {
    case 2: { ::EmbeddedProto::uint32 e; e = from_bits<uint32_t>(s.mixed_Case1[0]); if (how == 0) m.set_mixed_Case1(at, static_cast<::EmbeddedProto::uint32&&>(e)); else if (how == 1) m.set_mixed_Case1(at, e); else if (how == 2) m.mutable_mixed_Case1(at) = e; else if (how == 3) m.mutable_mixed_Case1().set(at, e); else if (how == 4) m.mutable_mixed_Case1()[at] = e; else if (how == 5) m.add_mixed_Case1(e); else m.mutable_mixed_Case1().add(e); return true; }
    default: return false;
  }
}
static inline void alias_check(const M_Names& m, u32 k) {
  (void)m; switch (k) {
    case 0: { sym_assert(to_bits<uint32_t>(m.camelCase()) == to_bits<uint32_t>(m.get_camelCase()), "x() and get_x() differ"); break; }
    case 1: { sym_assert(to_bits<bool>(m.HTTPCode()) == to_bits<bool>(m.get_HTTPCode()), "x() and get_x() differ"); break; }
    case 2: { sym_assert(&m.mixed_Case1() == &m.get_mixed_Case1(), "x() and get_x() differ"); for (u32 i = 0; i < m.get_mixed_Case1().get_length(); i++) sym_assert(&m.mixed_Case1(i) == &m.get_mixed_Case1().get_const(i), "x(i) is not the element of the array"); break; }
    case 3: { if (m.has_OneA()) { sym_assert(to_bits<uint32_t>(m.OneA()) == to_bits<uint32_t>(m.get_OneA()), "x() and get_x() differ"); } break; }
    case 4: { if (m.has_oneB()) { sym_assert(m.oneB() == m.get_oneB().get_const(), "x() and get_x() differ"); } break; }
    default: break;
  }
}
static inline bool touch_field(M_Names& m, u32 k) {
  (void)m; switch (k) {
    case 0: (void)m.mutable_camelCase(); return true;
    case 1: (void)m.mutable_HTTPCode(); return true;
    case 2: (void)m.mutable_mixed_Case1(); return true;
    case 4: (void)m.mutable_oneB(); return true;
    default: return false;
  }
}
static inline bool extend_field(M_Names& m, u32 k, u32 n) {
  (void)m; (void)n; switch (k) {
    case 2: (void)m.mutable_mixed_Case1(n - 1); return true;
    case 4: (void)m.mutable_oneB().get(n - 1); return true;
    default: return false;
  }
}
static inline void limits(const M_Names& m) {
  (void)m;
  static_assert(static_cast<u32>(M_Names::FieldNumber::CAMELCASE) == 1u, "number of field camelCase");
  sym_assert(__builtin_strcmp(M_Names::CAMELCASE_NAME, "camelCase") == 0, "name constant of field camelCase");
  static_assert(std::is_same<decltype(m.camelCase()), uint32_t>::value, "type of field camelCase");
  static_assert(static_cast<u32>(M_Names::FieldNumber::HTTPCODE) == 2u, "number of field HTTPCode");
  sym_assert(__builtin_strcmp(M_Names::HTTPCODE_NAME, "HTTPCode") == 0, "name constant of field HTTPCode");
  static_assert(std::is_same<decltype(m.HTTPCode()), bool>::value, "type of field HTTPCode");
  static_assert(static_cast<u32>(M_Names::FieldNumber::MIXED_CASE1) == 3u, "number of field mixed_Case1");
  sym_assert(__builtin_strcmp(M_Names::MIXED_CASE1_NAME, "mixed_Case1") == 0, "name constant of field mixed_Case1");
  sym_assert(m.get_mixed_Case1().get_max_length() == 2u, "capacity of field mixed_Case1");
  static_assert(static_cast<u32>(M_Names::FieldNumber::ONEA) == 4u, "number of field OneA");
  sym_assert(__builtin_strcmp(M_Names::ONEA_NAME, "OneA") == 0, "name constant of field OneA");
  static_assert(std::is_same<decltype(m.OneA()), uint32_t>::value, "type of field OneA");
  static_assert(static_cast<u32>(M_Names::FieldNumber::ONEB) == 5u, "number of field oneB");
  sym_assert(__builtin_strcmp(M_Names::ONEB_NAME, "oneB") == 0, "name constant of field oneB");
  if (m.has_oneB()) sym_assert(m.get_oneB().get_max_length() == 2u, "capacity of field oneB");
}
static inline const char* left_out(M_Names*, u32 n) { (void)n; return nullptr; }
static inline const char* number_name(M_Names*, u32 n) { return M_Names::field_number_to_name(static_cast<M_Names::FieldNumber>(n)); }
template<> struct G<M_Names> { using S = S_Names; static const MD& md() { return D_Names; } };

// ---- vs.Fwd
using M_Fwd = ::vs::Fwd;
struct S_Fwd {
  S_Later l;
  u32 n_r; S_Later r[2];
  u32 k;
  S_other_Box b;
  u32 m;
};
static const FD F_Fwd[] = {
  {1u, K_MSG, C_PLAIN, 0, 0, (u32)offsetof(S_Fwd, l), (u32)0, (u32)sizeof(S_Later), &D_Later, "l"},
  {2u, K_MSG, C_REP, 2, 0, (u32)offsetof(S_Fwd, r), (u32)offsetof(S_Fwd, n_r), (u32)sizeof(S_Later), &D_Later, "r"},
  {3u, K_ENUM, C_PLAIN, 0, 0, (u32)offsetof(S_Fwd, k), (u32)0, (u32)sizeof(u32), nullptr, "k"},
  {4u, K_MSG, C_PLAIN, 0, 0, (u32)offsetof(S_Fwd, b), (u32)0, (u32)sizeof(S_other_Box), &D_other_Box, "b"},
  {5u, K_ENUM, C_PLAIN, 0, 0, (u32)offsetof(S_Fwd, m), (u32)0, (u32)sizeof(u32), nullptr, "m"},
};
static const MD D_Fwd = {F_Fwd, 5, (u32)sizeof(S_Fwd), "Fwd"};
static inline void load(M_Fwd& m, const S_Fwd& s) {
  (void)m; (void)s;
  load(m.mutable_l(), s.l);
  for (u32 i = 0; i < s.n_r; i++) { load(m.mutable_r(i), s.r[i]); }
  m.set_k(static_cast<::vs::other::Kind>(s.k));
  load(m.mutable_b(), s.b);
  m.set_m(static_cast<::a::b::c::Mode>(s.m));
}
static inline void read(S_Fwd& s, const M_Fwd& m) {
  (void)m; ref_reset(D_Fwd, (u8*)&s);
  read(s.l, m.get_l());
  s.n_r = m.get_r().get_length(); CHECK_CAP(s.n_r, 2); for (u32 i = 0; i < s.n_r; i++) { read(s.r[i], m.get_r().get_const(i)); }
  s.k = static_cast<u32>(m.get_k());
  read(s.b, m.get_b());
  s.m = static_cast<u32>(m.get_m());
}
static inline void clear_field(M_Fwd& m, u32 k) {
  (void)m; switch (k) {
    case 0: m.clear_l(); break;
    case 1: m.clear_r(); break;
    case 2: m.clear_k(); break;
    case 3: m.clear_b(); break;
    case 4: m.clear_m(); break;
    default: break;
  }
}
static inline bool set_field(M_Fwd& m, const S_Fwd& s, u32 k, u32 how = 0) {
  (void)m; (void)s; switch (k) {
    case 0: { M_Later e; load(e, s.l); if (how == 0) { m.set_l(static_cast<M_Later&&>(e)); return true; } if (how == 1) { m.set_l(e); return true; } if (how == 2) { m.mutable_l() = e; return true; } return false; }
    case 1: { if (how == 3) { ::EmbeddedProto::RepeatedFieldFixedSize<M_Later, 2> a; for (u32 i = 0; i < s.n_r; i++) { M_Later e; load(e, s.r[i]); a.add(e); } m.set_r(a); return true; } for (u32 i = 0; i < s.n_r; i++) { M_Later e; load(e, s.r[i]); if (how == 0) m.set_r(i, static_cast<M_Later&&>(e)); else if (how == 1) m.set_r(i, e); else if (how == 2) m.mutable_r(i) = e; else return false; } return true; }
    case 2: { ::vs::other::Kind e; e = static_cast<::vs::other::Kind>(s.k); if (how == 0) { m.set_k(static_cast<::vs::other::Kind&&>(e)); return true; } if (how == 1) { m.set_k(e); return true; } return false; }
    case 3: { M_other_Box e; load(e, s.b); if (how == 0) { m.set_b(static_cast<M_other_Box&&>(e)); return true; } if (how == 1) { m.set_b(e); return true; } if (how == 2) { m.mutable_b() = e; return true; } return false; }
    case 4: { ::a::b::c::Mode e; e = static_cast<::a::b::c::Mode>(s.m); if (how == 0) { m.set_m(static_cast<::a::b::c::Mode&&>(e)); return true; } if (how == 1) { m.set_m(e); return true; } return false; }
    default: return false;
  }
}
static inline bool put_at(M_Fwd& m, const S_Fwd& s, u32 k, u32 at, u32 how) {
  (void)m; (void)s; (void)at; (void)how; switch (k) {
    case 1: { M_Later e; load(e, s.r[0]); if (how == 0) m.set_r(at, static_cast<M_Later&&>(e)); else if (how == 1) m.set_r(at, e); else if (how == 2) m.mutable_r(at) = e; else if (how == 3) m.mutable_r().set(at, e); else if (how == 4) m.mutable_r()[at] = e; else if (how == 5) m.add_r(e); else m.mutable_r().add(e); return true; }
    default: return false;
  }
}
static inline void alias_check(const M_Fwd& m, u32 k) {
  (void)m; switch (k) {
    case 0: { sym_assert(&m.l() == &m.get_l(), "x() and get_x() differ"); break; }
    case 1: { sym_assert(&m.r() == &m.get_r(), "x() and get_x() differ"); for (u32 i = 0; i < m.get_r().get_length(); i++) sym_assert(&m.r(i) == &m.get_r().get_const(i), "x(i) is not the element of the array"); break; }
    case 2: { sym_assert(m.k() == m.get_k(), "x() and get_x() differ"); break; }
    case 3: { sym_assert(&m.b() == &m.get_b(), "x() and get_x() differ"); break; }
    case 4: { sym_assert(m.m() == m.get_m(), "x() and get_x() differ"); break; }
    default: break;
  }
}
static inline bool touch_field(M_Fwd& m, u32 k) {
  (void)m; switch (k) {
    case 0: (void)m.mutable_l(); return true;
    case 1: (void)m.mutable_r(); return true;
    case 3: (void)m.mutable_b(); return true;
    default: return false;
  }
}
static inline bool extend_field(M_Fwd& m, u32 k, u32 n) {
  (void)m; (void)n; switch (k) {
    case 1: (void)m.mutable_r(n - 1); return true;
    default: return false;
  }
}
static inline void limits(const M_Fwd& m) {
  (void)m;
  static_assert(static_cast<u32>(M_Fwd::FieldNumber::L) == 1u, "number of field l");
  sym_assert(__builtin_strcmp(M_Fwd::L_NAME, "l") == 0, "name constant of field l");
  static_assert(std::is_same<decltype(m.l()), const M_Later&>::value, "type of field l");
  static_assert(static_cast<u32>(M_Fwd::FieldNumber::R) == 2u, "number of field r");
  sym_assert(__builtin_strcmp(M_Fwd::R_NAME, "r") == 0, "name constant of field r");
  sym_assert(m.get_r().get_max_length() == 2u, "capacity of field r");
  static_assert(static_cast<u32>(M_Fwd::FieldNumber::K) == 3u, "number of field k");
  sym_assert(__builtin_strcmp(M_Fwd::K_NAME, "k") == 0, "name constant of field k");
  static_assert(std::is_same<decltype(m.k()), ::vs::other::Kind>::value, "type of field k");
  static_assert(static_cast<u32>(M_Fwd::FieldNumber::B) == 4u, "number of field b");
  sym_assert(__builtin_strcmp(M_Fwd::B_NAME, "b") == 0, "name constant of field b");
  static_assert(std::is_same<decltype(m.b()), const M_other_Box&>::value, "type of field b");
  static_assert(static_cast<u32>(M_Fwd::FieldNumber::M) == 5u, "number of field m");
  sym_assert(__builtin_strcmp(M_Fwd::M_NAME, "m") == 0, "name constant of field m");
  static_assert(std::is_same<decltype(m.m()), ::a::b::c::Mode>::value, "type of field m");
}
static inline const char* left_out(M_Fwd*, u32 n) { (void)n; return nullptr; }
static inline const char* number_name(M_Fwd*, u32 n) { return M_Fwd::field_number_to_name(static_cast<M_Fwd::FieldNumber>(n)); }
template<> struct G<M_Fwd> { using S = S_Fwd; static const MD& md() { return D_Fwd; } };

// ---- vs.Far
using M_Far = ::vs::Far;
struct S_Far {
  S_b_c_Abc abc;
  u32 z;
};
static const FD F_Far[] = {
  {1u, K_MSG, C_PLAIN, 0, 0, (u32)offsetof(S_Far, abc), (u32)0, (u32)sizeof(S_b_c_Abc), &D_b_c_Abc, "abc"},
  {2u, K_U32, C_PLAIN, 0, 0, (u32)offsetof(S_Far, z), (u32)0, (u32)sizeof(u32), nullptr, "z"},
};
static const MD D_Far = {F_Far, 2, (u32)sizeof(S_Far), "Far"};
static inline void load(M_Far& m, const S_Far& s) {
  (void)m; (void)s;
  load(m.mutable_abc(), s.abc);
  m.set_z(from_bits<uint32_t>(s.z));
}
static inline void read(S_Far& s, const M_Far& m) {
  (void)m; ref_reset(D_Far, (u8*)&s);
  read(s.abc, m.get_abc());
  s.z = to_bits<uint32_t>(m.get_z());
}
static inline void clear_field(M_Far& m, u32 k) {
  (void)m; switch (k) {
    case 0: m.clear_abc(); break;
    case 1: m.clear_z(); break;
    default: break;
  }
}
static inline bool set_field(M_Far& m, const S_Far& s, u32 k, u32 how = 0) {
  (void)m; (void)s; switch (k) {
    case 0: { M_b_c_Abc e; load(e, s.abc); if (how == 0) { m.set_abc(static_cast<M_b_c_Abc&&>(e)); return true; } if (how == 1) { m.set_abc(e); return true; } if (how == 2) { m.mutable_abc() = e; return true; } return false; }
    case 1: { uint32_t e; e = from_bits<uint32_t>(s.z); if (how == 0) { m.set_z(static_cast<uint32_t&&>(e)); return true; } if (how == 1) { m.set_z(e); return true; } if (how == 2) { m.mutable_z() = e; return true; } return false; }
    default: return false;
  }
}
static inline bool put_at(M_Far& m, const S_Far& s, u32 k, u32 at, u32 how) {
  (void)m; (void)s; (void)at; (void)how; switch (k) {
    default: return false;
  }
}
static inline void alias_check(const M_Far& m, u32 k) {
  (void)m; switch (k) {
    case 0: { sym_assert(&m.abc() == &m.get_abc(), "x() and get_x() differ"); break; }
    case 1: { sym_assert(to_bits<uint32_t>(m.z()) == to_bits<uint32_t>(m.get_z()), "x() and get_x() differ"); break; }
    default: break;
  }
}
static inline bool touch_field(M_Far& m, u32 k) {
  (void)m; switch (k) {
    case 0: (void)m.mutable_abc(); return true;
    case 1: (void)m.mutable_z(); return true;
    default: return false;
  }
}
static inline bool extend_field(M_Far& m, u32 k, u32 n) {
  (void)m; (void)n; switch (k) {
    default: return false;
  }
}
static inline void limits(const M_Far& m) {
  (void)m;
  static_assert(static_cast<u32>(M_Far::FieldNumber::ABC) == 1u, "number of field abc");
  sym_assert(__builtin_strcmp(M_Far::ABC_NAME, "abc") == 0, "name constant of field abc");
  static_assert(std::is_same<decltype(m.abc()), const M_b_c_Abc&>::value, "type of field abc");
  static_assert(static_cast<u32>(M_Far::FieldNumber::Z) == 2u, "number of field z");
  sym_assert(__builtin_strcmp(M_Far::Z_NAME, "z") == 0, "name constant of field z");
  static_assert(std::is_same<decltype(m.z()), uint32_t>::value, "type of field z");
}
static inline const char* left_out(M_Far*, u32 n) { (void)n; return nullptr; }
static inline const char* number_name(M_Far*, u32 n) { return M_Far::field_number_to_name(static_cast<M_Far::FieldNumber>(n)); }
template<> struct G<M_Far> { using S = S_Far; static const MD& md() { return D_Far; } };

// ---- vs.Shade.Later
using M_Shade_Later = ::vs::Shade::Later;
struct S_Shade_Later {
  Str<2> s;
};
static const FD F_Shade_Later[] = {
  {1u, K_STR, C_PLAIN, 0, 2, (u32)offsetof(S_Shade_Later, s), (u32)0, (u32)sizeof(Str<2>), nullptr, "s"},
};
static const MD D_Shade_Later = {F_Shade_Later, 1, (u32)sizeof(S_Shade_Later), "Shade_Later"};
static inline void load(M_Shade_Later& m, const S_Shade_Later& s) {
  (void)m; (void)s;
  loadstr(m.mutable_s(), s.s);
}
static inline void read(S_Shade_Later& s, const M_Shade_Later& m) {
  (void)m; ref_reset(D_Shade_Later, (u8*)&s);
  readstr(s.s, m.get_s());
}
static inline void clear_field(M_Shade_Later& m, u32 k) {
  (void)m; switch (k) {
    case 0: m.clear_s(); break;
    default: break;
  }
}
static inline bool set_field(M_Shade_Later& m, const S_Shade_Later& s, u32 k, u32 how = 0) {
  (void)m; (void)s; switch (k) {
    case 0: { ::EmbeddedProto::FieldString<2> e; loadstr(e, s.s); if (how == 0) { m.set_s(static_cast<::EmbeddedProto::FieldString<2>&&>(e)); return true; } if (how == 1) { m.set_s(e); return true; } if (how == 2) { loadstr(m.mutable_s(), s.s); return true; } return false; }
    default: return false;
  }
}
static inline bool put_at(M_Shade_Later& m, const S_Shade_Later& s, u32 k, u32 at, u32 how) {
  (void)m; (void)s; (void)at; (void)how; switch (k) {
    default: return false;
  }
}
static inline void alias_check(const M_Shade_Later& m, u32 k) {
  (void)m; switch (k) {
    case 0: { sym_assert(m.s() == m.get_s().get_const(), "x() and get_x() differ"); break; }
    default: break;
  }
}
static inline bool touch_field(M_Shade_Later& m, u32 k) {
  (void)m; switch (k) {
    case 0: (void)m.mutable_s(); return true;
    default: return false;
  }
}
static inline bool extend_field(M_Shade_Later& m, u32 k, u32 n) {
  (void)m; (void)n; switch (k) {
    case 0: (void)m.mutable_s().get(n - 1); return true;
    default: return false;
  }
}
static inline void limits(const M_Shade_Later& m) {
  (void)m;
  static_assert(static_cast<u32>(M_Shade_Later::FieldNumber::S) == 1u, "number of field s");
  sym_assert(__builtin_strcmp(M_Shade_Later::S_NAME, "s") == 0, "name constant of field s");
  sym_assert(m.get_s().get_max_length() == 2u, "capacity of field s");
}
static inline const char* left_out(M_Shade_Later*, u32 n) { (void)n; return nullptr; }
static inline const char* number_name(M_Shade_Later*, u32 n) { return M_Shade_Later::field_number_to_name(static_cast<M_Shade_Later::FieldNumber>(n)); }
template<> struct G<M_Shade_Later> { using S = S_Shade_Later; static const MD& md() { return D_Shade_Later; } };

// ---- vs.Shade
using M_Shade = ::vs::Shade;
struct S_Shade {
  u32 which_o;
  S_Later a;
  S_Shade_Later b;
  u32 c;
  u32 d;
  u32 n_e; S_Later e[2];
  S_Later f;
  S_Shade_Later g;
  u32 h;
};
static const FD F_Shade[] = {
  {1u, K_MSG, C_PLAIN, 0, 0, (u32)offsetof(S_Shade, a), (u32)0, (u32)sizeof(S_Later), &D_Later, "a"},
  {2u, K_MSG, C_PLAIN, 0, 0, (u32)offsetof(S_Shade, b), (u32)0, (u32)sizeof(S_Shade_Later), &D_Shade_Later, "b"},
  {3u, K_ENUM, C_PLAIN, 0, 0, (u32)offsetof(S_Shade, c), (u32)0, (u32)sizeof(u32), nullptr, "c"},
  {4u, K_ENUM, C_PLAIN, 0, 0, (u32)offsetof(S_Shade, d), (u32)0, (u32)sizeof(u32), nullptr, "d"},
  {5u, K_MSG, C_REP, 2, 0, (u32)offsetof(S_Shade, e), (u32)offsetof(S_Shade, n_e), (u32)sizeof(S_Later), &D_Later, "e"},
  {6u, K_MSG, C_ONE, 0, 0, (u32)offsetof(S_Shade, f), (u32)offsetof(S_Shade, which_o), (u32)sizeof(S_Later), &D_Later, "f"},
  {7u, K_MSG, C_ONE, 0, 0, (u32)offsetof(S_Shade, g), (u32)offsetof(S_Shade, which_o), (u32)sizeof(S_Shade_Later), &D_Shade_Later, "g"},
  {8u, K_ENUM, C_ONE, 0, 0, (u32)offsetof(S_Shade, h), (u32)offsetof(S_Shade, which_o), (u32)sizeof(u32), nullptr, "h"},
};
static const MD D_Shade = {F_Shade, 8, (u32)sizeof(S_Shade), "Shade"};
static inline void load(M_Shade& m, const S_Shade& s) {
  (void)m; (void)s;
  load(m.mutable_a(), s.a);
  load(m.mutable_b(), s.b);
  m.set_c(static_cast<::vs::Color>(s.c));
  m.set_d(static_cast<::vs::Shade::Color>(s.d));
  for (u32 i = 0; i < s.n_e; i++) { load(m.mutable_e(i), s.e[i]); }
  if (s.which_o == 6u) { load(m.mutable_f(), s.f); }
  if (s.which_o == 7u) { load(m.mutable_g(), s.g); }
  if (s.which_o == 8u) { m.set_h(static_cast<::vs::Color>(s.h)); }
}
static inline void read(S_Shade& s, const M_Shade& m) {
  (void)m; ref_reset(D_Shade, (u8*)&s);
  s.which_o = static_cast<u32>(m.get_which_o());
  read(s.a, m.get_a());
  read(s.b, m.get_b());
  s.c = static_cast<u32>(m.get_c());
  s.d = static_cast<u32>(m.get_d());
  s.n_e = m.get_e().get_length(); CHECK_CAP(s.n_e, 2); for (u32 i = 0; i < s.n_e; i++) { read(s.e[i], m.get_e().get_const(i)); }
  HAS_ONE(m.has_f(), s.which_o, 6u); if (s.which_o == 6u) { read(s.f, m.get_f()); }
  HAS_ONE(m.has_g(), s.which_o, 7u); if (s.which_o == 7u) { read(s.g, m.get_g()); }
  HAS_ONE(m.has_h(), s.which_o, 8u); if (s.which_o == 8u) { s.h = static_cast<u32>(m.get_h()); }
}
static inline void clear_field(M_Shade& m, u32 k) {
  (void)m; switch (k) {
    case 0: m.clear_a(); break;
    case 1: m.clear_b(); break;
    case 2: m.clear_c(); break;
    case 3: m.clear_d(); break;
    case 4: m.clear_e(); break;
    case 5: m.clear_f(); break;
    case 6: m.clear_g(); break;
    case 7: m.clear_h(); break;
    default: break;
  }
}
static inline bool set_field(M_Shade& m, const S_Shade& s, u32 k, u32 how = 0) {
  (void)m; (void)s; switch (k) {
    case 0: { M_Later e; load(e, s.a); if (how == 0) { m.set_a(static_cast<M_Later&&>(e)); return true; } if (how == 1) { m.set_a(e); return true; } if (how == 2) { m.mutable_a() = e; return true; } return false; }
    case 1: { M_Shade_Later e; load(e, s.b); if (how == 0) { m.set_b(static_cast<M_Shade_Later&&>(e)); return true; } if (how == 1) { m.set_b(e); return true; } if (how == 2) { m.mutable_b() = e; return true; } return false; }
    case 2: { ::vs::Color e; e = static_cast<::vs::Color>(s.c); if (how == 0) { m.set_c(static_cast<::vs::Color&&>(e)); return true; } if (how == 1) { m.set_c(e); return true; } return false; }
    case 3: { ::vs::Shade::Color e; e = static_cast<::vs::Shade::Color>(s.d); if (how == 0) { m.set_d(static_cast<::vs::Shade::Color&&>(e)); return true; } if (how == 1) { m.set_d(e); return true; } return false; }
    case 4: { if (how == 3) { ::EmbeddedProto::RepeatedFieldFixedSize<M_Later, 2> a; for (u32 i = 0; i < s.n_e; i++) { M_Later e; load(e, s.e[i]); a.add(e); } m.set_e(a); return true; } for (u32 i = 0; i < s.n_e; i++) { M_Later e; load(e, s.e[i]); if (how == 0) m.set_e(i, static_cast<M_Later&&>(e)); else if (how == 1) m.set_e(i, e); else if (how == 2) m.mutable_e(i) = e; else return false; } return true; }
    case 5: { M_Later e; load(e, s.f); if (how == 0) { m.set_f(static_cast<M_Later&&>(e)); return true; } if (how == 1) { m.set_f(e); return true; } if (how == 2) { m.mutable_f() = e; return true; } return false; }
    case 6: { M_Shade_Later e; load(e, s.g); if (how == 0) { m.set_g(static_cast<M_Shade_Later&&>(e)); return true; } if (how == 1) { m.set_g(e); return true; } if (how == 2) { m.mutable_g() = e; return true; } return false; }
    case 7: { ::vs::Color e; e = static_cast<::vs::Color>(s.h); if (how == 0) { m.set_h(static_cast<::vs::Color&&>(e)); return true; } if (how == 1) { m.set_h(e); return true; } return false; }
    default: return false;
  }
}
static inline bool put_at(M_Shade& m, const S_Shade& s, u32 k, u32 at, u32 how) {
  (void)m; (void)s; (void)at; (void)how; switch (k) {
    case 4: { M_Later e; load(e, s.e[0]); if (how == 0) m.set_e(at, static_cast<M_Later&&>(e)); else if (how == 1) m.set_e(at, e); else if (how == 2) m.mutable_e(at) = e; else if (how == 3) m.mutable_e().set(at, e); else if (how == 4) m.mutable_e()[at] = e; else if (how == 5) m.add_e(e); else m.mutable_e().add(e); return true; }
    default: return false;
  }
}
static inline void alias_check(const M_Shade& m, u32 k) {
  (void)m; switch (k) {
    case 0: { sym_assert(&m.a() == &m.get_a(), "x() and get_x() differ"); break; }
    case 1: { sym_assert(&m.b() == &m.get_b(), "x() and get_x() differ"); break; }
    case 2: { sym_assert(m.c() == m.get_c(), "x() and get_x() differ"); break; }
    case 3: { sym_assert(m.d() == m.get_d(), "x() and get_x() differ"); break; }
    case 4: { sym_assert(&m.e() == &m.get_e(), "x() and get_x() differ"); for (u32 i = 0; i < m.get_e().get_length(); i++) sym_assert(&m.e(i) == &m.get_e().get_const(i), "x(i) is not the element of the array"); break; }
    case 5: { if (m.has_f()) { sym_assert(&m.f() == &m.get_f(), "x() and get_x() differ"); } break; }
    case 6: { if (m.has_g()) { sym_assert(&m.g() == &m.get_g(), "x() and get_x() differ"); } break; }
    case 7: { if (m.has_h()) { sym_assert(m.h() == m.get_h(), "x() and get_x() differ"); } break; }
    default: break;
  }
}
static inline bool touch_field(M_Shade& m, u32 k) {
  (void)m; switch (k) {
    case 0: (void)m.mutable_a(); return true;
    case 1: (void)m.mutable_b(); return true;
    case 4: (void)m.mutable_e(); return true;
    case 5: (void)m.mutable_f(); return true;
    case 6: (void)m.mutable_g(); return true;
    default: return false;
  }
}
static inline bool extend_field(M_Shade& m, u32 k, u32 n) {
  (void)m; (void)n; switch (k) {
    case 4: (void)m.mutable_e(n - 1); return true;
    default: return false;
  }
}
static inline void limits(const M_Shade& m) {
  (void)m;
  static_assert(static_cast<u32>(M_Shade::FieldNumber::A) == 1u, "number of field a");
  sym_assert(__builtin_strcmp(M_Shade::A_NAME, "a") == 0, "name constant of field a");
  static_assert(std::is_same<decltype(m.a()), const M_Later&>::value, "type of field a");
  static_assert(static_cast<u32>(M_Shade::FieldNumber::B) == 2u, "number of field b");
  sym_assert(__builtin_strcmp(M_Shade::B_NAME, "b") == 0, "name constant of field b");
  static_assert(std::is_same<decltype(m.b()), const M_Shade_Later&>::value, "type of field b");
  static_assert(static_cast<u32>(M_Shade::FieldNumber::C) == 3u, "number of field c");
  sym_assert(__builtin_strcmp(M_Shade::C_NAME, "c") == 0, "name constant of field c");
  static_assert(std::is_same<decltype(m.c()), ::vs::Color>::value, "type of field c");
  static_assert(static_cast<u32>(M_Shade::FieldNumber::D) == 4u, "number of field d");
  sym_assert(__builtin_strcmp(M_Shade::D_NAME, "d") == 0, "name constant of field d");
  static_assert(std::is_same<decltype(m.d()), ::vs::Shade::Color>::value, "type of field d");
  static_assert(static_cast<u32>(M_Shade::FieldNumber::E) == 5u, "number of field e");
  sym_assert(__builtin_strcmp(M_Shade::E_NAME, "e") == 0, "name constant of field e");
  sym_assert(m.get_e().get_max_length() == 2u, "capacity of field e");
  static_assert(static_cast<u32>(M_Shade::FieldNumber::F) == 6u, "number of field f");
  sym_assert(__builtin_strcmp(M_Shade::F_NAME, "f") == 0, "name constant of field f");
  static_assert(std::is_same<decltype(m.f()), const M_Later&>::value, "type of field f");
  static_assert(static_cast<u32>(M_Shade::FieldNumber::G) == 7u, "number of field g");
  sym_assert(__builtin_strcmp(M_Shade::G_NAME, "g") == 0, "name constant of field g");
  static_assert(std::is_same<decltype(m.g()), const M_Shade_Later&>::value, "type of field g");
  static_assert(static_cast<u32>(M_Shade::FieldNumber::H) == 8u, "number of field h");
  sym_assert(__builtin_strcmp(M_Shade::H_NAME, "h") == 0, "name constant of field h");
  static_assert(std::is_same<decltype(m.h()), ::vs::Color>::value, "type of field h");
}
static inline const char* left_out(M_Shade*, u32 n) { (void)n; return nullptr; }
static inline const char* number_name(M_Shade*, u32 n) { return M_Shade::field_number_to_name(static_cast<M_Shade::FieldNumber>(n)); }
template<> struct G<M_Shade> { using S = S_Shade; static const MD& md() { return D_Shade; } };

// ---- vs.Ali
using M_Ali = ::vs::Ali;
struct S_Ali {
  u32 x;
  u32 has_y; u32 y;
  u32 n_z; u32 z[2];
};
static const FD F_Ali[] = {
  {1u, K_ENUM, C_PLAIN, 0, 0, (u32)offsetof(S_Ali, x), (u32)0, (u32)sizeof(u32), nullptr, "x"},
  {2u, K_ENUM, C_OPT, 0, 0, (u32)offsetof(S_Ali, y), (u32)offsetof(S_Ali, has_y), (u32)sizeof(u32), nullptr, "y"},
  {3u, K_ENUM, C_REP, 2, 0, (u32)offsetof(S_Ali, z), (u32)offsetof(S_Ali, n_z), (u32)sizeof(u32), nullptr, "z"},
};
static const MD D_Ali = {F_Ali, 3, (u32)sizeof(S_Ali), "Ali"};
static inline void load(M_Ali& m, const S_Ali& s) {
  (void)m; (void)s;
  m.set_x(static_cast<::vs::Alias>(s.x));
  if (s.has_y) { m.set_y(static_cast<::vs::Alias>(s.y)); }
  for (u32 i = 0; i < s.n_z; i++) m.add_z(static_cast<::vs::Alias>(s.z[i]));
}
static inline void read(S_Ali& s, const M_Ali& m) {
  (void)m; ref_reset(D_Ali, (u8*)&s);
  s.x = static_cast<u32>(m.get_x());
  s.has_y = m.has_y() ? 1 : 0; s.y = static_cast<u32>(m.get_y());
  s.n_z = m.get_z().get_length(); CHECK_CAP(s.n_z, 2); for (u32 i = 0; i < s.n_z; i++) { s.z[i] = static_cast<u32>(m.get_z().get_const(i).get()); }
}
static inline void clear_field(M_Ali& m, u32 k) {
  (void)m; switch (k) {
    case 0: m.clear_x(); break;
    case 1: m.clear_y(); break;
    case 2: m.clear_z(); break;
    default: break;
  }
}
static inline bool set_field(M_Ali& m, const S_Ali& s, u32 k, u32 how = 0) {
  (void)m; (void)s; switch (k) {
    case 0: { ::vs::Alias e; e = static_cast<::vs::Alias>(s.x); if (how == 0) { m.set_x(static_cast<::vs::Alias&&>(e)); return true; } if (how == 1) { m.set_x(e); return true; } return false; }
    case 1: { ::vs::Alias e; e = static_cast<::vs::Alias>(s.y); if (how == 0) { m.set_y(static_cast<::vs::Alias&&>(e)); return true; } if (how == 1) { m.set_y(e); return true; } return false; }
    case 2: { if (how == 3) { ::EmbeddedProto::RepeatedFieldFixedSize<::EmbeddedProto::enumeration<::vs::Alias>, 2> a; for (u32 i = 0; i < s.n_z; i++) { ::vs::Alias e; e = static_cast<::vs::Alias>(s.z[i]); a.add(e); } m.set_z(a); return true; } for (u32 i = 0; i < s.n_z; i++) { ::vs::Alias e; e = static_cast<::vs::Alias>(s.z[i]); ::EmbeddedProto::enumeration<::vs::Alias> c; c = e; if (how == 0) m.set_z(i, static_cast<::EmbeddedProto::enumeration<::vs::Alias>&&>(c)); else if (how == 1) m.set_z(i, c); else if (how == 2) m.mutable_z(i) = c; else return false; } return true; }
    default: return false;
  }
}
static inline bool put_at(M_Ali& m, const S_Ali& s, u32 k, u32 at, u32 how) {
  (void)m; (void)s; (void)at; (void)how; switch (k) {
    case 2: { ::EmbeddedProto::enumeration<::vs::Alias> e; e = static_cast<::vs::Alias>(s.z[0]); if (how == 0) m.set_z(at, static_cast<::EmbeddedProto::enumeration<::vs::Alias>&&>(e)); else if (how == 1) m.set_z(at, e); else if (how == 2) m.mutable_z(at) = e; else if (how == 3) m.mutable_z().set(at, e); else if (how == 4) m.mutable_z()[at] = e; else if (how == 5) m.add_z(e); else m.mutable_z().add(e); return true; }
    default: return false;
  }
}
static inline void alias_check(const M_Ali& m, u32 k) {
  (void)m; switch (k) {
    case 0: { sym_assert(m.x() == m.get_x(), "x() and get_x() differ"); break; }
    case 1: { sym_assert(m.y() == m.get_y(), "x() and get_x() differ"); break; }
    case 2: { sym_assert(&m.z() == &m.get_z(), "x() and get_x() differ"); for (u32 i = 0; i < m.get_z().get_length(); i++) sym_assert(&m.z(i) == &m.get_z().get_const(i), "x(i) is not the element of the array"); break; }
    default: break;
  }
}
static inline bool touch_field(M_Ali& m, u32 k) {
  (void)m; switch (k) {
    case 2: (void)m.mutable_z(); return true;
    default: return false;
  }
}
static inline bool extend_field(M_Ali& m, u32 k, u32 n) {
  (void)m; (void)n; switch (k) {
    case 2: (void)m.mutable_z(n - 1); return true;
    default: return false;
  }
}
static inline void limits(const M_Ali& m) {
  (void)m;
  static_assert(static_cast<u32>(M_Ali::FieldNumber::X) == 1u, "number of field x");
  sym_assert(__builtin_strcmp(M_Ali::X_NAME, "x") == 0, "name constant of field x");
  static_assert(std::is_same<decltype(m.x()), ::vs::Alias>::value, "type of field x");
  static_assert(static_cast<u32>(M_Ali::FieldNumber::Y) == 2u, "number of field y");
  sym_assert(__builtin_strcmp(M_Ali::Y_NAME, "y") == 0, "name constant of field y");
  static_assert(std::is_same<decltype(m.y()), ::vs::Alias>::value, "type of field y");
  static_assert(static_cast<u32>(M_Ali::FieldNumber::Z) == 3u, "number of field z");
  sym_assert(__builtin_strcmp(M_Ali::Z_NAME, "z") == 0, "name constant of field z");
  sym_assert(m.get_z().get_max_length() == 2u, "capacity of field z");
}
static inline const char* left_out(M_Ali*, u32 n) { (void)n; return nullptr; }
static inline const char* number_name(M_Ali*, u32 n) { return M_Ali::field_number_to_name(static_cast<M_Ali::FieldNumber>(n)); }
template<> struct G<M_Ali> { using S = S_Ali; static const MD& md() { return D_Ali; } };

// ---- vs.Deep.A.B.C
using M_Deep_A_B_C = ::vs::Deep::A::B::C;
struct S_Deep_A_B_C {
  u32 v;
};
static const FD F_Deep_A_B_C[] = {
  {1u, K_U32, C_PLAIN, 0, 0, (u32)offsetof(S_Deep_A_B_C, v), (u32)0, (u32)sizeof(u32), nullptr, "v"},
};
static const MD D_Deep_A_B_C = {F_Deep_A_B_C, 1, (u32)sizeof(S_Deep_A_B_C), "Deep_A_B_C"};
static inline void load(M_Deep_A_B_C& m, const S_Deep_A_B_C& s) {
  (void)m; (void)s;
  m.set_v(from_bits<uint32_t>(s.v));
}
static inline void read(S_Deep_A_B_C& s, const M_Deep_A_B_C& m) {
  (void)m; ref_reset(D_Deep_A_B_C, (u8*)&s);
  s.v = to_bits<uint32_t>(m.get_v());
}
static inline void clear_field(M_Deep_A_B_C& m, u32 k) {
  (void)m; switch (k) {
    case 0: m.clear_v(); break;
    default: break;
  }
}
static inline bool set_field(M_Deep_A_B_C& m, const S_Deep_A_B_C& s, u32 k, u32 how = 0) {
  (void)m; (void)s; switch (k) {
    case 0: { uint32_t e; e = from_bits<uint32_t>(s.v); if (how == 0) { m.set_v(static_cast<uint32_t&&>(e)); return true; } if (how == 1) { m.set_v(e); return true; } if (how == 2) { m.mutable_v() = e; return true; } return false; }
    default: return false;
  }
}
static inline bool put_at(M_Deep_A_B_C& m, const S_Deep_A_B_C& s, u32 k, u32 at, u32 how) {
  (void)m; (void)s; (void)at; (void)how; switch (k) {
    default: return false;
  }
}
static inline void alias_check(const M_Deep_A_B_C& m, u32 k) {
  (void)m; switch (k) {
    case 0: { sym_assert(to_bits<uint32_t>(m.v()) == to_bits<uint32_t>(m.get_v()), "x() and get_x() differ"); break; }
    default: break;
  }
}
static inline bool touch_field(M_Deep_A_B_C& m, u32 k) {
  (void)m; switch (k) {
    case 0: (void)m.mutable_v(); return true;
    default: return false;
  }
}
static inline bool extend_field(M_Deep_A_B_C& m, u32 k, u32 n) {
  (void)m; (void)n; switch (k) {
    default: return false;
  }
}
static inline void limits(const M_Deep_A_B_C& m) {
  (void)m;
  static_assert(static_cast<u32>(M_Deep_A_B_C::FieldNumber::V) == 1u, "number of field v");
  sym_assert(__builtin_strcmp(M_Deep_A_B_C::V_NAME, "v") == 0, "name constant of field v");
  static_assert(std::is_same<decltype(m.v()), uint32_t>::value, "type of field v");
}
static inline const char* left_out(M_Deep_A_B_C*, u32 n) { (void)n; return nullptr; }
static inline const char* number_name(M_Deep_A_B_C*, u32 n) { return M_Deep_A_B_C::field_number_to_name(static_cast<M_Deep_A_B_C::FieldNumber>(n)); }
template<> struct G<M_Deep_A_B_C> { using S = S_Deep_A_B_C; static const MD& md() { return D_Deep_A_B_C; } };

// ---- vs.Deep.A.B
using M_Deep_A_B = ::vs::Deep::A::B;
struct S_Deep_A_B {
  S_Deep_A_B_C c;
  u32 n_r; S_Deep_A_B_C r[2];
  u32 e;
};
static const FD F_Deep_A_B[] = {
  {1u, K_MSG, C_PLAIN, 0, 0, (u32)offsetof(S_Deep_A_B, c), (u32)0, (u32)sizeof(S_Deep_A_B_C), &D_Deep_A_B_C, "c"},
  {2u, K_MSG, C_REP, 2, 0, (u32)offsetof(S_Deep_A_B, r), (u32)offsetof(S_Deep_A_B, n_r), (u32)sizeof(S_Deep_A_B_C), &D_Deep_A_B_C, "r"},
  {3u, K_ENUM, C_PLAIN, 0, 0, (u32)offsetof(S_Deep_A_B, e), (u32)0, (u32)sizeof(u32), nullptr, "e"},
};
static const MD D_Deep_A_B = {F_Deep_A_B, 3, (u32)sizeof(S_Deep_A_B), "Deep_A_B"};
static inline void load(M_Deep_A_B& m, const S_Deep_A_B& s) {
  (void)m; (void)s;
  load(m.mutable_c(), s.c);
  for (u32 i = 0; i < s.n_r; i++) { load(m.mutable_r(i), s.r[i]); }
  m.set_e(static_cast<::vs::Deep::A::B::E>(s.e));
}
static inline void read(S_Deep_A_B& s, const M_Deep_A_B& m) {
  (void)m; ref_reset(D_Deep_A_B, (u8*)&s);
  read(s.c, m.get_c());
  s.n_r = m.get_r().get_length(); CHECK_CAP(s.n_r, 2); for (u32 i = 0; i < s.n_r; i++) { read(s.r[i], m.get_r().get_const(i)); }
  s.e = static_cast<u32>(m.get_e());
}
static inline void clear_field(M_Deep_A_B& m, u32 k) {
  (void)m; switch (k) {
    case 0: m.clear_c(); break;
    case 1: m.clear_r(); break;
    case 2: m.clear_e(); break;
    default: break;
  }
}
static inline bool set_field(M_Deep_A_B& m, const S_Deep_A_B& s, u32 k, u32 how = 0) {
  (void)m; (void)s; switch (k) {
    case 0: { M_Deep_A_B_C e; load(e, s.c); if (how == 0) { m.set_c(static_cast<M_Deep_A_B_C&&>(e)); return true; } if (how == 1) { m.set_c(e); return true; } if (how == 2) { m.mutable_c() = e; return true; } return false; }
    case 1: { if (how == 3) { ::EmbeddedProto::RepeatedFieldFixedSize<M_Deep_A_B_C, 2> a; for (u32 i = 0; i < s.n_r; i++) { M_Deep_A_B_C e; load(e, s.r[i]); a.add(e); } m.set_r(a); return true; } for (u32 i = 0; i < s.n_r; i++) { M_Deep_A_B_C e; load(e, s.r[i]); if (how == 0) m.set_r(i, static_cast<M_Deep_A_B_C&&>(e)); else if (how == 1) m.set_r(i, e); else if (how == 2) m.mutable_r(i) = e; else return false; } return true; }
    case 2: { ::vs::Deep::A::B::E e; e = static_cast<::vs::Deep::A::B::E>(s.e); if (how == 0) { m.set_e(static_cast<::vs::Deep::A::B::E&&>(e)); return true; } if (how == 1) { m.set_e(e); return true; } return false; }
    default: return false;
  }
}
static inline bool put_at(M_Deep_A_B& m, const S_Deep_A_B& s, u32 k, u32 at, u32 how) {
  (void)m; (void)s; (void)at; (void)how; switch (k) {
    case 1: { M_Deep_A_B_C e; load(e, s.r[0]); if (how == 0) m.set_r(at, static_cast<M_Deep_A_B_C&&>(e)); else if (how == 1) m.set_r(at, e); else if (how == 2) m.mutable_r(at) = e; else if (how == 3) m.mutable_r().set(at, e); else if (how == 4) m.mutable_r()[at] = e; else if (how == 5) m.add_r(e); else m.mutable_r().add(e); return true; }
    default: return false;
  }
}
static inline void alias_check(const M_Deep_A_B& m, u32 k) {
  (void)m; switch (k) {
    case 0: { sym_assert(&m.c() == &m.get_c(), "x() and get_x() differ"); break; }
    case 1: { sym_assert(&m.r() == &m.get_r(), "x() and get_x() differ"); for (u32 i = 0; i < m.get_r().get_length(); i++) sym_assert(&m.r(i) == &m.get_r().get_const(i), "x(i) is not the element of the array"); break; }
    case 2: { sym_assert(m.e() == m.get_e(), "x() and get_x() differ"); break; }
    default: break;
  }
}
static inline bool touch_field(M_Deep_A_B& m, u32 k) {
  (void)m; switch (k) {
    case 0: (void)m.mutable_c(); return true;
    case 1: (void)m.mutable_r(); return true;
    default: return false;
  }
}
static inline bool extend_field(M_Deep_A_B& m, u32 k, u32 n) {
  (void)m; (void)n; switch (k) {
    case 1: (void)m.mutable_r(n - 1); return true;
    default: return false;
  }
}
static inline void limits(const M_Deep_A_B& m) {
  (void)m;
  static_assert(static_cast<u32>(M_Deep_A_B::FieldNumber::C) == 1u, "number of field c");
  sym_assert(__builtin_strcmp(M_Deep_A_B::C_NAME, "c") == 0, "name constant of field c");
  static_assert(std::is_same<decltype(m.c()), const M_Deep_A_B_C&>::value, "type of field c");
  static_assert(static_cast<u32>(M_Deep_A_B::FieldNumber::R) == 2u, "number of field r");
  sym_assert(__builtin_strcmp(M_Deep_A_B::R_NAME, "r") == 0, "name constant of field r");
  sym_assert(m.get_r().get_max_length() == 2u, "capacity of field r");
  static_assert(static_cast<u32>(M_Deep_A_B::FieldNumber::E) == 3u, "number of field e");
  sym_assert(__builtin_strcmp(M_Deep_A_B::E_NAME, "e") == 0, "name constant of field e");
  static_assert(std::is_same<decltype(m.e()), ::vs::Deep::A::B::E>::value, "type of field e");
}
static inline const char* left_out(M_Deep_A_B*, u32 n) { (void)n; return nullptr; }
static inline const char* number_name(M_Deep_A_B*, u32 n) { return M_Deep_A_B::field_number_to_name(static_cast<M_Deep_A_B::FieldNumber>(n)); }
template<> struct G<M_Deep_A_B> { using S = S_Deep_A_B; static const MD& md() { return D_Deep_A_B; } };

// ---- vs.Deep.A
using M_Deep_A = ::vs::Deep::A;
struct S_Deep_A {
  S_Deep_A_B b;
  u32 has_ob; S_Deep_A_B ob;
  u32 n;
};
static const FD F_Deep_A[] = {
  {1u, K_MSG, C_PLAIN, 0, 0, (u32)offsetof(S_Deep_A, b), (u32)0, (u32)sizeof(S_Deep_A_B), &D_Deep_A_B, "b"},
  {2u, K_MSG, C_OPT, 0, 0, (u32)offsetof(S_Deep_A, ob), (u32)offsetof(S_Deep_A, has_ob), (u32)sizeof(S_Deep_A_B), &D_Deep_A_B, "ob"},
  {3u, K_U32, C_PLAIN, 0, 0, (u32)offsetof(S_Deep_A, n), (u32)0, (u32)sizeof(u32), nullptr, "n"},
};
static const MD D_Deep_A = {F_Deep_A, 3, (u32)sizeof(S_Deep_A), "Deep_A"};
static inline void load(M_Deep_A& m, const S_Deep_A& s) {
  (void)m; (void)s;
  load(m.mutable_b(), s.b);
  if (s.has_ob) { load(m.mutable_ob(), s.ob); }
  m.set_n(from_bits<uint32_t>(s.n));
}
static inline void read(S_Deep_A& s, const M_Deep_A& m) {
  (void)m; ref_reset(D_Deep_A, (u8*)&s);
  read(s.b, m.get_b());
  s.has_ob = m.has_ob() ? 1 : 0; read(s.ob, m.get_ob());
  s.n = to_bits<uint32_t>(m.get_n());
}
static inline void clear_field(M_Deep_A& m, u32 k) {
  (void)m; switch (k) {
    case 0: m.clear_b(); break;
    case 1: m.clear_ob(); break;
    case 2: m.clear_n(); break;
    default: break;
  }
}
static inline bool set_field(M_Deep_A& m, const S_Deep_A& s, u32 k, u32 how = 0) {
  (void)m; (void)s; switch (k) {
    case 0: { M_Deep_A_B e; load(e, s.b); if (how == 0) { m.set_b(static_cast<M_Deep_A_B&&>(e)); return true; } if (how == 1) { m.set_b(e); return true; } if (how == 2) { m.mutable_b() = e; return true; } return false; }
    case 1: { M_Deep_A_B e; load(e, s.ob); if (how == 0) { m.set_ob(static_cast<M_Deep_A_B&&>(e)); return true; } if (how == 1) { m.set_ob(e); return true; } if (how == 2) { m.mutable_ob() = e; return true; } return false; }
    case 2: { uint32_t e; e = from_bits<uint32_t>(s.n); if (how == 0) { m.set_n(static_cast<uint32_t&&>(e)); return true; } if (how == 1) { m.set_n(e); return true; } if (how == 2) { m.mutable_n() = e; return true; } return false; }
    default: return false;
  }
}
static inline bool put_at(M_Deep_A& m, const S_Deep_A& s, u32 k, u32 at, u32 how) {
  (void)m; (void)s; (void)at; (void)how; switch (k) {
    default: return false;
  }
}
static inline void alias_check(const M_Deep_A& m, u32 k) {
  (void)m; switch (k) {
    case 0: { sym_assert(&m.b() == &m.get_b(), "x() and get_x() differ"); break; }
    case 1: { sym_assert(&m.ob() == &m.get_ob(), "x() and get_x() differ"); break; }
    case 2: { sym_assert(to_bits<uint32_t>(m.n()) == to_bits<uint32_t>(m.get_n()), "x() and get_x() differ"); break; }
    default: break;
  }
}
static inline bool touch_field(M_Deep_A& m, u32 k) {
  (void)m; switch (k) {
    case 0: (void)m.mutable_b(); return true;
    case 1: (void)m.mutable_ob(); return true;
    case 2: (void)m.mutable_n(); return true;
    default: return false;
  }
}
static inline bool extend_field(M_Deep_A& m, u32 k, u32 n) {
  (void)m; (void)n; switch (k) {
    default: return false;
  }
}
static inline void limits(const M_Deep_A& m) {
  (void)m;
  static_assert(static_cast<u32>(M_Deep_A::FieldNumber::B) == 1u, "number of field b");
  sym_assert(__builtin_strcmp(M_Deep_A::B_NAME, "b") == 0, "name constant of field b");
  static_assert(std::is_same<decltype(m.b()), const M_Deep_A_B&>::value, "type of field b");
  static_assert(static_cast<u32>(M_Deep_A::FieldNumber::OB) == 2u, "number of field ob");
  sym_assert(__builtin_strcmp(M_Deep_A::OB_NAME, "ob") == 0, "name constant of field ob");
  static_assert(std::is_same<decltype(m.ob()), const M_Deep_A_B&>::value, "type of field ob");
  static_assert(static_cast<u32>(M_Deep_A::FieldNumber::N) == 3u, "number of field n");
  sym_assert(__builtin_strcmp(M_Deep_A::N_NAME, "n") == 0, "name constant of field n");
  static_assert(std::is_same<decltype(m.n()), uint32_t>::value, "type of field n");
}
static inline const char* left_out(M_Deep_A*, u32 n) { (void)n; return nullptr; }
static inline const char* number_name(M_Deep_A*, u32 n) { return M_Deep_A::field_number_to_name(static_cast<M_Deep_A::FieldNumber>(n)); }
template<> struct G<M_Deep_A> { using S = S_Deep_A; static const MD& md() { return D_Deep_A; } };

// ---- vs.Deep
using M_Deep = ::vs::Deep;
struct S_Deep {
  u32 which_o;
  S_Deep_A a;
  S_Deep_A oa;
  u32 ou;
};
static const FD F_Deep[] = {
  {1u, K_MSG, C_PLAIN, 0, 0, (u32)offsetof(S_Deep, a), (u32)0, (u32)sizeof(S_Deep_A), &D_Deep_A, "a"},
  {2u, K_MSG, C_ONE, 0, 0, (u32)offsetof(S_Deep, oa), (u32)offsetof(S_Deep, which_o), (u32)sizeof(S_Deep_A), &D_Deep_A, "oa"},
  {3u, K_U32, C_ONE, 0, 0, (u32)offsetof(S_Deep, ou), (u32)offsetof(S_Deep, which_o), (u32)sizeof(u32), nullptr, "ou"},
};
static const MD D_Deep = {F_Deep, 3, (u32)sizeof(S_Deep), "Deep"};
static inline void load(M_Deep& m, const S_Deep& s) {
  (void)m; (void)s;
  load(m.mutable_a(), s.a);
  if (s.which_o == 2u) { load(m.mutable_oa(), s.oa); }
  if (s.which_o == 3u) { m.set_ou(from_bits<uint32_t>(s.ou)); }
}
static inline void read(S_Deep& s, const M_Deep& m) {
  (void)m; ref_reset(D_Deep, (u8*)&s);
  s.which_o = static_cast<u32>(m.get_which_o());
  read(s.a, m.get_a());
  HAS_ONE(m.has_oa(), s.which_o, 2u); if (s.which_o == 2u) { read(s.oa, m.get_oa()); }
  HAS_ONE(m.has_ou(), s.which_o, 3u); if (s.which_o == 3u) { s.ou = to_bits<uint32_t>(m.get_ou()); }
}
static inline void clear_field(M_Deep& m, u32 k) {
  (void)m; switch (k) {
    case 0: m.clear_a(); break;
    case 1: m.clear_oa(); break;
    case 2: m.clear_ou(); break;
    default: break;
  }
}
static inline bool set_field(M_Deep& m, const S_Deep& s, u32 k, u32 how = 0) {
  (void)m; (void)s; switch (k) {
    case 0: { M_Deep_A e; load(e, s.a); if (how == 0) { m.set_a(static_cast<M_Deep_A&&>(e)); return true; } if (how == 1) { m.set_a(e); return true; } if (how == 2) { m.mutable_a() = e; return true; } return false; }
    case 1: { M_Deep_A e; load(e, s.oa); if (how == 0) { m.set_oa(static_cast<M_Deep_A&&>(e)); return true; } if (how == 1) { m.set_oa(e); return true; } if (how == 2) { m.mutable_oa() = e; return true; } return false; }
    case 2: { uint32_t e; e = from_bits<uint32_t>(s.ou); if (how == 0) { m.set_ou(static_cast<uint32_t&&>(e)); return true; } if (how == 1) { m.set_ou(e); return true; } return false; }
    default: return false;
  }
}
static inline bool put_at(M_Deep& m, const S_Deep& s, u32 k, u32 at, u32 how) {
  (void)m; (void)s; (void)at; (void)how; switch (k) {
    default: return false;
  }
}
static inline void alias_check(const M_Deep& m, u32 k) {
  (void)m; switch (k) {
    case 0: { sym_assert(&m.a() == &m.get_a(), "x() and get_x() differ"); break; }
    case 1: { if (m.has_oa()) { sym_assert(&m.oa() == &m.get_oa(), "x() and get_x() differ"); } break; }
    case 2: { if (m.has_ou()) { sym_assert(to_bits<uint32_t>(m.ou()) == to_bits<uint32_t>(m.get_ou()), "x() and get_x() differ"); } break; }
    default: break;
  }
}
static inline bool touch_field(M_Deep& m, u32 k) {
  (void)m; switch (k) {
    case 0: (void)m.mutable_a(); return true;
    case 1: (void)m.mutable_oa(); return true;
    default: return false;
  }
}
static inline bool extend_field(M_Deep& m, u32 k, u32 n) {
  (void)m; (void)n; switch (k) {
    default: return false;
  }
}
static inline void limits(const M_Deep& m) {
  (void)m;
  static_assert(static_cast<u32>(M_Deep::FieldNumber::A) == 1u, "number of field a");
  sym_assert(__builtin_strcmp(M_Deep::A_NAME, "a") == 0, "name constant of field a");
  static_assert(std::is_same<decltype(m.a()), const M_Deep_A&>::value, "type of field a");
  static_assert(static_cast<u32>(M_Deep::FieldNumber::OA) == 2u, "number of field oa");
  sym_assert(__builtin_strcmp(M_Deep::OA_NAME, "oa") == 0, "name constant of field oa");
  static_assert(std::is_same<decltype(m.oa()), const M_Deep_A&>::value, "type of field oa");
  static_assert(static_cast<u32>(M_Deep::FieldNumber::OU) == 3u, "number of field ou");
  sym_assert(__builtin_strcmp(M_Deep::OU_NAME, "ou") == 0, "name constant of field ou");
  static_assert(std::is_same<decltype(m.ou()), uint32_t>::value, "type of field ou");
}
static inline const char* left_out(M_Deep*, u32 n) { (void)n; return nullptr; }
static inline const char* number_name(M_Deep*, u32 n) { return M_Deep::field_number_to_name(static_cast<M_Deep::FieldNumber>(n)); }
template<> struct G<M_Deep> { using S = S_Deep; static const MD& md() { return D_Deep; } };

// ---- vs.TOuter.TIn
using M_TOuter_TIn = ::vs::TOuter<3, 2, 3>::TIn<3>;
struct S_TOuter_TIn {
  Str<3> s;
  u32 z;
};
static const FD F_TOuter_TIn[] = {
  {1u, K_STR, C_PLAIN, 0, 3, (u32)offsetof(S_TOuter_TIn, s), (u32)0, (u32)sizeof(Str<3>), nullptr, "s"},
  {2u, K_U32, C_PLAIN, 0, 0, (u32)offsetof(S_TOuter_TIn, z), (u32)0, (u32)sizeof(u32), nullptr, "z"},
};
static const MD D_TOuter_TIn = {F_TOuter_TIn, 2, (u32)sizeof(S_TOuter_TIn), "TOuter_TIn"};
static inline void load(M_TOuter_TIn& m, const S_TOuter_TIn& s) {
  (void)m; (void)s;
  loadstr(m.mutable_s(), s.s);
  m.set_z(from_bits<uint32_t>(s.z));
}
static inline void read(S_TOuter_TIn& s, const M_TOuter_TIn& m) {
  (void)m; ref_reset(D_TOuter_TIn, (u8*)&s);
  readstr(s.s, m.get_s());
  s.z = to_bits<uint32_t>(m.get_z());
}
static inline void clear_field(M_TOuter_TIn& m, u32 k) {
  (void)m; switch (k) {
    case 0: m.clear_s(); break;
    case 1: m.clear_z(); break;
    default: break;
  }
}
static inline bool set_field(M_TOuter_TIn& m, const S_TOuter_TIn& s, u32 k, u32 how = 0) {
  (void)m; (void)s; switch (k) {
    case 0: { ::EmbeddedProto::FieldString<3> e; loadstr(e, s.s); if (how == 0) { m.set_s(static_cast<::EmbeddedProto::FieldString<3>&&>(e)); return true; } if (how == 1) { m.set_s(e); return true; } if (how == 2) { loadstr(m.mutable_s(), s.s); return true; } return false; }
    case 1: { uint32_t e; e = from_bits<uint32_t>(s.z); if (how == 0) { m.set_z(static_cast<uint32_t&&>(e)); return true; } if (how == 1) { m.set_z(e); return true; } if (how == 2) { m.mutable_z() = e; return true; } return false; }
    default: return false;
  }
}
static inline bool put_at(M_TOuter_TIn& m, const S_TOuter_TIn& s, u32 k, u32 at, u32 how) {
  (void)m; (void)s; (void)at; (void)how; switch (k) {
    default: return false;
  }
}
static inline void alias_check(const M_TOuter_TIn& m, u32 k) {
  (void)m; switch (k) {
    case 0: { sym_assert(m.s() == m.get_s().get_const(), "x() and get_x() differ"); break; }
    case 1: { sym_assert(to_bits<uint32_t>(m.z()) == to_bits<uint32_t>(m.get_z()), "x() and get_x() differ"); break; }
    default: break;
  }
}
static inline bool touch_field(M_TOuter_TIn& m, u32 k) {
  (void)m; switch (k) {
    case 0: (void)m.mutable_s(); return true;
    case 1: (void)m.mutable_z(); return true;
    default: return false;
  }
}
static inline bool extend_field(M_TOuter_TIn& m, u32 k, u32 n) {
  (void)m; (void)n; switch (k) {
    case 0: (void)m.mutable_s().get(n - 1); return true;
    default: return false;
  }
}
static inline void limits(const M_TOuter_TIn& m) {
  (void)m;
  static_assert(static_cast<u32>(M_TOuter_TIn::FieldNumber::S) == 1u, "number of field s");
  sym_assert(__builtin_strcmp(M_TOuter_TIn::S_NAME, "s") == 0, "name constant of field s");
  sym_assert(m.get_s().get_max_length() == 3u, "capacity of field s");
  static_assert(static_cast<u32>(M_TOuter_TIn::FieldNumber::Z) == 2u, "number of field z");
  sym_assert(__builtin_strcmp(M_TOuter_TIn::Z_NAME, "z") == 0, "name constant of field z");
  static_assert(std::is_same<decltype(m.z()), uint32_t>::value, "type of field z");
}
static inline const char* left_out(M_TOuter_TIn*, u32 n) { (void)n; return nullptr; }
static inline const char* number_name(M_TOuter_TIn*, u32 n) { return M_TOuter_TIn::field_number_to_name(static_cast<M_TOuter_TIn::FieldNumber>(n)); }
template<> struct G<M_TOuter_TIn> { using S = S_TOuter_TIn; static const MD& md() { return D_TOuter_TIn; } };

// ---- vs.TOuter
using M_TOuter = ::vs::TOuter<3, 2, 3>;
struct S_TOuter {
  S_TOuter_TIn a;
  u32 n_b; S_TOuter_TIn b[2];
  u32 w;
};
static const FD F_TOuter[] = {
  {1u, K_MSG, C_PLAIN, 0, 0, (u32)offsetof(S_TOuter, a), (u32)0, (u32)sizeof(S_TOuter_TIn), &D_TOuter_TIn, "a"},
  {2u, K_MSG, C_REP, 2, 0, (u32)offsetof(S_TOuter, b), (u32)offsetof(S_TOuter, n_b), (u32)sizeof(S_TOuter_TIn), &D_TOuter_TIn, "b"},
  {4u, K_U32, C_PLAIN, 0, 0, (u32)offsetof(S_TOuter, w), (u32)0, (u32)sizeof(u32), nullptr, "w"},
};
static const MD D_TOuter = {F_TOuter, 3, (u32)sizeof(S_TOuter), "TOuter"};
static inline void load(M_TOuter& m, const S_TOuter& s) {
  (void)m; (void)s;
  load(m.mutable_a(), s.a);
  for (u32 i = 0; i < s.n_b; i++) { load(m.mutable_b(i), s.b[i]); }
  m.set_w(from_bits<uint32_t>(s.w));
}
static inline void read(S_TOuter& s, const M_TOuter& m) {
  (void)m; ref_reset(D_TOuter, (u8*)&s);
  read(s.a, m.get_a());
  s.n_b = m.get_b().get_length(); CHECK_CAP(s.n_b, 2); for (u32 i = 0; i < s.n_b; i++) { read(s.b[i], m.get_b().get_const(i)); }
  s.w = to_bits<uint32_t>(m.get_w());
}
static inline void clear_field(M_TOuter& m, u32 k) {
  (void)m; switch (k) {
    case 0: m.clear_a(); break;
    case 1: m.clear_b(); break;
    case 2: m.clear_w(); break;
    default: break;
  }
}
static inline bool set_field(M_TOuter& m, const S_TOuter& s, u32 k, u32 how = 0) {
  (void)m; (void)s; switch (k) {
    case 0: { M_TOuter_TIn e; load(e, s.a); if (how == 0) { m.set_a(static_cast<M_TOuter_TIn&&>(e)); return true; } if (how == 1) { m.set_a(e); return true; } if (how == 2) { m.mutable_a() = e; return true; } return false; }
    case 1: { if (how == 3) { ::EmbeddedProto::RepeatedFieldFixedSize<M_TOuter_TIn, 2> a; for (u32 i = 0; i < s.n_b; i++) { M_TOuter_TIn e; load(e, s.b[i]); a.add(e); } m.set_b(a); return true; } for (u32 i = 0; i < s.n_b; i++) { M_TOuter_TIn e; load(e, s.b[i]); if (how == 0) m.set_b(i, static_cast<M_TOuter_TIn&&>(e)); else if (how == 1) m.set_b(i, e); else if (how == 2) m.mutable_b(i) = e; else return false; } return true; }
    case 2: { uint32_t e; e = from_bits<uint32_t>(s.w); if (how == 0) { m.set_w(static_cast<uint32_t&&>(e)); return true; } if (how == 1) { m.set_w(e); return true; } if (how == 2) { m.mutable_w() = e; return true; } return false; }
    default: return false;
  }
}
static inline bool put_at(M_TOuter& m, const S_TOuter& s, u32 k, u32 at, u32 how) {
  (void)m; (void)s; (void)at; (void)how; switch (k) {
    case 1: { M_TOuter_TIn e; load(e, s.b[0]); if (how == 0) m.set_b(at, static_cast<M_TOuter_TIn&&>(e)); else if (how == 1) m.set_b(at, e); else if (how == 2) m.mutable_b(at) = e; else if (how == 3) m.mutable_b().set(at, e); else if (how == 4) m.mutable_b()[at] = e; else if (how == 5) m.add_b(e); else m.mutable_b().add(e); return true; }
    default: return false;
  }
}
static inline void alias_check(const M_TOuter& m, u32 k) {
  (void)m; switch (k) {
    case 0: { sym_assert(&m.a() == &m.get_a(), "x() and get_x() differ"); break; }
    case 1: { sym_assert(&m.b() == &m.get_b(), "x() and get_x() differ"); for (u32 i = 0; i < m.get_b().get_length(); i++) sym_assert(&m.b(i) == &m.get_b().get_const(i), "x(i) is not the element of the array"); break; }
    case 2: { sym_assert(to_bits<uint32_t>(m.w()) == to_bits<uint32_t>(m.get_w()), "x() and get_x() differ"); break; }
    default: break;
  }
}
static inline bool touch_field(M_TOuter& m, u32 k) {
  (void)m; switch (k) {
    case 0: (void)m.mutable_a(); return true;
    case 1: (void)m.mutable_b(); return true;
    case 2: (void)m.mutable_w(); return true;
    default: return false;
  }
}
static inline bool extend_field(M_TOuter& m, u32 k, u32 n) {
  (void)m; (void)n; switch (k) {
    case 1: (void)m.mutable_b(n - 1); return true;
    default: return false;
  }
}
static inline void limits(const M_TOuter& m) {
  (void)m;
  static_assert(static_cast<u32>(M_TOuter::FieldNumber::A) == 1u, "number of field a");
  sym_assert(__builtin_strcmp(M_TOuter::A_NAME, "a") == 0, "name constant of field a");
  static_assert(std::is_same<decltype(m.a()), const M_TOuter_TIn&>::value, "type of field a");
  static_assert(static_cast<u32>(M_TOuter::FieldNumber::B) == 2u, "number of field b");
  sym_assert(__builtin_strcmp(M_TOuter::B_NAME, "b") == 0, "name constant of field b");
  sym_assert(m.get_b().get_max_length() == 2u, "capacity of field b");
  static_assert(static_cast<u32>(M_TOuter::FieldNumber::W) == 4u, "number of field w");
  sym_assert(__builtin_strcmp(M_TOuter::W_NAME, "w") == 0, "name constant of field w");
  static_assert(std::is_same<decltype(m.w()), uint32_t>::value, "type of field w");
}
static inline const char* left_out(M_TOuter*, u32 n) { (void)n; return nullptr; }
static inline const char* number_name(M_TOuter*, u32 n) { return M_TOuter::field_number_to_name(static_cast<M_TOuter::FieldNumber>(n)); }
template<> struct G<M_TOuter> { using S = S_TOuter; static const MD& md() { return D_TOuter; } };

// ---- vs.TCap.In
using M_TCap_In = ::vs::TCap<3, 3, 3, 3>::In<3>;
struct S_TCap_In {
  Str<3> s;
};
static const FD F_TCap_In[] = {
  {1u, K_BYT, C_PLAIN, 0, 3, (u32)offsetof(S_TCap_In, s), (u32)0, (u32)sizeof(Str<3>), nullptr, "s"},
};
static const MD D_TCap_In = {F_TCap_In, 1, (u32)sizeof(S_TCap_In), "TCap_In"};
static inline void load(M_TCap_In& m, const S_TCap_In& s) {
  (void)m; (void)s;
  loadstr(m.mutable_s(), s.s);
}
static inline void read(S_TCap_In& s, const M_TCap_In& m) {
  (void)m; ref_reset(D_TCap_In, (u8*)&s);
  readstr(s.s, m.get_s());
}
static inline void clear_field(M_TCap_In& m, u32 k) {
  (void)m; switch (k) {
    case 0: m.clear_s(); break;
    default: break;
  }
}
static inline bool set_field(M_TCap_In& m, const S_TCap_In& s, u32 k, u32 how = 0) {
  (void)m; (void)s; switch (k) {
    case 0: { ::EmbeddedProto::FieldBytes<3> e; loadstr(e, s.s); if (how == 0) { m.set_s(static_cast<::EmbeddedProto::FieldBytes<3>&&>(e)); return true; } if (how == 1) { m.set_s(e); return true; } if (how == 2) { loadstr(m.mutable_s(), s.s); return true; } return false; }
    default: return false;
  }
}
static inline bool put_at(M_TCap_In& m, const S_TCap_In& s, u32 k, u32 at, u32 how) {
  (void)m; (void)s; (void)at; (void)how; switch (k) {
    default: return false;
  }
}
static inline void alias_check(const M_TCap_In& m, u32 k) {
  (void)m; switch (k) {
    case 0: { sym_assert(m.s() == m.get_s().get_const(), "x() and get_x() differ"); break; }
    default: break;
  }
}
static inline bool touch_field(M_TCap_In& m, u32 k) {
  (void)m; switch (k) {
    case 0: (void)m.mutable_s(); return true;
    default: return false;
  }
}
static inline bool extend_field(M_TCap_In& m, u32 k, u32 n) {
  (void)m; (void)n; switch (k) {
    case 0: (void)m.mutable_s().get(n - 1); return true;
    default: return false;
  }
}
static inline void limits(const M_TCap_In& m) {
  (void)m;
  static_assert(static_cast<u32>(M_TCap_In::FieldNumber::S) == 1u, "number of field s");
  sym_assert(__builtin_strcmp(M_TCap_In::S_NAME, "s") == 0, "name constant of field s");
  sym_assert(m.get_s().get_max_length() == 3u, "capacity of field s");
}
static inline const char* left_out(M_TCap_In*, u32 n) { (void)n; return nullptr; }
static inline const char* number_name(M_TCap_In*, u32 n) { return M_TCap_In::field_number_to_name(static_cast<M_TCap_In::FieldNumber>(n)); }
template<> struct G<M_TCap_In> { using S = S_TCap_In; static const MD& md() { return D_TCap_In; } };

// ---- vs.TCap
using M_TCap = ::vs::TCap<3, 3, 3, 3>;
struct S_TCap {
  u32 which_o;
  u32 n_b; S_TCap_In b[2];
  u32 has_q; Str<3> q;
  Str<3> r;
  Str<3> t;
};
static const FD F_TCap[] = {
  {2u, K_MSG, C_REP, 2, 0, (u32)offsetof(S_TCap, b), (u32)offsetof(S_TCap, n_b), (u32)sizeof(S_TCap_In), &D_TCap_In, "b"},
  {3u, K_STR, C_OPT, 0, 3, (u32)offsetof(S_TCap, q), (u32)offsetof(S_TCap, has_q), (u32)sizeof(Str<3>), nullptr, "q"},
  {4u, K_STR, C_ONE, 0, 3, (u32)offsetof(S_TCap, r), (u32)offsetof(S_TCap, which_o), (u32)sizeof(Str<3>), nullptr, "r"},
  {5u, K_BYT, C_ONE, 0, 3, (u32)offsetof(S_TCap, t), (u32)offsetof(S_TCap, which_o), (u32)sizeof(Str<3>), nullptr, "t"},
};
static const MD D_TCap = {F_TCap, 4, (u32)sizeof(S_TCap), "TCap"};
static inline void load(M_TCap& m, const S_TCap& s) {
  (void)m; (void)s;
  for (u32 i = 0; i < s.n_b; i++) { load(m.mutable_b(i), s.b[i]); }
  if (s.has_q) { loadstr(m.mutable_q(), s.q); }
  if (s.which_o == 4u) { loadstr(m.mutable_r(), s.r); }
  if (s.which_o == 5u) { loadstr(m.mutable_t(), s.t); }
}
static inline void read(S_TCap& s, const M_TCap& m) {
  (void)m; ref_reset(D_TCap, (u8*)&s);
  s.which_o = static_cast<u32>(m.get_which_o());
  s.n_b = m.get_b().get_length(); CHECK_CAP(s.n_b, 2); for (u32 i = 0; i < s.n_b; i++) { read(s.b[i], m.get_b().get_const(i)); }
  s.has_q = m.has_q() ? 1 : 0; readstr(s.q, m.get_q());
  HAS_ONE(m.has_r(), s.which_o, 4u); if (s.which_o == 4u) { readstr(s.r, m.get_r()); }
  HAS_ONE(m.has_t(), s.which_o, 5u); if (s.which_o == 5u) { readstr(s.t, m.get_t()); }
}
static inline void clear_field(M_TCap& m, u32 k) {
  (void)m; switch (k) {
    case 0: m.clear_b(); break;
    case 1: m.clear_q(); break;
    case 2: m.clear_r(); break;
    case 3: m.clear_t(); break;
    default: break;
  }
}
static inline bool set_field(M_TCap& m, const S_TCap& s, u32 k, u32 how = 0) {
  (void)m; (void)s; switch (k) {
    case 0: { if (how == 3) { ::EmbeddedProto::RepeatedFieldFixedSize<M_TCap_In, 2> a; for (u32 i = 0; i < s.n_b; i++) { M_TCap_In e; load(e, s.b[i]); a.add(e); } m.set_b(a); return true; } for (u32 i = 0; i < s.n_b; i++) { M_TCap_In e; load(e, s.b[i]); if (how == 0) m.set_b(i, static_cast<M_TCap_In&&>(e)); else if (how == 1) m.set_b(i, e); else if (how == 2) m.mutable_b(i) = e; else return false; } return true; }
    case 1: { ::EmbeddedProto::FieldString<3> e; loadstr(e, s.q); if (how == 0) { m.set_q(static_cast<::EmbeddedProto::FieldString<3>&&>(e)); return true; } if (how == 1) { m.set_q(e); return true; } if (how == 2) { loadstr(m.mutable_q(), s.q); return true; } return false; }
    case 2: { ::EmbeddedProto::FieldString<3> e; loadstr(e, s.r); if (how == 0) { m.set_r(static_cast<::EmbeddedProto::FieldString<3>&&>(e)); return true; } if (how == 1) { m.set_r(e); return true; } if (how == 2) { loadstr(m.mutable_r(), s.r); return true; } return false; }
    case 3: { ::EmbeddedProto::FieldBytes<3> e; loadstr(e, s.t); if (how == 0) { m.set_t(static_cast<::EmbeddedProto::FieldBytes<3>&&>(e)); return true; } if (how == 1) { m.set_t(e); return true; } if (how == 2) { loadstr(m.mutable_t(), s.t); return true; } return false; }
    default: return false;
  }
}
static inline bool put_at(M_TCap& m, const S_TCap& s, u32 k, u32 at, u32 how) {
  (void)m; (void)s; (void)at; (void)how; switch (k) {
    case 0: { M_TCap_In e; load(e, s.b[0]); if (how == 0) m.set_b(at, static_cast<M_TCap_In&&>(e)); else if (how == 1) m.set_b(at, e); else if (how == 2) m.mutable_b(at) = e; else if (how == 3) m.mutable_b().set(at, e); else if (how == 4) m.mutable_b()[at] = e; else if (how == 5) m.add_b(e); else m.mutable_b().add(e); return true; }
    default: return false;
  }
}
static inline void alias_check(const M_TCap& m, u32 k) {
  (void)m; switch (k) {
    case 0: { sym_assert(&m.b() == &m.get_b(), "x() and get_x() differ"); for (u32 i = 0; i < m.get_b().get_length(); i++) sym_assert(&m.b(i) == &m.get_b().get_const(i), "x(i) is not the element of the array"); break; }
    case 1: { sym_assert(m.q() == m.get_q().get_const(), "x() and get_x() differ"); break; }
    case 2: { if (m.has_r()) { sym_assert(m.r() == m.get_r().get_const(), "x() and get_x() differ"); } break; }
    case 3: { if (m.has_t()) { sym_assert(m.t() == m.get_t().get_const(), "x() and get_x() differ"); } break; }
    default: break;
  }
}
static inline bool touch_field(M_TCap& m, u32 k) {
  (void)m; switch (k) {
    case 0: (void)m.mutable_b(); return true;
    case 1: (void)m.mutable_q(); return true;
    case 2: (void)m.mutable_r(); return true;
    case 3: (void)m.mutable_t(); return true;
    default: return false;
  }
}
static inline bool extend_field(M_TCap& m, u32 k, u32 n) {
  (void)m; (void)n; switch (k) {
    case 0: (void)m.mutable_b(n - 1); return true;
    case 1: (void)m.mutable_q().get(n - 1); return true;
    case 2: (void)m.mutable_r().get(n - 1); return true;
    case 3: (void)m.mutable_t().get(n - 1); return true;
    default: return false;
  }
}
static inline void limits(const M_TCap& m) {
  (void)m;
  static_assert(static_cast<u32>(M_TCap::FieldNumber::B) == 2u, "number of field b");
  sym_assert(__builtin_strcmp(M_TCap::B_NAME, "b") == 0, "name constant of field b");
  sym_assert(m.get_b().get_max_length() == 2u, "capacity of field b");
  static_assert(static_cast<u32>(M_TCap::FieldNumber::Q) == 3u, "number of field q");
  sym_assert(__builtin_strcmp(M_TCap::Q_NAME, "q") == 0, "name constant of field q");
  sym_assert(m.get_q().get_max_length() == 3u, "capacity of field q");
  static_assert(static_cast<u32>(M_TCap::FieldNumber::R) == 4u, "number of field r");
  sym_assert(__builtin_strcmp(M_TCap::R_NAME, "r") == 0, "name constant of field r");
  if (m.has_r()) sym_assert(m.get_r().get_max_length() == 3u, "capacity of field r");
  static_assert(static_cast<u32>(M_TCap::FieldNumber::T) == 5u, "number of field t");
  sym_assert(__builtin_strcmp(M_TCap::T_NAME, "t") == 0, "name constant of field t");
  if (m.has_t()) sym_assert(m.get_t().get_max_length() == 3u, "capacity of field t");
}
static inline const char* left_out(M_TCap*, u32 n) { (void)n; return nullptr; }
static inline const char* number_name(M_TCap*, u32 n) { return M_TCap::field_number_to_name(static_cast<M_TCap::FieldNumber>(n)); }
template<> struct G<M_TCap> { using S = S_TCap; static const MD& md() { return D_TCap; } };

// ---- vs.Wide
using M_Wide = ::vs::Wide;
struct S_Wide {
  u32 which_o;
  u32 which_p;
  u32 a;
  u32 has_b; u32 b;
  u32 n_c; u32 c[2];
  S_common_Point d;
  u32 e;
  Str<2> f;
  S_common_Point g;
  u32 h;
  u32 i;
  Str<2> j;
};
static const FD F_Wide[] = {
  {1u, K_U32, C_PLAIN, 0, 0, (u32)offsetof(S_Wide, a), (u32)0, (u32)sizeof(u32), nullptr, "a"},
  {257u, K_U32, C_OPT, 0, 0, (u32)offsetof(S_Wide, b), (u32)offsetof(S_Wide, has_b), (u32)sizeof(u32), nullptr, "b"},
  {65537u, K_U32, C_REP, 2, 0, (u32)offsetof(S_Wide, c), (u32)offsetof(S_Wide, n_c), (u32)sizeof(u32), nullptr, "c"},
  {16777217u, K_MSG, C_PLAIN, 0, 0, (u32)offsetof(S_Wide, d), (u32)0, (u32)sizeof(S_common_Point), &D_common_Point, "d"},
  {2u, K_U32, C_ONE, 0, 0, (u32)offsetof(S_Wide, e), (u32)offsetof(S_Wide, which_o), (u32)sizeof(u32), nullptr, "e"},
  {258u, K_STR, C_ONE, 0, 2, (u32)offsetof(S_Wide, f), (u32)offsetof(S_Wide, which_o), (u32)sizeof(Str<2>), nullptr, "f"},
  {65538u, K_MSG, C_ONE, 0, 0, (u32)offsetof(S_Wide, g), (u32)offsetof(S_Wide, which_o), (u32)sizeof(S_common_Point), &D_common_Point, "g"},
  {16777218u, K_BOOL, C_ONE, 0, 0, (u32)offsetof(S_Wide, h), (u32)offsetof(S_Wide, which_o), (u32)sizeof(u32), nullptr, "h"},
  {514u, K_ENUM, C_ONE, 0, 0, (u32)offsetof(S_Wide, i), (u32)offsetof(S_Wide, which_p), (u32)sizeof(u32), nullptr, "i"},
  {33554434u, K_BYT, C_ONE, 0, 2, (u32)offsetof(S_Wide, j), (u32)offsetof(S_Wide, which_p), (u32)sizeof(Str<2>), nullptr, "j"},
};
static const MD D_Wide = {F_Wide, 10, (u32)sizeof(S_Wide), "Wide"};
static inline void load(M_Wide& m, const S_Wide& s) {
  (void)m; (void)s;
  m.set_a(from_bits<uint32_t>(s.a));
  if (s.has_b) { m.set_b(from_bits<uint32_t>(s.b)); }
  for (u32 i = 0; i < s.n_c; i++) m.add_c(from_bits<uint32_t>(s.c[i]));
  load(m.mutable_d(), s.d);
  if (s.which_o == 2u) { m.set_e(from_bits<uint32_t>(s.e)); }
  if (s.which_o == 258u) { loadstr(m.mutable_f(), s.f); }
  if (s.which_o == 65538u) { load(m.mutable_g(), s.g); }
  if (s.which_o == 16777218u) { m.set_h(from_bits<bool>(s.h)); }
  if (s.which_p == 514u) { m.set_i(static_cast<::vs::Color>(s.i)); }
  if (s.which_p == 33554434u) { loadstr(m.mutable_j(), s.j); }
}
static inline void read(S_Wide& s, const M_Wide& m) {
  (void)m; ref_reset(D_Wide, (u8*)&s);
  s.which_o = static_cast<u32>(m.get_which_o());
  s.which_p = static_cast<u32>(m.get_which_p());
  s.a = to_bits<uint32_t>(m.get_a());
  s.has_b = m.has_b() ? 1 : 0; s.b = to_bits<uint32_t>(m.get_b());
  s.n_c = m.get_c().get_length(); CHECK_CAP(s.n_c, 2); for (u32 i = 0; i < s.n_c; i++) { s.c[i] = to_bits<uint32_t>(m.get_c().get_const(i).get()); }
  read(s.d, m.get_d());
  HAS_ONE(m.has_e(), s.which_o, 2u); if (s.which_o == 2u) { s.e = to_bits<uint32_t>(m.get_e()); }
  HAS_ONE(m.has_f(), s.which_o, 258u); if (s.which_o == 258u) { readstr(s.f, m.get_f()); }
  HAS_ONE(m.has_g(), s.which_o, 65538u); if (s.which_o == 65538u) { read(s.g, m.get_g()); }
  HAS_ONE(m.has_h(), s.which_o, 16777218u); if (s.which_o == 16777218u) { s.h = to_bits<bool>(m.get_h()); }
  HAS_ONE(m.has_i(), s.which_p, 514u); if (s.which_p == 514u) { s.i = static_cast<u32>(m.get_i()); }
  HAS_ONE(m.has_j(), s.which_p, 33554434u); if (s.which_p == 33554434u) { readstr(s.j, m.get_j()); }
}
static inline void clear_field(M_Wide& m, u32 k) {
  (void)m; switch (k) {
    case 0: m.clear_a(); break;
    case 1: m.clear_b(); break;
    case 2: m.clear_c(); break;
    case 3: m.clear_d(); break;
    case 4: m.clear_e(); break;
    case 5: m.clear_f(); break;
    case 6: m.clear_g(); break;
    case 7: m.clear_h(); break;
    case 8: m.clear_i(); break;
    case 9: m.clear_j(); break;
    default: break;
  }
}
static inline bool set_field(M_Wide& m, const S_Wide& s, u32 k, u32 how = 0) {
  (void)m; (void)s; switch (k) {
    case 0: { uint32_t e; e = from_bits<uint32_t>(s.a); if (how == 0) { m.set_a(static_cast<uint32_t&&>(e)); return true; } if (how == 1) { m.set_a(e); return true; } if (how == 2) { m.mutable_a() = e; return true; } return false; }
    case 1: { uint32_t e; e = from_bits<uint32_t>(s.b); if (how == 0) { m.set_b(static_cast<uint32_t&&>(e)); return true; } if (how == 1) { m.set_b(e); return true; } if (how == 2) { m.mutable_b() = e; return true; } return false; }
    case 2: { if (how == 3) { ::EmbeddedProto::RepeatedFieldFixedSize<::EmbeddedProto::uint32, 2> a; for (u32 i = 0; i < s.n_c; i++) { uint32_t e; e = from_bits<uint32_t>(s.c[i]); a.add(e); } m.set_c(a); return true; } for (u32 i = 0; i < s.n_c; i++) { uint32_t e; e = from_bits<uint32_t>(s.c[i]); ::EmbeddedProto::uint32 c; c = e; if (how == 0) m.set_c(i, static_cast<::EmbeddedProto::uint32&&>(c)); else if (how == 1) m.set_c(i, c); else if (how == 2) m.mutable_c(i) = c; else return false; } return true; }
    case 3: { M_common_Point e; load(e, s.d); if (how == 0) { m.set_d(static_cast<M_common_Point&&>(e)); return true; } if (how == 1) { m.set_d(e); return true; } if (how == 2) { m.mutable_d() = e; return true; } return false; }
    case 4: { uint32_t e; e = from_bits<uint32_t>(s.e); if (how == 0) { m.set_e(static_cast<uint32_t&&>(e)); return true; } if (how == 1) { m.set_e(e); return true; } return false; }
    case 5: { ::EmbeddedProto::FieldString<2> e; loadstr(e, s.f); if (how == 0) { m.set_f(static_cast<::EmbeddedProto::FieldString<2>&&>(e)); return true; } if (how == 1) { m.set_f(e); return true; } if (how == 2) { loadstr(m.mutable_f(), s.f); return true; } return false; }
    case 6: { M_common_Point e; load(e, s.g); if (how == 0) { m.set_g(static_cast<M_common_Point&&>(e)); return true; } if (how == 1) { m.set_g(e); return true; } if (how == 2) { m.mutable_g() = e; return true; } return false; }
    case 7: { bool e; e = from_bits<bool>(s.h); if (how == 0) { m.set_h(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_h(e); return true; } return false; }
    case 8: { ::vs::Color e; e = static_cast<::vs::Color>(s.i); if (how == 0) { m.set_i(static_cast<::vs::Color&&>(e)); return true; } if (how == 1) { m.set_i(e); return true; } return false; }
    case 9: { ::EmbeddedProto::FieldBytes<2> e; loadstr(e, s.j); if (how == 0) { m.set_j(static_cast<::EmbeddedProto::FieldBytes<2>&&>(e)); return true; } if (how == 1) { m.set_j(e); return true; } if (how == 2) { loadstr(m.mutable_j(), s.j); return true; } return false; }
    default: return false;
  }
}
static inline bool put_at(M_Wide& m, const S_Wide& s, u32 k, u32 at, u32 how) {
  (void)m; (void)s; (void)at; (void)how; switch (k) {
    case 2: { ::EmbeddedProto::uint32 e; e = from_bits<uint32_t>(s.c[0]); if (how == 0) m.set_c(at, static_cast<::EmbeddedProto::uint32&&>(e)); else if (how == 1) m.set_c(at, e); else if (how == 2) m.mutable_c(at) = e; else if (how == 3) m.mutable_c().set(at, e); else if (how == 4) m.mutable_c()[at] = e; else if (how == 5) m.add_c(e); else m.mutable_c().add(e); return true; }
    default: return false;
  }
}
static inline void alias_check(const M_Wide& m, u32 k) {
  (void)m; switch (k) {
    case 0: { sym_assert(to_bits<uint32_t>(m.a()) == to_bits<uint32_t>(m.get_a()), "x() and get_x() differ"); break; }
    case 1: { sym_assert(to_bits<uint32_t>(m.b()) == to_bits<uint32_t>(m.get_b()), "x() and get_x() differ"); break; }
    case 2: { sym_assert(&m.c() == &m.get_c(), "x() and get_x() differ"); for (u32 i = 0; i < m.get_c().get_length(); i++) sym_assert(&m.c(i) == &m.get_c().get_const(i), "x(i) is not the element of the array"); break; }
    case 3: { sym_assert(&m.d() == &m.get_d(), "x() and get_x() differ"); break; }
    case 4: { if (m.has_e()) { sym_assert(to_bits<uint32_t>(m.e()) == to_bits<uint32_t>(m.get_e()), "x() and get_x() differ"); } break; }
    case 5: { if (m.has_f()) { sym_assert(m.f() == m.get_f().get_const(), "x() and get_x() differ"); } break; }
    case 6: { if (m.has_g()) { sym_assert(&m.g() == &m.get_g(), "x() and get_x() differ"); } break; }
    case 7: { if (m.has_h()) { sym_assert(to_bits<bool>(m.h()) == to_bits<bool>(m.get_h()), "x() and get_x() differ"); } break; }
    case 8: { if (m.has_i()) { sym_assert(m.i() == m.get_i(), "x() and get_x() differ"); } break; }
    case 9: { if (m.has_j()) { sym_assert(m.j() == m.get_j().get_const(), "x() and get_x() differ"); } break; }
    default: break;
  }
}
static inline bool touch_field(M_Wide& m, u32 k) {
  (void)m; switch (k) {
    case 0: (void)m.mutable_a(); return true;
    case 1: (void)m.mutable_b(); return true;
    case 2: (void)m.mutable_c(); return true;
    case 3: (void)m.mutable_d(); return true;
    case 5: (void)m.mutable_f(); return true;
    case 6: (void)m.mutable_g(); return true;
    case 9: (void)m.mutable_j(); return true;
    default: return false;
  }
}
static inline bool extend_field(M_Wide& m, u32 k, u32 n) {
  (void)m; (void)n; switch (k) {
    case 2: (void)m.mutable_c(n - 1); return true;
    case 5: (void)m.mutable_f().get(n - 1); return true;
    case 9: (void)m.mutable_j().get(n - 1); return true;
    default: return false;
  }
}
static inline void limits(const M_Wide& m) {
  (void)m;
  static_assert(static_cast<u32>(M_Wide::FieldNumber::A) == 1u, "number of field a");
  sym_assert(__builtin_strcmp(M_Wide::A_NAME, "a") == 0, "name constant of field a");
  static_assert(std::is_same<decltype(m.a()), uint32_t>::value, "type of field a");
  static_assert(static_cast<u32>(M_Wide::FieldNumber::B) == 257u, "number of field b");
  sym_assert(__builtin_strcmp(M_Wide::B_NAME, "b") == 0, "name constant of field b");
  static_assert(std::is_same<decltype(m.b()), uint32_t>::value, "type of field b");
  static_assert(static_cast<u32>(M_Wide::FieldNumber::C) == 65537u, "number of field c");
  sym_assert(__builtin_strcmp(M_Wide::C_NAME, "c") == 0, "name constant of field c");
  sym_assert(m.get_c().get_max_length() == 2u, "capacity of field c");
  static_assert(static_cast<u32>(M_Wide::FieldNumber::D) == 16777217u, "number of field d");
  sym_assert(__builtin_strcmp(M_Wide::D_NAME, "d") == 0, "name constant of field d");
  static_assert(std::is_same<decltype(m.d()), const M_common_Point&>::value, "type of field d");
  static_assert(static_cast<u32>(M_Wide::FieldNumber::E) == 2u, "number of field e");
  sym_assert(__builtin_strcmp(M_Wide::E_NAME, "e") == 0, "name constant of field e");
  static_assert(std::is_same<decltype(m.e()), uint32_t>::value, "type of field e");
  static_assert(static_cast<u32>(M_Wide::FieldNumber::F) == 258u, "number of field f");
  sym_assert(__builtin_strcmp(M_Wide::F_NAME, "f") == 0, "name constant of field f");
  if (m.has_f()) sym_assert(m.get_f().get_max_length() == 2u, "capacity of field f");
  static_assert(static_cast<u32>(M_Wide::FieldNumber::G) == 65538u, "number of field g");
  sym_assert(__builtin_strcmp(M_Wide::G_NAME, "g") == 0, "name constant of field g");
  static_assert(std::is_same<decltype(m.g()), const M_common_Point&>::value, "type of field g");
  static_assert(static_cast<u32>(M_Wide::FieldNumber::H) == 16777218u, "number of field h");
  sym_assert(__builtin_strcmp(M_Wide::H_NAME, "h") == 0, "name constant of field h");
  static_assert(std::is_same<decltype(m.h()), bool>::value, "type of field h");
  static_assert(static_cast<u32>(M_Wide::FieldNumber::I) == 514u, "number of field i");
  sym_assert(__builtin_strcmp(M_Wide::I_NAME, "i") == 0, "name constant of field i");
  static_assert(std::is_same<decltype(m.i()), ::vs::Color>::value, "type of field i");
  static_assert(static_cast<u32>(M_Wide::FieldNumber::J) == 33554434u, "number of field j");
  sym_assert(__builtin_strcmp(M_Wide::J_NAME, "j") == 0, "name constant of field j");
  if (m.has_j()) sym_assert(m.get_j().get_max_length() == 2u, "capacity of field j");
}
static inline const char* left_out(M_Wide*, u32 n) { (void)n; return nullptr; }
static inline const char* number_name(M_Wide*, u32 n) { return M_Wide::field_number_to_name(static_cast<M_Wide::FieldNumber>(n)); }
template<> struct G<M_Wide> { using S = S_Wide; static const MD& md() { return D_Wide; } };

// ---- vs.Opts33
using M_Opts33 = ::vs::Opts33;
struct S_Opts33 {
  u32 has_p01; u32 p01;
  u32 has_p02; u32 p02;
  u32 has_p03; u32 p03;
  u32 has_p04; u32 p04;
  u32 has_p05; u32 p05;
  u32 has_p06; u32 p06;
  u32 has_p07; u32 p07;
  u32 has_p08; u32 p08;
  u32 has_p09; u32 p09;
  u32 has_p10; u32 p10;
  u32 has_p11; u32 p11;
  u32 has_p12; u32 p12;
  u32 has_p13; u32 p13;
  u32 has_p14; u32 p14;
  u32 has_p15; u32 p15;
  u32 has_p16; u32 p16;
  u32 has_p17; u32 p17;
  u32 has_p18; u32 p18;
  u32 has_p19; u32 p19;
  u32 has_p20; u32 p20;
  u32 has_p21; u32 p21;
  u32 has_p22; u32 p22;
  u32 has_p23; u32 p23;
  u32 has_p24; u32 p24;
  u32 has_p25; u32 p25;
  u32 has_p26; u32 p26;
  u32 has_p27; u32 p27;
  u32 has_p28; u32 p28;
  u32 has_p29; u32 p29;
  u32 has_p30; u32 p30;
  u32 has_p31; u32 p31;
  u32 has_p32; u32 p32;
  u32 has_p33; u32 p33;
};
static const FD F_Opts33[] = {
  {1u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts33, p01), (u32)offsetof(S_Opts33, has_p01), (u32)sizeof(u32), nullptr, "p01"},
  {2u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts33, p02), (u32)offsetof(S_Opts33, has_p02), (u32)sizeof(u32), nullptr, "p02"},
  {3u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts33, p03), (u32)offsetof(S_Opts33, has_p03), (u32)sizeof(u32), nullptr, "p03"},
  {4u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts33, p04), (u32)offsetof(S_Opts33, has_p04), (u32)sizeof(u32), nullptr, "p04"},
  {5u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts33, p05), (u32)offsetof(S_Opts33, has_p05), (u32)sizeof(u32), nullptr, "p05"},
  {6u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts33, p06), (u32)offsetof(S_Opts33, has_p06), (u32)sizeof(u32), nullptr, "p06"},
  {7u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts33, p07), (u32)offsetof(S_Opts33, has_p07), (u32)sizeof(u32), nullptr, "p07"},
  {8u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts33, p08), (u32)offsetof(S_Opts33, has_p08), (u32)sizeof(u32), nullptr, "p08"},
  {9u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts33, p09), (u32)offsetof(S_Opts33, has_p09), (u32)sizeof(u32), nullptr, "p09"},
  {10u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts33, p10), (u32)offsetof(S_Opts33, has_p10), (u32)sizeof(u32), nullptr, "p10"},
  {11u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts33, p11), (u32)offsetof(S_Opts33, has_p11), (u32)sizeof(u32), nullptr, "p11"},
  {12u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts33, p12), (u32)offsetof(S_Opts33, has_p12), (u32)sizeof(u32), nullptr, "p12"},
  {13u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts33, p13), (u32)offsetof(S_Opts33, has_p13), (u32)sizeof(u32), nullptr, "p13"},
  {14u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts33, p14), (u32)offsetof(S_Opts33, has_p14), (u32)sizeof(u32), nullptr, "p14"},
  {15u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts33, p15), (u32)offsetof(S_Opts33, has_p15), (u32)sizeof(u32), nullptr, "p15"},
  {16u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts33, p16), (u32)offsetof(S_Opts33, has_p16), (u32)sizeof(u32), nullptr, "p16"},
  {17u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts33, p17), (u32)offsetof(S_Opts33, has_p17), (u32)sizeof(u32), nullptr, "p17"},
  {18u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts33, p18), (u32)offsetof(S_Opts33, has_p18), (u32)sizeof(u32), nullptr, "p18"},
  {19u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts33, p19), (u32)offsetof(S_Opts33, has_p19), (u32)sizeof(u32), nullptr, "p19"},
  {20u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts33, p20), (u32)offsetof(S_Opts33, has_p20), (u32)sizeof(u32), nullptr, "p20"},
  {21u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts33, p21), (u32)offsetof(S_Opts33, has_p21), (u32)sizeof(u32), nullptr, "p21"},
  {22u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts33, p22), (u32)offsetof(S_Opts33, has_p22), (u32)sizeof(u32), nullptr, "p22"},
  {23u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts33, p23), (u32)offsetof(S_Opts33, has_p23), (u32)sizeof(u32), nullptr, "p23"},
  {24u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts33, p24), (u32)offsetof(S_Opts33, has_p24), (u32)sizeof(u32), nullptr, "p24"},
  {25u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts33, p25), (u32)offsetof(S_Opts33, has_p25), (u32)sizeof(u32), nullptr, "p25"},
  {26u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts33, p26), (u32)offsetof(S_Opts33, has_p26), (u32)sizeof(u32), nullptr, "p26"},
  {27u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts33, p27), (u32)offsetof(S_Opts33, has_p27), (u32)sizeof(u32), nullptr, "p27"},
  {28u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts33, p28), (u32)offsetof(S_Opts33, has_p28), (u32)sizeof(u32), nullptr, "p28"},
  {29u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts33, p29), (u32)offsetof(S_Opts33, has_p29), (u32)sizeof(u32), nullptr, "p29"},
  {30u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts33, p30), (u32)offsetof(S_Opts33, has_p30), (u32)sizeof(u32), nullptr, "p30"},
  {31u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts33, p31), (u32)offsetof(S_Opts33, has_p31), (u32)sizeof(u32), nullptr, "p31"},
  {32u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts33, p32), (u32)offsetof(S_Opts33, has_p32), (u32)sizeof(u32), nullptr, "p32"},
  {33u, K_BOOL, C_OPT, 0, 0, (u32)offsetof(S_Opts33, p33), (u32)offsetof(S_Opts33, has_p33), (u32)sizeof(u32), nullptr, "p33"},
};
static const MD D_Opts33 = {F_Opts33, 33, (u32)sizeof(S_Opts33), "Opts33"};
static inline void load(M_Opts33& m, const S_Opts33& s) {
  (void)m; (void)s;
  if (s.has_p01) { m.set_p01(from_bits<bool>(s.p01)); }
  if (s.has_p02) { m.set_p02(from_bits<bool>(s.p02)); }
  if (s.has_p03) { m.set_p03(from_bits<bool>(s.p03)); }
  if (s.has_p04) { m.set_p04(from_bits<bool>(s.p04)); }
  if (s.has_p05) { m.set_p05(from_bits<bool>(s.p05)); }
  if (s.has_p06) { m.set_p06(from_bits<bool>(s.p06)); }
  if (s.has_p07) { m.set_p07(from_bits<bool>(s.p07)); }
  if (s.has_p08) { m.set_p08(from_bits<bool>(s.p08)); }
  if (s.has_p09) { m.set_p09(from_bits<bool>(s.p09)); }
  if (s.has_p10) { m.set_p10(from_bits<bool>(s.p10)); }
  if (s.has_p11) { m.set_p11(from_bits<bool>(s.p11)); }
  if (s.has_p12) { m.set_p12(from_bits<bool>(s.p12)); }
  if (s.has_p13) { m.set_p13(from_bits<bool>(s.p13)); }
  if (s.has_p14) { m.set_p14(from_bits<bool>(s.p14)); }
  if (s.has_p15) { m.set_p15(from_bits<bool>(s.p15)); }
  if (s.has_p16) { m.set_p16(from_bits<bool>(s.p16)); }
  if (s.has_p17) { m.set_p17(from_bits<bool>(s.p17)); }
  if (s.has_p18) { m.set_p18(from_bits<bool>(s.p18)); }
  if (s.has_p19) { m.set_p19(from_bits<bool>(s.p19)); }
  if (s.has_p20) { m.set_p20(from_bits<bool>(s.p20)); }
  if (s.has_p21) { m.set_p21(from_bits<bool>(s.p21)); }
  if (s.has_p22) { m.set_p22(from_bits<bool>(s.p22)); }
  if (s.has_p23) { m.set_p23(from_bits<bool>(s.p23)); }
  if (s.has_p24) { m.set_p24(from_bits<bool>(s.p24)); }
  if (s.has_p25) { m.set_p25(from_bits<bool>(s.p25)); }
  if (s.has_p26) { m.set_p26(from_bits<bool>(s.p26)); }
  if (s.has_p27) { m.set_p27(from_bits<bool>(s.p27)); }
  if (s.has_p28) { m.set_p28(from_bits<bool>(s.p28)); }
  if (s.has_p29) { m.set_p29(from_bits<bool>(s.p29)); }
  if (s.has_p30) { m.set_p30(from_bits<bool>(s.p30)); }
  if (s.has_p31) { m.set_p31(from_bits<bool>(s.p31)); }
  if (s.has_p32) { m.set_p32(from_bits<bool>(s.p32)); }
  if (s.has_p33) { m.set_p33(from_bits<bool>(s.p33)); }
}
static inline void read(S_Opts33& s, const M_Opts33& m) {
  (void)m; ref_reset(D_Opts33, (u8*)&s);
  s.has_p01 = m.has_p01() ? 1 : 0; s.p01 = to_bits<bool>(m.get_p01());
  s.has_p02 = m.has_p02() ? 1 : 0; s.p02 = to_bits<bool>(m.get_p02());
  s.has_p03 = m.has_p03() ? 1 : 0; s.p03 = to_bits<bool>(m.get_p03());
  s.has_p04 = m.has_p04() ? 1 : 0; s.p04 = to_bits<bool>(m.get_p04());
  s.has_p05 = m.has_p05() ? 1 : 0; s.p05 = to_bits<bool>(m.get_p05());
  s.has_p06 = m.has_p06() ? 1 : 0; s.p06 = to_bits<bool>(m.get_p06());
  s.has_p07 = m.has_p07() ? 1 : 0; s.p07 = to_bits<bool>(m.get_p07());
  s.has_p08 = m.has_p08() ? 1 : 0; s.p08 = to_bits<bool>(m.get_p08());
  s.has_p09 = m.has_p09() ? 1 : 0; s.p09 = to_bits<bool>(m.get_p09());
  s.has_p10 = m.has_p10() ? 1 : 0; s.p10 = to_bits<bool>(m.get_p10());
  s.has_p11 = m.has_p11() ? 1 : 0; s.p11 = to_bits<bool>(m.get_p11());
  s.has_p12 = m.has_p12() ? 1 : 0; s.p12 = to_bits<bool>(m.get_p12());
  s.has_p13 = m.has_p13() ? 1 : 0; s.p13 = to_bits<bool>(m.get_p13());
  s.has_p14 = m.has_p14() ? 1 : 0; s.p14 = to_bits<bool>(m.get_p14());
  s.has_p15 = m.has_p15() ? 1 : 0; s.p15 = to_bits<bool>(m.get_p15());
  s.has_p16 = m.has_p16() ? 1 : 0; s.p16 = to_bits<bool>(m.get_p16());
  s.has_p17 = m.has_p17() ? 1 : 0; s.p17 = to_bits<bool>(m.get_p17());
  s.has_p18 = m.has_p18() ? 1 : 0; s.p18 = to_bits<bool>(m.get_p18());
  s.has_p19 = m.has_p19() ? 1 : 0; s.p19 = to_bits<bool>(m.get_p19());
  s.has_p20 = m.has_p20() ? 1 : 0; s.p20 = to_bits<bool>(m.get_p20());
  s.has_p21 = m.has_p21() ? 1 : 0; s.p21 = to_bits<bool>(m.get_p21());
  s.has_p22 = m.has_p22() ? 1 : 0; s.p22 = to_bits<bool>(m.get_p22());
  s.has_p23 = m.has_p23() ? 1 : 0; s.p23 = to_bits<bool>(m.get_p23());
  s.has_p24 = m.has_p24() ? 1 : 0; s.p24 = to_bits<bool>(m.get_p24());
  s.has_p25 = m.has_p25() ? 1 : 0; s.p25 = to_bits<bool>(m.get_p25());
  s.has_p26 = m.has_p26() ? 1 : 0; s.p26 = to_bits<bool>(m.get_p26());
  s.has_p27 = m.has_p27() ? 1 : 0; s.p27 = to_bits<bool>(m.get_p27());
  s.has_p28 = m.has_p28() ? 1 : 0; s.p28 = to_bits<bool>(m.get_p28());
  s.has_p29 = m.has_p29() ? 1 : 0; s.p29 = to_bits<bool>(m.get_p29());
  s.has_p30 = m.has_p30() ? 1 : 0; s.p30 = to_bits<bool>(m.get_p30());
  s.has_p31 = m.has_p31() ? 1 : 0; s.p31 = to_bits<bool>(m.get_p31());
  s.has_p32 = m.has_p32() ? 1 : 0; s.p32 = to_bits<bool>(m.get_p32());
  s.has_p33 = m.has_p33() ? 1 : 0; s.p33 = to_bits<bool>(m.get_p33());
}
static inline void clear_field(M_Opts33& m, u32 k) {
  (void)m; switch (k) {
    case 0: m.clear_p01(); break;
    case 1: m.clear_p02(); break;
    case 2: m.clear_p03(); break;
    case 3: m.clear_p04(); break;
    case 4: m.clear_p05(); break;
    case 5: m.clear_p06(); break;
    case 6: m.clear_p07(); break;
    case 7: m.clear_p08(); break;
    case 8: m.clear_p09(); break;
    case 9: m.clear_p10(); break;
    case 10: m.clear_p11(); break;
    case 11: m.clear_p12(); break;
    case 12: m.clear_p13(); break;
    case 13: m.clear_p14(); break;
    case 14: m.clear_p15(); break;
    case 15: m.clear_p16(); break;
    case 16: m.clear_p17(); break;
    case 17: m.clear_p18(); break;
    case 18: m.clear_p19(); break;
    case 19: m.clear_p20(); break;
    case 20: m.clear_p21(); break;
    case 21: m.clear_p22(); break;
    case 22: m.clear_p23(); break;
    case 23: m.clear_p24(); break;
    case 24: m.clear_p25(); break;
    case 25: m.clear_p26(); break;
    case 26: m.clear_p27(); break;
    case 27: m.clear_p28(); break;
    case 28: m.clear_p29(); break;
    case 29: m.clear_p30(); break;
    case 30: m.clear_p31(); break;
    case 31: m.clear_p32(); break;
    case 32: m.clear_p33(); break;
    default: break;
  }
}
static inline bool set_field(M_Opts33& m, const S_Opts33& s, u32 k, u32 how = 0) {
  (void)m; (void)s; switch (k) {
    case 0: { bool e; e = from_bits<bool>(s.p01); if (how == 0) { m.set_p01(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p01(e); return true; } if (how == 2) { m.mutable_p01() = e; return true; } return false; }
    case 1: { bool e; e = from_bits<bool>(s.p02); if (how == 0) { m.set_p02(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p02(e); return true; } if (how == 2) { m.mutable_p02() = e; return true; } return false; }
    case 2: { bool e; e = from_bits<bool>(s.p03); if (how == 0) { m.set_p03(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p03(e); return true; } if (how == 2) { m.mutable_p03() = e; return true; } return false; }
    case 3: { bool e; e = from_bits<bool>(s.p04); if (how == 0) { m.set_p04(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p04(e); return true; } if (how == 2) { m.mutable_p04() = e; return true; } return false; }
    case 4: { bool e; e = from_bits<bool>(s.p05); if (how == 0) { m.set_p05(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p05(e); return true; } if (how == 2) { m.mutable_p05() = e; return true; } return false; }
    case 5: { bool e; e = from_bits<bool>(s.p06); if (how == 0) { m.set_p06(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p06(e); return true; } if (how == 2) { m.mutable_p06() = e; return true; } return false; }
    case 6: { bool e; e = from_bits<bool>(s.p07); if (how == 0) { m.set_p07(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p07(e); return true; } if (how == 2) { m.mutable_p07() = e; return true; } return false; }
    case 7: { bool e; e = from_bits<bool>(s.p08); if (how == 0) { m.set_p08(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p08(e); return true; } if (how == 2) { m.mutable_p08() = e; return true; } return false; }
    case 8: { bool e; e = from_bits<bool>(s.p09); if (how == 0) { m.set_p09(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p09(e); return true; } if (how == 2) { m.mutable_p09() = e; return true; } return false; }
    case 9: { bool e; e = from_bits<bool>(s.p10); if (how == 0) { m.set_p10(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p10(e); return true; } if (how == 2) { m.mutable_p10() = e; return true; } return false; }
    case 10: { bool e; e = from_bits<bool>(s.p11); if (how == 0) { m.set_p11(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p11(e); return true; } if (how == 2) { m.mutable_p11() = e; return true; } return false; }
    case 11: { bool e; e = from_bits<bool>(s.p12); if (how == 0) { m.set_p12(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p12(e); return true; } if (how == 2) { m.mutable_p12() = e; return true; } return false; }
    case 12: { bool e; e = from_bits<bool>(s.p13); if (how == 0) { m.set_p13(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p13(e); return true; } if (how == 2) { m.mutable_p13() = e; return true; } return false; }
    case 13: { bool e; e = from_bits<bool>(s.p14); if (how == 0) { m.set_p14(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p14(e); return true; } if (how == 2) { m.mutable_p14() = e; return true; } return false; }
    case 14: { bool e; e = from_bits<bool>(s.p15); if (how == 0) { m.set_p15(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p15(e); return true; } if (how == 2) { m.mutable_p15() = e; return true; } return false; }
    case 15: { bool e; e = from_bits<bool>(s.p16); if (how == 0) { m.set_p16(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p16(e); return true; } if (how == 2) { m.mutable_p16() = e; return true; } return false; }
    case 16: { bool e; e = from_bits<bool>(s.p17); if (how == 0) { m.set_p17(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p17(e); return true; } if (how == 2) { m.mutable_p17() = e; return true; } return false; }
    case 17: { bool e; e = from_bits<bool>(s.p18); if (how == 0) { m.set_p18(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p18(e); return true; } if (how == 2) { m.mutable_p18() = e; return true; } return false; }
    case 18: { bool e; e = from_bits<bool>(s.p19); if (how == 0) { m.set_p19(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p19(e); return true; } if (how == 2) { m.mutable_p19() = e; return true; } return false; }
    case 19: { bool e; e = from_bits<bool>(s.p20); if (how == 0) { m.set_p20(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p20(e); return true; } if (how == 2) { m.mutable_p20() = e; return true; } return false; }
    case 20: { bool e; e = from_bits<bool>(s.p21); if (how == 0) { m.set_p21(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p21(e); return true; } if (how == 2) { m.mutable_p21() = e; return true; } return false; }
    case 21: { bool e; e = from_bits<bool>(s.p22); if (how == 0) { m.set_p22(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p22(e); return true; } if (how == 2) { m.mutable_p22() = e; return true; } return false; }
    case 22: { bool e; e = from_bits<bool>(s.p23); if (how == 0) { m.set_p23(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p23(e); return true; } if (how == 2) { m.mutable_p23() = e; return true; } return false; }
    case 23: { bool e; e = from_bits<bool>(s.p24); if (how == 0) { m.set_p24(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p24(e); return true; } if (how == 2) { m.mutable_p24() = e; return true; } return false; }
    case 24: { bool e; e = from_bits<bool>(s.p25); if (how == 0) { m.set_p25(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p25(e); return true; } if (how == 2) { m.mutable_p25() = e; return true; } return false; }
    case 25: { bool e; e = from_bits<bool>(s.p26); if (how == 0) { m.set_p26(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p26(e); return true; } if (how == 2) { m.mutable_p26() = e; return true; } return false; }
    case 26: { bool e; e = from_bits<bool>(s.p27); if (how == 0) { m.set_p27(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p27(e); return true; } if (how == 2) { m.mutable_p27() = e; return true; } return false; }
    case 27: { bool e; e = from_bits<bool>(s.p28); if (how == 0) { m.set_p28(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p28(e); return true; } if (how == 2) { m.mutable_p28() = e; return true; } return false; }
    case 28: { bool e; e = from_bits<bool>(s.p29); if (how == 0) { m.set_p29(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p29(e); return true; } if (how == 2) { m.mutable_p29() = e; return true; } return false; }
    case 29: { bool e; e = from_bits<bool>(s.p30); if (how == 0) { m.set_p30(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p30(e); return true; } if (how == 2) { m.mutable_p30() = e; return true; } return false; }
    case 30: { bool e; e = from_bits<bool>(s.p31); if (how == 0) { m.set_p31(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p31(e); return true; } if (how == 2) { m.mutable_p31() = e; return true; } return false; }
    case 31: { bool e; e = from_bits<bool>(s.p32); if (how == 0) { m.set_p32(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p32(e); return true; } if (how == 2) { m.mutable_p32() = e; return true; } return false; }
    case 32: { bool e; e = from_bits<bool>(s.p33); if (how == 0) { m.set_p33(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_p33(e); return true; } if (how == 2) { m.mutable_p33() = e; return true; } return false; }
    default: return false;
  }
}
static inline bool put_at(M_Opts33& m, const S_Opts33& s, u32 k, u32 at, u32 how) {
  (void)m; (void)s; (void)at; (void)how; switch (k) {
    default: return false;
  }
}
static inline void alias_check(const M_Opts33& m, u32 k) {
  (void)m; switch (k) {
    case 0: { sym_assert(to_bits<bool>(m.p01()) == to_bits<bool>(m.get_p01()), "x() and get_x() differ"); break; }
    case 1: { sym_assert(to_bits<bool>(m.p02()) == to_bits<bool>(m.get_p02()), "x() and get_x() differ"); break; }
    case 2: { sym_assert(to_bits<bool>(m.p03()) == to_bits<bool>(m.get_p03()), "x() and get_x() differ"); break; }
    case 3: { sym_assert(to_bits<bool>(m.p04()) == to_bits<bool>(m.get_p04()), "x() and get_x() differ"); break; }
    case 4: { sym_assert(to_bits<bool>(m.p05()) == to_bits<bool>(m.get_p05()), "x() and get_x() differ"); break; }
    case 5: { sym_assert(to_bits<bool>(m.p06()) == to_bits<bool>(m.get_p06()), "x() and get_x() differ"); break; }
    case 6: { sym_assert(to_bits<bool>(m.p07()) == to_bits<bool>(m.get_p07()), "x() and get_x() differ"); break; }
    case 7: { sym_assert(to_bits<bool>(m.p08()) == to_bits<bool>(m.get_p08()), "x() and get_x() differ"); break; }
    case 8: { sym_assert(to_bits<bool>(m.p09()) == to_bits<bool>(m.get_p09()), "x() and get_x() differ"); break; }
    case 9: { sym_assert(to_bits<bool>(m.p10()) == to_bits<bool>(m.get_p10()), "x() and get_x() differ"); break; }
    case 10: { sym_assert(to_bits<bool>(m.p11()) == to_bits<bool>(m.get_p11()), "x() and get_x() differ"); break; }
    case 11: { sym_assert(to_bits<bool>(m.p12()) == to_bits<bool>(m.get_p12()), "x() and get_x() differ"); break; }
    case 12: { sym_assert(to_bits<bool>(m.p13()) == to_bits<bool>(m.get_p13()), "x() and get_x() differ"); break; }
    case 13: { sym_assert(to_bits<bool>(m.p14()) == to_bits<bool>(m.get_p14()), "x() and get_x() differ"); break; }
    case 14: { sym_assert(to_bits<bool>(m.p15()) == to_bits<bool>(m.get_p15()), "x() and get_x() differ"); break; }
    case 15: { sym_assert(to_bits<bool>(m.p16()) == to_bits<bool>(m.get_p16()), "x() and get_x() differ"); break; }
    case 16: { sym_assert(to_bits<bool>(m.p17()) == to_bits<bool>(m.get_p17()), "x() and get_x() differ"); break; }
    case 17: { sym_assert(to_bits<bool>(m.p18()) == to_bits<bool>(m.get_p18()), "x() and get_x() differ"); break; }
    case 18: { sym_assert(to_bits<bool>(m.p19()) == to_bits<bool>(m.get_p19()), "x() and get_x() differ"); break; }
    case 19: { sym_assert(to_bits<bool>(m.p20()) == to_bits<bool>(m.get_p20()), "x() and get_x() differ"); break; }
    case 20: { sym_assert(to_bits<bool>(m.p21()) == to_bits<bool>(m.get_p21()), "x() and get_x() differ"); break; }
    case 21: { sym_assert(to_bits<bool>(m.p22()) == to_bits<bool>(m.get_p22()), "x() and get_x() differ"); break; }
    case 22: { sym_assert(to_bits<bool>(m.p23()) == to_bits<bool>(m.get_p23()), "x() and get_x() differ"); break; }
    case 23: { sym_assert(to_bits<bool>(m.p24()) == to_bits<bool>(m.get_p24()), "x() and get_x() differ"); break; }
    case 24: { sym_assert(to_bits<bool>(m.p25()) == to_bits<bool>(m.get_p25()), "x() and get_x() differ"); break; }
    case 25: { sym_assert(to_bits<bool>(m.p26()) == to_bits<bool>(m.get_p26()), "x() and get_x() differ"); break; }
    case 26: { sym_assert(to_bits<bool>(m.p27()) == to_bits<bool>(m.get_p27()), "x() and get_x() differ"); break; }
    case 27: { sym_assert(to_bits<bool>(m.p28()) == to_bits<bool>(m.get_p28()), "x() and get_x() differ"); break; }
    case 28: { sym_assert(to_bits<bool>(m.p29()) == to_bits<bool>(m.get_p29()), "x() and get_x() differ"); break; }
    case 29: { sym_assert(to_bits<bool>(m.p30()) == to_bits<bool>(m.get_p30()), "x() and get_x() differ"); break; }
    case 30: { sym_assert(to_bits<bool>(m.p31()) == to_bits<bool>(m.get_p31()), "x() and get_x() differ"); break; }
    case 31: { sym_assert(to_bits<bool>(m.p32()) == to_bits<bool>(m.get_p32()), "x() and get_x() differ"); break; }
    case 32: { sym_assert(to_bits<bool>(m.p33()) == to_bits<bool>(m.get_p33()), "x() and get_x() differ"); break; }
    default: break;
  }
}
static inline bool touch_field(M_Opts33& m, u32 k) {
  (void)m; switch (k) {
    case 0: (void)m.mutable_p01(); return true;
    case 1: (void)m.mutable_p02(); return true;
    case 2: (void)m.mutable_p03(); return true;
    case 3: (void)m.mutable_p04(); return true;
    case 4: (void)m.mutable_p05(); return true;
    case 5: (void)m.mutable_p06(); return true;
    case 6: (void)m.mutable_p07(); return true;
    case 7: (void)m.mutable_p08(); return true;
    case 8: (void)m.mutable_p09(); return true;
    case 9: (void)m.mutable_p10(); return true;
    case 10: (void)m.mutable_p11(); return true;
    case 11: (void)m.mutable_p12(); return true;
    case 12: (void)m.mutable_p13(); return true;
    case 13: (void)m.mutable_p14(); return true;
    case 14: (void)m.mutable_p15(); return true;
    case 15: (void)m.mutable_p16(); return true;
    case 16: (void)m.mutable_p17(); return true;
    case 17: (void)m.mutable_p18(); return true;
    case 18: (void)m.mutable_p19(); return true;
    case 19: (void)m.mutable_p20(); return true;
    case 20: (void)m.mutable_p21(); return true;
    case 21: (void)m.mutable_p22(); return true;
    case 22: (void)m.mutable_p23(); return true;
    case 23: (void)m.mutable_p24(); return true;
    case 24: (void)m.mutable_p25(); return true;
    case 25: (void)m.mutable_p26(); return true;
    case 26: (void)m.mutable_p27(); return true;
    case 27: (void)m.mutable_p28(); return true;
    case 28: (void)m.mutable_p29(); return true;
    case 29: (void)m.mutable_p30(); return true;
    case 30: (void)m.mutable_p31(); return true;
    case 31: (void)m.mutable_p32(); return true;
    case 32: (void)m.mutable_p33(); return true;
    default: return false;
  }
}
static inline bool extend_field(M_Opts33& m, u32 k, u32 n) {
  (void)m; (void)n; switch (k) {
    default: return false;
  }
}
static inline void limits(const M_Opts33& m) {
  (void)m;
  static_assert(static_cast<u32>(M_Opts33::FieldNumber::P01) == 1u, "number of field p01");
  sym_assert(__builtin_strcmp(M_Opts33::P01_NAME, "p01") == 0, "name constant of field p01");
  static_assert(std::is_same<decltype(m.p01()), bool>::value, "type of field p01");
  static_assert(static_cast<u32>(M_Opts33::FieldNumber::P02) == 2u, "number of field p02");
  sym_assert(__builtin_strcmp(M_Opts33::P02_NAME, "p02") == 0, "name constant of field p02");
  static_assert(std::is_same<decltype(m.p02()), bool>::value, "type of field p02");
  static_assert(static_cast<u32>(M_Opts33::FieldNumber::P03) == 3u, "number of field p03");
  sym_assert(__builtin_strcmp(M_Opts33::P03_NAME, "p03") == 0, "name constant of field p03");
  static_assert(std::is_same<decltype(m.p03()), bool>::value, "type of field p03");
  static_assert(static_cast<u32>(M_Opts33::FieldNumber::P04) == 4u, "number of field p04");
  sym_assert(__builtin_strcmp(M_Opts33::P04_NAME, "p04") == 0, "name constant of field p04");
  static_assert(std::is_same<decltype(m.p04()), bool>::value, "type of field p04");
  static_assert(static_cast<u32>(M_Opts33::FieldNumber::P05) == 5u, "number of field p05");
  sym_assert(__builtin_strcmp(M_Opts33::P05_NAME, "p05") == 0, "name constant of field p05");
  static_assert(std::is_same<decltype(m.p05()), bool>::value, "type of field p05");
  static_assert(static_cast<u32>(M_Opts33::FieldNumber::P06) == 6u, "number of field p06");
  sym_assert(__builtin_strcmp(M_Opts33::P06_NAME, "p06") == 0, "name constant of field p06");
  static_assert(std::is_same<decltype(m.p06()), bool>::value, "type of field p06");
  static_assert(static_cast<u32>(M_Opts33::FieldNumber::P07) == 7u, "number of field p07");
  sym_assert(__builtin_strcmp(M_Opts33::P07_NAME, "p07") == 0, "name constant of field p07");
  static_assert(std::is_same<decltype(m.p07()), bool>::value, "type of field p07");
  static_assert(static_cast<u32>(M_Opts33::FieldNumber::P08) == 8u, "number of field p08");
  sym_assert(__builtin_strcmp(M_Opts33::P08_NAME, "p08") == 0, "name constant of field p08");
  static_assert(std::is_same<decltype(m.p08()), bool>::value, "type of field p08");
  static_assert(static_cast<u32>(M_Opts33::FieldNumber::P09) == 9u, "number of field p09");
  sym_assert(__builtin_strcmp(M_Opts33::P09_NAME, "p09") == 0, "name constant of field p09");
  static_assert(std::is_same<decltype(m.p09()), bool>::value, "type of field p09");
  static_assert(static_cast<u32>(M_Opts33::FieldNumber::P10) == 10u, "number of field p10");
  sym_assert(__builtin_strcmp(M_Opts33::P10_NAME, "p10") == 0, "name constant of field p10");
  static_assert(std::is_same<decltype(m.p10()), bool>::value, "type of field p10");
  static_assert(static_cast<u32>(M_Opts33::FieldNumber::P11) == 11u, "number of field p11");
  sym_assert(__builtin_strcmp(M_Opts33::P11_NAME, "p11") == 0, "name constant of field p11");
  static_assert(std::is_same<decltype(m.p11()), bool>::value, "type of field p11");
  static_assert(static_cast<u32>(M_Opts33::FieldNumber::P12) == 12u, "number of field p12");
  sym_assert(__builtin_strcmp(M_Opts33::P12_NAME, "p12") == 0, "name constant of field p12");
  static_assert(std::is_same<decltype(m.p12()), bool>::value, "type of field p12");
  static_assert(static_cast<u32>(M_Opts33::FieldNumber::P13) == 13u, "number of field p13");
  sym_assert(__builtin_strcmp(M_Opts33::P13_NAME, "p13") == 0, "name constant of field p13");
  static_assert(std::is_same<decltype(m.p13()), bool>::value, "type of field p13");
  static_assert(static_cast<u32>(M_Opts33::FieldNumber::P14) == 14u, "number of field p14");
  sym_assert(__builtin_strcmp(M_Opts33::P14_NAME, "p14") == 0, "name constant of field p14");
  static_assert(std::is_same<decltype(m.p14()), bool>::value, "type of field p14");
  static_assert(static_cast<u32>(M_Opts33::FieldNumber::P15) == 15u, "number of field p15");
  sym_assert(__builtin_strcmp(M_Opts33::P15_NAME, "p15") == 0, "name constant of field p15");
  static_assert(std::is_same<decltype(m.p15()), bool>::value, "type of field p15");
  static_assert(static_cast<u32>(M_Opts33::FieldNumber::P16) == 16u, "number of field p16");
  sym_assert(__builtin_strcmp(M_Opts33::P16_NAME, "p16") == 0, "name constant of field p16");
  static_assert(std::is_same<decltype(m.p16()), bool>::value, "type of field p16");
  static_assert(static_cast<u32>(M_Opts33::FieldNumber::P17) == 17u, "number of field p17");
  sym_assert(__builtin_strcmp(M_Opts33::P17_NAME, "p17") == 0, "name constant of field p17");
  static_assert(std::is_same<decltype(m.p17()), bool>::value, "type of field p17");
  static_assert(static_cast<u32>(M_Opts33::FieldNumber::P18) == 18u, "number of field p18");
  sym_assert(__builtin_strcmp(M_Opts33::P18_NAME, "p18") == 0, "name constant of field p18");
  static_assert(std::is_same<decltype(m.p18()), bool>::value, "type of field p18");
  static_assert(static_cast<u32>(M_Opts33::FieldNumber::P19) == 19u, "number of field p19");
  sym_assert(__builtin_strcmp(M_Opts33::P19_NAME, "p19") == 0, "name constant of field p19");
  static_assert(std::is_same<decltype(m.p19()), bool>::value, "type of field p19");
  static_assert(static_cast<u32>(M_Opts33::FieldNumber::P20) == 20u, "number of field p20");
  sym_assert(__builtin_strcmp(M_Opts33::P20_NAME, "p20") == 0, "name constant of field p20");
  static_assert(std::is_same<decltype(m.p20()), bool>::value, "type of field p20");
  static_assert(static_cast<u32>(M_Opts33::FieldNumber::P21) == 21u, "number of field p21");
  sym_assert(__builtin_strcmp(M_Opts33::P21_NAME, "p21") == 0, "name constant of field p21");
  static_assert(std::is_same<decltype(m.p21()), bool>::value, "type of field p21");
  static_assert(static_cast<u32>(M_Opts33::FieldNumber::P22) == 22u, "number of field p22");
  sym_assert(__builtin_strcmp(M_Opts33::P22_NAME, "p22") == 0, "name constant of field p22");
  static_assert(std::is_same<decltype(m.p22()), bool>::value, "type of field p22");
  static_assert(static_cast<u32>(M_Opts33::FieldNumber::P23) == 23u, "number of field p23");
  sym_assert(__builtin_strcmp(M_Opts33::P23_NAME, "p23") == 0, "name constant of field p23");
  static_assert(std::is_same<decltype(m.p23()), bool>::value, "type of field p23");
  static_assert(static_cast<u32>(M_Opts33::FieldNumber::P24) == 24u, "number of field p24");
  sym_assert(__builtin_strcmp(M_Opts33::P24_NAME, "p24") == 0, "name constant of field p24");
  static_assert(std::is_same<decltype(m.p24()), bool>::value, "type of field p24");
  static_assert(static_cast<u32>(M_Opts33::FieldNumber::P25) == 25u, "number of field p25");
  sym_assert(__builtin_strcmp(M_Opts33::P25_NAME, "p25") == 0, "name constant of field p25");
  static_assert(std::is_same<decltype(m.p25()), bool>::value, "type of field p25");
  static_assert(static_cast<u32>(M_Opts33::FieldNumber::P26) == 26u, "number of field p26");
  sym_assert(__builtin_strcmp(M_Opts33::P26_NAME, "p26") == 0, "name constant of field p26");
  static_assert(std::is_same<decltype(m.p26()), bool>::value, "type of field p26");
  static_assert(static_cast<u32>(M_Opts33::FieldNumber::P27) == 27u, "number of field p27");
  sym_assert(__builtin_strcmp(M_Opts33::P27_NAME, "p27") == 0, "name constant of field p27");
  static_assert(std::is_same<decltype(m.p27()), bool>::value, "type of field p27");
  static_assert(static_cast<u32>(M_Opts33::FieldNumber::P28) == 28u, "number of field p28");
  sym_assert(__builtin_strcmp(M_Opts33::P28_NAME, "p28") == 0, "name constant of field p28");
  static_assert(std::is_same<decltype(m.p28()), bool>::value, "type of field p28");
  static_assert(static_cast<u32>(M_Opts33::FieldNumber::P29) == 29u, "number of field p29");
  sym_assert(__builtin_strcmp(M_Opts33::P29_NAME, "p29") == 0, "name constant of field p29");
  static_assert(std::is_same<decltype(m.p29()), bool>::value, "type of field p29");
  static_assert(static_cast<u32>(M_Opts33::FieldNumber::P30) == 30u, "number of field p30");
  sym_assert(__builtin_strcmp(M_Opts33::P30_NAME, "p30") == 0, "name constant of field p30");
  static_assert(std::is_same<decltype(m.p30()), bool>::value, "type of field p30");
  static_assert(static_cast<u32>(M_Opts33::FieldNumber::P31) == 31u, "number of field p31");
  sym_assert(__builtin_strcmp(M_Opts33::P31_NAME, "p31") == 0, "name constant of field p31");
  static_assert(std::is_same<decltype(m.p31()), bool>::value, "type of field p31");
  static_assert(static_cast<u32>(M_Opts33::FieldNumber::P32) == 32u, "number of field p32");
  sym_assert(__builtin_strcmp(M_Opts33::P32_NAME, "p32") == 0, "name constant of field p32");
  static_assert(std::is_same<decltype(m.p32()), bool>::value, "type of field p32");
  static_assert(static_cast<u32>(M_Opts33::FieldNumber::P33) == 33u, "number of field p33");
  sym_assert(__builtin_strcmp(M_Opts33::P33_NAME, "p33") == 0, "name constant of field p33");
  static_assert(std::is_same<decltype(m.p33()), bool>::value, "type of field p33");
}
static inline const char* left_out(M_Opts33*, u32 n) { (void)n; return nullptr; }
static inline const char* number_name(M_Opts33*, u32 n) { return M_Opts33::field_number_to_name(static_cast<M_Opts33::FieldNumber>(n)); }
template<> struct G<M_Opts33> { using S = S_Opts33; static const MD& md() { return D_Opts33; } };

// ---- vs.Mini
using M_Mini = ::vs::Mini;
struct S_Mini {
  u32 u;
  u32 s;
  u32 b;
};
static const FD F_Mini[] = {
  {1u, K_U32, C_PLAIN, 0, 0, (u32)offsetof(S_Mini, u), (u32)0, (u32)sizeof(u32), nullptr, "u"},
  {2u, K_S32, C_PLAIN, 0, 0, (u32)offsetof(S_Mini, s), (u32)0, (u32)sizeof(u32), nullptr, "s"},
  {3u, K_BOOL, C_PLAIN, 0, 0, (u32)offsetof(S_Mini, b), (u32)0, (u32)sizeof(u32), nullptr, "b"},
};
static const MD D_Mini = {F_Mini, 3, (u32)sizeof(S_Mini), "Mini"};
static inline void load(M_Mini& m, const S_Mini& s) {
  (void)m; (void)s;
  m.set_u(from_bits<uint32_t>(s.u));
  m.set_s(from_bits<int32_t>(s.s));
  m.set_b(from_bits<bool>(s.b));
}
static inline void read(S_Mini& s, const M_Mini& m) {
  (void)m; ref_reset(D_Mini, (u8*)&s);
  s.u = to_bits<uint32_t>(m.get_u());
  s.s = to_bits<int32_t>(m.get_s());
  s.b = to_bits<bool>(m.get_b());
}
static inline void clear_field(M_Mini& m, u32 k) {
  (void)m; switch (k) {
    case 0: m.clear_u(); break;
    case 1: m.clear_s(); break;
    case 2: m.clear_b(); break;
    default: break;
  }
}
static inline bool set_field(M_Mini& m, const S_Mini& s, u32 k, u32 how = 0) {
  (void)m; (void)s; switch (k) {
    case 0: { uint32_t e; e = from_bits<uint32_t>(s.u); if (how == 0) { m.set_u(static_cast<uint32_t&&>(e)); return true; } if (how == 1) { m.set_u(e); return true; } if (how == 2) { m.mutable_u() = e; return true; } return false; }
    case 1: { int32_t e; e = from_bits<int32_t>(s.s); if (how == 0) { m.set_s(static_cast<int32_t&&>(e)); return true; } if (how == 1) { m.set_s(e); return true; } if (how == 2) { m.mutable_s() = e; return true; } return false; }
    case 2: { bool e; e = from_bits<bool>(s.b); if (how == 0) { m.set_b(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_b(e); return true; } if (how == 2) { m.mutable_b() = e; return true; } return false; }
    default: return false;
  }
}
static inline bool put_at(M_Mini& m, const S_Mini& s, u32 k, u32 at, u32 how) {
  (void)m; (void)s; (void)at; (void)how; switch (k) {
    default: return false;
  }
}
static inline void alias_check(const M_Mini& m, u32 k) {
  (void)m; switch (k) {
    case 0: { sym_assert(to_bits<uint32_t>(m.u()) == to_bits<uint32_t>(m.get_u()), "x() and get_x() differ"); break; }
    case 1: { sym_assert(to_bits<int32_t>(m.s()) == to_bits<int32_t>(m.get_s()), "x() and get_x() differ"); break; }
    case 2: { sym_assert(to_bits<bool>(m.b()) == to_bits<bool>(m.get_b()), "x() and get_x() differ"); break; }
    default: break;
  }
}
static inline bool touch_field(M_Mini& m, u32 k) {
  (void)m; switch (k) {
    case 0: (void)m.mutable_u(); return true;
    case 1: (void)m.mutable_s(); return true;
    case 2: (void)m.mutable_b(); return true;
    default: return false;
  }
}
static inline bool extend_field(M_Mini& m, u32 k, u32 n) {
  (void)m; (void)n; switch (k) {
    default: return false;
  }
}
static inline void limits(const M_Mini& m) {
  (void)m;
  static_assert(static_cast<u32>(M_Mini::FieldNumber::U) == 1u, "number of field u");
  sym_assert(__builtin_strcmp(M_Mini::U_NAME, "u") == 0, "name constant of field u");
  static_assert(std::is_same<decltype(m.u()), uint32_t>::value, "type of field u");
  static_assert(static_cast<u32>(M_Mini::FieldNumber::S) == 2u, "number of field s");
  sym_assert(__builtin_strcmp(M_Mini::S_NAME, "s") == 0, "name constant of field s");
  static_assert(std::is_same<decltype(m.s()), int32_t>::value, "type of field s");
  static_assert(static_cast<u32>(M_Mini::FieldNumber::B) == 3u, "number of field b");
  sym_assert(__builtin_strcmp(M_Mini::B_NAME, "b") == 0, "name constant of field b");
  static_assert(std::is_same<decltype(m.b()), bool>::value, "type of field b");
}
static inline const char* left_out(M_Mini*, u32 n) { (void)n; return nullptr; }
static inline const char* number_name(M_Mini*, u32 n) { return M_Mini::field_number_to_name(static_cast<M_Mini::FieldNumber>(n)); }
template<> struct G<M_Mini> { using S = S_Mini; static const MD& md() { return D_Mini; } };

// ---- vs.Node
using M_Node = ::vs::Node;
struct S_Node {
  u32 v;
  S_Mini m;
};
static const FD F_Node[] = {
  {1u, K_U32, C_PLAIN, 0, 0, (u32)offsetof(S_Node, v), (u32)0, (u32)sizeof(u32), nullptr, "v"},
  {5u, K_MSG, C_PLAIN, 0, 0, (u32)offsetof(S_Node, m), (u32)0, (u32)sizeof(S_Mini), &D_Mini, "m"},
};
static const MD D_Node = {F_Node, 2, (u32)sizeof(S_Node), "Node"};
static inline void load(M_Node& m, const S_Node& s) {
  (void)m; (void)s;
  m.set_v(from_bits<uint32_t>(s.v));
  load(m.mutable_m(), s.m);
}
static inline void read(S_Node& s, const M_Node& m) {
  (void)m; ref_reset(D_Node, (u8*)&s);
  s.v = to_bits<uint32_t>(m.get_v());
  read(s.m, m.get_m());
}
static inline void clear_field(M_Node& m, u32 k) {
  (void)m; switch (k) {
    case 0: m.clear_v(); break;
    case 1: m.clear_m(); break;
    default: break;
  }
}
static inline bool set_field(M_Node& m, const S_Node& s, u32 k, u32 how = 0) {
  (void)m; (void)s; switch (k) {
    case 0: { uint32_t e; e = from_bits<uint32_t>(s.v); if (how == 0) { m.set_v(static_cast<uint32_t&&>(e)); return true; } if (how == 1) { m.set_v(e); return true; } if (how == 2) { m.mutable_v() = e; return true; } return false; }
    case 1: { M_Mini e; load(e, s.m); if (how == 0) { m.set_m(static_cast<M_Mini&&>(e)); return true; } if (how == 1) { m.set_m(e); return true; } if (how == 2) { m.mutable_m() = e; return true; } return false; }
    default: return false;
  }
}
static inline bool put_at(M_Node& m, const S_Node& s, u32 k, u32 at, u32 how) {
  (void)m; (void)s; (void)at; (void)how; switch (k) {
    default: return false;
  }
}
static inline void alias_check(const M_Node& m, u32 k) {
  (void)m; switch (k) {
    case 0: { sym_assert(to_bits<uint32_t>(m.v()) == to_bits<uint32_t>(m.get_v()), "x() and get_x() differ"); break; }
    case 1: { sym_assert(&m.m() == &m.get_m(), "x() and get_x() differ"); break; }
    default: break;
  }
}
static inline bool touch_field(M_Node& m, u32 k) {
  (void)m; switch (k) {
    case 0: (void)m.mutable_v(); return true;
    case 1: (void)m.mutable_m(); return true;
    default: return false;
  }
}
static inline bool extend_field(M_Node& m, u32 k, u32 n) {
  (void)m; (void)n; switch (k) {
    default: return false;
  }
}
static inline void limits(const M_Node& m) {
  (void)m;
  static_assert(static_cast<u32>(M_Node::FieldNumber::V) == 1u, "number of field v");
  sym_assert(__builtin_strcmp(M_Node::V_NAME, "v") == 0, "name constant of field v");
  static_assert(std::is_same<decltype(m.v()), uint32_t>::value, "type of field v");
  static_assert(static_cast<u32>(M_Node::FieldNumber::M) == 5u, "number of field m");
  sym_assert(__builtin_strcmp(M_Node::M_NAME, "m") == 0, "name constant of field m");
  static_assert(std::is_same<decltype(m.m()), const M_Mini&>::value, "type of field m");
}
static inline const char* left_out(M_Node*, u32 n) { (void)n; if (n == 2u) return "next"; if (n == 3u) return "kids"; return nullptr; }
static inline const char* number_name(M_Node*, u32 n) { return M_Node::field_number_to_name(static_cast<M_Node::FieldNumber>(n)); }
template<> struct G<M_Node> { using S = S_Node; static const MD& md() { return D_Node; } };

// ---- vs.Lead
using M_Lead = ::vs::Lead;
struct S_Lead {
  u32 which_o;
  u32 v;
  u32 w;
};
static const FD F_Lead[] = {
  {2u, K_U32, C_PLAIN, 0, 0, (u32)offsetof(S_Lead, v), (u32)0, (u32)sizeof(u32), nullptr, "v"},
  {3u, K_BOOL, C_ONE, 0, 0, (u32)offsetof(S_Lead, w), (u32)offsetof(S_Lead, which_o), (u32)sizeof(u32), nullptr, "w"},
};
static const MD D_Lead = {F_Lead, 2, (u32)sizeof(S_Lead), "Lead"};
static inline void load(M_Lead& m, const S_Lead& s) {
  (void)m; (void)s;
  m.set_v(from_bits<uint32_t>(s.v));
  if (s.which_o == 3u) { m.set_w(from_bits<bool>(s.w)); }
}
static inline void read(S_Lead& s, const M_Lead& m) {
  (void)m; ref_reset(D_Lead, (u8*)&s);
  s.which_o = static_cast<u32>(m.get_which_o());
  s.v = to_bits<uint32_t>(m.get_v());
  HAS_ONE(m.has_w(), s.which_o, 3u); if (s.which_o == 3u) { s.w = to_bits<bool>(m.get_w()); }
}
static inline void clear_field(M_Lead& m, u32 k) {
  (void)m; switch (k) {
    case 0: m.clear_v(); break;
    case 1: m.clear_w(); break;
    default: break;
  }
}
static inline bool set_field(M_Lead& m, const S_Lead& s, u32 k, u32 how = 0) {
  (void)m; (void)s; switch (k) {
    case 0: { uint32_t e; e = from_bits<uint32_t>(s.v); if (how == 0) { m.set_v(static_cast<uint32_t&&>(e)); return true; } if (how == 1) { m.set_v(e); return true; } if (how == 2) { m.mutable_v() = e; return true; } return false; }
    case 1: { bool e; e = from_bits<bool>(s.w); if (how == 0) { m.set_w(static_cast<bool&&>(e)); return true; } if (how == 1) { m.set_w(e); return true; } return false; }
    default: return false;
  }
}
static inline bool put_at(M_Lead& m, const S_Lead& s, u32 k, u32 at, u32 how) {
  (void)m; (void)s; (void)at; (void)how; switch (k) {
    default: return false;
  }
}
static inline void alias_check(const M_Lead& m, u32 k) {
  (void)m; switch (k) {
    case 0: { sym_assert(to_bits<uint32_t>(m.v()) == to_bits<uint32_t>(m.get_v()), "x() and get_x() differ"); break; }
    case 1: { if (m.has_w()) { sym_assert(to_bits<bool>(m.w()) == to_bits<bool>(m.get_w()), "x() and get_x() differ"); } break; }
    default: break;
  }
}
static inline bool touch_field(M_Lead& m, u32 k) {
  (void)m; switch (k) {
    case 0: (void)m.mutable_v(); return true;
    default: return false;
  }
}
static inline bool extend_field(M_Lead& m, u32 k, u32 n) {
  (void)m; (void)n; switch (k) {
    default: return false;
  }
}
static inline void limits(const M_Lead& m) {
  (void)m;
  static_assert(static_cast<u32>(M_Lead::FieldNumber::V) == 2u, "number of field v");
  sym_assert(__builtin_strcmp(M_Lead::V_NAME, "v") == 0, "name constant of field v");
  static_assert(std::is_same<decltype(m.v()), uint32_t>::value, "type of field v");
  static_assert(static_cast<u32>(M_Lead::FieldNumber::W) == 3u, "number of field w");
  sym_assert(__builtin_strcmp(M_Lead::W_NAME, "w") == 0, "name constant of field w");
  static_assert(std::is_same<decltype(m.w()), bool>::value, "type of field w");
}
static inline const char* left_out(M_Lead*, u32 n) { (void)n; if (n == 1u) return "next"; return nullptr; }
static inline const char* number_name(M_Lead*, u32 n) { return M_Lead::field_number_to_name(static_cast<M_Lead::FieldNumber>(n)); }
template<> struct G<M_Lead> { using S = S_Lead; static const MD& md() { return D_Lead; } };

// ---- vs.MiniStr
using M_MiniStr = ::vs::MiniStr;
struct S_MiniStr {
  Str<2> s;
  u32 has_o; u32 o;
};
static const FD F_MiniStr[] = {
  {1u, K_STR, C_PLAIN, 0, 2, (u32)offsetof(S_MiniStr, s), (u32)0, (u32)sizeof(Str<2>), nullptr, "s"},
  {2u, K_U32, C_OPT, 0, 0, (u32)offsetof(S_MiniStr, o), (u32)offsetof(S_MiniStr, has_o), (u32)sizeof(u32), nullptr, "o"},
};
static const MD D_MiniStr = {F_MiniStr, 2, (u32)sizeof(S_MiniStr), "MiniStr"};
static inline void load(M_MiniStr& m, const S_MiniStr& s) {
  (void)m; (void)s;
  loadstr(m.mutable_s(), s.s);
  if (s.has_o) { m.set_o(from_bits<uint32_t>(s.o)); }
}
static inline void read(S_MiniStr& s, const M_MiniStr& m) {
  (void)m; ref_reset(D_MiniStr, (u8*)&s);
  readstr(s.s, m.get_s());
  s.has_o = m.has_o() ? 1 : 0; s.o = to_bits<uint32_t>(m.get_o());
}
static inline void clear_field(M_MiniStr& m, u32 k) {
  (void)m; switch (k) {
    case 0: m.clear_s(); break;
    case 1: m.clear_o(); break;
    default: break;
  }
}
static inline bool set_field(M_MiniStr& m, const S_MiniStr& s, u32 k, u32 how = 0) {
  (void)m; (void)s; switch (k) {
    case 0: { ::EmbeddedProto::FieldString<2> e; loadstr(e, s.s); if (how == 0) { m.set_s(static_cast<::EmbeddedProto::FieldString<2>&&>(e)); return true; } if (how == 1) { m.set_s(e); return true; } if (how == 2) { loadstr(m.mutable_s(), s.s); return true; } return false; }
    case 1: { uint32_t e; e = from_bits<uint32_t>(s.o); if (how == 0) { m.set_o(static_cast<uint32_t&&>(e)); return true; } if (how == 1) { m.set_o(e); return true; } if (how == 2) { m.mutable_o() = e; return true; } return false; }
    default: return false;
  }
}
static inline bool put_at(M_MiniStr& m, const S_MiniStr& s, u32 k, u32 at, u32 how) {
  (void)m; (void)s; (void)at; (void)how; switch (k) {
    default: return false;
  }
}
static inline void alias_check(const M_MiniStr& m, u32 k) {
  (void)m; switch (k) {
    case 0: { sym_assert(m.s() == m.get_s().get_const(), "x() and get_x() differ"); break; }
    case 1: { sym_assert(to_bits<uint32_t>(m.o()) == to_bits<uint32_t>(m.get_o()), "x() and get_x() differ"); break; }
    default: break;
  }
}
static inline bool touch_field(M_MiniStr& m, u32 k) {
  (void)m; switch (k) {
    case 0: (void)m.mutable_s(); return true;
    case 1: (void)m.mutable_o(); return true;
    default: return false;
  }
}
static inline bool extend_field(M_MiniStr& m, u32 k, u32 n) {
  (void)m; (void)n; switch (k) {
    case 0: (void)m.mutable_s().get(n - 1); return true;
    default: return false;
  }
}
static inline void limits(const M_MiniStr& m) {
  (void)m;
  static_assert(static_cast<u32>(M_MiniStr::FieldNumber::S) == 1u, "number of field s");
  sym_assert(__builtin_strcmp(M_MiniStr::S_NAME, "s") == 0, "name constant of field s");
  sym_assert(m.get_s().get_max_length() == 2u, "capacity of field s");
  static_assert(static_cast<u32>(M_MiniStr::FieldNumber::O) == 2u, "number of field o");
  sym_assert(__builtin_strcmp(M_MiniStr::O_NAME, "o") == 0, "name constant of field o");
  static_assert(std::is_same<decltype(m.o()), uint32_t>::value, "type of field o");
}
static inline const char* left_out(M_MiniStr*, u32 n) { (void)n; return nullptr; }
static inline const char* number_name(M_MiniStr*, u32 n) { return M_MiniStr::field_number_to_name(static_cast<M_MiniStr::FieldNumber>(n)); }
template<> struct G<M_MiniStr> { using S = S_MiniStr; static const MD& md() { return D_MiniStr; } };

// ---- vs.MiniRep
using M_MiniRep = ::vs::MiniRep<2, 3>;
struct S_MiniRep {
  u32 n_r; u32 r[2];
  u32 n_b; Str<3> b[2];
};
static const FD F_MiniRep[] = {
  {1u, K_U32, C_REP, 2, 0, (u32)offsetof(S_MiniRep, r), (u32)offsetof(S_MiniRep, n_r), (u32)sizeof(u32), nullptr, "r"},
  {2u, K_BYT, C_REP, 2, 3, (u32)offsetof(S_MiniRep, b), (u32)offsetof(S_MiniRep, n_b), (u32)sizeof(Str<3>), nullptr, "b"},
};
static const MD D_MiniRep = {F_MiniRep, 2, (u32)sizeof(S_MiniRep), "MiniRep"};
static inline void load(M_MiniRep& m, const S_MiniRep& s) {
  (void)m; (void)s;
  for (u32 i = 0; i < s.n_r; i++) m.add_r(from_bits<uint32_t>(s.r[i]));
  for (u32 i = 0; i < s.n_b; i++) { loadstr(m.mutable_b(i), s.b[i]); }
}
static inline void read(S_MiniRep& s, const M_MiniRep& m) {
  (void)m; ref_reset(D_MiniRep, (u8*)&s);
  s.n_r = m.get_r().get_length(); CHECK_CAP(s.n_r, 2); for (u32 i = 0; i < s.n_r; i++) { s.r[i] = to_bits<uint32_t>(m.get_r().get_const(i).get()); }
  s.n_b = m.get_b().get_length(); CHECK_CAP(s.n_b, 2); for (u32 i = 0; i < s.n_b; i++) { readstr(s.b[i], m.get_b().get_const(i)); }
}
static inline void clear_field(M_MiniRep& m, u32 k) {
  (void)m; switch (k) {
    case 0: m.clear_r(); break;
    case 1: m.clear_b(); break;
    default: break;
  }
}
static inline bool set_field(M_MiniRep& m, const S_MiniRep& s, u32 k, u32 how = 0) {
  (void)m; (void)s; switch (k) {
    case 0: { if (how == 3) { ::EmbeddedProto::RepeatedFieldFixedSize<::EmbeddedProto::uint32, 2> a; for (u32 i = 0; i < s.n_r; i++) { uint32_t e; e = from_bits<uint32_t>(s.r[i]); a.add(e); } m.set_r(a); return true; } for (u32 i = 0; i < s.n_r; i++) { uint32_t e; e = from_bits<uint32_t>(s.r[i]); ::EmbeddedProto::uint32 c; c = e; if (how == 0) m.set_r(i, static_cast<::EmbeddedProto::uint32&&>(c)); else if (how == 1) m.set_r(i, c); else if (how == 2) m.mutable_r(i) = c; else return false; } return true; }
    case 1: { if (how == 3) { ::EmbeddedProto::RepeatedFieldFixedSize<::EmbeddedProto::FieldBytes<3>, 2> a; for (u32 i = 0; i < s.n_b; i++) { ::EmbeddedProto::FieldBytes<3> e; loadstr(e, s.b[i]); a.add(e); } m.set_b(a); return true; } for (u32 i = 0; i < s.n_b; i++) { ::EmbeddedProto::FieldBytes<3> e; loadstr(e, s.b[i]); if (how == 0) m.set_b(i, static_cast<::EmbeddedProto::FieldBytes<3>&&>(e)); else if (how == 1) m.set_b(i, e); else if (how == 2) m.mutable_b(i) = e; else return false; } return true; }
    default: return false;
  }
}
static inline bool put_at(M_MiniRep& m, const S_MiniRep& s, u32 k, u32 at, u32 how) {
  (void)m; (void)s; (void)at; (void)how; switch (k) {
    case 0: { ::EmbeddedProto::uint32 e; e = from_bits<uint32_t>(s.r[0]); if (how == 0) m.set_r(at, static_cast<::EmbeddedProto::uint32&&>(e)); else if (how == 1) m.set_r(at, e); else if (how == 2) m.mutable_r(at) = e; else if (how == 3) m.mutable_r().set(at, e); else if (how == 4) m.mutable_r()[at] = e; else if (how == 5) m.add_r(e); else m.mutable_r().add(e); return true; }
    case 1: { ::EmbeddedProto::FieldBytes<3> e; loadstr(e, s.b[0]); if (how == 0) m.set_b(at, static_cast<::EmbeddedProto::FieldBytes<3>&&>(e)); else if (how == 1) m.set_b(at, e); else if (how == 2) m.mutable_b(at) = e; else if (how == 3) m.mutable_b().set(at, e); else if (how == 4) m.mutable_b()[at] = e; else if (how == 5) m.add_b(e); else m.mutable_b().add(e); return true; }
    default: return false;
  }
}
static inline void alias_check(const M_MiniRep& m, u32 k) {
  (void)m; switch (k) {
    case 0: { sym_assert(&m.r() == &m.get_r(), "x() and get_x() differ"); for (u32 i = 0; i < m.get_r().get_length(); i++) sym_assert(&m.r(i) == &m.get_r().get_const(i), "x(i) is not the element of the array"); break; }
    case 1: { sym_assert(&m.b() == &m.get_b(), "x() and get_x() differ"); for (u32 i = 0; i < m.get_b().get_length(); i++) sym_assert(&m.b(i) == &m.get_b().get_const(i), "x(i) is not the element of the array"); break; }
    default: break;
  }
}
static inline bool touch_field(M_MiniRep& m, u32 k) {
  (void)m; switch (k) {
    case 0: (void)m.mutable_r(); return true;
    case 1: (void)m.mutable_b(); return true;
    default: return false;
  }
}
static inline bool extend_field(M_MiniRep& m, u32 k, u32 n) {
  (void)m; (void)n; switch (k) {
    case 0: (void)m.mutable_r(n - 1); return true;
    case 1: (void)m.mutable_b(n - 1); return true;
    default: return false;
  }
}
static inline void limits(const M_MiniRep& m) {
  (void)m;
  static_assert(static_cast<u32>(M_MiniRep::FieldNumber::R) == 1u, "number of field r");
  sym_assert(__builtin_strcmp(M_MiniRep::R_NAME, "r") == 0, "name constant of field r");
  sym_assert(m.get_r().get_max_length() == 2u, "capacity of field r");
  static_assert(static_cast<u32>(M_MiniRep::FieldNumber::B) == 2u, "number of field b");
  sym_assert(__builtin_strcmp(M_MiniRep::B_NAME, "b") == 0, "name constant of field b");
  sym_assert(m.get_b().get_max_length() == 2u, "capacity of field b");
  sym_assert(m.get_b().get_const(0).get_max_length() == 3u, "element capacity of field b");
}
static inline const char* left_out(M_MiniRep*, u32 n) { (void)n; return nullptr; }
static inline const char* number_name(M_MiniRep*, u32 n) { return M_MiniRep::field_number_to_name(static_cast<M_MiniRep::FieldNumber>(n)); }
template<> struct G<M_MiniRep> { using S = S_MiniRep; static const MD& md() { return D_MiniRep; } };

// ---- vs.MiniMsg
using M_MiniMsg = ::vs::MiniMsg;
struct S_MiniMsg {
  S_Mini m;
  u32 n_r; S_Mini r[2];
  u32 f;
};
static const FD F_MiniMsg[] = {
  {1u, K_MSG, C_PLAIN, 0, 0, (u32)offsetof(S_MiniMsg, m), (u32)0, (u32)sizeof(S_Mini), &D_Mini, "m"},
  {2u, K_MSG, C_REP, 2, 0, (u32)offsetof(S_MiniMsg, r), (u32)offsetof(S_MiniMsg, n_r), (u32)sizeof(S_Mini), &D_Mini, "r"},
  {3u, K_F32, C_PLAIN, 0, 0, (u32)offsetof(S_MiniMsg, f), (u32)0, (u32)sizeof(u32), nullptr, "f"},
};
static const MD D_MiniMsg = {F_MiniMsg, 3, (u32)sizeof(S_MiniMsg), "MiniMsg"};
static inline void load(M_MiniMsg& m, const S_MiniMsg& s) {
  (void)m; (void)s;
  load(m.mutable_m(), s.m);
  for (u32 i = 0; i < s.n_r; i++) { load(m.mutable_r(i), s.r[i]); }
  m.set_f(from_bits<uint32_t>(s.f));
}
static inline void read(S_MiniMsg& s, const M_MiniMsg& m) {
  (void)m; ref_reset(D_MiniMsg, (u8*)&s);
  read(s.m, m.get_m());
  s.n_r = m.get_r().get_length(); CHECK_CAP(s.n_r, 2); for (u32 i = 0; i < s.n_r; i++) { read(s.r[i], m.get_r().get_const(i)); }
  s.f = to_bits<uint32_t>(m.get_f());
}
static inline void clear_field(M_MiniMsg& m, u32 k) {
  (void)m; switch (k) {
    case 0: m.clear_m(); break;
    case 1: m.clear_r(); break;
    case 2: m.clear_f(); break;
    default: break;
  }
}
static inline bool set_field(M_MiniMsg& m, const S_MiniMsg& s, u32 k, u32 how = 0) {
  (void)m; (void)s; switch (k) {
    case 0: { M_Mini e; load(e, s.m); if (how == 0) { m.set_m(static_cast<M_Mini&&>(e)); return true; } if (how == 1) { m.set_m(e); return true; } if (how == 2) { m.mutable_m() = e; return true; } return false; }
    case 1: { if (how == 3) { ::EmbeddedProto::RepeatedFieldFixedSize<M_Mini, 2> a; for (u32 i = 0; i < s.n_r; i++) { M_Mini e; load(e, s.r[i]); a.add(e); } m.set_r(a); return true; } for (u32 i = 0; i < s.n_r; i++) { M_Mini e; load(e, s.r[i]); if (how == 0) m.set_r(i, static_cast<M_Mini&&>(e)); else if (how == 1) m.set_r(i, e); else if (how == 2) m.mutable_r(i) = e; else return false; } return true; }
    case 2: { uint32_t e; e = from_bits<uint32_t>(s.f); if (how == 0) { m.set_f(static_cast<uint32_t&&>(e)); return true; } if (how == 1) { m.set_f(e); return true; } if (how == 2) { m.mutable_f() = e; return true; } return false; }
    default: return false;
  }
}
static inline bool put_at(M_MiniMsg& m, const S_MiniMsg& s, u32 k, u32 at, u32 how) {
  (void)m; (void)s; (void)at; (void)how; switch (k) {
    case 1: { M_Mini e; load(e, s.r[0]); if (how == 0) m.set_r(at, static_cast<M_Mini&&>(e)); else if (how == 1) m.set_r(at, e); else if (how == 2) m.mutable_r(at) = e; else if (how == 3) m.mutable_r().set(at, e); else if (how == 4) m.mutable_r()[at] = e; else if (how == 5) m.add_r(e); else m.mutable_r().add(e); return true; }
    default: return false;
  }
}
static inline void alias_check(const M_MiniMsg& m, u32 k) {
  (void)m; switch (k) {
    case 0: { sym_assert(&m.m() == &m.get_m(), "x() and get_x() differ"); break; }
    case 1: { sym_assert(&m.r() == &m.get_r(), "x() and get_x() differ"); for (u32 i = 0; i < m.get_r().get_length(); i++) sym_assert(&m.r(i) == &m.get_r().get_const(i), "x(i) is not the element of the array"); break; }
    case 2: { sym_assert(to_bits<uint32_t>(m.f()) == to_bits<uint32_t>(m.get_f()), "x() and get_x() differ"); break; }
    default: break;
  }
}
static inline bool touch_field(M_MiniMsg& m, u32 k) {
  (void)m; switch (k) {
    case 0: (void)m.mutable_m(); return true;
    case 1: (void)m.mutable_r(); return true;
    case 2: (void)m.mutable_f(); return true;
    default: return false;
  }
}
static inline bool extend_field(M_MiniMsg& m, u32 k, u32 n) {
  (void)m; (void)n; switch (k) {
    case 1: (void)m.mutable_r(n - 1); return true;
    default: return false;
  }
}
static inline void limits(const M_MiniMsg& m) {
  (void)m;
  static_assert(static_cast<u32>(M_MiniMsg::FieldNumber::M) == 1u, "number of field m");
  sym_assert(__builtin_strcmp(M_MiniMsg::M_NAME, "m") == 0, "name constant of field m");
  static_assert(std::is_same<decltype(m.m()), const M_Mini&>::value, "type of field m");
  static_assert(static_cast<u32>(M_MiniMsg::FieldNumber::R) == 2u, "number of field r");
  sym_assert(__builtin_strcmp(M_MiniMsg::R_NAME, "r") == 0, "name constant of field r");
  sym_assert(m.get_r().get_max_length() == 2u, "capacity of field r");
  static_assert(static_cast<u32>(M_MiniMsg::FieldNumber::F) == 3u, "number of field f");
  sym_assert(__builtin_strcmp(M_MiniMsg::F_NAME, "f") == 0, "name constant of field f");
  static_assert(std::is_same<decltype(m.f()), uint32_t>::value, "type of field f");
}
static inline const char* left_out(M_MiniMsg*, u32 n) { (void)n; return nullptr; }
static inline const char* number_name(M_MiniMsg*, u32 n) { return M_MiniMsg::field_number_to_name(static_cast<M_MiniMsg::FieldNumber>(n)); }
template<> struct G<M_MiniMsg> { using S = S_MiniMsg; static const MD& md() { return D_MiniMsg; } };

// ---- vs.MiniOne
using M_MiniOne = ::vs::MiniOne;
struct S_MiniOne {
  u32 which_o;
  u32 z;
  u32 a;
  S_Mini m;
  Str<2> s;
};
static const FD F_MiniOne[] = {
  {4u, K_U32, C_PLAIN, 0, 0, (u32)offsetof(S_MiniOne, z), (u32)0, (u32)sizeof(u32), nullptr, "z"},
  {1u, K_U32, C_ONE, 0, 0, (u32)offsetof(S_MiniOne, a), (u32)offsetof(S_MiniOne, which_o), (u32)sizeof(u32), nullptr, "a"},
  {2u, K_MSG, C_ONE, 0, 0, (u32)offsetof(S_MiniOne, m), (u32)offsetof(S_MiniOne, which_o), (u32)sizeof(S_Mini), &D_Mini, "m"},
  {3u, K_STR, C_ONE, 0, 2, (u32)offsetof(S_MiniOne, s), (u32)offsetof(S_MiniOne, which_o), (u32)sizeof(Str<2>), nullptr, "s"},
};
static const MD D_MiniOne = {F_MiniOne, 4, (u32)sizeof(S_MiniOne), "MiniOne"};
static inline void load(M_MiniOne& m, const S_MiniOne& s) {
  (void)m; (void)s;
  if (s.which_o == 1u) { m.set_a(from_bits<uint32_t>(s.a)); }
  if (s.which_o == 2u) { load(m.mutable_m(), s.m); }
  if (s.which_o == 3u) { loadstr(m.mutable_s(), s.s); }
  m.set_z(from_bits<uint32_t>(s.z));
}
static inline void read(S_MiniOne& s, const M_MiniOne& m) {
  (void)m; ref_reset(D_MiniOne, (u8*)&s);
  s.which_o = static_cast<u32>(m.get_which_o());
  HAS_ONE(m.has_a(), s.which_o, 1u); if (s.which_o == 1u) { s.a = to_bits<uint32_t>(m.get_a()); }
  HAS_ONE(m.has_m(), s.which_o, 2u); if (s.which_o == 2u) { read(s.m, m.get_m()); }
  HAS_ONE(m.has_s(), s.which_o, 3u); if (s.which_o == 3u) { readstr(s.s, m.get_s()); }
  s.z = to_bits<uint32_t>(m.get_z());
}
static inline void clear_field(M_MiniOne& m, u32 k) {
  (void)m; switch (k) {
    case 0: m.clear_z(); break;
    case 1: m.clear_a(); break;
    case 2: m.clear_m(); break;
    case 3: m.clear_s(); break;
    default: break;
  }
}
static inline bool set_field(M_MiniOne& m, const S_MiniOne& s, u32 k, u32 how = 0) {
  (void)m; (void)s; switch (k) {
    case 0: { uint32_t e; e = from_bits<uint32_t>(s.z); if (how == 0) { m.set_z(static_cast<uint32_t&&>(e)); return true; } if (how == 1) { m.set_z(e); return true; } if (how == 2) { m.mutable_z() = e; return true; } return false; }
    case 1: { uint32_t e; e = from_bits<uint32_t>(s.a); if (how == 0) { m.set_a(static_cast<uint32_t&&>(e)); return true; } if (how == 1) { m.set_a(e); return true; } return false; }
    case 2: { M_Mini e; load(e, s.m); if (how == 0) { m.set_m(static_cast<M_Mini&&>(e)); return true; } if (how == 1) { m.set_m(e); return true; } if (how == 2) { m.mutable_m() = e; return true; } return false; }
    case 3: { ::EmbeddedProto::FieldString<2> e; loadstr(e, s.s); if (how == 0) { m.set_s(static_cast<::EmbeddedProto::FieldString<2>&&>(e)); return true; } if (how == 1) { m.set_s(e); return true; } if (how == 2) { loadstr(m.mutable_s(), s.s); return true; } return false; }
    default: return false;
  }
}
static inline bool put_at(M_MiniOne& m, const S_MiniOne& s, u32 k, u32 at, u32 how) {
  (void)m; (void)s; (void)at; (void)how; switch (k) {
    default: return false;
  }
}
static inline void alias_check(const M_MiniOne& m, u32 k) {
  (void)m; switch (k) {
    case 0: { sym_assert(to_bits<uint32_t>(m.z()) == to_bits<uint32_t>(m.get_z()), "x() and get_x() differ"); break; }
    case 1: { if (m.has_a()) { sym_assert(to_bits<uint32_t>(m.a()) == to_bits<uint32_t>(m.get_a()), "x() and get_x() differ"); } break; }
    case 2: { if (m.has_m()) { sym_assert(&m.m() == &m.get_m(), "x() and get_x() differ"); } break; }
    case 3: { if (m.has_s()) { sym_assert(m.s() == m.get_s().get_const(), "x() and get_x() differ"); } break; }
    default: break;
  }
}
static inline bool touch_field(M_MiniOne& m, u32 k) {
  (void)m; switch (k) {
    case 0: (void)m.mutable_z(); return true;
    case 2: (void)m.mutable_m(); return true;
    case 3: (void)m.mutable_s(); return true;
    default: return false;
  }
}
static inline bool extend_field(M_MiniOne& m, u32 k, u32 n) {
  (void)m; (void)n; switch (k) {
    case 3: (void)m.mutable_s().get(n - 1); return true;
    default: return false;
  }
}
static inline void limits(const M_MiniOne& m) {
  (void)m;
  static_assert(static_cast<u32>(M_MiniOne::FieldNumber::Z) == 4u, "number of field z");
  sym_assert(__builtin_strcmp(M_MiniOne::Z_NAME, "z") == 0, "name constant of field z");
  static_assert(std::is_same<decltype(m.z()), uint32_t>::value, "type of field z");
  static_assert(static_cast<u32>(M_MiniOne::FieldNumber::A) == 1u, "number of field a");
  sym_assert(__builtin_strcmp(M_MiniOne::A_NAME, "a") == 0, "name constant of field a");
  static_assert(std::is_same<decltype(m.a()), uint32_t>::value, "type of field a");
  static_assert(static_cast<u32>(M_MiniOne::FieldNumber::M) == 2u, "number of field m");
  sym_assert(__builtin_strcmp(M_MiniOne::M_NAME, "m") == 0, "name constant of field m");
  static_assert(std::is_same<decltype(m.m()), const M_Mini&>::value, "type of field m");
  static_assert(static_cast<u32>(M_MiniOne::FieldNumber::S) == 3u, "number of field s");
  sym_assert(__builtin_strcmp(M_MiniOne::S_NAME, "s") == 0, "name constant of field s");
  if (m.has_s()) sym_assert(m.get_s().get_max_length() == 2u, "capacity of field s");
}
static inline const char* left_out(M_MiniOne*, u32 n) { (void)n; return nullptr; }
static inline const char* number_name(M_MiniOne*, u32 n) { return M_MiniOne::field_number_to_name(static_cast<M_MiniOne::FieldNumber>(n)); }
template<> struct G<M_MiniOne> { using S = S_MiniOne; static const MD& md() { return D_MiniOne; } };

static_assert(static_cast<u32>(::vs::common::Level::LOW) == 0u, "value of enum vs.common.Level.LOW");
static_assert(static_cast<u32>(::vs::common::Level::MID) == 5u, "value of enum vs.common.Level.MID");
static_assert(static_cast<u32>(::vs::common::Level::HIGH) == 300u, "value of enum vs.common.Level.HIGH");
static_assert(static_cast<u32>(::vs::common::Level::TOP) == 2147483647u, "value of enum vs.common.Level.TOP");
static_assert(static_cast<u32>(::vs::other::Kind::ZERO) == 0u, "value of enum vs.other.Kind.ZERO");
static_assert(static_cast<u32>(::vs::other::Kind::TWO) == 2u, "value of enum vs.other.Kind.TWO");
static_assert(static_cast<u32>(::TopKind::TOP_ZERO) == 0u, "value of enum .TopKind.TOP_ZERO");
static_assert(static_cast<u32>(::TopKind::TOP_ONE) == 1u, "value of enum .TopKind.TOP_ONE");
static_assert(static_cast<u32>(::TopKind::TOP_BIG) == 300u, "value of enum .TopKind.TOP_BIG");
static_assert(static_cast<u32>(::a::b::c::Mode::OFF) == 0u, "value of enum a.b.c.Mode.OFF");
static_assert(static_cast<u32>(::a::b::c::Mode::ON) == 1u, "value of enum a.b.c.Mode.ON");
static_assert(static_cast<u32>(::a::b::c::Mode::AUTO) == 5u, "value of enum a.b.c.Mode.AUTO");
static_assert(static_cast<u32>(::vs::Color::BLACK) == 0u, "value of enum vs.Color.BLACK");
static_assert(static_cast<u32>(::vs::Color::RED) == 1u, "value of enum vs.Color.RED");
static_assert(static_cast<u32>(::vs::Color::GREEN) == 127u, "value of enum vs.Color.GREEN");
static_assert(static_cast<u32>(::vs::Color::BLUE) == 128u, "value of enum vs.Color.BLUE");
static_assert(static_cast<u32>(::vs::Color::ALPHA) == 70000u, "value of enum vs.Color.ALPHA");
static_assert(static_cast<u32>(::vs::Color::LAST) == 2147483647u, "value of enum vs.Color.LAST");
static_assert(static_cast<u32>(::vs::Inner::Kind::NONE) == 0u, "value of enum vs.Inner.Kind.NONE");
static_assert(static_cast<u32>(::vs::Inner::Kind::A) == 1u, "value of enum vs.Inner.Kind.A");
static_assert(static_cast<u32>(::vs::Inner::Kind::B) == 200u, "value of enum vs.Inner.Kind.B");
static_assert(static_cast<u32>(::vs::Shade::Color::NIL) == 0u, "value of enum vs.Shade.Color.NIL");
static_assert(static_cast<u32>(::vs::Shade::Color::TEN) == 10u, "value of enum vs.Shade.Color.TEN");
static_assert(static_cast<u32>(::vs::Alias::NO) == 0u, "value of enum vs.Alias.NO");
static_assert(static_cast<u32>(::vs::Alias::YES) == 1u, "value of enum vs.Alias.YES");
static_assert(static_cast<u32>(::vs::Alias::SURE) == 1u, "value of enum vs.Alias.SURE");
static_assert(static_cast<u32>(::vs::Deep::A::B::E::Z) == 0u, "value of enum vs.Deep.A.B.E.Z");
static_assert(static_cast<u32>(::vs::Deep::A::B::E::Y) == 9u, "value of enum vs.Deep.A.B.E.Y");
