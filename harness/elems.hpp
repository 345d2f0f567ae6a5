// Elements of repeated fields: every kind, each carrying one arbitrary 32-bit value.
#pragma once
#include "gen.hpp"
using EmbeddedProto::FieldString; using EmbeddedProto::FieldBytes; using EmbeddedProto::RepeatedFieldFixedSize;
template<class T> struct El;
template<> struct El<EmbeddedProto::int32> { static void mk(EmbeddedProto::int32& e, u32 v) { e = (i32)v; } static u32 val(const EmbeddedProto::int32& e) { return (u32)e.get(); } };
template<> struct El<EmbeddedProto::uint64> { static void mk(EmbeddedProto::uint64& e, u32 v) { e = (u64)v << 16; } static u32 val(const EmbeddedProto::uint64& e) { return (u32)(e.get() >> 16); } };
template<> struct El<EmbeddedProto::boolean> { static void mk(EmbeddedProto::boolean& e, u32 v) { sym_assume(v < 2); e = v != 0; } static u32 val(const EmbeddedProto::boolean& e) { return e.get() ? 1 : 0; } };
template<> struct El<FieldString<4>> { static void mk(FieldString<4>& e, u32 v) { e.set((const char*)&v, v ? 4 : 0); } static u32 val(const FieldString<4>& e) { u32 v = 0; if (e.get_length() == 0) return 0; if (e.get_length() != 4) sym_fail("length of an element"); __builtin_memcpy(&v, e.get_const(), 4); return v; } };
template<> struct El<FieldBytes<4>> { static void mk(FieldBytes<4>& e, u32 v) { e.set((const u8*)&v, v ? 4 : 0); } static u32 val(const FieldBytes<4>& e) { u32 v = 0; if (e.get_length() == 0) return 0; if (e.get_length() != 4) sym_fail("length of an element"); __builtin_memcpy(&v, e.get_const(), 4); return v; } };
template<> struct El<M_Mini> { static void mk(M_Mini& e, u32 v) { e.set_u(v); e.set_s((i32)v); } static u32 val(const M_Mini& e) { sym_assert((u32)e.s() == e.u(), "element of a repeated message"); return e.u(); } };
