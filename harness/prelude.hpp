// Common part of every harness: the intrinsics of the symbolic engine (natively: replay.cpp) and the sources under test.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <type_traits>
#include <new>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int32_t i32; typedef int64_t i64;
extern "C" {
void sym_bytes(void* p, size_t n, const char* name);   // fresh symbolic bytes
void sym_assume(int c);
void sym_assert(int c, const char* msg);
void sym_cover(const char* label);
void sym_observe(const void* p, size_t n);             // for validating the translation against native runs
u64 sym_concrete(u64 x);                               // fork over every feasible value
u32 sym_param(const char* name, u32 dflt);             // shard parameter, fixed by the runner
void sym_fail(const char* msg);
void sym_thread(int k);                                 // what follows belongs to thread 1, 2, or to neither (0)
void sym_par(void (*fa)(void*), void* a, void (*fb)(void*), void* b);
int sym_equal(const void* a, const void* b, size_t n);  // the same bytes
}
#ifdef SYMEX
// C library functions the code may call, as plain code for the engine
extern "C" {
inline __attribute__((used, noinline)) int memcmp(const void* a, const void* b, size_t n) { const u8* p = (const u8*)a; const u8* q = (const u8*)b; for (size_t i = 0; i < n; i++) if (p[i] != q[i]) return p[i] < q[i] ? -1 : 1; return 0; }
inline __attribute__((used, noinline)) int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
inline __attribute__((used, noinline)) size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
inline __attribute__((used, noinline)) size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
inline __attribute__((used, noinline)) char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
inline __attribute__((used, noinline)) char* strcpy(char* d, const char* s) { size_t i = 0; for (; s[i]; i++) d[i] = s[i]; d[i] = 0; return d; }
inline __attribute__((used, noinline)) int strcmp(const char* a, const char* b) { size_t i = 0; while (a[i] && a[i] == b[i]) i++; return (int)(u8)a[i] - (int)(u8)b[i]; }
inline __attribute__((used, noinline)) int strncmp(const char* a, const char* b, size_t n) { size_t i = 0; while (i < n && a[i] && a[i] == b[i]) i++; return i == n ? 0 : (int)(u8)a[i] - (int)(u8)b[i]; }
inline __attribute__((used, noinline)) char* stpcpy(char* d, const char* s) { size_t i = 0; for (; s[i]; i++) d[i] = s[i]; d[i] = 0; return d + i; }
inline __attribute__((used, noinline)) char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
inline __attribute__((used, noinline)) char* strncat(char* d, const char* s, size_t n) { size_t k = strlen(d), i = 0; for (; i < n && s[i]; i++) d[k + i] = s[i]; d[k + i] = 0; return d; }
__attribute__((used, noinline)) char* sym_strchr(const char* s, int c) __asm__("strchr");
__attribute__((used, noinline)) char* sym_strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
__attribute__((used, noinline)) char* sym_strrchr(const char* s, int c) __asm__("strrchr");
__attribute__((used, noinline)) char* sym_strrchr(const char* s, int c) { const char* r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
__attribute__((used, noinline)) void* sym_memchr(const void* s, int c, size_t n) __asm__("memchr");
__attribute__((used, noinline)) void* sym_memchr(const void* s, int c, size_t n) { const u8* p = (const u8*)s; for (size_t i = 0; i < n; i++) if (p[i] == (u8)c) return (void*)(p + i); return nullptr; }
}
#endif
// the library under test: its headers and all its translation units (the list is written by run.py from /repo/src)
#include <all_sources.inc>
#include <ReadBufferFixedSize.h>
#include <WriteBufferFixedSize.h>
#include <MessageSizeCalculator.h>
#include <RepeatedFieldFixedSize.h>
#include <FieldStringBytes.h>
using EmbeddedProto::Error;

static inline u32 sym_u32(const char* n) { u32 v; sym_bytes(&v, 4, n); return v; }
static inline u64 sym_u64(const char* n) { u64 v; sym_bytes(&v, 8, n); return v; }
static inline u8 sym_u8(const char* n) { u8 v; sym_bytes(&v, 1, n); return v; }
// an arbitrary value below n; one path per value
static inline u32 choose(u32 n, const char* name) { if (n <= 1) return 0; u32 v = sym_u32(name); sym_assume(v < n); return (u32)sym_concrete(v); }
static inline void obs32(u32 v) { sym_observe(&v, 4); }
#define CHECK_CAP(n, cap) do { if ((n) > (u32)(cap)) sym_fail("container length exceeds its capacity"); } while (0)
#define HAS_ONE(has, which, num) sym_assert((has) == ((which) == (num)), "has_x() and get_which_x() of a oneof disagree")
#define H(name) extern "C" __attribute__((used, noinline)) void name()
// a and b as two threads without synchronisation; they take no inputs
template<class A, class B> static inline void par(A a, B b) {
#ifdef SYMEX
  sym_thread(1); a(); sym_thread(2); b(); sym_thread(0);
#else
  sym_par([](void* p) { (*(A*)p)(); }, &a, [](void* p) { (*(B*)p)(); }, &b);
#endif
}
