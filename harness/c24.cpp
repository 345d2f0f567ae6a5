// C24: the text to_string writes. Built with -DMSG_TO_STRING.
#include "hist.hpp"
#include <cstdio>
using SV = ::EmbeddedProto::string_view;
static const u32 ROOM = 3000;
// ---- the expected text, from the schema and the state
struct Text { char* d; u32 n; };
static inline void tputc(Text& t, char c) { if (t.n >= ROOM) sym_fail("harness: room too small"); t.d[t.n++] = c; }
static inline void tput(Text& t, const char* s) { while (*s) tputc(t, *s++); }
static inline u32 tindent(Text& t, u32 n, u32 none) { if (none && n == 0) return 0; u32 k = n ? n : 1; for (u32 i = 0; i < k; i++) tputc(t, ' '); return k; }
static inline u32 tname(Text& t, const char* name) { if (!name) return 0; u32 a = t.n; tputc(t, '"'); tput(t, name); tput(t, "\": "); return t.n - a; }
static void text_msg(Text& t, const MD& md, const u8* st, u32 indent, const char* name, u32 first);
static inline void tnum(Text& t, const char* buf, int n) { for (int i = 0; i < n; i++) tputc(t, buf[i]); }
static void text_uint(Text& t, u32 v) { char b[48]; tnum(t, b, snprintf(b, 48, "%u", v)); }
static void text_elem(Text& t, const FD& f, const u8* p, u32 indent, const char* name, u32 first) {
  if (f.kind == K_MSG) { text_msg(t, *f.sub, p, indent, name, first); return; }
  if (!first) tput(t, ",\n");
  u32 head = tindent(t, indent, 0) + tname(t, name);
  if (f.kind == K_STR) { tputc(t, '"'); for (u32 i = 0; i < u32at(p) && p[4 + i]; i++) tputc(t, (char)p[4 + i]); tputc(t, '"'); return; }
  if (f.kind == K_BYT) { tput(t, "[\n"); head += 2; for (u32 i = 0; i < u32at(p); i++) { if (i) tput(t, ",\n"); tindent(t, head, 0); text_uint(t, p[4 + i]); } tput(t, "\n"); tindent(t, head - 2, 0); tputc(t, ']'); return; }
  char b[400];
  switch (f.kind) {
    case K_BOOL: tput(t, u32at(p) ? "true" : "false"); break;
    case K_U32: case K_F32: tnum(t, b, snprintf(b, 400, "%u", u32at(p))); break;
    case K_I64: case K_S64: case K_SF64: tnum(t, b, snprintf(b, 400, "%ld", (long)u64at(p))); break;
    case K_U64: case K_F64: tnum(t, b, snprintf(b, 400, "%lu", (unsigned long)u64at(p))); break;
    case K_FLT: tnum(t, b, snprintf(b, 400, "%f", (double)from_bits<float>(u32at(p)))); break;
    case K_DBL: tnum(t, b, snprintf(b, 400, "%f", from_bits<double>(u64at(p)))); break;
    default: tnum(t, b, snprintf(b, 400, "%d", (int)u32at(p)));
  }
}
static void text_field(Text& t, const FD& f, const u8* st, u32 indent, u32 first) {
  if (f.card != C_REP) { text_elem(t, f, st + f.off, indent, f.name, first); return; }
  if (!first) tput(t, ",\n");
  u32 head = tindent(t, indent, 0) + tname(t, f.name); tput(t, "[\n"); head += 2;
  for (u32 i = 0; i < u32at(st + f.meta); i++) text_elem(t, f, st + f.off + i * f.esize, head, nullptr, i == 0);
  tput(t, "\n"); tindent(t, head - 2, 0); tputc(t, ']');
}
static void text_msg(Text& t, const MD& md, const u8* st, u32 indent, const char* name, u32 first) {
  if (!first) tput(t, ",\n");
  tindent(t, indent, 1); tname(t, name); tput(t, "{\n"); u32 any = 0;
  for (u32 i = 0; i < md.n; i++) { const FD& f = md.f[i]; if (f.card == C_ONE && u32at(st + f.meta) != f.num) continue; text_field(t, f, st, indent + 2, !any); any = 1; }
  tput(t, "\n"); tindent(t, indent, 1); tputc(t, '}');
}
// floating point values come from this list (the engine prints only known ones)
static const float FV[] = {1.5f, -2.25f, 0.0f, 1e10f, -0.0f, 3.4028235e38f, 1e-7f};
static const double DV[] = {1.5, -2.25, 0.0, 1e15, 0.1, 1e300, -1e-7};
static u32 fcount;
static void fix_floats(const MD& md, u8* st) {
  for (u32 i = 0; i < md.n; i++) { const FD& f = md.f[i]; u32 n = f.card == C_REP ? u32at(st + f.meta) : f.card == C_ONE ? u32at(st + f.meta) == f.num : f.card == C_OPT ? u32at(st + f.meta) : 1;
    if (f.kind != K_FLT && f.kind != K_DBL && f.kind != K_MSG) continue;
    for (u32 k = 0; k < n; k++) { u8* p = st + f.off + k * f.esize;
      if (f.kind == K_FLT) { __builtin_memcpy(p, &FV[fcount++ % 7], 4); } else if (f.kind == K_DBL) { __builtin_memcpy(p, &DV[fcount++ % 7], 8); } else fix_floats(*f.sub, p); } }
}
// t: the whole text; the buffer has s bytes
template<class FN> static void compare(FN f, const Text& t, u32 s) {
  char room[ROOM]; __builtin_memset(room, 0x55, ROOM); SV v = {room, s}; SV r = f(v); u32 n = t.n < s ? t.n : s, c = t.n < s ? t.n : s ? s - 1 : 0;
  sym_assert(sym_equal(room, t.d, c), "the text is not the one of the fields and their values");
  if (s) sym_assert(room[c] == 0, "the text is not terminated, or longer than the fields and values give");
  sym_assert(r.data == room + n && r.size == s - n, "the view returned does not start behind the text");
  obs32(s); obs32(t.n); sym_observe(room, c); sym_cover("checked"); if (t.n < s) sym_cover("fits"); else sym_cover("truncated");
}
template<class FN> static void sizes(FN f, const Text& t) {
  if (sym_param("every", 0)) { u32 hi = choose((t.n + 3 + 31) / 32, "size / 32"), n = t.n + 3 - hi * 32; compare(f, t, hi * 32 + choose(n < 32 ? n : 32, "size % 32")); return; }
  u32 k = choose(6, "which"); compare(f, t, k == 0 ? 0 : k == 1 ? 1 : k == 2 ? t.n / 2 : k == 3 ? t.n : k == 4 ? t.n + 1 : ROOM);
}
template<class M> static void value() {
  M m; State<M> s; const MD& md = G<M>::md(); fcount = 0; if (choose(2, "base")) pattern(md, s.p(), 0);
  if (md.n) { u32 i = pick_field(md); const FD& f = md.f[i]; clear_ref_field(f, s.p());
    if (f.kind == K_MSG || f.kind == K_FLT || f.kind == K_DBL) { if (f.card == C_REP) { u32 n = choose(f.rcap > 8 ? 4 : f.rcap + 1, "len"); u32at(s.p() + f.meta) = n; for (u32 k = 0; k < n; k++) pattern_elem(f, s.p() + f.off + k * f.esize, k); } else if (choose(2, "set")) pattern_field(f, s.p(), 7); if (f.kind != K_MSG) fcount = choose(7, "float"); }
    else if (f.card == C_REP && !sym_param("deep", 0)) sym_light(f, s.p()); else sym_field(f, s.p(), sym_param("deep", 0)); }
  fix_floats(md, s.p()); load(m, s.s);
  char d[ROOM]; Text t = {d, 0}; text_msg(t, md, s.p(), 0, nullptr, 1); sizes([&](SV& v) { return m.to_string(v); }, t);
}
#define TX(T) H(h_##T) { value<M_##T>(); }
TX(Scalars) TX(Tags) TX(Opts) TX(Strs) TX(Reps) TX(RepMsg) TX(Inner) TX(Nest) TX(One) TX(HasNothing) TX(RepStr) TX(TNest) TX(TopPlain) TX(b_c_Abc) TX(Shade) TX(Ali) TX(Wide) TX(Node) TX(Lead) TX(Far) TX(OneMore) TX(OptMore) TX(Names) TX(Fwd) TX(Deep) TX(TOuter) TX(TCap) TX(MiniMsg) TX(MiniOne) TX(MiniStr) TX(MiniRep) TX(Mini) TX(Nothing)
