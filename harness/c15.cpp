// C15: ReadBufferFixedSize against a model of a bounded FIFO; every operation sequence of the given length.
#include "gen.hpp"
template<u32 N> static void hist() {
  ::EmbeddedProto::ReadBufferFixedSize<N> b; u8 d[N]; u32 w = 0, r = 0; u32 n = sym_param("steps", 4); for (u32 i = 0; i < N; i++) d[i] = 0;
  for (u32 s = 0; s < n; s++) {
    u32 op = s == 0 ? sym_param("op", 99) : 99; if (op == 99) op = choose(8, "op");
    u8 x = 0x77; u32 left = w - r;
    switch (op) {
      case 0: { u8 v = sym_u8("pushed"); bool ok = b.push(v); sym_assert(ok == (w < N), "result of push()"); if (w < N) d[w++] = v; break; }
      case 1: { bool ok = b.pop(x); sym_assert(ok == (left > 0), "result of pop()"); if (left) sym_assert(x == d[r++], "pop() does not deliver the next byte"); else sym_assert(x == 0x77, "pop() of an empty buffer delivers a byte"); break; }
      case 2: { bool ok = b.peek(x); sym_assert(ok == (left > 0), "result of peek()"); if (left) sym_assert(x == d[r], "peek() does not show the next byte"); else sym_assert(x == 0x77, "peek() of an empty buffer shows a byte"); break; }
      case 3: { bool ok = b.advance(); sym_assert(ok == (left > 0), "result of advance()"); if (left) r++; break; }
      case 4: { u32 k = sym_split(left, "advance"); bool ok = b.advance(k); sym_assert(ok == (k <= left), "result of advance(n)");
        if (k <= left) r += (u32)sym_concrete(k);
        else { // too many: it consumes nothing up to everything that is left; what remains must be the last of the stored bytes
          u32 c = 0; u8 y; u8 got[N]; while (c < left && b.pop(y)) got[c++] = y; sym_assert(!b.pop(y), "advance(n) makes bytes appear");
          for (u32 i = 0; i < c; i++) sym_assert(got[i] == d[w - c + i], "bytes after a refused advance(n)"); r = w; }
        break; }
      case 5: { u8* p = b.get_data(); u8 v[N]; sym_bytes(v, N, "filled"); u32 k = sym_split(N, "written"); u32 m = (u32)sym_concrete(k < N ? k : N); if (m < r) { b.set_bytes_written(k); sym_assert(!b.pop(x) && !b.peek(x) && !b.advance() && !b.advance(1) && x == 0x77, "a buffer of which more was read than is stored does not report empty"); sym_assert(!b.advance(sym_split(1, "too far") | 1) && !b.pop(x), "a buffer of which more was read than is stored does not report empty"); sym_cover("short"); b.clear(); w = r = 0; break; } for (u32 i = r; i < N; i++) { p[i] = v[i]; d[i] = v[i]; } b.set_bytes_written(k); w = m; break; }
      case 6: b.clear(); w = r = 0; break;
      default: sym_assert(b.get_data() != nullptr, "data"); break;
    }
    sym_assert(b.get_max_size() == N, "get_max_size()"); sym_assert(b.get_size() >= w - r && b.get_size() <= w, "get_size() is less than what is left or more than what was stored");
  }
  // drain
  for (u32 i = r; i < w; i++) { u8 x; bool ok = b.pop(x); sym_assert(ok && x == d[i], "the stored bytes are not delivered once each, in order"); } u8 x = 3; sym_assert(!b.pop(x) && !b.peek(x) && !b.advance() && x == 3, "the buffer does not report empty at the end"); sym_assert(!b.advance(1), "the buffer does not report empty at the end");
  sym_cover("checked"); obs32(w); obs32(r);
}
H(h_4) { hist<4>(); } H(h_1) { hist<1>(); } H(h_2) { hist<2>(); }
