// 32-bit Arm interpreter (A32 encoding with VFP): what clang emits for libffi's C code plus what its assembly uses.
#pragma once
#include "../emu.hpp"
namespace emu {
struct Cpu {
  u32 x[16]; u32 &pc = x[15]; u8 v[256]; bool N, Z, C, V; u64 steps = 0; void (*host)(int) = nullptr;
  [[noreturn]] void unk(u32 i) { throw Unknown{fmt("Arm instruction %08x at %x", i, pc)}; }
  u32 r(unsigned i) const { return i == 15 ? x[15] + 8 : x[i]; }
  bool cond(unsigned c) { bool q; switch (c >> 1) { case 0: q = Z; break; case 1: q = C; break; case 2: q = N; break; case 3: q = V; break; case 4: q = C && !Z; break; case 5: q = N == V; break; case 6: q = N == V && !Z; break; default: return true; } return q != (bool)(c & 1); }
  u32 addc(u32 a, u32 b, bool c, bool set) { u64 s = (u64)a + b + c; u32 q = (u32)s; if (set) { N = q >> 31; Z = !q; C = s >> 32; V = (~(a ^ b) & (a ^ q)) >> 31; } return q; }
  u32 shift(u32 v, unsigned type, unsigned n, bool imm, bool &c) {
    c = C; if (imm) { if (!n) { if (type == 0) return v; if (type == 3) { c = v & 1; return v >> 1 | (u32)C << 31; } n = 32; } } else { n &= 255; if (!n) return v; }
    switch (type) { case 0: c = n <= 32 ? v >> (32 - n) & 1 : 0; return n < 32 ? v << n : 0; case 1: c = n <= 32 ? v >> (n - 1) & 1 : 0; return n < 32 ? v >> n : 0; case 2: if (n >= 32) { c = v >> 31; return (u32)((i32)v >> 31); } c = v >> (n - 1) & 1; return (u32)((i32)v >> n); default: n &= 31; if (!n) { c = v >> 31; return v; } c = v >> (n - 1) & 1; return v >> n | v << (32 - n); }
  }
  void al(u32 a, const char *w) { if (a & 3) fail(fmt("misaligned %s at %x, pc %x", w, a, pc)); }
  bool jumped; void jump(u32 t) { if (t & 1) throw Unknown{"Thumb code"}; pc = t; jumped = true; }
  void wr(unsigned d, u32 q) { if (d == 15) jump(q); else x[d] = q; }
  float sget(unsigned i) { float f; memcpy(&f, v + 4 * i, 4); return f; } double dget(unsigned i) { double f; memcpy(&f, v + 8 * i, 8); return f; }
  void step() {
    u32 I = fetch(pc); jumped = false; if (I >> 28 == 15) { if ((I & 0xfd70f000) == 0xf550f000) { pc += 4; return; } unk(I); }
    if (cond(I >> 28)) exec(I); if (!jumped) pc += 4;
  }
  void exec(u32 I) {
    unsigned rn = I >> 16 & 15, rd = I >> 12 & 15, rs = I >> 8 & 15, rm = I & 15; bool S = I >> 20 & 1, W = I >> 21 & 1, B = I >> 22 & 1, U = I >> 23 & 1, P = I >> 24 & 1;
    switch (I >> 25 & 7) {
    case 0:
      if ((I & 0x0ffffff0) == 0x012fff10) { jump(r(rm)); return; }
      if ((I & 0x0ffffff0) == 0x012fff30) { u32 t = r(rm); x[14] = pc + 4; jump(t); return; }
      if ((I & 0x0fff0ff0) == 0x016f0f10) { x[rd] = x[rm] ? __builtin_clz(x[rm]) : 32; return; }
      if ((I & 0x90) == 0x90) {
        if (!(I >> 5 & 3)) {
          u64 p; if (P) unk(I);
          switch (I >> 21 & 7) { case 0: x[rn] = x[rm] * x[rs]; if (S) { N = x[rn] >> 31; Z = !x[rn]; } return; case 1: x[rn] = x[rm] * x[rs] + x[rd]; if (S) { N = x[rn] >> 31; Z = !x[rn]; } return; case 3: x[rn] = x[rd] - x[rm] * x[rs]; return;
            case 2: p = (u64)x[rm] * x[rs] + x[rd] + x[rn]; break; case 4: p = (u64)x[rm] * x[rs]; break; case 5: p = (u64)x[rm] * x[rs] + ((u64)x[rn] << 32 | x[rd]); break; case 6: p = (u64)((i64)(i32)x[rm] * (i32)x[rs]); break; default: p = (u64)((i64)(i32)x[rm] * (i32)x[rs]) + ((u64)x[rn] << 32 | x[rd]); }
          if (S) unk(I); x[rd] = (u32)p; x[rn] = (u32)(p >> 32); return;
        }
        u32 off = B ? (rs << 4 | rm) : x[rm], b = r(rn), e = U ? b + off : b - off, a = P ? e : b; unsigned k = (I >> 5 & 3) | (S ? 4 : 0);
        switch (k) { case 5: wr(rd, ld<uint16_t>(a)); break; case 6: wr(rd, (i32)ld<int8_t>(a)); break; case 7: wr(rd, (i32)ld<int16_t>(a)); break; case 1: st<uint16_t>(a, (uint16_t)r(rd)); break;
          case 2: { al(a, "ldrd"); u32 p = ld<u32>(a), q = ld<u32>(a + 4); x[rd] = p; x[rd + 1] = q; break; } case 3: al(a, "strd"); st<u32>(a, x[rd]); st<u32>(a + 4, x[rd + 1]); break; default: unk(I); }
        if (!P || W) x[rn] = e; return;
      }
      if ((I >> 23 & 3) == 2 && !S) unk(I);
      { bool c; u32 o = (I >> 4 & 1) ? shift(r(rm), I >> 5 & 3, x[rs], false, c) : shift(r(rm), I >> 5 & 3, I >> 7 & 31, true, c); alu(I, o, c); return; }
    case 1:
      if ((I & 0x0ff00000) == 0x03000000) { x[rd] = (I >> 4 & 0xf000) | (I & 0xfff); return; }
      if ((I & 0x0ff00000) == 0x03400000) { x[rd] = (x[rd] & 0xffff) | ((I >> 4 & 0xf000) | (I & 0xfff)) << 16; return; }
      if ((I & 0x0fffff00) == 0x0320f000) return;
      if ((I >> 23 & 3) == 2 && !S) unk(I);
      { unsigned n = rs * 2; u32 o = I & 255; bool c = C; if (n) { o = o >> n | o << (32 - n); c = o >> 31; } alu(I, o, c); return; }
    case 3: if (I >> 4 & 1) { media(I); return; } /* fall through */
    case 2: {
      bool c; u32 off = (I >> 25 & 1) ? shift(x[rm], I >> 5 & 3, I >> 7 & 31, true, c) : I & 0xfff, b = r(rn), e = U ? b + off : b - off, a = P ? e : b;
      if (!P && W) unk(I);
      if (S) { u32 q = B ? ld<u8>(a) : ld<u32>(a); if (!B && rd == 15) al(a, "ldr pc"); if (!P || W) x[rn] = e; wr(rd, q); } else { if (B) st<u8>(a, (u8)r(rd)); else st<u32>(a, r(rd)); if (!P || W) x[rn] = e; } return; }
    case 4: {
      unsigned n = __builtin_popcount(I & 0xffff); u32 b = x[rn], a = U ? b + (P ? 4 : 0) : b - 4 * n + (P ? 0 : 4), e = U ? b + 4 * n : b - 4 * n; if (B || !n) unk(I); al(a, "ldm/stm"); u32 t[16];
      if (S) { for (int i = 0; i < 16; i++) if (I >> i & 1) { t[i] = ld<u32>(a); a += 4; } if (W && !(I >> rn & 1)) x[rn] = e; for (int i = 0; i < 15; i++) if (I >> i & 1) x[i] = t[i]; if (I >> 15 & 1) jump(t[15]); }
      else { for (int i = 0; i < 16; i++) if (I >> i & 1) { st<u32>(a, r(i)); a += 4; } if (W) x[rn] = e; } return; }
    case 5: { u32 t = pc + 8 + (u32)((i32)(I << 8) >> 6); if (P) x[14] = pc + 4; jump(t); return; }
    case 6: {
      unsigned cp = rs; if ((cp & 14) != 10) unk(I); bool dbl = cp == 11, D = B;
      if ((I & 0x0fe000d0) == 0x0c400010) { unsigned m = dbl ? ((I >> 5 & 1) << 4 | rm) * 2 : rm << 1 | (I >> 5 & 1); u8 *p = v + 4 * m; if (S) { memcpy(&x[rd], p, 4); memcpy(&x[rn], p + 4, 4); } else { memcpy(p, &x[rd], 4); memcpy(p + 4, &x[rn], 4); } return; }
      u32 imm = (I & 255) * 4, b = r(rn); unsigned d = dbl ? ((unsigned)D << 4 | rd) * 2 : rd << 1 | D; u32 a; size_t n;
      if (P && !W) { a = U ? b + imm : b - imm; n = dbl ? 8 : 4; } else { if (!P && !U) unk(I); a = U ? b : b - imm; n = imm; if (dbl && (n & 4)) unk(I); if (W) x[rn] = U ? b + imm : b - imm; }
      al(a, "floating load/store"); if (d * 4 + n > (dbl ? 128 : 128)) unk(I); for (size_t i = 0; i < n; i += 4) if (S) { u32 q = ld<u32>(a + i); memcpy(v + 4 * d + i, &q, 4); } else { u32 q; memcpy(&q, v + 4 * d + i, 4); st<u32>(a + i, q); } return; }
    case 7: {
      unsigned cp = rs; if (P || (cp & 14) != 10) unk(I); bool dbl = cp == 11;
      if (I >> 4 & 1) {
        if (!dbl && (I & 0x00e0006f) == 0) { unsigned n = rn << 1 | (I >> 7 & 1); if (S) memcpy(&x[rd], v + 4 * n, 4); else memcpy(v + 4 * n, &x[rd], 4); return; }
        if (dbl && (I & 0x00c0006f) == 0) { unsigned n = ((I >> 7 & 1) << 4 | rn) * 2 + W; if (S) memcpy(&x[rd], v + 4 * n, 4); else memcpy(v + 4 * n, &x[rd], 4); return; } unk(I);
      }
      unsigned d = dbl ? ((unsigned)B << 4 | rd) * 2 : rd << 1 | B, m = dbl ? ((I >> 5 & 1) << 4 | rm) * 2 : rm << 1 | (I >> 5 & 1);
      if ((I & 0x00b00000) == 0x00b00000) {
        unsigned op2 = rn, op3 = I >> 6 & 3; if (!(op3 & 1)) { u32 i8 = (rn << 4) | rm; if (dbl) { u64 q = (u64)(i8 >> 7) << 63 | ((i8 >> 6 & 1) ? 0x3fc0000000000000ull : 0x4000000000000000ull) | (u64)(i8 & 63) << 48; memcpy(v + 4 * d, &q, 8); } else { u32 q = (i8 >> 7) << 31 | ((i8 >> 6 & 1) ? 0x3e000000u : 0x40000000u) | (i8 & 63) << 19; memcpy(v + 4 * d, &q, 4); } return; }
        if (op2 == 0 && op3 == 1) { memmove(v + 4 * d, v + 4 * m, dbl ? 8 : 4); return; }
        if (op2 == 7 && op3 == 3) { if (dbl) { double q = dget(m / 2); float f = (float)q; memcpy(v + 4 * (rd << 1 | B), &f, 4); } else { double q = sget(m); memcpy(v + 8 * ((unsigned)B << 4 | rd), &q, 8); } return; }
      }
      unk(I); }
    }
    unk(I);
  }
  void alu(u32 I, u32 o, bool c) {
    unsigned rd = I >> 12 & 15; u32 a = r(I >> 16 & 15), q; bool S = I >> 20 & 1, lg = false, w = true;
    if (S && rd == 15 && (I >> 23 & 3) != 2) unk(I);
    switch (I >> 21 & 15) { case 0: q = a & o; lg = true; break; case 1: q = a ^ o; lg = true; break; case 2: q = addc(a, ~o, 1, S); break; case 3: q = addc(~a, o, 1, S); break; case 4: q = addc(a, o, 0, S); break; case 5: q = addc(a, o, C, S); break; case 6: q = addc(a, ~o, C, S); break; case 7: q = addc(~a, o, C, S); break;
      case 8: q = a & o; lg = true; w = false; break; case 9: q = a ^ o; lg = true; w = false; break; case 10: q = addc(a, ~o, 1, true); w = false; break; case 11: q = addc(a, o, 0, true); w = false; break; case 12: q = a | o; lg = true; break; case 13: q = o; lg = true; break; case 14: q = a & ~o; lg = true; break; default: q = ~o; lg = true; }
    if (lg && S) { N = q >> 31; Z = !q; C = c; } if (w) wr(rd, q);
  }
  void media(u32 I) {
    unsigned rn = I >> 16 & 15, rd = I >> 12 & 15, rs = I >> 8 & 15, rm = I & 15;
    if ((I & 0x0f8000f0) == 0x06800070) { u32 q = x[rm]; unsigned k = (I >> 10 & 3) * 8; if (k) q = q >> k | q << (32 - k); u32 a = rn == 15 ? 0 : x[rn]; switch (I >> 20 & 7) { case 2: q = (u32)(i32)(int8_t)q; break; case 3: q = (u32)(i32)(int16_t)q; break; case 6: q = (u8)q; break; case 7: q = (uint16_t)q; break; default: unk(I); } x[rd] = a + q; return; }
    if ((I & 0x0fa00070) == 0x07a00050) { unsigned l = I >> 7 & 31, w = (I >> 16 & 31) + 1; if (l + w > 32) unk(I); u32 q = x[rm] >> l; if (w < 32) q &= (1u << w) - 1; if (!(I >> 22 & 1) && w < 32) q = (u32)((i32)(q << (32 - w)) >> (32 - w)); x[rd] = q; return; }
    if ((I & 0x0fe00070) == 0x07c00010) { unsigned l = I >> 7 & 31, m = I >> 16 & 31; if (m < l) unk(I); u32 w = m - l + 1, mask = (w < 32 ? (1u << w) - 1 : ~0u) << l, s = rm == 15 ? 0 : x[rm] << l; x[rd] = (x[rd] & ~mask) | (s & mask); return; }
    if ((I & 0x0fff0ff0) == 0x06bf0f30) { x[rd] = __builtin_bswap32(x[rm]); return; } if ((I & 0x0fff0ff0) == 0x06bf0fb0) { u32 q = x[rm]; x[rd] = (q & 0x00ff00ff) << 8 | (q >> 8 & 0x00ff00ff); return; }
    if ((I & 0x0ff0f0f0) == 0x0730f010) { x[rn] = x[rs] ? x[rm] / x[rs] : 0; return; } if ((I & 0x0ff0f0f0) == 0x0710f010) { i32 a = (i32)x[rm], b = (i32)x[rs]; x[rn] = b ? b == -1 ? -(u32)a : (u32)(a / b) : 0; return; }
    if ((I & 0x0ff00030) == 0x06800010) { unsigned n = I >> 7 & 31; if (I & 0x40) { u32 s = n ? (u32)((i32)x[rm] >> n) : (u32)((i32)x[rm] >> 31); x[rd] = (x[rn] & 0xffff0000) | (s & 0xffff); } else x[rd] = (x[rn] & 0xffff) | ((x[rm] << n) & 0xffff0000); return; }   // pkhtb, pkhbt
    unk(I);
  }
  void run(u64 entry, int = 0) {
    pc = (u32)entry; u64 n = 0;
    for (;;) {
      if (is_gate(pc)) { int g = (int)((pc - GATE) / 16); if (pc != gate(g)) fail("jump into the harness"); if (g == G_RETURN) return; if (x[13] & 7) fail(fmt("call with a misaligned stack pointer %x", x[13])); u32 back = x[14]; host(g); if (back & 1) throw Unknown{"Thumb code"}; pc = back; continue; }
      step(); if (++n > 40000000) fail("no end of execution"); steps++;
    }
  }
};
} // namespace emu
