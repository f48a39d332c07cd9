// 64-bit little-endian PowerPC interpreter: integer instructions, branches and condition fields, moves, loads and stores of floating and vector registers.
#pragma once
#include "../emu.hpp"
namespace emu {
struct Cpu {
  u64 x[32]; u64 pc, lr, ctr; u32 cr; bool ca = false; u64 vs[64][2]; u64 steps = 0; void (*host)(int) = nullptr;   // vs: 0-31 the floating registers ([0] is the floating half), 32-63 the vector registers ([0] is the half at the lower address)
  u64 &f(int i) { return vs[i][0]; }
  [[noreturn]] void unk(u32 i) { throw Unknown{fmt("PowerPC instruction %08x (op %u xo %u) at %lx", i, i >> 26, i >> 1 & 1023, pc)}; }
  static u64 sx(u32 v) { return (u64)(i64)(i32)v; }
  static u64 widen(u32 v) { u64 s = (u64)(v >> 31) << 63, e = v >> 23 & 255, m = v & 0x7fffff; if (e == 255) return s | 0x7ffull << 52 | m << 29; float q; memcpy(&q, &v, 4); double d = q; u64 r; memcpy(&r, &d, 8); return r; }    // lfs: never changes a NaN
  static u32 narrow(u64 d) { u64 e = d >> 52 & 0x7ff; if (e > 896 || !(d << 1)) return (u32)(d >> 32 & 0xc0000000) | (u32)(d >> 29 & 0x3fffffff); if (e >= 874) { u64 m = (d & ((1ull << 52) - 1)) | 1ull << 52; return (u32)(d >> 32 & 0x80000000) | (u32)(m >> (29 + 897 - e)); } return (u32)(d >> 32 & 0x80000000); }   // stfs
  static u64 frsp(u64 d) { u64 e = d >> 52 & 0x7ff; if (e == 0x7ff) { u64 m = d & ((1ull << 52) - 1); return m ? (d | 1ull << 51) & ~((1ull << 29) - 1) : d; } double q; memcpy(&q, &d, 8); double r = (float)q; u64 v; memcpy(&v, &r, 8); return v; }
  bool bit(unsigned b) { return cr >> (31 - b) & 1; }
  void setcr(unsigned fld, bool lt, bool gt) { u32 v = lt ? 8 : gt ? 4 : 2; cr = (cr & ~(15u << (28 - 4 * fld))) | v << (28 - 4 * fld); }
  void rc(u32 I, u64 v) { if (I & 1) setcr(0, (i64)v < 0, (i64)v > 0); }
  static u64 mask(unsigned b, unsigned e) { u64 p = ~0ull >> b, q = e == 63 ? ~0ull : ~(~0ull >> (e + 1)); return b <= e ? p & q : p | q; }
  static u64 rot(u64 v, unsigned n) { n &= 63; return n ? v << n | v >> (64 - n) : v; }
  void cmp(unsigned fld, bool l, bool sgn, u64 a, u64 b) { if (!l) { a = sgn ? sx((u32)a) : (u32)a; b = sgn ? sx((u32)b) : (u32)b; } if (sgn) setcr(fld, (i64)a < (i64)b, (i64)a > (i64)b); else setcr(fld, a < b, a > b); }
  bool cond(unsigned bo, unsigned bi) { bool c = true; if (!(bo & 4)) { ctr--; c = (ctr != 0) != ((bo >> 1) & 1); } return c && ((bo & 16) || bit(bi) == (bo >> 3 & 1)); }
  void step() {
    u32 I = fetch(pc); u64 next = pc + 4; unsigned op = I >> 26, rd = I >> 21 & 31, ra = I >> 16 & 31, rb = I >> 11 & 31, xo = I >> 1 & 1023; i64 si = (int16_t)I; u64 ui = I & 0xffff, a0 = ra ? x[ra] : 0, A = x[ra], B = x[rb], S = x[rd]; unsigned fld = rd >> 2; bool l = rd & 1;
    switch (op) {
    case 2: case 3: fail(fmt("trap instruction at %lx", pc));
    case 4: if ((I & 0x7ff) == 1156) { vs[32 + rd][0] = vs[32 + ra][0] | vs[32 + rb][0]; vs[32 + rd][1] = vs[32 + ra][1] | vs[32 + rb][1]; } else if ((I & 0x7ff) == 1220) { vs[32 + rd][0] = vs[32 + ra][0] ^ vs[32 + rb][0]; vs[32 + rd][1] = vs[32 + ra][1] ^ vs[32 + rb][1]; } else unk(I); break;
    case 7: x[rd] = A * (u64)si; break;
    case 8: x[rd] = (u64)si - A; ca = (u64)si >= A; break;
    case 10: cmp(fld, l, false, A, ui); break; case 11: cmp(fld, l, true, A, (u64)si); break;
    case 12: case 13: x[rd] = A + (u64)si; ca = x[rd] < A; if (op == 13) rc(1, x[rd]); break;
    case 14: x[rd] = a0 + (u64)si; break; case 15: x[rd] = a0 + ((u64)si << 16); break;
    case 16: { i64 o = (int16_t)(I & 0xfffc); bool t = cond(rd, ra); if (I & 1) lr = next; if (t) next = ((I & 2) ? 0 : pc) + o; break; }
    case 18: { i64 o = (i64)(i32)((I & 0x3fffffc) << 6) >> 6; if (I & 1) lr = next; next = ((I & 2) ? 0 : pc) + o; break; }
    case 19:
      switch (xo) {
      case 0: { unsigned d = rd >> 2, s = ra >> 2; u32 v = cr >> (28 - 4 * s) & 15; cr = (cr & ~(15u << (28 - 4 * d))) | v << (28 - 4 * d); break; }
      case 16: { u64 t = lr & ~3ull; bool c = cond(rd, ra); if (I & 1) lr = next; if (c) next = t; break; } case 528: { bool c = cond(rd | 4, ra); u64 t = ctr & ~3ull; if (I & 1) lr = next; if (c) next = t; break; }
      case 150: break;
      case 33: case 129: case 193: case 225: case 257: case 289: case 417: case 449: { bool p = bit(ra), q = bit(rb), r; switch (xo) { case 33: r = !(p | q); break; case 129: r = p & !q; break; case 193: r = p ^ q; break; case 225: r = !(p & q); break; case 257: r = p & q; break; case 289: r = p == q; break; case 417: r = p | !q; break; default: r = p | q; } cr = (cr & ~(1u << (31 - rd))) | (u32)r << (31 - rd); break; }
      default: unk(I); } break;
    case 20: case 21: case 23: { unsigned sh = op == 23 ? (unsigned)B & 31 : rb, mb = I >> 6 & 31, me = I >> 1 & 31; u64 v = (u32)S; v |= v << 32; v = rot(v, sh); u64 m = mask(mb + 32, me + 32); x[ra] = op == 20 ? (v & m) | (A & ~m) : v & m; rc(I, x[ra]); break; }
    case 24: x[ra] = S | ui; break; case 25: x[ra] = S | ui << 16; break; case 26: x[ra] = S ^ ui; break; case 27: x[ra] = S ^ ui << 16; break; case 28: x[ra] = S & ui; rc(1, x[ra]); break; case 29: x[ra] = S & ui << 16; rc(1, x[ra]); break;
    case 30: { unsigned sh = rb | (I << 4 & 32), mb = (I >> 6 & 31) | (I & 32), k = I >> 2 & 7; if (k >= 4) { sh = (unsigned)B & 63; u64 v = rot(S, sh); if ((I >> 1 & 15) == 8) x[ra] = v & mask(mb, 63); else if ((I >> 1 & 15) == 9) x[ra] = v & mask(0, mb); else unk(I); } else { u64 v = rot(S, sh), m = k == 0 ? mask(mb, 63) : k == 1 ? mask(0, mb) : mask(mb, 63 - sh); x[ra] = k == 3 ? (v & m) | (A & ~m) : v & m; } rc(I, x[ra]); break; }
    case 31: op31(I, xo, rd, ra, rb, a0, A, B, S, fld, l, next); break;
    case 32: case 33: { u64 p = (op & 1 ? A : a0) + si; x[rd] = ld<u32>(p); if (op & 1) x[ra] = p; break; } case 34: case 35: { u64 p = (op & 1 ? A : a0) + si; x[rd] = ld<u8>(p); if (op & 1) x[ra] = p; break; }
    case 36: case 37: { u64 p = (op & 1 ? A : a0) + si; st<u32>(p, (u32)S); if (op & 1) x[ra] = p; break; } case 38: case 39: { u64 p = (op & 1 ? A : a0) + si; st<u8>(p, (u8)S); if (op & 1) x[ra] = p; break; }
    case 40: case 41: { u64 p = (op & 1 ? A : a0) + si; x[rd] = ld<uint16_t>(p); if (op & 1) x[ra] = p; break; } case 42: case 43: { u64 p = (op & 1 ? A : a0) + si; x[rd] = (i64)ld<int16_t>(p); if (op & 1) x[ra] = p; break; }
    case 44: case 45: { u64 p = (op & 1 ? A : a0) + si; st<uint16_t>(p, (uint16_t)S); if (op & 1) x[ra] = p; break; }
    case 48: case 49: { u64 p = (op & 1 ? A : a0) + si; f(rd) = widen(ld<u32>(p)); if (op & 1) x[ra] = p; break; } case 50: case 51: { u64 p = (op & 1 ? A : a0) + si; f(rd) = ld<u64>(p); if (op & 1) x[ra] = p; break; }
    case 52: case 53: { u64 p = (op & 1 ? A : a0) + si; st<u32>(p, narrow(f(rd))); if (op & 1) x[ra] = p; break; } case 54: case 55: { u64 p = (op & 1 ? A : a0) + si; st<u64>(p, f(rd)); if (op & 1) x[ra] = p; break; }
    case 57: { u64 p = a0 + (si & ~3); if ((I & 3) == 2) vs[32 + rd][1] = ld<u64>(p); else if ((I & 3) == 3) vs[32 + rd][1] = widen(ld<u32>(p)); else unk(I); break; }
    case 58: { u64 p = ((I & 3) == 1 ? A : a0) + (si & ~3); switch (I & 3) { case 0: x[rd] = ld<u64>(p); break; case 1: x[rd] = ld<u64>(p); x[ra] = p; break; case 2: x[rd] = (i64)ld<i32>(p); break; default: unk(I); } break; }
    case 60: op60(I, rd, ra, rb); break;
    case 61: { u64 p = a0 + (si & ~15); unsigned t = rd + (I << 2 & 32); switch (I & 7) { case 1: ldv(t, p); break; case 5: stv(t, p); break; case 2: case 6: st<u64>(a0 + (si & ~3), vs[32 + rd][1]); break; case 3: case 7: st<u32>(a0 + (si & ~3), narrow(vs[32 + rd][1])); break; default: unk(I); } break; }
    case 62: { u64 p = ((I & 3) == 1 ? A : a0) + (si & ~3); st<u64>(p, S); if ((I & 3) == 1) x[ra] = p; else if (I & 3) unk(I); break; }
    case 63: switch (xo) { case 72: f(rd) = f(rb); break; case 40: f(rd) = f(rb) ^ 1ull << 63; break; case 264: f(rd) = f(rb) & ~(1ull << 63); break; case 136: f(rd) = f(rb) | 1ull << 63; break; case 12: f(rd) = frsp(f(rb)); break; default: unk(I); } break;
    default: if (!I) fail(fmt("trap instruction at %lx", pc)); unk(I);
    }
    pc = next;
  }
  // a quadword in memory: the doubleword at the lower address is [0] of a vector register seen by lvx, and the less significant one
  void ldv(unsigned t, u64 p) { u64 a = ld<u64>(p), b = ld<u64>(p + 8); if (t < 32) { vs[t][1] = a; vs[t][0] = b; } else { vs[t][0] = a; vs[t][1] = b; } }
  void stv(unsigned t, u64 p) { u64 a = t < 32 ? vs[t][1] : vs[t][0], b = t < 32 ? vs[t][0] : vs[t][1]; st<u64>(p, a); st<u64>(p + 8, b); }
  u64 dw(unsigned t, int i) { return t < 32 ? vs[t][i] : vs[t][1 - i]; }   // doubleword i in the big-endian numbering of the architecture
  void setdw(unsigned t, u64 d0, u64 d1) { if (t < 32) { vs[t][0] = d0; vs[t][1] = d1; } else { vs[t][1] = d0; vs[t][0] = d1; } }
  void op60(u32 I, unsigned rd, unsigned ra, unsigned rb) {
    unsigned T = rd + (I << 5 & 32), A = ra + (I << 3 & 32), B = rb + (I << 4 & 32), xo = I >> 3 & 255;
    switch (I >> 2 & 511) { case 267: { u64 v = narrow(dw(B, 0)); setdw(T, v << 32 | v, 0); return; } case 331: setdw(T, widen((u32)(dw(B, 0) >> 32)), 0); return; }   // xscvdpspn, xscvspdpn
    switch (xo) {
    case 176: setdw(T, (dw(A, 0) & 1ull << 63) | (dw(B, 0) & ~(1ull << 63)), 0); return;   // xscpsgndp
    case 146: setdw(T, dw(A, 0) | dw(B, 0), dw(A, 1) | dw(B, 1)); return; case 154: setdw(T, dw(A, 0) ^ dw(B, 0), dw(A, 1) ^ dw(B, 1)); return; case 130: setdw(T, dw(A, 0) & dw(B, 0), dw(A, 1) & dw(B, 1)); return;
    default: if ((xo & 0x9f) == 10) { unsigned d = xo >> 5 & 3; u64 p = dw(A, d >> 1), q = dw(B, d & 1); setdw(T, p, q); return; } unk(I);   // xxpermdi
    }
  }
  void op31(u32 I, unsigned xo, unsigned rd, unsigned ra, unsigned rb, u64 a0, u64 A, u64 B, u64 S, unsigned fld, bool l, u64 &next) {
    u64 p = a0 + B; unsigned t = rd + (I << 5 & 32);
    if ((xo & 31) == 15) { x[rd] = bit(xo >> 5) ? a0 : B; return; }      // isel
    if (xo >> 1 == 413) { unsigned sh = rb | (I << 4 & 32); x[ra] = (u64)((i64)S >> sh); ca = (i64)S < 0 && sh && (S << (64 - sh)); rc(I, x[ra]); return; }   // sradi
    if (xo >> 1 == 445) { unsigned sh = rb | (I << 4 & 32); x[ra] = sx((u32)S) << sh; rc(I, x[ra]); return; }   // extswsli
    auto arith = [&](u64 v) { x[rd] = v; rc(I, v); }; auto logic = [&](u64 v) { x[ra] = v; rc(I, v); }; auto carry = [&](u64 a, u64 b, bool c) { unsigned __int128 s = (unsigned __int128)a + b + c; ca = (bool)(s >> 64); arith((u64)s); };
    switch (xo) {
    case 0: cmp(fld, l, true, A, B); break; case 32: cmp(fld, l, false, A, B); break;
    case 4: case 68: fail(fmt("trap instruction at %lx", pc));
    case 266: arith(A + B); break; case 40: arith(B - A); break; case 104: arith(-A); break; case 10: carry(A, B, 0); break; case 8: carry(~A, B, 1); break; case 138: carry(A, B, ca); break; case 136: carry(~A, B, ca); break; case 202: carry(A, 0, ca); break; case 200: carry(~A, 0, ca); break; case 234: carry(A, ~0ull, ca); break; case 232: carry(~A, ~0ull, ca); break;
    case 235: arith((u64)((i64)(i32)A * (i64)(i32)B)); break; case 233: arith(A * B); break; case 73: arith((u64)(((__int128)(i64)A * (i64)B) >> 64)); break; case 9: arith((u64)(((unsigned __int128)A * B) >> 64)); break; case 75: arith((u64)(((i64)(i32)A * (i64)(i32)B) >> 32)); break; case 11: arith((u64)(u32)A * (u32)B >> 32); break;
    case 491: arith((i32)B && !((i32)B == -1) ? (u64)(i64)((i32)A / (i32)B) : (i32)B ? sx(-(u32)A) : 0); break; case 459: arith((u32)B ? (u32)A / (u32)B : 0); break; case 489: arith((i64)B && (i64)B != -1 ? (u64)((i64)A / (i64)B) : B ? -A : 0); break; case 457: arith(B ? A / B : 0); break;
    case 265: arith(B ? A % B : 0); break; case 267: arith((u32)B ? (u32)A % (u32)B : 0); break; case 777: arith((i64)B && (i64)B != -1 ? (u64)((i64)A % (i64)B) : 0); break; case 779: arith((i32)B && (i32)B != -1 ? (u64)(i64)((i32)A % (i32)B) : 0); break;
    case 28: logic(S & B); break; case 60: logic(S & ~B); break; case 444: logic(S | B); break; case 412: logic(S | ~B); break; case 316: logic(S ^ B); break; case 124: logic(~(S | B)); break; case 476: logic(~(S & B)); break; case 284: logic(~(S ^ B)); break;
    case 954: logic((u64)(i64)(int8_t)S); break; case 922: logic((u64)(i64)(int16_t)S); break; case 986: logic(sx((u32)S)); break;
    case 26: logic((u32)S ? __builtin_clz((u32)S) : 32); break; case 58: logic(S ? __builtin_clzll(S) : 64); break; case 538: logic((u32)S ? __builtin_ctz((u32)S) : 32); break; case 570: logic(S ? __builtin_ctzll(S) : 64); break; case 506: logic(__builtin_popcountll(S)); break;
    case 24: logic(B & 32 ? 0 : (u32)((u32)S << (B & 31))); break; case 536: logic(B & 32 ? 0 : (u32)S >> (B & 31)); break; case 27: logic(B & 64 ? 0 : S << (B & 63)); break; case 539: logic(B & 64 ? 0 : S >> (B & 63)); break;
    case 792: { unsigned n = B & 63; i64 v = (i32)S; u64 r = (u64)(n >= 32 ? v >> 31 : v >> n); ca = v < 0 && (n >= 32 || ((u32)S & ((1ull << n) - 1))); logic(r); break; } case 824: { i64 v = (i32)S; ca = v < 0 && ((u32)S & ((1ull << rb) - 1)); logic((u64)(v >> rb)); break; } case 794: { unsigned n = B & 127; i64 v = (i64)S; ca = v < 0 && (n >= 64 || (S & ((1ull << (n & 63)) - 1))); logic((u64)(n >= 64 ? v >> 63 : v >> n)); break; }
    case 144: { u32 m = 0, s = I >> 12 & 255; for (int i = 0; i < 8; i++) if (s >> (7 - i) & 1) m |= 15u << (28 - 4 * i); cr = (cr & ~m) | ((u32)S & m); break; }
    case 19: x[rd] = cr; break;
    case 339: { unsigned n = ra | rb << 5; if (n == 8) x[rd] = lr; else if (n == 9) x[rd] = ctr; else if (n == 1) x[rd] = (u64)ca << 29; else unk(I); break; } case 467: { unsigned n = ra | rb << 5; if (n == 8) lr = S; else if (n == 9) ctr = S; else if (n == 1) ca = S >> 29 & 1; else if (n != 256) unk(I); break; }
    case 23: x[rd] = ld<u32>(p); break; case 21: x[rd] = ld<u64>(p); break; case 87: x[rd] = ld<u8>(p); break; case 279: x[rd] = ld<uint16_t>(p); break; case 343: x[rd] = (i64)ld<int16_t>(p); break; case 341: x[rd] = (i64)ld<i32>(p); break;
    case 55: x[rd] = ld<u32>(p); x[ra] = p; break; case 53: x[rd] = ld<u64>(p); x[ra] = p; break; case 119: x[rd] = ld<u8>(p); x[ra] = p; break; case 311: x[rd] = ld<uint16_t>(p); x[ra] = p; break; case 375: x[rd] = (i64)ld<int16_t>(p); x[ra] = p; break;
    case 149: st<u64>(p, S); break; case 151: st<u32>(p, (u32)S); break; case 215: st<u8>(p, (u8)S); break; case 407: st<uint16_t>(p, (uint16_t)S); break; case 181: st<u64>(p, S); x[ra] = p; break; case 183: st<u32>(p, (u32)S); x[ra] = p; break; case 247: st<u8>(p, (u8)S); x[ra] = p; break; case 439: st<uint16_t>(p, (uint16_t)S); x[ra] = p; break;
    case 534: x[rd] = __builtin_bswap32(ld<u32>(p)); break; case 532: x[rd] = __builtin_bswap64(ld<u64>(p)); break;
    case 535: f(rd) = widen(ld<u32>(p)); break; case 599: f(rd) = ld<u64>(p); break; case 567: f(rd) = widen(ld<u32>(p)); x[ra] = p; break; case 631: f(rd) = ld<u64>(p); x[ra] = p; break; case 663: st<u32>(p, narrow(f(rd))); break; case 727: st<u64>(p, f(rd)); break; case 695: st<u32>(p, narrow(f(rd))); x[ra] = p; break; case 759: st<u64>(p, f(rd)); x[ra] = p; break;
    case 982: flush(p & ~7ull, p | 7); break; case 86: case 54: case 598: case 854: case 278: case 246: break;
    case 103: { u64 q = p & ~15ull; ldv(32 + rd, q); break; } case 231: { u64 q = p & ~15ull; stv(32 + rd, q); break; }
    case 268: case 269: ldv(t, p); break; case 396: case 397: stv(t, p); break;
    case 844: case 845: { u64 a = ld<u64>(p), b = ld<u64>(p + 8); setdw(t, a, b); break; } case 972: case 973: st<u64>(p, dw(t, 0)); st<u64>(p + 8, dw(t, 1)); break;
    case 51: x[ra] = dw(t, 0); break; case 307: x[ra] = dw(t, 1); break; case 179: setdw(t, A, 0x5a5a5a5a5a5a5a5aull); break; case 435: setdw(t, a0, B); break; case 115: x[ra] = (u32)dw(t, 0); break; case 211: setdw(t, sx((u32)A), 0); break; case 243: setdw(t, (u32)A, 0); break;
    default: unk(I);
    }
  }
  void run(u64 entry, int = 0) {
    pc = entry; u64 n = 0;
    for (;;) {
      if (is_gate(pc)) { int g = (int)((pc - GATE) / 16); if (pc != gate(g)) fail("jump into the harness"); if (g == G_RETURN) return; if (x[1] & 15) fail(fmt("call with a misaligned stack pointer %lx", x[1])); u64 back = lr; host(g); pc = back; continue; }
      step(); if (++n > 40000000) fail("no end of execution"); steps++;
    }
  }
};
} // namespace emu
