// LoongArch64 interpreter: base integer instructions, moves, loads and stores of floating registers.
#pragma once
#include "../emu.hpp"
namespace emu {
struct Cpu {
  u64 x[32]; u64 pc; u64 f[32]; u64 fcsr = 0, steps = 0; void (*host)(int) = nullptr;
  [[noreturn]] void unk(u32 i) { throw Unknown{fmt("LoongArch instruction %08x at %lx", i, pc)}; }
  void w(unsigned r, u64 v) { if (r) x[r] = v; }
  static u64 sx(u32 v) { return (u64)(i64)(i32)v; }
  void step() {
    u32 I = fetch(pc); u64 next = pc + 4; unsigned rd = I & 31, rj = I >> 5 & 31, rk = I >> 10 & 31; u64 a = x[rj], b = x[rk]; i64 s12 = (i64)(i32)(I << 10) >> 20; u64 u12 = I >> 10 & 0xfff; i64 s14 = (i64)(i32)(I << 8) >> 18 << 2;
    i64 o16 = (i64)(i32)(I << 6) >> 16 << 2, s20 = (i64)(i32)(I << 7) >> 12;
    switch (I >> 26) {
    case 0x10: case 0x11: { i64 o = ((i64)(i32)((I & 31) << 27) >> 11 | (I >> 10 & 0xffff)) << 2; if ((a == 0) == ((I >> 26) == 0x10)) next = pc + o; break; }
    case 0x13: { u64 t = a + o16; w(rd, next); next = t; break; }
    case 0x14: case 0x15: { i64 o = ((i64)(i32)((I & 0x3ff) << 22) >> 6 | (I >> 10 & 0xffff)) << 2; if ((I >> 26) == 0x15) x[1] = next; next = pc + o; break; }
    case 0x16: if (a == x[rd]) next = pc + o16; break; case 0x17: if (a != x[rd]) next = pc + o16; break; case 0x18: if ((i64)a < (i64)x[rd]) next = pc + o16; break; case 0x19: if ((i64)a >= (i64)x[rd]) next = pc + o16; break; case 0x1a: if (a < x[rd]) next = pc + o16; break; case 0x1b: if (a >= x[rd]) next = pc + o16; break;
    case 0x05: if (I >> 25 & 1) w(rd, (x[rd] & 0xffffffff) | (u64)s20 << 32); else w(rd, sx((u32)s20 << 12)); break;
    case 0x06: if (I >> 25 & 1) w(rd, (pc + ((u64)s20 << 12)) & ~0xfffull); else w(rd, pc + ((u64)s20 << 2)); break;
    case 0x07: if (I >> 25 & 1) w(rd, pc + ((u64)s20 << 18)); else w(rd, pc + ((u64)s20 << 12)); break;
    case 0x09: { u64 p = a + s14; switch (I >> 24 & 3) { case 0: w(rd, (i64)ld<i32>(p)); break; case 1: st<u32>(p, (u32)x[rd]); break; case 2: w(rd, ld<u64>(p)); break; default: st<u64>(p, x[rd]); } break; }
    case 0x0a: { u64 p = a + s12; switch (I >> 22 & 15) { case 0: w(rd, (i64)ld<int8_t>(p)); break; case 1: w(rd, (i64)ld<int16_t>(p)); break; case 2: w(rd, (i64)ld<i32>(p)); break; case 3: w(rd, ld<u64>(p)); break; case 4: st<u8>(p, (u8)x[rd]); break; case 5: st<uint16_t>(p, (uint16_t)x[rd]); break; case 6: st<u32>(p, (u32)x[rd]); break; case 7: st<u64>(p, x[rd]); break; case 8: w(rd, ld<u8>(p)); break; case 9: w(rd, ld<uint16_t>(p)); break; case 10: w(rd, ld<u32>(p)); break; case 11: break; case 12: f[rd] = pbt::mix64(f[rd] + pc) << 32 | ld<u32>(p); break; case 13: st<u32>(p, (u32)f[rd]); break; case 14: f[rd] = ld<u64>(p); break; default: st<u64>(p, f[rd]); } break; }
    case 0x0e: { u64 p = a + b; switch (I >> 15 & 0x7ff) { case 0: w(rd, (i64)ld<int8_t>(p)); break; case 8: w(rd, (i64)ld<int16_t>(p)); break; case 16: w(rd, (i64)ld<i32>(p)); break; case 24: w(rd, ld<u64>(p)); break; case 32: st<u8>(p, (u8)x[rd]); break; case 40: st<uint16_t>(p, (uint16_t)x[rd]); break; case 48: st<u32>(p, (u32)x[rd]); break; case 56: st<u64>(p, x[rd]); break; case 64: w(rd, ld<u8>(p)); break; case 72: w(rd, ld<uint16_t>(p)); break; case 80: w(rd, ld<u32>(p)); break;
      case 0x60: f[rd] = pbt::mix64(f[rd] + pc) << 32 | ld<u32>(p); break; case 0x68: f[rd] = ld<u64>(p); break; case 0x70: st<u32>(p, (u32)f[rd]); break; case 0x78: st<u64>(p, f[rd]); break; case 0xe4: case 0xe5: if ((I & 0xffff8000) == 0x38728000) flush_all(); break; default: unk(I); } break; }
    case 0x04: w(rd, a + ((u64)(i64)(int16_t)(I >> 10 & 0xffff) << 16)); break;   // addu16i.d
    case 0x00: {
      unsigned k = I >> 22 & 15;
      if (k >= 8) { switch (k) { case 8: w(rd, (i64)a < s12); break; case 9: w(rd, a < (u64)s12); break; case 10: w(rd, sx((u32)(a + s12))); break; case 11: w(rd, a + s12); break; case 12: w(rd, (a & ((1ull << 52) - 1)) | (u64)s12 << 52); break; case 13: w(rd, a & u12); break; case 14: w(rd, a | u12); break; default: w(rd, a ^ u12); } break; }
      if (k == 2 || k == 3) { unsigned m = I >> 16 & 63, l = I >> 10 & 63; u64 mask = m - l + 1 >= 64 ? ~0ull : (1ull << (m - l + 1)) - 1; if (m < l) unk(I); if (k == 2) w(rd, (x[rd] & ~(mask << l)) | (a & mask) << l); else w(rd, a >> l & mask); break; }
      if (k == 1) {
        if (I >> 21 & 1) { unsigned m = I >> 16 & 31, l = I >> 10 & 31; if (m < l) unk(I); u32 mask = m - l + 1 >= 32 ? ~0u : (1u << (m - l + 1)) - 1; if (!(I >> 15 & 1)) w(rd, sx(((u32)x[rd] & ~(mask << l)) | ((u32)a & mask) << l)); else w(rd, sx((u32)a >> l & mask)); break; }
        unsigned s6 = I >> 10 & 63, s5 = s6 & 31; switch (I >> 16 & 31) { case 0: if (I >> 15 & 1) w(rd, sx((u32)a << s5)); else unk(I); break; case 1: w(rd, a << s6); break; case 4: w(rd, sx((u32)a >> s5)); break; case 5: w(rd, a >> s6); break; case 8: w(rd, (i64)((i32)a >> s5)); break; case 9: w(rd, (i64)a >> s6); break; case 12: { u32 q = (u32)a; w(rd, sx(s5 ? q >> s5 | q << (32 - s5) : q)); break; } case 13: w(rd, s6 ? a >> s6 | a << (64 - s6) : a); break; default: unk(I); } break;
      }
      if (k == 4) { // floating moves
      switch (I >> 10 & 0xffff) { case 0x4525: f[rd] = f[rj]; break; case 0x4526: f[rd] = f[rj]; break; case 0x4529: f[rd] = (f[rd] & 0xffffffff00000000ull) | (u32)a; break; case 0x452a: f[rd] = a; break; case 0x452b: f[rd] = (u32)f[rd] | a << 32; break; case 0x452d: w(rd, sx((u32)f[rj])); break; case 0x452e: w(rd, f[rj]); break; case 0x452f: w(rd, sx((u32)(f[rj] >> 32))); break;
        case 0x4649: { float v; double d; u32 q = (u32)f[rj]; memcpy(&v, &q, 4); d = v; memcpy(&f[rd], &d, 8); break; } case 0x4646: { double d; memcpy(&d, &f[rj], 8); float v = (float)d; u32 q; memcpy(&q, &v, 4); f[rd] = (f[rd] & 0xffffffff00000000ull) | q; break; } default: unk(I); } break; }
      if (k) unk(I);
      switch (I >> 15 & 0x7f) {
      case 0: { switch (I >> 10 & 31) { case 4: { u64 n = 0; for (u32 q = ~(u32)a; n < 32 && !(q >> 31); q <<= 1) n++; w(rd, n); break; } case 5: w(rd, (u32)a ? __builtin_clz((u32)a) : 32); break; case 7: w(rd, (u32)a ? __builtin_ctz((u32)a) : 32); break; case 9: w(rd, a ? __builtin_clzll(a) : 64); break; case 11: w(rd, a ? __builtin_ctzll(a) : 64); break; case 0x16: w(rd, (i64)(int16_t)a); break; case 0x17: w(rd, (i64)(int8_t)a); break; default: unk(I); } break; }
      case 0x08: case 0x09: case 0x0a: case 0x0b: case 0x0c: case 0x0d: case 0x0e: case 0x0f: if (!(I >> 17 & 1)) w(rd, sx((u32)(a << ((I >> 15 & 3) + 1)) + (u32)b)); else w(rd, (u32)((u32)(a << ((I >> 15 & 3) + 1)) + (u32)b)); break;
      case 0x20: w(rd, sx((u32)(a + b))); break; case 0x21: w(rd, a + b); break; case 0x22: w(rd, sx((u32)(a - b))); break; case 0x23: w(rd, a - b); break; case 0x24: w(rd, (i64)a < (i64)b); break; case 0x25: w(rd, a < b); break; case 0x26: w(rd, b ? a : 0); break; case 0x27: w(rd, b ? 0 : a); break;
      case 0x28: w(rd, ~(a | b)); break; case 0x29: w(rd, a & b); break; case 0x2a: w(rd, a | b); break; case 0x2b: w(rd, a ^ b); break; case 0x2c: w(rd, a | ~b); break; case 0x2d: w(rd, a & ~b); break; case 0x2e: w(rd, sx((u32)a << (b & 31))); break; case 0x2f: w(rd, sx((u32)a >> (b & 31))); break; case 0x30: w(rd, (i64)((i32)a >> (b & 31))); break; case 0x31: w(rd, a << (b & 63)); break; case 0x32: w(rd, a >> (b & 63)); break; case 0x33: w(rd, (i64)a >> (b & 63)); break;
      case 0x38: w(rd, sx((u32)a * (u32)b)); break; case 0x3b: w(rd, a * b); break; case 0x3c: w(rd, (u64)(((__int128)(i64)a * (i64)b) >> 64)); break; case 0x3d: w(rd, (u64)(((unsigned __int128)a * b) >> 64)); break; case 0x3e: w(rd, (u64)((i64)(i32)a * (i64)(i32)b)); break; case 0x3f: w(rd, (u64)(u32)a * (u32)b); break;
      case 0x40: w(rd, (i32)b ? (i32)b == -1 ? sx(-(u32)a) : (i64)((i32)a / (i32)b) : 0); break; case 0x41: w(rd, (i32)b ? (i32)b == -1 ? 0 : (i64)((i32)a % (i32)b) : 0); break; case 0x42: w(rd, (u32)b ? sx((u32)a / (u32)b) : 0); break; case 0x43: w(rd, (u32)b ? sx((u32)a % (u32)b) : 0); break; case 0x44: w(rd, b ? (i64)b == -1 ? -a : (u64)((i64)a / (i64)b) : 0); break; case 0x45: w(rd, b ? (i64)b == -1 ? 0 : (u64)((i64)a % (i64)b) : 0); break; case 0x46: w(rd, b ? a / b : 0); break; case 0x47: w(rd, b ? a % b : 0); break;
      case 0x54: fail(fmt("trap instruction at %lx", pc));
      case 0x58: case 0x59: case 0x5a: case 0x5b: w(rd, (a << ((I >> 15 & 3) + 1)) + b); break;
      default: unk(I); } break; }
    default: unk(I);
    }
    pc = next;
  }
  void run(u64 entry, int = 0) {
    pc = entry; u64 n = 0;
    for (;;) {
      if (is_gate(pc)) { int g = (int)((pc - GATE) / 16); if (pc != gate(g)) fail("jump into the harness"); if (g == G_RETURN) return; if (x[3] & 15) fail(fmt("call with a misaligned stack pointer %lx", x[3])); u64 back = x[1]; host(g); pc = back; continue; }
      step(); if (++n > 40000000) fail("no end of execution"); steps++;
    }
  }
};
} // namespace emu
