// RISC-V interpreter: RV64IMFD, or RV32IMFD with PORT_RV32 (moves, loads and stores of floating registers only) plus fence.i.
#pragma once
#include "../emu.hpp"
namespace emu {
struct Cpu {
  word x[32]; u64 pc; u64 f[32]; u64 fcsr = 0, steps = 0; void (*host)(int) = nullptr;
  [[noreturn]] void unk(u32 i) { throw Unknown{fmt("RISC-V instruction %08x at %lx", i, pc)}; }
  static const bool R32 = sizeof(word) == 4; static u64 reg(u64 v) { return R32 ? (u64)(i64)(i32)v : v; } static u64 adr(u64 v) { return R32 ? (u32)v : v; } static u64 zx(u64 v) { return R32 ? (u32)v : v; }   // registers are seen sign-extended
  void w(unsigned r, u64 v) { if (r) x[r] = (word)v; }
  static u64 sx(u32 v) { return (u64)(i64)(i32)v; }
  float fs(unsigned r) { u32 q = (f[r] >> 32) == 0xffffffffu ? (u32)f[r] : 0x7fc00000u; float v; memcpy(&v, &q, 4); return v; }
  void step() {
    u32 I = fetch(pc); u64 next = pc + 4; unsigned rd = I >> 7 & 31, rs1 = I >> 15 & 31, rs2 = I >> 20 & 31, f3 = I >> 12 & 7, f7 = I >> 25; u64 a = reg(x[rs1]), b = reg(x[rs2]); i64 imm = (i64)(i32)I >> 20, ims = ((i64)(i32)(I & 0xfe000000) >> 20) | (I >> 7 & 31);
    switch (I & 127) {
    case 0x37: w(rd, sx(I & 0xfffff000)); break;
    case 0x17: w(rd, pc + sx(I & 0xfffff000)); break;
    case 0x6f: { i64 o = ((i64)(i32)(I & 0x80000000) >> 11) | (I & 0xff000) | (I >> 9 & 0x800) | (I >> 20 & 0x7fe); w(rd, next); next = pc + o; break; }
    case 0x67: { u64 t = (a + imm) & ~1ull; w(rd, next); next = t; break; }
    case 0x63: { i64 o = ((i64)(i32)(I & 0x80000000) >> 19) | ((I & 0x80) << 4) | (I >> 20 & 0x7e0) | (I >> 7 & 0x1e); bool t; switch (f3) { case 0: t = a == b; break; case 1: t = a != b; break; case 4: t = (i64)a < (i64)b; break; case 5: t = (i64)a >= (i64)b; break; case 6: t = a < b; break; case 7: t = a >= b; break; default: unk(I); } if (t) next = pc + o; break; }
    case 0x03: { u64 p = adr(a + imm); switch (f3) { case 0: w(rd, (i64)ld<int8_t>(p)); break; case 1: w(rd, (i64)ld<int16_t>(p)); break; case 2: w(rd, (i64)ld<i32>(p)); break; case 3: if (R32) unk(I); w(rd, ld<u64>(p)); break; case 4: w(rd, ld<u8>(p)); break; case 5: w(rd, ld<uint16_t>(p)); break; case 6: if (R32) unk(I); w(rd, ld<u32>(p)); break; default: unk(I); } break; }
    case 0x23: { u64 p = adr(a + ims); switch (f3) { case 0: st<u8>(p, (u8)b); break; case 1: st<uint16_t>(p, (uint16_t)b); break; case 2: st<u32>(p, (u32)b); break; case 3: if (R32) unk(I); st<u64>(p, b); break; default: unk(I); } break; }
    case 0x07: { u64 p = adr(a + imm); if (f3 == 2) f[rd] = 0xffffffff00000000ull | ld<u32>(p); else if (f3 == 3) f[rd] = ld<u64>(p); else unk(I); break; }
    case 0x27: { u64 p = adr(a + ims); if (f3 == 2) st<u32>(p, (u32)f[rs2]); else if (f3 == 3) st<u64>(p, f[rs2]); else unk(I); break; }
    case 0x13: { unsigned sh = I >> 20 & 63; if (R32 && (f3 & 3) == 1 && (sh & 32)) unk(I); switch (f3) { case 0: w(rd, a + imm); break; case 1: if (f7 >> 1) unk(I); w(rd, a << sh); break; case 2: w(rd, (i64)a < imm); break; case 3: w(rd, a < (u64)imm); break; case 4: w(rd, a ^ imm); break; case 5: if ((f7 >> 1) == 0) w(rd, zx(a) >> sh); else if ((f7 >> 1) == 16) w(rd, (i64)a >> sh); else unk(I); break; case 6: w(rd, a | imm); break; default: w(rd, a & imm); } break; }
    case 0x1b: { if (R32) unk(I); unsigned sh = I >> 20 & 31; switch (f3) { case 0: w(rd, sx((u32)(a + imm))); break; case 1: w(rd, sx((u32)a << sh)); break; case 5: if (f7 == 0) w(rd, sx((u32)a >> sh)); else if (f7 == 32) w(rd, (i64)((i32)a >> sh)); else unk(I); break; default: unk(I); } break; }
    case 0x33:
      if (R32 && f7 == 1 && f3 != 0) { u32 m = (u32)a, n = (u32)b; u64 q; switch (f3) { case 1: q = (u64)((i64)a * (i64)b) >> 32; break; case 2: q = (u64)((i64)a * (i64)(u64)n) >> 32; break; case 3: q = (u64)m * n >> 32; break; case 4: q = !n ? ~0ull : n == ~0u ? -m : (u64)((i32)m / (i32)n); break; case 5: q = n ? m / n : ~0ull; break; case 6: q = !n ? m : n == ~0u ? 0 : (u64)((i32)m % (i32)n); break; default: q = n ? m % n : m; } w(rd, q); break; }
      if (f7 == 1) { u64 q; switch (f3) { case 0: q = a * b; break; case 1: q = (u64)(((__int128)(i64)a * (i64)b) >> 64); break; case 2: q = (u64)(((__int128)(i64)a * (unsigned __int128)b) >> 64); break; case 3: q = (u64)(((unsigned __int128)a * b) >> 64); break; case 4: q = !b ? ~0ull : (i64)b == -1 ? -a : (u64)((i64)a / (i64)b); break; case 5: q = b ? a / b : ~0ull; break; case 6: q = !b ? a : (i64)b == -1 ? 0 : (u64)((i64)a % (i64)b); break; default: q = b ? a % b : a; } w(rd, q); break; }
      switch (f7 << 3 | f3) { case 0: w(rd, a + b); break; case 0x100: w(rd, a - b); break; case 1: w(rd, a << (b & (R32 ? 31 : 63))); break; case 2: w(rd, (i64)a < (i64)b); break; case 3: w(rd, a < b); break; case 4: w(rd, a ^ b); break; case 5: w(rd, zx(a) >> (b & (R32 ? 31 : 63))); break; case 0x105: w(rd, (i64)a >> (b & (R32 ? 31 : 63))); break; case 6: w(rd, a | b); break; case 7: w(rd, a & b); break; default: unk(I); } break;
    case 0x3b: if (R32) unk(I);
      if (f7 == 1) { i32 p = (i32)a, q = (i32)b; u32 u = (u32)a, v = (u32)b; switch (f3) { case 0: w(rd, sx(u * v)); break; case 4: w(rd, !q ? ~0ull : q == -1 ? sx(-u) : (i64)(p / q)); break; case 5: w(rd, v ? sx(u / v) : ~0ull); break; case 6: w(rd, !q ? sx(u) : q == -1 ? 0 : (i64)(p % q)); break; case 7: w(rd, v ? sx(u % v) : sx(u)); break; default: unk(I); } break; }
      switch (f7 << 3 | f3) { case 0: w(rd, sx((u32)(a + b))); break; case 0x100: w(rd, sx((u32)(a - b))); break; case 1: w(rd, sx((u32)a << (b & 31))); break; case 5: w(rd, sx((u32)a >> (b & 31))); break; case 0x105: w(rd, (i64)((i32)a >> (b & 31))); break; default: unk(I); } break;
    case 0x0f: if (f3 == 1) flush_all(); break;
    case 0x53: {
      u64 A = f[rs1], B = f[rs2];
      if (f7 == 0x10 || f7 == 0x11) { bool d = f7 & 1; u64 s = d ? 1ull << 63 : 1ull << 31; u64 p = d ? A : (A >> 32) == 0xffffffff ? (u32)A : 0x7fc00000, q = d ? B : (B >> 32) == 0xffffffff ? (u32)B : 0x7fc00000; u64 sg = f3 == 0 ? q & s : f3 == 1 ? ~q & s : f3 == 2 ? (p ^ q) & s : (unk(I), 0); p = (p & ~s) | sg; f[rd] = d ? p : 0xffffffff00000000ull | p; }
      else if (f7 == 0x70 && f3 == 0 && rs2 == 0) w(rd, sx((u32)A)); else if (!R32 && f7 == 0x71 && f3 == 0 && rs2 == 0) w(rd, A);
      else if (f7 == 0x78 && f3 == 0 && rs2 == 0) f[rd] = 0xffffffff00000000ull | (u32)a; else if (!R32 && f7 == 0x79 && f3 == 0 && rs2 == 0) f[rd] = a;
      else if (f7 == 0x21 && rs2 == 0) { double q = fs(rs1); memcpy(&f[rd], &q, 8); } else if (f7 == 0x20 && rs2 == 1) { double q; memcpy(&q, &A, 8); float v = (float)q; u32 z; memcpy(&z, &v, 4); f[rd] = 0xffffffff00000000ull | z; }
      else unk(I); break; }
    case 0x73: if (I == 0x00100073) fail(fmt("trap instruction at %lx", pc)); unk(I);
    default: if (!(I & 0xffff) || I == 0xc0001073) fail(fmt("trap instruction at %lx", pc)); unk(I);
    }
    pc = adr(next);
  }
  void run(u64 entry, int = 0) {
    pc = entry; u64 n = 0;
    for (;;) {
      if (is_gate(pc)) { int g = (int)((pc - GATE) / 16); if (pc != gate(g)) fail("jump into the harness"); if (g == G_RETURN) return; if (x[2] & 15) fail(fmt("call with a misaligned stack pointer %lx", (u64)x[2])); u64 back = x[1]; host(g); pc = back; continue; }
      step(); if (++n > 40000000) fail("no end of execution"); steps++;
    }
  }
};
} // namespace emu
