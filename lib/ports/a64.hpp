// AArch64 interpreter: what compilers emit for libffi's C code plus what its assembly uses.
#pragma once
#include "../emu.hpp"
namespace emu {
struct Cpu {
  u64 x[31], sp, pc; u64 v[32][2]; bool N, Z, C, V; u64 fpcr = 0; u64 steps = 0; void (*host)(int) = nullptr; int btype = 0; bool bti = false, pac = false;
  u64 r(unsigned i) const { return i == 31 ? 0 : x[i]; } void w(unsigned i, u64 val) { if (i != 31) x[i] = val; }
  u64 rs(unsigned i) const { return i == 31 ? sp : x[i]; } void ws(unsigned i, u64 val) { if (i == 31) sp = val; else x[i] = val; }
  [[noreturn]] void unk(u32 i) { throw Unknown{fmt("AArch64 instruction %08x at %lx", i, pc)}; }
  u64 base(unsigned n) { if (n == 31 && (sp & 15)) fail(fmt("memory access through a misaligned stack pointer %lx at pc %lx", sp, pc)); return rs(n); }
  static u64 rotr(u64 v, unsigned n, unsigned sz) { n %= sz; if (!n) return v; u64 m = sz == 64 ? ~0ull : (1ull << sz) - 1; return ((v >> n) | (v << (sz - n))) & m; }
  static bool bitmasks(unsigned n, unsigned imms, unsigned immr, u64 &wm, u64 &tm) {
    unsigned t = (n << 6) | (~imms & 0x3f); int len = -1; for (int i = 6; i >= 0; i--) if (t >> i & 1) { len = i; break; } if (len < 0) return false;
    unsigned lev = (1u << len) - 1, S = imms & lev, R = immr & lev, d = (S - R) & lev, es = 1u << len; u64 em = es == 64 ? ~0ull : (1ull << es) - 1;
    u64 we = S + 1 >= 64 ? ~0ull : (1ull << (S + 1)) - 1, te = d + 1 >= 64 ? ~0ull : (1ull << (d + 1)) - 1; we = rotr(we & em, R, es); te &= em;
    wm = tm = 0; for (unsigned i = 0; i < 64; i += es) { wm |= we << i; tm |= te << i; } return true;
  }
  u64 addc(u64 a, u64 b, bool c, bool sf, bool set) {
    if (!sf) { a = (u32)a; b = (u32)b; u64 s = a + b + c; u32 q = (u32)s; if (set) { N = q >> 31; Z = q == 0; C = s >> 32; V = ((~(a ^ b) & (a ^ q)) >> 31) & 1; } return q; }
    unsigned __int128 s = (unsigned __int128)a + b + c; u64 q = (u64)s; if (set) { N = q >> 63; Z = q == 0; C = (bool)(s >> 64); V = (~(a ^ b) & (a ^ q)) >> 63; } return q;
  }
  u64 shift(u64 v, unsigned type, unsigned n, bool sf) { if (!sf) v = (u32)v; switch (type) { case 0: v <<= n; break; case 1: v >>= n; break; case 2: v = sf ? (u64)((i64)v >> n) : (u64)(u32)((i32)v >> n); break; default: v = rotr(v, n, sf ? 64 : 32); } return sf ? v : (u32)v; }
  u64 extend(u64 v, unsigned opt, unsigned n) { switch (opt) { case 0: v = (u8)v; break; case 1: v = (uint16_t)v; break; case 2: v = (u32)v; break; case 3: break; case 4: v = (i64)(int8_t)v; break; case 5: v = (i64)(int16_t)v; break; case 6: v = (i64)(i32)v; break; } return v << n; }
  bool cond(unsigned c) { bool q; switch (c >> 1) { case 0: q = Z; break; case 1: q = C; break; case 2: q = N; break; case 3: q = V; break; case 4: q = C && !Z; break; case 5: q = N == V; break; case 6: q = N == V && !Z; break; default: return true; } return (c & 1) ? !q : q; }
  void logicflags(u64 q, bool sf) { N = sf ? q >> 63 : (q >> 31) & 1; Z = q == 0; C = V = false; }
  // pointer authentication: a keyed change of the upper bits
  static u64 sig(u64 p, u64 m) { return (pbt::mix64((p & 0xffffffffffffull) ^ pbt::mix64(m)) | 1) << 48; }
  u64 elem(unsigned r, unsigned size, unsigned i) { u64 q = 0; memcpy(&q, (u8 *)v[r] + (i << size), 1u << size); return q; }
  void setelem(unsigned r, unsigned size, unsigned i, u64 q) { memcpy((u8 *)v[r] + (i << size), &q, 1u << size); }
  void vload(unsigned t, u64 a, unsigned n) { u64 q[2] = {0, 0}; memcpy(q, (void *)a, n); v[t][0] = q[0]; v[t][1] = q[1]; }
  void vstore(unsigned t, u64 a, unsigned n) { memcpy((void *)a, v[t], n); }
  static u64 movi(unsigned op, unsigned cm, u64 b) {
    auto rep = [](u64 q, unsigned n) { for (; n < 64; n *= 2) q |= q << n; return q; };
    switch (cm >> 1) { case 0: return rep(b, 32); case 1: return rep(b << 8, 32); case 2: return rep(b << 16, 32); case 3: return rep(b << 24, 32); case 4: return rep(b, 16); case 5: return rep(b << 8, 16);
      case 6: return rep((cm & 1) ? b << 16 | 0xffff : b << 8 | 0xff, 32);
      default: if (!(cm & 1)) { if (!op) return rep(b, 8); u64 q = 0; for (int i = 0; i < 8; i++) if (b >> i & 1) q |= 0xffull << (8 * i); return q; }
        if (!op) return rep((u64)((b >> 7) << 31 | ((b >> 6 & 1) ? 0x3e000000u : 0x40000000u) | (b & 0x3f) << 19), 32);
        return (b >> 7) << 63 | ((b >> 6 & 1) ? 0x3fc0000000000000ull : 0x4000000000000000ull) | (b & 0x3f) << 48; }
  }
  void loadstore(u32 I);
  void simd(u32 I);
  void step() {
    u32 I = fetch(pc); u64 next = pc + 4; unsigned rd = I & 31, rn = I >> 5 & 31, rm = I >> 16 & 31; bool sf = I >> 31;
    if (btype) { // an indirect branch has to arrive at a landing pad
      if (bti) { bool ok = false; unsigned h = (I & 0xfffff01f) == 0xd503201f ? (I >> 5 & 0x7f) : 999; if (h == 25 || h == 27) ok = btype != 3; else if (h == 34) ok = btype != 3; else if (h == 36) ok = btype != 2; else if (h == 38) ok = true; bool img = false; for (auto &s : SEGS) if (s.x && pc >= s.a && pc < s.z) img = true; if (img && !ok) fail(fmt("indirect branch to %lx, which is no landing pad (branch target identification)", pc)); }
      btype = 0;
    }
    switch (I >> 25 & 15) {
    case 8: case 9: switch (I >> 23 & 7) {
      case 0: case 1: { i64 imm = (i64)(i32)(((I >> 5 & 0x7ffff) << 2 | (I >> 29 & 3)) << 11) >> 11; w(rd, sf ? (pc & ~4095ull) + ((u64)imm << 12) : pc + imm); break; }
      case 2: { u64 imm = I >> 10 & 0xfff; if (I >> 22 & 1) imm <<= 12; bool sub = I >> 30 & 1, S = I >> 29 & 1; u64 q = addc(rs(rn), sub ? ~imm : imm, sub, sf, S); if (S) w(rd, q); else ws(rd, sf ? q : (u32)q); break; }
      case 4: { u64 wm, tm; if (!bitmasks(I >> 22 & 1, I >> 10 & 63, I >> 16 & 63, wm, tm)) unk(I); if (!sf) wm = (u32)wm; u64 a = r(rn), q; unsigned op = I >> 29 & 3; q = op == 0 || op == 3 ? a & wm : op == 1 ? a | wm : a ^ wm; if (!sf) q = (u32)q; if (op == 3) { logicflags(q, sf); w(rd, q); } else ws(rd, q); break; }
      case 5: { u64 imm = I >> 5 & 0xffff; unsigned sh = (I >> 21 & 3) * 16; u64 q; switch (I >> 29 & 3) { case 0: q = ~(imm << sh); break; case 2: q = imm << sh; break; case 3: q = (r(rd) & ~(0xffffull << sh)) | imm << sh; break; default: unk(I); } w(rd, sf ? q : (u32)q); break; }
      case 6: { u64 wm, tm; unsigned immr = I >> 16 & 63, imms = I >> 10 & 63; if (!bitmasks(I >> 22 & 1, imms, immr, wm, tm)) unk(I); unsigned op = I >> 29 & 3; u64 src = r(rn); if (!sf) src = (u32)src; u64 dst = op == 1 ? r(rd) : 0; u64 bot = (dst & ~wm) | (rotr(src, immr, sf ? 64 : 32) & wm); u64 top = op == 0 ? ((src >> imms & 1) ? ~0ull : 0) : dst; u64 q = (top & ~tm) | (bot & tm); w(rd, sf ? q : (u32)q); break; }
      case 7: { unsigned l = I >> 10 & 63; u64 hi = r(rn), lo = r(rm), q; if (sf) q = l ? (lo >> l) | (hi << (64 - l)) : lo; else q = (u32)((((u64)(u32)hi << 32) | (u32)lo) >> l); w(rd, q); break; }
      default: unk(I); } break;
    case 10: case 11:
      if ((I >> 26 & 31) == 5) { i64 o = (i64)(i32)(I << 6) >> 4; if (sf) x[30] = next; next = pc + o; }
      else if ((I & 0xff000010) == 0x54000000) { if (cond(I & 15)) next = pc + ((i64)(i32)(I << 8) >> 13 << 2); }
      else if ((I >> 25 & 63) == 0x1a) { u64 q = r(rd); if (!sf) q = (u32)q; if ((q == 0) != (bool)(I >> 24 & 1)) next = pc + ((i64)(i32)(I << 8) >> 13 << 2); }
      else if ((I >> 25 & 63) == 0x1b) { unsigned b = (I >> 31) << 5 | (I >> 19 & 31); if ((r(rd) >> b & 1) == (I >> 24 & 1)) next = pc + ((i64)(i32)(I << 13) >> 18 << 2); }
      else if ((I & 0xff9ffc1f) == 0xd61f0000 || (I & 0xfffffc1f) == 0xd61f0000) {
        unsigned op = I >> 21 & 3; u64 t = r(rn); if (op == 1) x[30] = next; else if (op == 3) unk(I); next = t; if (op == 0) btype = rn == 16 || rn == 17 ? 1 : 3; else if (op == 1) btype = 2;
      }
      else if ((I & 0xfffff01f) == 0xd503201f) { unsigned h = I >> 5 & 0x7f; if (pac) { if (h == 25 || h == 27) x[30] ^= sig(x[30], sp) & 0xffff000000000000ull; else if (h == 29 || h == 31) { u64 p = x[30] & 0xffffffffffffull; if ((sig(p, sp) & 0xffff000000000000ull) != (x[30] & 0xffff000000000000ull)) fail(fmt("authentication of the return address failed at %lx", pc)); x[30] = p; } } }
      else if ((I & 0xfffff01f) == 0xd503301f) ;
      else if ((I & 0xfffffbff) == 0xd65f0bff && pac) { u64 p = x[30] & 0xffffffffffffull; if ((sig(p, sp) & 0xffff000000000000ull) != (x[30] & 0xffff000000000000ull)) fail(fmt("authentication of the return address failed at %lx", pc)); x[30] = p; next = p; }
      else if ((I & 0xffe00000) == 0xd4200000) fail(fmt("trap instruction at %lx", pc));
      else if ((I & 0xffffffe0) == 0xd53b4200) w(rd, (u64)N << 31 | (u64)Z << 30 | (u64)C << 29 | (u64)V << 28);
      else if ((I & 0xffffffe0) == 0xd51b4200) { u64 q = r(rd); N = q >> 31 & 1; Z = q >> 30 & 1; C = q >> 29 & 1; V = q >> 28 & 1; }
      else if ((I & 0xffffffe0) == 0xd53b4400) w(rd, fpcr); else if ((I & 0xffffffe0) == 0xd51b4400) fpcr = r(rd);
      else unk(I); break;
    case 4: case 6: case 12: case 14: loadstore(I); break;
    case 5: case 13: {
      unsigned k = I >> 21 & 0xff;
      if ((I >> 24 & 31) == 0x0a) { u64 b = shift(r(rm), I >> 22 & 3, I >> 10 & 63, sf), a = r(rn), q; if (I >> 21 & 1) b = ~b; unsigned op = I >> 29 & 3; q = op == 0 || op == 3 ? a & b : op == 1 ? a | b : a ^ b; if (!sf) q = (u32)q; if (op == 3) logicflags(q, sf); w(rd, q); }
      else if ((I >> 24 & 31) == 0x0b) {
        bool sub = I >> 30 & 1, S = I >> 29 & 1;
        if (!(I >> 21 & 1)) { u64 b = shift(r(rm), I >> 22 & 3, I >> 10 & 63, sf); w(rd, addc(r(rn), sub ? ~b : b, sub, sf, S)); }
        else { u64 b = extend(r(rm), I >> 13 & 7, I >> 10 & 7); u64 q = addc(rs(rn), sub ? ~b : b, sub, sf, S); if (S) w(rd, q); else ws(rd, q); }
      }
      else if ((k & 0xff) == 0xd0 && !(I >> 10 & 63)) { bool sub = I >> 30 & 1, S = I >> 29 & 1; u64 b = r(rm); w(rd, addc(r(rn), sub ? ~b : b, C, sf, S)); }
      else if (k == 0xd2) { u64 b = (I >> 11 & 1) ? rm : r(rm); bool sub = I >> 30 & 1; if (cond(I >> 12 & 15)) addc(r(rn), sub ? ~b : b, sub, sf, true); else { N = I >> 3 & 1; Z = I >> 2 & 1; C = I >> 1 & 1; V = I & 1; } }
      else if (k == 0xd4) { u64 q; if (cond(I >> 12 & 15)) q = r(rn); else { q = r(rm); if (I >> 30 & 1) q = ~q; if (I >> 10 & 1) q++; } w(rd, sf ? q : (u32)q); }
      else if (k == 0xd6 && !(I >> 30 & 1)) {
        u64 a = r(rn), b = r(rm), q; if (!sf) { a = (u32)a; b = (u32)b; }
        switch (I >> 10 & 63) { case 2: q = b ? a / b : 0; break; case 3: if (sf) q = b ? ((i64)b == -1 ? -a : (u64)((i64)a / (i64)b)) : 0; else q = b ? ((i32)b == -1 ? -a : (u64)(u32)((i32)a / (i32)b)) : 0; break;
          case 8: case 9: case 10: case 11: q = shift(a, (I >> 10) & 3, b & (sf ? 63 : 31), sf); break; default: unk(I); } w(rd, sf ? q : (u32)q);
      }
      else if (k == 0xd6) {
        u64 a = r(rn), q = 0; unsigned n = sf ? 64 : 32; if (!sf) a = (u32)a; if (rm) unk(I);
        switch (I >> 10 & 63) { case 0: for (unsigned i = 0; i < n; i++) if (a >> i & 1) q |= 1ull << (n - 1 - i); break; case 1: for (unsigned i = 0; i < n; i += 16) q |= (u64)__builtin_bswap16((uint16_t)(a >> i)) << i; break; case 2: if (sf) q = (u64)__builtin_bswap32((u32)a) | (u64)__builtin_bswap32((u32)(a >> 32)) << 32; else q = __builtin_bswap32((u32)a); break; case 3: q = __builtin_bswap64(a); break;
          case 4: for (q = 0; q < n && !(a >> (n - 1 - q) & 1); q++) ; break; case 5: { bool s = a >> (n - 1) & 1; for (q = 0; q + 1 < n && (a >> (n - 2 - q) & 1) == s; q++) ; break; } default: unk(I); } w(rd, q);
      }
      else if ((I >> 24 & 31) == 0x1b) {
        unsigned ra = I >> 10 & 31; bool neg = I >> 15 & 1; u64 q;
        switch (I >> 21 & 7) { case 0: q = r(rn) * r(rm); q = neg ? r(ra) - q : r(ra) + q; break; case 1: q = (u64)((i64)(i32)r(rn) * (i64)(i32)r(rm)); q = neg ? r(ra) - q : r(ra) + q; break; case 5: q = (u64)(u32)r(rn) * (u32)r(rm); q = neg ? r(ra) - q : r(ra) + q; break;
          case 2: q = (u64)(((__int128)(i64)r(rn) * (i64)r(rm)) >> 64); break; case 6: q = (u64)(((unsigned __int128)r(rn) * r(rm)) >> 64); break; default: unk(I); } w(rd, sf ? q : (u32)q);
      }
      else unk(I); break; }
    case 7: case 15: simd(I); break;
    default: if ((I >> 16) == 0) fail(fmt("trap instruction at %lx", pc)); unk(I);
    }
    pc = next;
  }
  void run(u64 entry, int bt = 0) {   // until the return gate
    pc = entry; btype = bt; u64 n = 0;
    for (;;) {
      if (is_gate(pc)) { int g = (int)((pc - GATE) / 16); if (pc != gate(g)) fail("jump into the harness"); if (g == G_RETURN) return; if (sp & 15) fail(fmt("call with a misaligned stack pointer %lx", sp)); btype = 0; u64 back = x[30]; host(g); pc = back; continue; }
      step(); if (++n > 40000000) fail("no end of execution"); steps++;
    }
  }
};
inline void Cpu::loadstore(u32 I) {
  unsigned rt = I & 31, rn = I >> 5 & 31, size = I >> 30, V = I >> 26 & 1;
  if ((I & 0xbf000000) == 0x0c000000 || (I & 0xbf000000) == 0x0d000000) { // vector structures
    bool single = I >> 24 & 1, post = I >> 23 & 1, L = I >> 22 & 1, Q = I >> 30 & 1; unsigned rm = I >> 16 & 31; u64 a = base(rn), a0 = a;
    if (!single) {
      unsigned op = I >> 12 & 15, sz = I >> 10 & 3, n, sel; switch (op) { case 0: n = 1; sel = 4; break; case 2: n = 4; sel = 1; break; case 4: n = 1; sel = 3; break; case 6: n = 3; sel = 1; break; case 7: n = 1; sel = 1; break; case 8: n = 1; sel = 2; break; case 10: n = 2; sel = 1; break; default: unk(I); }
      unsigned el = (Q ? 16 : 8) >> sz, rpt = n > 1 ? n : 1; if (n == 1) { rpt = 1; } 
      if (sel == 1) { for (unsigned k = 0; k < rpt; k++) { unsigned t = (rt + k) % 32; if (L) vload(t, a, Q ? 16 : 8); else vstore(t, a, Q ? 16 : 8); a += Q ? 16 : 8; } }
      else { if (L && !Q) for (unsigned k = 0; k < sel; k++) v[(rt + k) % 32][1] = 0; for (unsigned e = 0; e < el; e++) for (unsigned k = 0; k < sel; k++) { unsigned t = (rt + k) % 32; if (L) { u64 q = 0; memcpy(&q, (void *)a, 1u << sz); setelem(t, sz, e, q); } else memcpy((void *)a, (u8 *)v[t] + (e << sz), 1u << sz); a += 1u << sz; } }
    } else {
      unsigned op = I >> 13 & 7, S = I >> 12 & 1, sz = I >> 10 & 3, Rb = I >> 21 & 1, sel = ((op & 1) << 1 | Rb) + 1, sc = op >> 1, idx = 0; bool rep = false;
      if (sc == 3) { rep = true; sc = sz; } else if (sc == 0) idx = Q << 3 | S << 2 | sz; else if (sc == 1) idx = (unsigned)Q << 2 | S << 1 | sz >> 1; else if (!(sz & 1)) idx = (unsigned)Q << 1 | S; else { sc = 3; idx = Q; }
      for (unsigned k = 0; k < sel; k++) { unsigned t = (rt + k) % 32; if (rep) { u64 q = 0; memcpy(&q, (void *)a, 1u << sc); v[t][0] = v[t][1] = 0; for (unsigned e = 0; e < ((Q ? 16u : 8u) >> sc); e++) setelem(t, sc, e, q); } else if (L) { u64 q = 0; memcpy(&q, (void *)a, 1u << sc); setelem(t, sc, idx, q); } else memcpy((void *)a, (u8 *)v[t] + (idx << sc), 1u << sc); a += 1u << sc; }
    }
    if (post) ws(rn, rm == 31 ? a : a0 + r(rm)); return;
  }
  switch (I >> 27 & 7) {
  case 3: { if (I >> 24 & 1) unk(I); u64 a = pc + ((i64)(i32)(I << 8) >> 13 << 2); if (V) { vload(rt, a, 4u << size); } else if (size == 0) w(rt, ld<u32>(a)); else if (size == 1) w(rt, ld<u64>(a)); else if (size == 2) w(rt, (i64)ld<i32>(a)); return; }
  case 5: {
    unsigned mode = I >> 23 & 3, rt2 = I >> 10 & 31; bool L = I >> 22 & 1; i64 imm = (i64)(i32)(I << 10) >> 25; unsigned n = V ? 4u << size : size == 2 ? 8 : 4; if (!V && size == 1 && (!L || mode == 0)) unk(I); if (size == 3) unk(I); imm *= n;
    u64 b = base(rn), a = mode == 1 ? b : b + imm;
    if (V) { if (L) { vload(rt, a, n); vload(rt2, a + n, n); } else { vstore(rt, a, n); vstore(rt2, a + n, n); } }
    else if (L) { if (size == 2) { w(rt, ld<u64>(a)); w(rt2, ld<u64>(a + 8)); } else if (size == 1) { w(rt, (i64)ld<i32>(a)); w(rt2, (i64)ld<i32>(a + 4)); } else { w(rt, ld<u32>(a)); w(rt2, ld<u32>(a + 4)); } }
    else if (size == 2) { st<u64>(a, r(rt)); st<u64>(a + 8, r(rt2)); } else { st<u32>(a, (u32)r(rt)); st<u32>(a + 4, (u32)r(rt2)); }
    if (mode & 1) ws(rn, b + imm); return; }
  case 7: {
    unsigned opc = I >> 22 & 3, sc = V ? (size | (opc >> 1) << 2) : size; u64 a; bool wb = false; u64 nb = 0;
    if (I >> 24 & 1) a = base(rn) + ((u64)(I >> 10 & 0xfff) << sc);
    else if (!(I >> 21 & 1)) { i64 imm = (i64)(i32)(I << 11) >> 23; u64 b = base(rn); unsigned m = I >> 10 & 3; a = m == 1 ? b : b + imm; if (m & 1) { wb = true; nb = b + imm; } }
    else if ((I >> 10 & 3) == 2) a = base(rn) + extend(r(I >> 16 & 31), I >> 13 & 7, (I >> 12 & 1) ? sc : 0);
    else unk(I);
    if (V) { if (sc > 4) unk(I); if (opc & 1) vload(rt, a, 1u << sc); else vstore(rt, a, 1u << sc); }
    else if (opc == 0) { u64 q = r(rt); memcpy((void *)a, &q, 1u << size); }
    else if (opc == 1) { u64 q = 0; memcpy(&q, (void *)a, 1u << size); w(rt, q); }
    else { if (size == 3) { if (opc == 3) unk(I); } else { u64 q = 0; memcpy(&q, (void *)a, 1u << size); unsigned b = 64 - (8u << size); q = (u64)((i64)(q << b) >> b); w(rt, opc == 3 ? (u32)q : q); } }
    if (wb) ws(rn, nb); return; }
  default: unk(I); }
}
inline void Cpu::simd(u32 I) {
  unsigned rd = I & 31, rn = I >> 5 & 31, rm = I >> 16 & 31; bool sf = I >> 31;
  if ((I & 0x7f20fc00) == 0x1e200000) { // moves between general and vector registers (conversions are not needed)
    unsigned ft = I >> 22 & 3, rop = I >> 16 & 31;
    if (rop == 6 && ft == 0 && !sf) w(rd, (u32)v[rn][0]); else if (rop == 7 && ft == 0 && !sf) { v[rd][0] = (u32)r(rn); v[rd][1] = 0; } else if (rop == 6 && ft == 1 && sf) w(rd, v[rn][0]); else if (rop == 7 && ft == 1 && sf) { v[rd][0] = r(rn); v[rd][1] = 0; } else if (rop == 14 && ft == 2 && sf) w(rd, v[rn][1]); else if (rop == 15 && ft == 2 && sf) v[rd][1] = r(rn); else unk(I);
    return;
  }
  if ((I & 0xff207c00) == 0x1e204000) { // one source
    unsigned ft = I >> 22 & 3, op = I >> 15 & 63; u64 q = v[rn][0]; if (ft > 1) unk(I); u64 s = ft ? 1ull << 63 : 1ull << 31;
    if (!ft) q = (u32)q; switch (op) { case 0: break; case 1: q &= ~s; break; case 2: q ^= s; break; case 4: case 5: if (op == 5 && !ft) { float f; memcpy(&f, &q, 4); double d = f; memcpy(&q, &d, 8); } else if (op == 4 && ft) { double d; memcpy(&d, &q, 8); float f = (float)d; q = 0; memcpy(&q, &f, 4); } else unk(I); break; default: unk(I); } v[rd][0] = q; v[rd][1] = 0; return;
  }
  if ((I & 0xff201fe0) == 0x1e201000) { unsigned ft = I >> 22 & 3; u64 b = I >> 13 & 0xff; if (ft > 1) unk(I); v[rd][0] = ft ? movi(1, 15, b) : (u32)movi(0, 15, b); v[rd][1] = 0; return; }
  if ((I & 0xff200c00) == 0x1e200c00) { unsigned ft = I >> 22 & 3; if (ft > 1) unk(I); u64 q = cond(I >> 12 & 15) ? v[rn][0] : v[rm][0]; v[rd][0] = ft ? q : (u32)q; v[rd][1] = 0; return; }
  if ((I & 0xffe0fc00) == 0x5e000400) { unsigned i5 = rm, sz = __builtin_ctz(i5 | 16); u64 q = elem(rn, sz, i5 >> (sz + 1)); v[rd][0] = q; v[rd][1] = 0; return; }
  if ((I & 0x9fe08400) == 0x0e000400) { // copies
    bool Q = I >> 30 & 1, op = I >> 29 & 1; unsigned i5 = rm, i4 = I >> 11 & 15, sz = __builtin_ctz(i5 | 16); if (sz > 3) unk(I); unsigned n = (Q ? 16u : 8u) >> sz;
    if (op) { setelem(rd, sz, i5 >> (sz + 1), elem(rn, sz, i4 >> sz)); return; }
    switch (i4) { case 0: case 1: { u64 q = i4 ? r(rn) : elem(rn, sz, i5 >> (sz + 1)); v[rd][0] = v[rd][1] = 0; for (unsigned i = 0; i < n; i++) setelem(rd, sz, i, q); return; } case 3: setelem(rd, sz, i5 >> (sz + 1), r(rn)); return;
      case 5: { u64 q = elem(rn, sz, i5 >> (sz + 1)); unsigned b = 64 - (8u << sz); q = (u64)((i64)(q << b) >> b); w(rd, Q ? q : (u32)q); return; } case 7: w(rd, elem(rn, sz, i5 >> (sz + 1))); return; default: unk(I); }
  }
  if ((I & 0x9ff80400) == 0x0f000400) { bool Q = I >> 30 & 1, op = I >> 29 & 1; unsigned cm = I >> 12 & 15; u64 b = (I >> 11 & 0xe0) | (I >> 5 & 31), q; if (I >> 11 & 1) unk(I);
    q = movi(op, cm, b); if (cm < 12 && (cm & 1)) { u64 o0 = v[rd][0], o1 = v[rd][1]; v[rd][0] = op ? o0 & ~q : o0 | q; v[rd][1] = Q ? (op ? o1 & ~q : o1 | q) : 0; return; } if (op && cm < 14) q = ~q; v[rd][0] = q; v[rd][1] = Q ? q : 0; return; }
  if ((I & 0x9f20fc00) == 0x0e201c00) { bool Q = I >> 30 & 1; unsigned k = (I >> 29 & 1) << 2 | (I >> 22 & 3); for (int h = 0; h < 2; h++) { u64 a = v[rn][h], b = v[rm][h], d = v[rd][h], q; switch (k) { case 0: q = a & b; break; case 1: q = a & ~b; break; case 2: q = a | b; break; case 3: q = a | ~b; break; case 4: q = a ^ b; break; case 5: q = (d & a) | (~d & b); break; case 6: q = d ^ ((d ^ a) & b); break; default: q = d ^ ((d ^ a) & ~b); } if (h && !Q) q = 0; v[rd][h] = q; } return; }
  if ((I & 0xbfe08400) == 0x2e000000) { bool Q = I >> 30 & 1; unsigned p = I >> 11 & 15; u8 t[32]; memcpy(t, v[rn], Q ? 16 : 8); memcpy(t + (Q ? 16 : 8), v[rm], Q ? 16 : 8); u64 q[2] = {0, 0}; memcpy(q, t + p, Q ? 16 : 8); v[rd][0] = q[0]; v[rd][1] = q[1]; return; }
  if ((I & 0xbf208c00) == 0x0e000800) { // zip, uzp, trn
    bool Q = I >> 30 & 1; unsigned sz = I >> 22 & 3, op = I >> 12 & 7, n = (Q ? 16u : 8u) >> sz; u64 out[2] = {0, 0}; auto put = [&](unsigned i, u64 q) { memcpy((u8 *)out + (i << sz), &q, 1u << sz); };
    switch (op) { case 3: case 7: for (unsigned i = 0; i < n / 2; i++) { unsigned o = op == 7 ? n / 2 : 0; put(2 * i, elem(rn, sz, i + o)); put(2 * i + 1, elem(rm, sz, i + o)); } break; case 1: case 5: for (unsigned i = 0; i < n; i++) { unsigned s = 2 * i + (op == 5); put(i, s < n ? elem(rn, sz, s) : elem(rm, sz, s - n)); } break; case 2: case 6: for (unsigned i = 0; i < n / 2; i++) { put(2 * i, elem(rn, sz, 2 * i + (op == 6))); put(2 * i + 1, elem(rm, sz, 2 * i + (op == 6))); } break; default: unk(I); }
    v[rd][0] = out[0]; v[rd][1] = out[1]; return;
  }
  if ((I & 0x9f20fc00) == 0x0e208400 || (I & 0xff20fc00) == 0x5ee08400) { // integer vector add and subtract
    bool scalar = I >> 28 & 1, Q = I >> 30 & 1, sub = I >> 29 & 1; unsigned sz = I >> 22 & 3, n = (scalar ? 8u : Q ? 16u : 8u) >> sz; u64 out[2] = {0, 0}; for (unsigned i = 0; i < n; i++) { u64 q = sub ? elem(rn, sz, i) - elem(rm, sz, i) : elem(rn, sz, i) + elem(rm, sz, i); memcpy((u8 *)out + (i << sz), &q, 1u << sz); } v[rd][0] = out[0]; v[rd][1] = out[1]; return;
  }
  unk(I);
}
} // namespace emu
