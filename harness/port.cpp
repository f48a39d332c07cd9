// Ports for other processors: their C and assembly sources are compiled for the target and run in an instruction interpreter
// inside this process (lib/emu.hpp, lib/ports/*.hpp), so every register, the whole stack and the instruction cache are chosen and
// observed here; callees and handlers are this harness.  Oracle: a model of the target's calling convention.
#if defined PORT_RV32
#define PORT_RV64
#endif
#if defined PORT_APPLE
#define PORT_A64
#define APPLE 1
#else
#define APPLE 0
#endif
#include "types.hpp"
#if defined PORT_A64
#include "ports/a64.hpp"
#elif defined PORT_RV64
#include "ports/rv64.hpp"
#elif defined PORT_A32
#include "ports/a32.hpp"
#elif defined PORT_PPC64
#include "ports/ppc64.hpp"
#else
#include "ports/la64.hpp"
#endif
using namespace ty; using namespace emu; using pbt::fmt; using pbt::label; using pbt::fail;
static Cpu cpu; static pbt::Rng NZ(1); static const size_t WS = sizeof(word);
static void bad(const std::string &m) { pbt::err(m); }
// ---- the processor
#if defined PORT_A64
static const char *PORT = APPLE ? "AArch64 (Apple)" : "AArch64"; static int ABI_CODE = 1; enum { CHAIN = 18, MAPSHIFT = 14 }; static const bool CPLX = true, EXT = false;
static word &SP() { return cpu.sp; } static word &RA() { return cpu.x[30]; } static word &AX(int i) { return cpu.x[i]; } static u8 *AF(int i) { return (u8 *)cpu.v[i]; }
static void putf(int i, const u8 *p, size_t n) { cpu.v[i][0] = NZ.next(); cpu.v[i][1] = NZ.next(); memcpy(cpu.v[i], p, n); } static bool boxed(int) { return true; }
static std::vector<int> SX = {19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, APPLE ? 18 : 29}, SF = {8, 9, 10, 11, 12, 13, 14, 15};
static u64 XR(int i) { return cpu.x[i]; } static u64 FR(int i) { return cpu.v[i][0]; }
static void noise(bool all) { for (int i = 0; i < 31; i++) if (i != 30 && (all || i < 19 - APPLE)) cpu.x[i] = NZ.next(); for (int i = 0; i < 32; i++) { if (all || i < 8 || i > 15) cpu.v[i][0] = NZ.next(); cpu.v[i][1] = NZ.next(); } u64 f = NZ.next(); cpu.N = f & 1; cpu.Z = f & 2; cpu.C = f & 4; cpu.V = f & 8; }
#elif defined PORT_RV64
static const char *PORT = WS == 4 ? "RISC-V 32" : "RISC-V"; enum { ABI_CODE = 1, CHAIN = 7, MAPSHIFT = 12 }; static const bool CPLX = false, EXT = true;
static word &SP() { return cpu.x[2]; } static word &RA() { return cpu.x[1]; } static word &AX(int i) { return cpu.x[10 + i]; } static u8 *AF(int i) { return (u8 *)&cpu.f[10 + i]; }
static void putf(int i, const u8 *p, size_t n) { cpu.f[10 + i] = ~0ull; memcpy(&cpu.f[10 + i], p, n); } static bool boxed(int i) { return cpu.f[10 + i] >> 32 == 0xffffffff; }
static std::vector<int> SX = {3, 4, 8, 9, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27}, SF = {8, 9, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27};
static u64 XR(int i) { return cpu.x[i]; } static u64 FR(int i) { return cpu.f[i]; }
static bool saved(const std::vector<int> &v, int i) { return std::find(v.begin(), v.end(), i) != v.end(); }
static void noise(bool all) { for (int i = 3; i < 32; i++) if (all || !saved(SX, i)) cpu.x[i] = NZ.next(); for (int i = 0; i < 32; i++) if (all || !saved(SF, i)) cpu.f[i] = NZ.next(); }
#elif defined PORT_A32
static const char *PORT = "Arm"; enum { CHAIN = 12, MAPSHIFT = 12 }; static int ABI_CODE = 1, g_abi; static bool g_vfp; static const bool CPLX = true, EXT = true;
static word &SP() { return cpu.x[13]; } static word &RA() { return cpu.x[14]; } static word &AX(int i) { return cpu.x[i]; } static u8 *AF(int i) { return cpu.v + 4 * i; }
static void putf(int i, const u8 *p, size_t n) { memcpy(cpu.v + 4 * i, p, n); } static bool boxed(int) { return true; }
static std::vector<int> SX = {4, 5, 6, 7, 8, 9, 10, 11}, SF = {8, 9, 10, 11, 12, 13, 14, 15};
static u64 XR(int i) { return cpu.x[i]; } static u64 FR(int i) { u64 v; memcpy(&v, cpu.v + 8 * i, 8); return v; }
static void noise(bool all) { for (int i = 0; i < 13; i++) if (all || i < 4 || i > 11) cpu.x[i] = (u32)NZ.next(); for (int i = 0; i < 16; i++) if (all || i < 8) { u64 v = NZ.next(); memcpy(cpu.v + 8 * i, &v, 8); } u64 f = NZ.next(); cpu.N = f & 1; cpu.Z = f & 2; cpu.C = f & 4; cpu.V = f & 8; }
#elif defined PORT_PPC64
static const char *PORT = "PowerPC64"; enum { CHAIN = 11, MAPSHIFT = 16 }; static int ABI_CODE = 11; static const bool CPLX = false, EXT = true; static int g_ld; static bool g_salign = true;   // g_ld: 0 pairs of doubles, 1 double, 2 IEEE quadruple
static word &SP() { return cpu.x[1]; } static word &RA() { return cpu.lr; } static word &AX(int i) { return cpu.x[3 + i]; }
static void putf(int i, const u8 *p, size_t n) { if (n == 4) { u32 v; memcpy(&v, p, 4); cpu.f(1 + i) = Cpu::widen(v); } else memcpy(&cpu.f(1 + i), p, 8); } static bool boxed(int i) { return cpu.f(1 + i) == Cpu::widen(Cpu::narrow(cpu.f(1 + i))); }
static const u8 *AF(int i, size_t n = 8) { static u32 v[16]; if (n == 4) { v[i] = Cpu::narrow(cpu.f(1 + i)); return (u8 *)&v[i]; } return (u8 *)&cpu.f(1 + i); }
static std::vector<int> SX = {13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 100}, SF = {14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127};
static u64 XR(int i) { return i == 100 ? cpu.cr & 0x00fff000 : cpu.x[i]; } static u64 FR(int i) { return cpu.vs[i & 63][i >> 6]; }
static void noise(bool all) {
  for (int i = 0; i < 32; i++) if (i != 1 && (all || i < 13)) cpu.x[i] = NZ.next(); for (int i = 0; i < 64; i++) { bool sv = i >= 14 && (i < 32 || i >= 52); if (all || !sv) cpu.vs[i][0] = NZ.next(); if (all || i < 32 || !sv) cpu.vs[i][1] = NZ.next(); }
  u32 c = (u32)NZ.next(); cpu.cr = all ? c : (cpu.cr & 0x00fff000) | (c & ~0x00fff000u); cpu.ca = NZ.next() & 1; cpu.ctr = NZ.next();
}
#else
static const char *PORT = "LoongArch"; enum { ABI_CODE = 3, CHAIN = 14, MAPSHIFT = 16 }; static const bool CPLX = false, EXT = true;
static word &SP() { return cpu.x[3]; } static word &RA() { return cpu.x[1]; } static word &AX(int i) { return cpu.x[4 + i]; } static u8 *AF(int i) { return (u8 *)&cpu.f[i]; }
static void putf(int i, const u8 *p, size_t n) { cpu.f[i] = NZ.next(); memcpy(&cpu.f[i], p, n); } static bool boxed(int) { return true; }
static std::vector<int> SX = {2, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31}, SF = {24, 25, 26, 27, 28, 29, 30, 31};
static u64 XR(int i) { return cpu.x[i]; } static u64 FR(int i) { return cpu.f[i]; }
static bool saved(const std::vector<int> &v, int i) { return std::find(v.begin(), v.end(), i) != v.end(); }
static void noise(bool all) { for (int i = 2; i < 32; i++) if (i != 3 && (all || !saved(SX, i))) cpu.x[i] = NZ.next(); for (int i = 0; i < 32; i++) if (all || !saved(SF, i)) cpu.f[i] = NZ.next(); }
#endif
// ---- the model of the convention
struct Piece { char w; int r; u64 off; size_t vo, n; };      // w: x general register, f floating register, v vector register, s stack
struct Loc { std::vector<Piece> p; bool ref = false; };
struct Lay { std::vector<Loc> a; Loc ret; bool sret = false; u64 stack = 0; };
static void words(Loc &l, int &g, u64 &st, size_t n, int maxsplit) { for (size_t o = 0; o < n; o += WS) { size_t k = std::min<size_t>(WS, n - o); if (g < 8) l.p.push_back({'x', g++, 0, o, k}); else { l.p.push_back({'s', 0, st, o, k}); st += WS; } } }
#if defined PORT_A64 || defined PORT_A32
static int hfa(const Ty *t) { size_t n = t->flat.size(); if (!n || n > 4) return 0; for (auto &s : t->flat) if (!is_fp(s.k) || s.k != t->flat[0].k) return 0; return (int)n; }
#endif
#if defined PORT_A32
static bool one(Loc &l, const Ty *t, int &g, int &f, u64 &st, bool, bool ret) {   // f: bits 0-15 the floating registers taken, bit 16 no more are to be used
  int n = g_vfp ? hfa(t) : 0; size_t z = (t->size + 3) & ~(size_t)3; u64 al = t->align >= 8 ? 8 : 4;
  if (n) { int k = (int)SZ[t->flat[0].k] / 4; for (int r = 0; !(f >> 16) && r + n * k <= 16; r += k) { int m = ((1 << n * k) - 1) << r; if (f & m) continue; f |= m; for (auto &s : t->flat) { l.p.push_back({'f', r, 0, s.off, SZ[s.k]}); r += k; } return true; } f |= 1 << 16; }
  else {
    if (ret && (t->k == ST || t->k == CX) && t->size > 4) return false;
    if (al == 8 && !ret) g = (g + 1) & ~1; int w = (int)z / 4;
    if (g < 4 && (g + w <= 4 || !st)) { for (u64 o = 0; o < z; o += 4) if (g < 4) l.p.push_back({'x', g++, 0, o, (size_t)std::min<u64>(4, t->size - o)}); else { l.p.push_back({'s', 0, st, o, (size_t)std::min<u64>(4, t->size - o)}); st += 4; } return true; } g = 4;
  }
  st = (st + al - 1) & ~(al - 1); l.p.push_back({'s', 0, st, 0, t->size}); st += z; return true;
}
#elif defined PORT_PPC64
// Every argument has doublewords of the parameter area, the first eight of which are r3-r10; floating values that are not
// variadic travel in f1-f13 (or v2-v13) instead, as long as there are any.   g: doublewords, f: floating registers, st: vector registers, bit 32: the area is needed
static void dwords(Loc &l, u64 at, size_t vo, size_t n, u64 &st) { while (n) { size_t k = std::min<size_t>(n, 8 - at % 8); if (at < 64) l.p.push_back({'x', (int)(at / 8), at % 8, vo, k}); else { l.p.push_back({'s', 0, 32 + at, vo, k}); st |= 1ull << 32; } at += k; vo += k; n -= k; } }
static bool one(Loc &l, const Ty *t, int &g, int &f, u64 &st, bool var, bool ret) {
  auto kind = [](K k) { return k == LD && g_ld == 1 ? D : k; }; size_t n = t->flat.size(), z = t->size; bool h = n; for (auto &s : t->flat) h &= is_fp(s.k) && kind(s.k) == kind(t->flat[0].k);
  K k = h ? kind(t->flat[0].k) : VOID; if (k == LD && !g_ld) n *= 2; if (n > 8) h = false; size_t e = h ? z / n : 0;
  if (ret && !h && t->k == ST && z > 16) return false;
  if (h ? k == LD && g_ld == 2 && (g_salign || t->k != ST) : t->k == ST && t->align >= 16 && g_salign) g = (g + 1) & ~1;
  if (h) for (size_t i = 0; i < n; i++) { if (e == 16 && !var && (u32)st < 12) l.p.push_back({'v', (int)(u32)st++, 0, i * 16, 16}); else if (e < 16 && !var && f < 13) l.p.push_back({'f', f++, 0, i * e, e}); else dwords(l, g * 8 + i * e, i * e, e, st); }
  else dwords(l, g * 8, 0, z, st);
  g += (int)((z + 7) / 8); return true;
}
#elif defined PORT_A64
// FFI_WIN64 is the same, but arguments of variadic functions, fixed ones too, never travel in vector registers
static bool g_wvar, g_straddle;
static bool one(Loc &l, const Ty *t, int &g, int &f, u64 &st, bool var, bool ret) {
#if APPLE
  // arguments on the stack are packed there according to their own alignment, structures that are no homogeneous aggregates have whole words; what is variadic is on the stack, in words
  if (var) g = f = 8;
#endif
  if (int n = g_wvar && !ret ? 0 : hfa(t)) { if (f + n <= 8) { for (auto &s : t->flat) l.p.push_back({'f', f++, 0, s.off, SZ[s.k]}); return true; } f = 8; }
  else {
    u64 z = t->size; if (z > 16) { l.ref = true; z = 8; if (ret) return false; } int k = (int)(z + 7) / 8;
    if (g + k <= 8) { for (u64 o = 0; o < z; o += 8) l.p.push_back({'x', g++, 0, o, (size_t)std::min<u64>(8, z - o)}); return true; } g_straddle |= g < 8; g = 8;    // Windows splits such a structure, clang's ms_abi does not
    if (l.ref) { st = (st + 7) & ~7ull; l.p.push_back({'s', 0, st, 0, 8}); st += 8; return true; }
  }
  bool words = !APPLE || var || (!is_int(t->k) && !hfa(t)); u64 al = words ? std::max<u64>(8, t->align) : t->align; st = (st + al - 1) & ~(al - 1); l.p.push_back({'s', 0, st, 0, t->size}); st += words ? (t->size + 7) & ~7ull : t->size; return true;
}
#else
static int g_fpregs = 2;   // 0: the soft-float convention, 1: float only, 2: float and double
static bool one(Loc &l, const Ty *t, int &g, int &f, u64 &st, bool var, bool ret) {
  auto fp = [](K k) { return (k == F && g_fpregs) || (k == D && g_fpregs == 2); }; auto in = [](K k) { return is_int(k) && k != PTR && SZ[k] <= WS; };
  if (!var && !t->flat.empty() && t->flat.size() <= 2) { // one or two members of which one is floating: in registers of their own
    const Scal &a = t->flat[0], &b = t->flat.back(); bool two = t->flat.size() == 2; int nf = fp(a.k) + (two && fp(b.k)), ni = two ? in(a.k) + in(b.k) : 0;
    if (nf && nf + ni == (int)t->flat.size() && f + nf <= 8 && g + ni <= 8) { for (auto &s : t->flat) if (fp(s.k)) l.p.push_back({'f', f++, 0, s.off, SZ[s.k]}); else l.p.push_back({'x', g++, 0, s.off, SZ[s.k]}); return true; }
  }
  size_t n = t->size, al = t->align; if (n > 2 * WS) { l.ref = true; if (ret) return false; n = al = WS; }
  if (al > WS) { if (var) g = (g + 1) & ~1; if (g >= 8) st = (st + 2 * WS - 1) & ~(u64)(2 * WS - 1); }
  words(l, g, st, n, 0); return true;
}
#endif
static Lay layout(const Sig &sig) {
  Lay l; int g = 0, f = 0; u64 st = 0;
#if defined PORT_A32
  g_vfp = ABI_CODE == 2 && sig.nfixed < 0;
#endif
#if defined PORT_A64
  g_wvar = ABI_CODE == 2 && sig.nfixed >= 0; g_straddle = false;
#endif
  if (sig.ret->k != VOID) { int a = 0, b = 0; u64 c = 0; l.sret = !one(l.ret, sig.ret, a, b, c, false, true); }
#if !defined PORT_A64
  if (l.sret) g = 1;
#endif
  for (size_t i = 0; i < sig.args.size(); i++) { Loc q; one(q, sig.args[i], g, f, st, sig.nfixed >= 0 && (int)i >= sig.nfixed, false); l.a.push_back(q); }
#if defined PORT_PPC64
  l.stack = 32 + ((st >> 32) || sig.nfixed >= 0 ? 8 * std::max(8, g) : 0); return l;
#endif
#if defined PORT_A64
  if (g_wvar && g_straddle) { l.stack = ~0ull; return l; }
#endif
  l.stack = WS == 4 ? st : (st + 15) & ~15ull; return l;
}
#if defined PORT_A64 || defined PORT_A32 || defined PORT_PPC64
static u64 fsaved() { return ~0ull; }
#else
static u64 fsaved() { return g_fpregs == 2 ? ~0ull : g_fpregs ? 0xffffffff : 0; }   // what the convention preserves of a floating register
#endif
static u64 widen(const Ty *t, const u8 *p) { u64 v = 0; memcpy(&v, p, std::min<size_t>(8, t->size)); switch (t->k) { case S8: return (i64)(int8_t)v; case S16: return (i64)(int16_t)v; case S32: return (i64)(i32)v; default: return v; } }
static bool isword(const Ty *t) { return is_int(t->k) && t->size <= WS; }      // an integer result that is stored as a whole word
#if defined PORT_PPC64
static word regext(const Ty *t, const u8 *p) { return widen(t, p); }
static size_t aln(const Ty *t) { return g_ld == 2 ? t->align : std::min<size_t>(t->align, 8); }    // long doubles that are pairs of doubles travel in doublewords
#else
static size_t aln(const Ty *t) { return t->align; }
static word regext(const Ty *t, const u8 *p) { return t->k == U32 ? (u64)(i64)(i32)widen(t, p) : widen(t, p); }   // as RISC-V and LoongArch hold it in a register
#endif
// ---- memory
static u8 *ARENA, *STK, *ONE, *DW, *DX, *CODETAB; static const u64 AR = WS == 4 ? 0x40000000 : 0x2000000000ull, STA = WS == 4 ? 0x48000000 : 0x2100000000ull, GD = WS == 4 ? 0x50000000 : 0x2200000000ull, CP = WS == 4 ? 0x60000000 : 0x2300000000ull; static const size_t ARN = 64u << 20, STN = 8u << 20, NG = 24, GPG = 72; static size_t used, gused;
static void *at_(u64 a, size_t n, int prot, int fd = -1) { void *p = mmap((void *)a, n, prot, (fd < 0 ? MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE : MAP_SHARED) | MAP_FIXED_NOREPLACE, fd, 0); if (p == MAP_FAILED) { perror("mapping"); _exit(3); } return p; }
template <class T> static T *at(u64 a) { return (T *)a; } static u64 ad(const void *p) { return (u64)p; }
static u8 *get(size_t n, size_t align = 16) { used = (used + align - 1) / align * align + 16; u8 *p = ARENA + used; used += n + 16; if (used > ARN) { fprintf(stderr, "arena full\n"); _exit(3); } return p; }
static u8 *guarded(size_t n) { if (gused >= NG || n > GPG * 4096) return get(n); return at<u8>(GD + (gused++ * (GPG + 1) + GPG) * 4096 - n); }
static std::string g_img, g_mode = "call,closure"; static bool g_bti;
static void host(int);
#if APPLE
// ---- the system below the tables of trampolines: a heap whose blocks end at a page's end and vanish when they are freed, pages, a lock
static const u64 HP = 0x2400000000ull, HPN = 1u << 30, VMB = 0x2500000000ull, VMN = 256u << 20; enum { NTHR = 3 };
struct Blk { u64 a, n, base, len; }; struct Vm { u64 a, n; bool mapped, exec; };
static std::map<u64, Blk> BL; static std::map<u64, Vm> VMS; static u64 hused, vused, PG; static long g_fault, g_calls; static u64 LOCKED; static int HOLDER; static bool g_table, g_hit; static std::vector<std::pair<u64, std::vector<u8>>> DATA0; static int g_thr;
static void system_reset() {   // as when the program starts
  if (!PG) { at_(HP, HPN, PROT_READ | PROT_WRITE); at_(VMB, VMN, PROT_READ | PROT_WRITE); PG = *at<u32>(sym("shim_page")); }
  for (auto &d : DATA0) memcpy((void *)d.first, d.second.data(), d.second.size());
  for (size_t i = 0; i < CODE.size();) if (CODE[i].a >= VMB && CODE[i].a < VMB + VMN) CODE.erase(CODE.begin() + i); else i++;
  if (hused) { mprotect((void *)HP, hused, PROT_READ | PROT_WRITE); madvise((void *)HP, hused, MADV_DONTNEED); } if (vused) { mprotect((void *)VMB, vused, PROT_READ | PROT_WRITE); madvise((void *)VMB, vused, MADV_DONTNEED); }
  BL.clear(); VMS.clear(); hused = vused = 0; g_fault = 0; g_calls = 0; LOCKED = 0; g_hit = false;
}
static bool faulty() { g_calls++; if (g_fault && !--g_fault) { g_hit = true; return true; } return false; }
static Vm *region(u64 a, u64 n) { for (auto &v : VMS) if (a >= v.second.a && a + n <= v.second.a + v.second.n) return &v.second; return nullptr; }
static void table_handler();
static void system_(int g) {
  u64 ra = RA(), a0 = AX(0), a1 = AX(1), a2 = AX(2), a3 = AX(3), a4 = AX(4), r = 0;
  if (g == G_MALLOC) { if (!faulty()) { u64 len = (a0 + 8 + 4095) & ~4095ull; if (hused + len > HPN) { fprintf(stderr, "heap full\n"); _exit(3); } u64 base = HP + hused; hused += len; r = (base + len - a0) & ~7ull; if (a1) memset((void *)r, 0, a0); else for (u64 i = 0; i < a0; i++) at<u8>(r)[i] = (u8)NZ.next(); BL[r] = {r, a0, base, len}; } }
  else if (g == G_FREE) { if (a0) { auto i = BL.find(a0); if (i == BL.end()) { bad(fmt("free(%lx), which is no block", a0)); return; } mprotect((void *)i->second.base, i->second.len, PROT_NONE); BL.erase(i); } }
  else if (g == G_VMALLOC) { if (faulty()) r = 3; else { if (!a2 || !(a3 & 1)) { bad("vm_allocate of nothing or at a fixed address"); return; } u64 z = vused ? 0 : 0; (void)z; u64 al = std::max<u64>(PG, 4096), p = VMB + ((vused + al - 1) / al * al); vused = p - VMB + ((a2 + 4095) & ~4095ull) + 4096; if (vused > VMN) { fprintf(stderr, "pages full\n"); _exit(3); } memset((void *)p, 0, a2); VMS[p] = {p, a2, false, false}; st<u64>(a1, p); } }
  else if (g == G_VMDEALLOC) { auto i = VMS.find(a1); if (i == VMS.end() || i->second.n != a2) { bad(fmt("vm_deallocate(%lx, %lu), which are no pages", a1, a2)); return; } for (size_t k = 0; k < CODE.size();) if (CODE[k].a >= a1 && CODE[k].a < a1 + a2) CODE.erase(CODE.begin() + k); else k++; mprotect((void *)a1, (a2 + 4095) & ~4095ull, PROT_NONE); VMS.erase(i); }
  else if (g == G_VMPROTECT) { if (faulty()) r = 2; else { Vm *v = region(a1, a2); if (!v || !v->mapped || a4 != 5 && a4 != 7) { bad("vm_protect of something else"); return; } v->exec = true; add_code(at<void>(a1), a2); flush(a1, a1 + a2); } }
  else { if (g == G_VMREMAP) { if (faulty()) r = 3; else { u64 p = ld<u64>(a0); Vm *v = region(p, a1); if (!v || p != v->a + PG || a1 != PG || a2 != sym("ffi_closure_trampoline_table_page")) { bad("vm_remap of something else"); return; } memcpy(at<void>(p), at<void>(a2), a1); v->mapped = true; v->exec = NZ.below(2); if (PG >= 4096) mprotect(at<void>(p), a1, PROT_READ); st<u32>(a3, v->exec ? 5 : 1); st<u32>(a4, 7); if (v->exec) { add_code(at<void>(p), a1); flush(p, p + a1); } } }
    else if (g == G_LOCK) { if (LOCKED) { bad("the lock is taken twice"); return; } LOCKED = a0; HOLDER = g_thr; } else if (g == G_UNLOCK) { if (LOCKED != a0 || HOLDER != g_thr) { bad("a lock that is not held is released"); return; } LOCKED = 0; } }
  noise(false); RA() = ra; AX(0) = r; { u8 *sp = at<u8>(SP()); for (int i = 8; i <= 256; i += 8) { u64 v = NZ.next(); memcpy(sp - i, &v, 8); } }
}
#endif
static void load_all() {
  static bool done; if (done) return; done = true; emu::load(g_img); cpu.host = host;
#if APPLE
  for (auto &s : SEGS) if (s.w) DATA0.push_back({s.a, std::vector<u8>((u8 *)s.a, (u8 *)s.z)});
#endif

  ARENA = (u8 *)at_(AR, ARN, PROT_READ | PROT_WRITE); STK = (u8 *)at_(STA, STN, PROT_READ | PROT_WRITE); for (size_t i = 0; i < NG; i++) at_(GD + i * (GPG + 1) * 4096, GPG * 4096, PROT_READ | PROT_WRITE);
  ONE = (u8 *)at_(CP, 4096, PROT_READ | PROT_WRITE); add_code(ONE, 4096);
  int fd = memfd_create("dual", 0); if (ftruncate(fd, 4096)) _exit(3); DW = (u8 *)at_(CP + 0x10000, 4096, PROT_READ | PROT_WRITE, fd); DX = (u8 *)at_(CP + 0x20000, 4096, PROT_READ, fd); close(fd); add_code(DX, 4096);
#if defined PORT_A64
  cpu.bti = cpu.pac = g_bti;
#endif
}
// ---- running code of the image
static const size_t PAD = 96; static u64 ENTRYSP, X18;
#if defined PORT_PPC64
static const size_t HEAD = 32;   // back chain, condition and link register of the callee, r2
#else
static const size_t HEAD = 0;
#endif
static void enter(u64 target, const std::vector<u8> &img, u64 argbytes, const char *what, int bt) {   // img: what lies at the stack pointer, and PAD bytes of the caller's frame
  u8 *sp = STK + STN - 8192 - ((img.size() + 15) & ~15ull); memcpy(sp, img.data(), img.size()); SP() = ad(sp); RA() = gate(G_RETURN); ENTRYSP = ad(sp);
#if defined PORT_PPC64
  cpu.x[12] = target;
#endif
#if APPLE
  X18 = cpu.x[18];
#endif
  std::vector<u64> kx, kf; for (int i : SX) kx.push_back(XR(i)); for (int i : SF) kf.push_back(FR(i));
  cpu.run(target, bt);
  for (size_t i = 0; i < SX.size(); i++) if (XR(SX[i]) != kx[i]) bad(fmt("%s: register %d was not preserved: %lx became %lx", what, SX[i], kx[i], XR(SX[i])));
  for (size_t i = 0; i < SF.size(); i++) if ((FR(SF[i]) ^ kf[i]) & fsaved()) bad(fmt("%s: floating register %d was not preserved", what, SF[i]));
  if (SP() != ad(sp)) bad(fmt("%s: the stack pointer changed by %ld", what, SP() - ad(sp)));
  if (memcmp(sp + argbytes, img.data() + argbytes, img.size() - argbytes)) bad(fmt("%s: the caller's frame was modified", what));
#if defined PORT_PPC64
  if (memcmp(sp, img.data(), 8) || memcmp(sp + 24, img.data() + 24, 8)) bad(fmt("%s: the header of the caller's frame was modified", what));
#endif
}
#if defined PORT_A32
static const size_t NREG = 4;
#else
static const size_t NREG = 8;
#endif
static u64 calla(u64 fn, const char *what, std::vector<u64> a) { size_t k = a.size() > NREG ? ((a.size() - NREG) * WS + 15) & ~15ull : HEAD; std::vector<u8> img(PAD + k); for (auto &b : img) b = (u8)NZ.next(); noise(true); for (size_t i = 0; i < a.size(); i++) if (i < NREG) AX((int)i) = (word)a[i]; else { word w = (word)a[i]; memcpy(&img[(i - NREG) * WS], &w, WS); } enter(fn, img, k, what, 2); return AX(0); }
static u64 callc(const char *fn, std::vector<u64> a) { return calla(sym(fn), fn, a); }
static u64 status(const char *fn, std::vector<u64> a) { return (u32)callc(fn, a); }
// ---- descriptions
struct GCif { u32 abi, nargs; word args, ret; u32 bytes, flags; u32 extra[8]; }; struct GTy { word size; unsigned short alignment, type; word elements; };
static std::map<const ffi_type *, u64> TM;
static u64 builtin_(const ffi_type *f) {
  static std::map<const ffi_type *, u64> m; if (m.empty()) {
    static const char *N[] = {"ffi_type_uint8", "ffi_type_sint8", "ffi_type_uint16", "ffi_type_sint16", "ffi_type_uint32", "ffi_type_sint32", "ffi_type_uint64", "ffi_type_sint64", "ffi_type_pointer", "ffi_type_float", "ffi_type_double", "ffi_type_longdouble"};
    for (int k = 0; k <= LD; k++) m[builtin((K)k)] = sym(N[k], k == LD); m[&ffi_type_void] = sym("ffi_type_void"); if (CPLX) { m[&ffi_type_complex_float] = sym("ffi_type_complex_float"); m[&ffi_type_complex_double] = sym("ffi_type_complex_double"); m[&ffi_type_complex_longdouble] = sym("ffi_type_complex_longdouble", true); } }
  auto i = m.find(f); return i == m.end() ? 0 : i->second;
}
static u64 conv(const Ty *t) {
  if (u64 b = builtin_(t->ft)) return b; auto i = TM.find(t->ft); if (i != TM.end()) return i->second;
  GTy *p = (GTy *)get(sizeof *p, 8); p->size = (word)t->size; p->alignment = (unsigned short)t->align; p->type = ftcode(t->k); p->elements = 0; std::vector<word> e;
  if (t->k == ST) { p->size = p->alignment = 0; for (Ty *x : t->el) e.push_back((word)conv(x)); e.push_back(0); } if (t->k == CX) e = {(word)builtin_(builtin(t->base)), 0};
  if (!e.empty()) { word *v = (word *)get(e.size() * WS, 8); memcpy(v, e.data(), e.size() * WS); p->elements = (word)ad(v); } return TM[t->ft] = ad(p);
}
// ---- one case
enum Mode { CALL, CLOSURE, GOCALL, GOCLOSURE, RAWCALL, RAWCLOSURE, LAYOUT, COMPILED, TABLE, THREADS, NMODES }; static const char *MN[] = {"call", "closure", "gocall", "goclosure", "rawcall", "rawclosure", "layout", "compiled", "table", "threads"}; static std::vector<int> modes; static bool g_var;
static struct { int mode; Sig *g; Lay L; std::vector<std::vector<u8>> val; std::vector<u8> ret; u64 rv, cif, ud, ctx; int count; bool scribble, have_rv; u64 seed; std::vector<std::pair<u64, u64>> own; } C;
static void fetch_(const Loc &l, const u8 *sp, u8 *out) { u8 t[16]; for (auto &p : l.p) { 
#if defined PORT_PPC64
    const u8 *q = p.w == 'x' ? (u8 *)&AX(p.r) + p.off : p.w == 'f' ? AF(p.r, p.n) : p.w == 'v' ? (u8 *)cpu.vs[34 + p.r] : sp + p.off;
#else
    const u8 *q = p.w == 'x' ? (u8 *)&AX(p.r) : p.w == 'f' ? AF(p.r) : sp + p.off;
#endif
     memcpy(out + p.vo, q, p.n); } (void)t; }
static void place(const Loc &l, const u8 *v, const Ty *t, u8 *sp, bool ref) {
  for (auto &p : l.p) {
    if (p.w == 'f') { putf(p.r, v + p.vo, p.n); continue; }
#if defined PORT_PPC64
    if (p.w == 'v') { memcpy(cpu.vs[34 + p.r], v + p.vo, 16); continue; } if (!is_int(t->k)) { memcpy(p.w == 'x' ? (u8 *)&AX(p.r) + p.off : sp + p.off, v + p.vo, p.n); continue; }
#endif
    word w = (word)NZ.next(); memcpy(&w, v + p.vo, std::min<size_t>(WS, p.n)); if (EXT && !ref && is_int(t->k) && t->size < WS) w = regext(t, v); if (APPLE && !ref && is_int(t->k) && t->size < 4 && p.w == 'x') { u32 k = (u32)widen(t, v); memcpy(&w, &k, 4); }
    if (p.w == 'x') AX(p.r) = w; else { if (p.n < WS) memcpy(sp + p.off, &w, APPLE ? p.n : WS); else memcpy(sp + p.off, v + p.vo, p.n); }
  }
}
static void dirty() { u8 *sp = at<u8>(SP()); size_t n = std::min<size_t>(3000, sp - STK); for (size_t i = 8; i <= n; i += 8) { u64 v = NZ.next(); memcpy(sp - i, &v, 8); } }
static void leave(u64 ra) { noise(false); RA() = ra; dirty(); }
static void callee() {
  C.count++; Sig &g = *C.g; u8 *sp = at<u8>(SP()); std::string why; std::vector<u8 *> copy(g.args.size(), nullptr);
  for (size_t i = 0; i < g.args.size(); i++) {
    Ty *t = g.args[i]; Loc &l = C.L.a[i]; std::vector<u8> v(t->size + 16); u8 *q = v.data();
    if (l.ref) { u64 p = 0; fetch_(l, sp, (u8 *)&p); if (p % t->align) bad(fmt("the copy of argument %zu (%s) is misaligned: %lx", i, name(t).c_str(), p)); q = copy[i] = at<u8>(p); if (!p) { bad(fmt("argument %zu is passed as a null reference", i)); break; } } else fetch_(l, sp, q);
    if (!same(t, C.val[i].data(), q, &why)) { bad(fmt("argument %zu (%s) arrived wrong: ", i, name(t).c_str()) + why); break; }
    if (!l.ref) for (auto &p : l.p) { word w; memcpy(&w, p.w == 's' ? sp + p.off : (u8 *)&AX(p.w == 'x' ? p.r : 0), WS); if (EXT && is_int(t->k) && t->size < WS && w != regext(t, C.val[i].data())) bad(fmt("argument %zu (%s) is not extended: %lx", i, name(t).c_str(), (u64)w)); if (APPLE && is_int(t->k) && t->size < 4 && p.w == 'x' && (u32)w != (u32)widen(t, C.val[i].data())) bad(fmt("argument %zu (%s) is not extended to 32 bits: %lx", i, name(t).c_str(), (u64)w)); if (p.w == 'f' && p.n == 4 && !boxed(p.r)) bad(fmt("argument %zu is not NaN-boxed", i)); }
  }
  if (!pbt::g_err.empty()) return;
  u64 sret = 0;
#if defined PORT_A64
  if (C.L.sret) sret = cpu.x[8];
#else
  if (C.L.sret) sret = AX(0);
#endif
  if (C.L.sret && (C.have_rv ? sret != C.rv : !sret || sret % aln(C.g->ret))) { bad(fmt("the result address passed is %lx, the caller's object is at %lx", sret, C.rv)); return; }
  if (C.mode == GOCALL && XR(CHAIN) != C.ctx) bad(fmt("static chain register holds %lx, expected %lx", XR(CHAIN), C.ctx));
  if (C.scribble) { // stacked arguments and copies belong to the callee
    for (u64 i = HEAD; i < C.L.stack; i++) sp[i] = (u8)NZ.next();
    pbt::Rng a(C.seed), b(C.seed); for (size_t i = 0; i < copy.size(); i++) if (copy[i]) for (size_t k = 0; k < g.args[i]->size; k++) copy[i][k] = (u8)a.next();
    for (size_t i = 0; i < copy.size(); i++) if (copy[i]) for (size_t k = 0; k < g.args[i]->size; k++) if (copy[i][k] != (u8)b.next()) { bad(fmt("the copy of argument %zu shares memory with another one", i)); i = copy.size() - 1; break; }
  }
  if (C.L.sret) { for (u64 k = 0; k < C.g->ret->size; k++) at<u8>(sret)[k] = C.ret[k]; }
  leave(RA()); if (C.g->ret->k != VOID && !C.L.sret) place(C.L.ret, C.ret.data(), C.g->ret, nullptr, false);
#if !defined PORT_A64
  if (C.L.sret && WS == 8) AX(0) = (word)sret;
#endif
}
static void handler() {
  C.count++; Sig &g = *C.g; std::string why; u64 ra = RA(); if (AX(0) != C.cif) bad("the handler got another interface"); if (AX(3) != C.ud) bad(fmt("the handler got user datum %lx, expected %lx", AX(3), C.ud));
  u64 ret = AX(1); word *av = at<word>(AX(2)); std::vector<u64> slot; { u64 s = 0; for (auto t : g.args) { slot.push_back(s); s += t->k == ST || t->k == CX ? 1 : (t->size + WS - 1) / WS; } }
  auto where = [&](size_t i) -> u8 * { if (C.mode != RAWCLOSURE) return at<u8>(av[i]); Ty *t = g.args[i]; return t->k == ST || t->k == CX ? at<u8>(av[slot[i]]) : (u8 *)(av + slot[i]); };
  for (size_t i = 0; i < g.args.size(); i++) { Ty *t = g.args[i]; u8 *p = where(i); if (C.mode != RAWCLOSURE && ad(p) % aln(t)) bad(fmt("handler: argument %zu (%s) is misaligned", i, name(t).c_str())); if (!same(t, C.val[i].data(), p, &why)) { bad(fmt("handler: argument %zu (%s) wrong: ", i, name(t).c_str()) + why); break; } }
  if (!pbt::g_err.empty()) return;
  Ty *t = g.ret; if (C.L.sret && C.have_rv && ret != C.rv) { bad(fmt("the handler's result address is %lx, the caller's is %lx", ret, C.rv)); return; } if (t->k != VOID && ret % aln(t)) bad("the handler's result memory is misaligned");
  if (C.scribble) for (size_t i = 0, s = C.seed; i < g.args.size(); i++) { pbt::Rng a(s + i); u8 *p = where(i); for (size_t k = 0; k < g.args[i]->size; k++) p[k] = (u8)a.next(); }
  if (t->k != VOID) { if (isword(t)) *at<word>(ret) = (word)widen(t, C.ret.data()); else memcpy(at<u8>(ret), C.ret.data(), t->size); }
  if (C.scribble) for (size_t i = 0, s = C.seed; i < g.args.size(); i++) { pbt::Rng a(s + i); u8 *p = where(i); for (size_t k = 0; k < g.args[i]->size; k++) if (p[k] != (u8)a.next()) { bad(fmt("argument %zu shares memory with another one or with the result", i)); i = g.args.size() - 1; break; } }
  leave(ra);
}
static void host(int g) {
#if APPLE
  if (cpu.x[18] != X18) bad("x18, which belongs to the system, was changed"); if (g >= G_MALLOC) { system_(g); pbt::raise_err(); return; } if (g == G_HANDLER && g_table) { table_handler(); pbt::raise_err(); return; }
#endif
#if defined PORT_PPC64
  if (cpu.x[12] != gate(g)) bad(fmt("r12 is %lx at the entry of a function reached through a pointer", cpu.x[12]));
  { u64 p = SP(); int n = 0; while (p != ENTRYSP && p < ENTRYSP && !(p & 15) && n++ < 1000) { u64 q = ld<u64>(p); if (q <= p) break; p = q; } if (p != ENTRYSP) bad("the chain of stack frames is broken"); }
  for (int i = 8; i < 24; i++) at<u8>(SP())[i] = (u8)NZ.next();     // where a callee saves the condition and link registers
#endif
  if (g == G_FLUSH) { flush(AX(0), AX(1)); leave(RA()); } else if (g == G_ABORT) fail("abort() was called"); else if (g == G_CALLEE) callee(); else handler();
  pbt::raise_err();
}
static void layout_check(Pool &P, pbt::Src &s) {
  Ty *t = P.gen_struct(s, 3); u64 f = conv(t); u32 n = (u32)t->el.size(); pbt::describe(fmt("layout of %s\n", name(t).c_str())); pbt::nontrivial(thash(t)); pbt::sample(name(t)); label("layout");
  word *off = (word *)get(WS * n + WS, 8); off[n] = 0x5a5a5a5a; bool null = s.chance(1, 5); u64 st = status("ffi_get_struct_offsets", {(u64)ABI_CODE, f, null ? 0 : ad(off)}); if (st) fail(fmt("ffi_get_struct_offsets: status %lu", st));
  GTy *d = at<GTy>(f); if (d->size != t->size || d->alignment != t->align) fail(fmt("size %zu alignment %u, expected %zu %zu", (size_t)d->size, d->alignment, t->size, t->align));
  if (!null) { for (u32 i = 0; i < n; i++) if (off[i] != t->off[i]) fail(fmt("member %u at offset %lu, expected %zu", i, (u64)off[i], t->off[i])); if (off[n] != 0x5a5a5a5a) fail("an offset was stored beyond the last member"); }
}
static u64 make_closure(pbt::Src &s, int mode) {
#if APPLE
  system_reset(); u64 *pc = (u64 *)get(8, 8); *pc = 0; u64 raw = mode == RAWCLOSURE ? 16 : 0, w = callc("ffi_closure_alloc", {*at<u32>(sym("shim_closure")) + raw + s.below(40), ad(pc)}); if (!w || !*pc) fail("no closure could be allocated"); label("trampoline table");
  u64 e = status(mode == CLOSURE ? "ffi_prep_closure_loc" : "ffi_prep_raw_closure_loc", {w, C.cif, gate(G_HANDLER), C.ud, *pc}); if (e) fail(fmt("preparing the closure: status %lu", e)); return *pc;
#endif
    int kind = (int)s.below(4); u64 code, q; static unsigned t1, t2, t3; word *sim = at<word>(sym("shim_static")), *delta = at<word>(sym("shim_delta")); u64 table = 0; *sim = 0; *delta = 0;
    if (u64 f = sym("shim_arch", true)) { callc("shim_arch", {}); table = *at<word>(sym("shim_table")); size_t ms = *at<word>(sym("shim_map_size")); if (ms != 1u << MAPSHIFT) fail("unexpected size of the trampoline table"); if (!CODETAB) { CODETAB = (u8 *)at_(CP + 0x40000, 2 * ms, PROT_READ | PROT_WRITE); memcpy(CODETAB, at<u8>(table), ms); mprotect(CODETAB, ms, PROT_READ); add_code(CODETAB, ms); flush_all(); for (u8 *p : {ONE, DX}) stale(ad(p), 4096); } }
    if (kind == 3 && !table) kind = 0;
    if (mode == GOCLOSURE) { word *gc = (word *)get(3 * WS, 8); if (u64 x = status("ffi_prep_go_closure", {ad(gc), C.cif, gate(G_HANDLER)})) fail(fmt("ffi_prep_go_closure: status %lu", x)); code = gc[0]; C.ud = ad(gc); label("go closure"); }
    else {
      u8 *w, *x; auto page = [&](u8 *pg, unsigned &turn) { u8 *p = pg + 128 * (turn++ % 32); memset(p, 0xcc, 128); return p + 32; };
      if (kind <= 1) { w = x = page(ONE, t1); stale(ad(x) & ~127ull, 128); } else if (kind == 2) { w = page(DW, t2); x = DX + (w - DW); *delta = x - w; stale(ad(x) & ~127ull, 128); } else { w = get(128, 8); memset(w, 0xcc, 128); u64 tsz = *at<word>(sym("shim_tramp_size")); unsigned k = t3++ % ((1u << MAPSHIFT) / tsz); x = CODETAB + k * tsz; *sim = ad(CODETAB + (1u << MAPSHIFT) + k * tsz); }
      label(kind == 3 ? "static trampoline" : kind == 2 ? "dual mapping" : "single mapping"); code = ad(x);
      q = status(mode == CLOSURE ? "ffi_prep_closure_loc" : "ffi_prep_raw_closure_loc", {ad(w), C.cif, gate(G_HANDLER), C.ud, ad(x)}); if (q) fail(fmt("preparing the closure: status %lu", q));
    }
    return code;
}
#if APPLE
// ---- histories of the closure allocator
struct Live { u64 w, code, size, ud, fill; int cif; bool prep, busy; }; static std::vector<Live> LV; static size_t PEAK; static u64 CIFS[3], T_cif, T_ud; static int T_count, T_kind; static u64 T_arg[4], T_ret;
static void table_handler() {
  T_count++; u64 ra = RA(), ret = AX(1); if (AX(0) != T_cif) bad("the handler got another interface"); if (AX(3) != T_ud) bad(fmt("the handler got user datum %lx, expected %lx", AX(3), T_ud)); if (!pbt::g_err.empty()) return;
  word *av = at<word>(AX(2)); if (T_kind == 0) { if (*at<u64>(av[0]) != T_arg[0]) bad("the handler got a wrong argument"); } else if (T_kind == 1) { if (*at<u64>(av[0]) != T_arg[0] || *at<u64>(av[1]) != T_arg[1]) bad("the handler got a wrong argument"); }
  if (T_kind < 2) *at<u64>(ret) = T_ret; noise(false); RA() = ra;
}
static void table_cifs() {
  u64 ty[3][2] = {{sym("ffi_type_uint64"), 0}, {sym("ffi_type_double"), sym("ffi_type_uint64")}, {0, 0}}; u64 rt[3] = {sym("ffi_type_uint64"), sym("ffi_type_double"), sym("ffi_type_void")}; u32 n[3] = {1, 2, 0};
  for (int i = 0; i < 3; i++) { u64 *v = (u64 *)get(16, 8); memcpy(v, ty[i], 16); GCif *c = (GCif *)get(sizeof(GCif), 8); CIFS[i] = ad(c); if (status("ffi_prep_cif", {CIFS[i], (u64)ABI_CODE, n[i], rt[i], ad(v)})) fail("ffi_prep_cif"); }
}
static u64 entries() { return PG / 16; }
static void check_live() {   // each in the trampoline half of mapped pages, all different
  std::vector<u64> c; for (auto &l : LV) { Vm *v = region(l.code, 16); if (!v || !v->mapped || !v->exec || l.code < v->a + PG || l.code + 16 > v->a + 2 * PG) { bad(fmt("the code address %lx of a closure is not in executable pages", l.code)); return; } auto b = BL.find(l.w); if (b == BL.end() || b->second.n < l.size) { bad("a closure is not in a block of the size asked for"); return; } c.push_back(l.code); }
  std::sort(c.begin(), c.end()); for (size_t i = 1; i < c.size(); i++) if (c[i] - c[i - 1] < 16) { bad(fmt("two closures have the same code address %lx", c[i])); return; }
}
static size_t idle_tables() { size_t n = 0; for (auto &v : VMS) { bool any = false; for (auto &l : LV) any |= l.code >= v.second.a && l.code < v.second.a + v.second.n; n += !any; } return n; }
static void check_tail(const Live &l) { u64 h = *at<u32>(sym("shim_closure")); for (u64 k = h; k < l.size; k++) if (at<u8>(l.w)[k] != (u8)(l.fill + k)) { bad("memory of a closure beyond its header was modified"); return; } }
static void fill_tail(Live &l) { u64 h = *at<u32>(sym("shim_closure")); for (u64 k = h; k < l.size; k++) at<u8>(l.w)[k] = (u8)(l.fill + k); }
static bool t_alloc(pbt::Src &s) {
  u64 *pc = (u64 *)get(8, 8); *pc = 0; Live l = {}; l.size = *at<u32>(sym("shim_closure")) + (s.chance(1, 4) ? s.below(200) : 0); l.fill = s.u64(); size_t nb = BL.size(), nv = VMS.size(); g_hit = false;
  l.w = callc("ffi_closure_alloc", {l.size, ad(pc)}); l.code = *pc;
  if (!l.w) { if (!g_hit) bad("ffi_closure_alloc failed although nothing was short"); if (BL.size() != nb || VMS.size() != nv) bad(fmt("a failed allocation kept %ld blocks and %ld pages", BL.size() - nb, VMS.size() - nv)); label("allocation failed"); return false; }
  LV.push_back(l); fill_tail(LV.back()); PEAK = std::max(PEAK, LV.size()); if (VMS.size() > 1 && PEAK <= entries() / 2) bad(fmt("%zu tables are in use though there were never more than %zu closures", VMS.size(), PEAK)); if (VMS.size() != nv) label("new table"); return true;
}
static void t_free(size_t i) { Live l = LV[i]; check_tail(l); LV[i] = LV.back(); LV.pop_back(); size_t nv = VMS.size(); callc("ffi_closure_free", {l.w}); if (BL.count(l.w)) bad("a freed closure is still in memory"); if (VMS.size() < nv) label("table released"); if (LOCKED) bad("the lock is still held"); if (idle_tables() > 1) bad(fmt("%zu tables without closures are kept", idle_tables())); }
static void t_prep(pbt::Src &s, Live &l) { l.cif = (int)s.below(3); l.ud = s.u64(); l.prep = true; if (status("ffi_prep_closure_loc", {l.w, CIFS[l.cif], gate(G_HANDLER), l.ud, l.code})) bad("ffi_prep_closure_loc failed"); }
static void t_call(Live &l) {
  T_cif = CIFS[l.cif]; T_ud = l.ud; T_count = 0; T_kind = l.cif; for (auto &a : T_arg) a = NZ.next(); T_ret = NZ.next(); std::vector<u8> img(PAD); noise(true); if (l.cif == 0) AX(0) = T_arg[0]; if (l.cif == 1) { cpu.v[0][0] = T_arg[0]; AX(0) = T_arg[1]; }
  enter(l.code, img, 0, "the closure", 2); if (T_count != 1) bad(fmt("the handler ran %d times", T_count)); if (l.cif == 0 && AX(0) != T_ret) bad("wrong result"); if (l.cif == 1 && cpu.v[0][0] != T_ret) bad("wrong result");
}
static void table(Pool &, pbt::Src &s) {
  system_reset(); g_table = true; struct Off { ~Off() { g_table = false; } } off; LV.clear(); PEAK = 0; table_cifs(); u64 E = entries(); unsigned n = 1 + (unsigned)s.below(40), tables = 0; std::string log; size_t held = 0; C = {}; C.mode = TABLE;
  for (unsigned k = 0; k < n; k++) {
    unsigned op = s.weighted({6, 6, 4, 4, 2, 2, 2, 1}); g_fault = 0;
    auto many = [&] { switch (s.weighted({5, 3, 1, 1})) { case 0: return (u64)1; case 1: return 1 + s.below(5); case 2: return E / 2 + s.below(E + 2); default: return 1 + s.below(E / 2); } };
    if (op == 0) { u64 c = many(); if (LV.size() + c > 4 * E + 40) c = 1; log += fmt("alloc %lu; ", c); pbt::describe(log); while (c--) if (!t_alloc(s)) break; }
    else if (op == 1) { u64 c = std::min<u64>(many(), LV.size()); log += fmt("free %lu; ", c); pbt::describe(log); while (c--) t_free(s.below(LV.size())); }
    else if (op == 2) { if (LV.empty()) continue; log += "prep; "; pbt::describe(log); t_prep(s, LV[s.below(LV.size())]); }
    else if (op == 3) { if (LV.empty()) continue; Live &l = LV[s.below(LV.size())]; log += "call; "; pbt::describe(log); if (!l.prep) t_prep(s, l); t_call(l); }
    else if (op == 4) { // all closures of one table but a few
      if (LV.empty()) continue; Vm *v = region(LV[s.below(LV.size())].code, 16); size_t keep = s.below(3); log += fmt("free a table but %zu; ", keep); pbt::describe(log); std::vector<u64> w; if (v) { u64 a = v->a, z = v->a + v->n; for (auto &l : LV) if (l.code >= a && l.code < z) w.push_back(l.w); } for (size_t i = keep; i < w.size(); i++) for (size_t j = 0; j < LV.size(); j++) if (LV[j].w == w[i]) { t_free(j); break; }
    } else if (op == 5) { g_fault = 1 + (long)s.below(7); log += fmt("alloc until call %ld fails; ", g_fault); pbt::describe(log); for (u64 i = 0; i < 2 * E + 8 && t_alloc(s); i++) ; g_fault = 0; }
    else if (op == 6) { if (LV.empty()) continue; log += "free and alloc; "; pbt::describe(log); u64 c = 1 + s.below(3); while (c-- && !LV.empty()) { t_free(s.below(LV.size())); t_alloc(s); } }
    else { log += "free all; "; pbt::describe(log); while (!LV.empty()) t_free(s.below(LV.size())); if (!held) held = BL.size(); }
    check_live(); pbt::raise_err(); tables = std::max<unsigned>(tables, VMS.size());
  }
  log += "free all"; pbt::describe(log); while (!LV.empty()) t_free(LV.size() - 1); if (VMS.size() > 1) bad(fmt("%zu tables are kept although no closure is left", VMS.size()));
  size_t left = BL.size(); system_reset(); LV.clear(); PEAK = 0; t_alloc(s); t_free(0); if (left > BL.size()) bad(fmt("%zu blocks are kept although no closure is left, one table needs %zu", left, BL.size())); pbt::raise_err();
  if (tables > 1) { pbt::nontrivial(pbt::hcomb(pbt::hstr(log), 7)); pbt::sample(log); label("several tables"); }
}
// ---- several threads, switched after any instruction
struct Thr { Cpu c; bool done, run; int op; u64 x18; u64 *pc; Live l; unsigned left; };
static void threads(Pool &, pbt::Src &s) {
  system_reset(); g_table = true; struct Off { ~Off() { g_table = false; g_thr = 0; } } off; LV.clear(); PEAK = 0; table_cifs(); C = {}; C.mode = THREADS; u64 E = entries(); unsigned pre = (unsigned)s.below(3 * E); for (unsigned i = 0; i < pre; i++) t_alloc(s); { unsigned f = (unsigned)s.below(pre + 1); while (f--) t_free(s.below(LV.size())); }
  pbt::raise_err(); size_t T = 2 + s.below(2); std::vector<Thr> th(T); unsigned sw = 1 + (unsigned)s.below(60); std::string log = fmt("%zu closures; ", LV.size()); unsigned switches = 0; u64 sched = 0;
  for (size_t i = 0; i < T; i++) { th[i].done = th[i].run = false; th[i].left = 1 + (unsigned)s.below(6); th[i].c = cpu; }
  auto start = [&](size_t i) {
    Thr &t = th[i]; if (!t.left--) { t.done = true; return; } noise(true); cpu.btype = 0; SP() = ad(STK) + STN - 8192 - (i + 1) * (1u << 20); RA() = gate(G_RETURN); X18 = cpu.x[18]; t.run = true; t.op = LV.empty() || s.chance(1, 2) ? 0 : s.chance(3, 4) ? 1 : 2;
    t.l = {}; if (t.op) { size_t j = s.below(LV.size()); t.l = LV[j]; LV[j] = LV.back(); LV.pop_back(); }
    if (t.op == 0) { t.l.size = *at<u32>(sym("shim_closure")); t.l.fill = s.u64(); t.pc = (u64 *)get(8, 8); *t.pc = 0; AX(0) = t.l.size; AX(1) = ad(t.pc); cpu.pc = sym("ffi_closure_alloc"); }
    else if (t.op == 1) { AX(0) = t.l.w; cpu.pc = sym("ffi_closure_free"); } else { t.l.cif = (int)s.below(3); t.l.ud = s.u64(); AX(0) = t.l.w; AX(1) = CIFS[t.l.cif]; AX(2) = gate(G_HANDLER); AX(3) = t.l.ud; AX(4) = t.l.code; cpu.pc = sym("ffi_prep_closure_loc"); }
    static const char *N[] = {"alloc", "free", "prep"}; log += fmt("%zu: %s; ", i, N[t.op]); t.x18 = X18;
  };
  size_t cur = 0; u64 quantum = s.below(2 * sw); auto go = [&](size_t i) { th[cur].c = cpu; cur = i; cpu = th[i].c; X18 = th[i].x18; g_thr = (int)i; };
  for (u64 guard = 0; guard < 4000000; guard++) {
    bool all = true; for (auto &t : th) all &= t.done; if (all) break;
    Thr &t = th[cur]; bool away = t.done; if (!quantum--) { away = true; quantum = s.below(2 * sw); }
    if (!t.done && cpu.pc == gate(G_LOCK) && t.run && LOCKED) { away = true; if (HOLDER == (int)cur) { bad("a thread waits for itself"); break; } }
    if (away) { size_t nx = cur; for (unsigned q = 0; q < 8; q++) { nx = s.below(T); if (!th[nx].done) break; } for (size_t q = 0; th[nx].done && q < T; q++) nx = (nx + 1) % T; if (nx != cur) { switches++; sched = pbt::hcomb(sched, hused + cpu.pc - sym("ffi_closure_alloc") + nx); go(nx); } if (th[cur].run && cpu.pc == gate(G_LOCK) && LOCKED) continue; if (th[cur].done) continue; }
    Thr &u = th[cur]; if (!u.run) { pbt::describe(log); start(cur); continue; }
    if (is_gate(cpu.pc)) {
      int g = (int)((cpu.pc - GATE) / 16); if (g != G_RETURN) { u64 back = cpu.x[30]; host(g); cpu.pc = back; pbt::raise_err(); continue; }
      u.run = false; u64 r = AX(0); if (u.op == 0) { u.l.w = r; u.l.code = *u.pc; if (!r) bad("ffi_closure_alloc failed although nothing was short"); else { LV.push_back(u.l); fill_tail(LV.back()); } } else if (u.op == 1) { if (BL.count(u.l.w)) bad("a freed closure is still in memory"); } else { if ((u32)r) bad("ffi_prep_closure_loc failed"); u.l.prep = true; LV.push_back(u.l); }
      if (LOCKED && HOLDER == (int)cur) bad("the lock is still held"); check_live(); pbt::raise_err(); continue;
    }
    cpu.step();
  }
  g_thr = 0; for (auto &t : th) if (!t.done) bad("no end of execution"); pbt::raise_err(); check_live(); for (auto &l : LV) if (l.prep) t_call(l); while (!LV.empty()) t_free(LV.size() - 1); if (VMS.size() > 1) bad("tables are kept although no closure is left"); pbt::raise_err();
  if (switches > 3) { pbt::nontrivial(pbt::hcomb(pbt::hstr(log), sched)); pbt::sample(log); }
}
#endif
// ---- compiled callers and callees
struct Sh { word out, ret; int count, scribble; };
static const char *PRE = "typedef unsigned long size_t; struct Sh { unsigned char **out; const unsigned char *ret; int count, scribble; }; struct Sh sh;\n"
  "void *memcpy(void *d, const void *s, size_t n) { char *a = d; const char *b = s; while (n--) { *a++ = *b++; __asm__ volatile (\"\" ::: \"memory\"); } return d; }\n"
  "void *memset(void *d, int c, size_t n) { char *a = d; while (n--) { *a++ = c; __asm__ volatile (\"\" ::: \"memory\"); } return d; }\n"
  "void *memmove(void *d, const void *s, size_t n) { char *a = d; const char *b = s; if (a <= b) return memcpy(d, s, n); while (n--) { a[n] = b[n]; __asm__ volatile (\"\" ::: \"memory\"); } return d; }\n"
  "void scrib(void *p, size_t n) { for (size_t i = 0; i < n; i++) ((volatile unsigned char *)p)[i] = (unsigned char)(0x5a + i * 3); }\n"
#if defined PORT_A32
  "void __aeabi_memcpy(void *d, const void *s, size_t n) { memcpy(d, s, n); } void __aeabi_memcpy4(void *d, const void *s, size_t n) { memcpy(d, s, n); } void __aeabi_memcpy8(void *d, const void *s, size_t n) { memcpy(d, s, n); }\n"
  "void __aeabi_memmove(void *d, const void *s, size_t n) { memmove(d, s, n); } void __aeabi_memmove4(void *d, const void *s, size_t n) { memmove(d, s, n); } void __aeabi_memmove8(void *d, const void *s, size_t n) { memmove(d, s, n); }\n"
  "void __aeabi_memset(void *d, size_t n, int c) { memset(d, c, n); } void __aeabi_memclr(void *d, size_t n) { memset(d, 0, n); } void __aeabi_memclr4(void *d, size_t n) { memset(d, 0, n); } void __aeabi_memclr8(void *d, size_t n) { memset(d, 0, n); }\n"
#endif
  ;
#if defined PORT_A64
#define MSABI (ABI_CODE == 2)
#else
#define MSABI false
#endif
static std::string emit(Sig &g, int k) {
  CEmit e; e.uid = k; for (Ty *t : g.args) e.need(t); e.need(g.ret);
  std::string R = e.cname(g.ret), s = e.out, params, types; size_t n = g.args.size(), nf = g.nfixed >= 0 ? g.nfixed : n;
  for (size_t i = 0; i < nf; i++) { params += fmt("%s%s a%zu", i ? ", " : "", e.cname(g.args[i]).c_str(), i); types += fmt("%s%s", i ? ", " : "", e.cname(g.args[i]).c_str()); }
  if (g.nfixed >= 0) { params += ", ..."; types += ", ..."; } else if (!n) params = types = "void";
  std::string A = MSABI ? " __attribute__((ms_abi))" : "", va = MSABI ? "__builtin_ms_va_" : "__builtin_va_";
  s += R + A + fmt(" callee_%d(", k) + params + ") {\n  sh.count++;\n";
  if (g.nfixed >= 0) { s += "  " + va + "list ap; " + va + fmt("start(ap, a%zu);\n", nf - 1); for (size_t i = nf; i < n; i++) s += fmt("  %s a%zu = __builtin_va_arg(ap, %s);\n", e.cname(g.args[i]).c_str(), i, e.cname(g.args[i]).c_str()); s += "  " + va + "end(ap);\n"; }
  for (size_t i = 0; i < n; i++) s += fmt("  __builtin_memcpy(sh.out[%zu], &a%zu, sizeof a%zu);\n", i, i, i);
  if (n) { s += "  if (sh.scribble) {"; for (size_t i = 0; i < n; i++) s += fmt(" scrib(&a%zu, sizeof a%zu);", i, i); s += " }\n"; }
  if (g.ret->k != VOID) s += "  " + R + " r; __builtin_memcpy(&r, sh.ret, sizeof r); return r;\n";
  s += fmt("}\nvoid caller_%d(void *fn, unsigned char **in, unsigned char *out) {\n", k);
  for (size_t i = 0; i < n; i++) s += fmt("  %s a%zu; __builtin_memcpy(&a%zu, in[%zu], sizeof a%zu);\n", e.cname(g.args[i]).c_str(), i, i, i, i);
  std::string call = "((" + R + " (" + A + " *)(" + types + "))fn)("; for (size_t i = 0; i < n; i++) call += fmt("%sa%zu", i ? ", " : "", i); call += ")";
  if (g.ret->k != VOID) s += "  " + R + " r = " + call + "; __builtin_memcpy(out, &r, sizeof r);\n"; else s += "  " + call + ";\n";
  return s + "}\n";
}
static void to_variadic(Pool &P, Sig &g, pbt::Src &s) { if (g.args.empty()) g.args.push_back(P.scalar(S32)); g.nfixed = 1 + (int)s.below(g.args.size()); for (size_t i = g.nfixed; i < g.args.size(); i++) { Ty *&t = g.args[i]; if (t->k == F) t = P.scalar(D); else if (is_int(t->k) && t->size < 4) t = P.scalar(S32); } label("variadic"); }
static GCif *make_cif(Sig &g) {
  size_t n = g.args.size(); std::vector<word> ts; for (auto t : g.args) ts.push_back((word)conv(t)); word *tv = (word *)get(WS * n, 8); if (n) memcpy(tv, ts.data(), WS * n); GCif *cif = (GCif *)get(sizeof(GCif), 8); C.cif = ad(cif); u64 rt = conv(g.ret);
  u64 q = g.nfixed >= 0 ? status("ffi_prep_cif_var", {C.cif, (u64)ABI_CODE, (u64)g.nfixed, n, rt, ad(tv)}) : status("ffi_prep_cif", {C.cif, (u64)ABI_CODE, n, rt, ad(tv)}); if (q) fail(fmt("ffi_prep_cif: status %lu", q));
  if (g.ret->k == ST) { GTy *d = at<GTy>(rt); if (d->size != g.ret->size || d->alignment != g.ret->align) fail("wrong size of the result structure"); } return cif;
}
static std::string g_cc, g_tmp = "/tmp";
static int sh_(const std::string &cmd) { int st = system((cmd + " >/dev/null 2>&1").c_str()); return WIFEXITED(st) ? WEXITSTATUS(st) : 99; }
static void compiled(Pool &P, pbt::Src &s) {
  unsigned nb = 1 + (unsigned)s.below(30); std::vector<Sig> v(nb); std::string src = PRE; static int serial;
  for (unsigned k = 0; k < nb; k++) { P.o.max_struct = 4096; v[k].args = P.gen_args(s, 60); v[k].ret = P.gen_ret(s); if (g_var || s.chance(1, 8)) to_variadic(P, v[k], s); src += emit(v[k], k); }
  static const char *opts[] = {"-O1", "-O2", "-O0"}; const char *opt = opts[s.weighted({3, 2, 1})]; std::string b = fmt("%s/port-%d-%d", g_tmp.c_str(), (int)getpid(), serial++); FILE *f = fopen((b + ".c").c_str(), "w"); if (!f) { perror("writing"); _exit(3); } fputs(src.c_str(), f); fclose(f);
  int r = sh_(g_cc + " " + opt + " -w -ffreestanding -fno-builtin -fno-vectorize -fno-slp-vectorize -fno-stack-protector -c " + b + ".c -o " + b + ".o && ld.lld-18 -static --image-base=" + (WS == 4 ? "0x30000000" : "0x3000000000") + " -e sh -o " + b + " " + b + ".o"); if (!getenv("CCL_KEEP")) unlink((b + ".c").c_str()); unlink((b + ".o").c_str());
  if (r) { pbt::SH->excluded++; label("batch does not compile"); throw pbt::Discard{}; }
  struct Un { std::pair<u64, u64> r; ~Un() { unload(r); } } un{emu::load(b, 0)}; unlink(b.c_str()); Sh *sh = at<Sh>(sym("sh")); label(opt);
  for (unsigned k = 0; k < nb; k++) {
    Sig &g = v[k]; size_t n = g.args.size(); C = {}; C.g = &g; C.mode = s.chance(1, 2) ? CLOSURE : CALL; C.L = layout(g); C.seed = s.u64(); C.scribble = s.chance(1, 2); used = gused = 0; TM.clear(); if (C.L.stack == ~0ull) { pbt::SH->excluded++; continue; }
    pbt::describe(fmt("%s %s compiled with %s: ", PORT, MN[C.mode], opt) + name(g) + "\n"); u64 callee = sym(fmt("callee_%u", k).c_str()), caller = sym(fmt("caller_%u", k).c_str());
    std::vector<u8 *> in(n); std::vector<word> vi, vo; C.val.resize(n); for (size_t i = 0; i < n; i++) { size_t z = g.args[i]->size; in[i] = get(z); C.val[i].resize(z + 16); fill(g.args[i], C.val[i].data(), pbt::mix64(C.seed + i) | 1); memcpy(in[i], C.val[i].data(), z); vi.push_back((word)ad(in[i])); vo.push_back((word)ad(get(z))); }
    word *av = (word *)get(WS * n, 8), *ov = (word *)get(WS * n, 8); if (n) memcpy(av, vi.data(), WS * n), memcpy(ov, vo.data(), WS * n);
    C.ret.resize(g.ret->size + 16); fill(g.ret, C.ret.data(), pbt::mix64(C.seed - 1) | 1); u8 *ret = get(g.ret->size); memcpy(ret, C.ret.data(), g.ret->size); u8 *rv = get(g.ret->size + 8); std::string why; bool isint = isword(g.ret);
    sh->out = (word)ad(ov); sh->ret = (word)ad(ret); sh->count = 0; sh->scribble = C.scribble; for (u64 p : vo) *at<u8>(p) = 0;
    calla(caller, "the compiled caller", {callee, ad(av), ad(rv)}); bool ok = sh->count == 1; for (size_t i = 0; i < n; i++) ok &= same(g.args[i], C.val[i].data(), at<u8>(vo[i])); if (g.ret->k != VOID) ok &= same(g.ret, C.ret.data(), rv);
    if (!ok || !pbt::g_err.empty()) { pbt::g_err.clear(); label("compiler not consistent with itself"); pbt::SH->excluded++; continue; }
    pbt::SH->evals += k ? 1 : 0; bool nt = g.ret->k == ST || g.ret->k == CX || is_fp(g.ret->k) || C.L.stack > HEAD; for (auto t : g.args) nt |= t->k == ST || t->k == CX || is_fp(t->k); if (nt) { pbt::nontrivial(pbt::hcomb(thash(g), 100 + C.mode)); if (k == nb / 2) pbt::sample(fmt("compiled %s: ", MN[C.mode]) + name(g)); } label(C.mode == CALL ? "compiled callee" : "compiled caller");
    make_cif(g); sh->count = 0; for (size_t i = 0; i < n; i++) memset(at<void>(vo[i]), 0x77, g.args[i]->size); memset(rv, 0x33, g.ret->size + 8);
    if (C.mode == CALL) {
      callc("ffi_call", {C.cif, callee, ad(rv), ad(av)}); if (sh->count != 1) bad(fmt("the callee ran %d times", sh->count));
      for (size_t i = 0; i < n; i++) { if (!same(g.args[i], C.val[i].data(), at<u8>(vo[i]), &why)) { bad(fmt("argument %zu (%s) arrived wrong: ", i, name(g.args[i]).c_str()) + why); break; } if (memcmp(in[i], C.val[i].data(), g.args[i]->size)) bad(fmt("the caller's object of argument %zu was modified", i)); }
      if (isint) { word w; memcpy(&w, rv, WS); if (w != (word)widen(g.ret, C.ret.data())) bad(fmt("result (%s) is %lx, expected %lx", name(g.ret).c_str(), (u64)w, widen(g.ret, C.ret.data()))); }
      else if (g.ret->k != VOID && !same(g.ret, C.ret.data(), rv, &why)) bad(fmt("wrong result (%s): ", name(g.ret).c_str()) + why);
    } else {
      C.ud = (word)s.u64(); u64 code = make_closure(s, CLOSURE); calla(caller, "the compiled caller", {code, ad(av), ad(rv)}); if (C.count != 1) bad(fmt("the handler ran %d times", C.count));
      if (g.ret->k != VOID && !same(g.ret, C.ret.data(), rv, &why)) bad(fmt("the caller received a wrong result (%s): ", name(g.ret).c_str()) + why); for (size_t i = 0; i < n; i++) if (memcmp(in[i], C.val[i].data(), g.args[i]->size)) bad("the caller's objects were modified");
    }
    pbt::raise_err();
  }
}
static void one_case(pbt::Src &s) {
  Pool P; TM.clear(); used = gused = 0; NZ = pbt::Rng(s.u64()); int mode = modes[s.below(modes.size())]; bool raw = mode == RAWCALL || mode == RAWCLOSURE;
  P.o.max_struct = 1 << 14; P.o.cx = P.o.cint = P.o.cld = CPLX;
#if defined PORT_A64
  if (ABI_CODE == 2 || APPLE) P.o.ld = P.o.cld = false;
#elif defined PORT_A32
  P.o.ld = P.o.cld = false;  ABI_CODE = g_abi ? g_abi : 1 + (int)s.below(2);
#endif
  if (mode == LAYOUT) { layout_check(P, s); return; } if (mode == COMPILED) { compiled(P, s); return; }
#if APPLE
  if (mode == TABLE) { table(P, s); return; } if (mode == THREADS) { threads(P, s); return; }
#endif
 
  Sig g; g.args = P.gen_args(s, 300); g.ret = P.gen_ret(s); size_t tot = 0; for (size_t i = 0; i < g.args.size(); i++) { tot += g.args[i]->size; if (tot > 100000) { g.args.resize(i); break; } }
  if (!raw && (g_var || s.chance(1, 12))) to_variadic(P, g, s);
  size_t n = g.args.size(); C = {}; C.mode = mode; C.g = &g; C.L = layout(g); if (C.L.stack == ~0ull) throw pbt::Discard{}; C.seed = s.u64(); C.scribble = s.chance(1, 2);
  pbt::describe(fmt("%s (%d) %s: ", PORT, (int)ABI_CODE, MN[mode]) + name(g) + "\n"); label(MN[mode]); if (C.L.sret) label("result in memory"); if (C.L.stack > HEAD) label("arguments on the stack"); bool nt = g.ret->k == ST || g.ret->k == CX || is_fp(g.ret->k) || C.L.stack > HEAD; for (auto t : g.args) nt |= t->k == ST || t->k == CX || is_fp(t->k); for (auto &l : C.L.a) if (l.ref) { label("argument by reference"); break; }
  if (nt) { pbt::nontrivial(pbt::hcomb(thash(g), mode)); pbt::sample(fmt("%s: ", MN[mode]) + name(g)); }
  // interface
  GCif *cif = make_cif(g);
  GCif cifcopy = *cif;
  // values
  std::vector<u8 *> val(n); C.val.resize(n); for (size_t i = 0; i < n; i++) { val[i] = s.chance(1, 8) ? guarded(g.args[i]->size) : get(g.args[i]->size); C.val[i].resize(g.args[i]->size + 16); fill(g.args[i], C.val[i].data(), pbt::mix64(C.seed + i) | 1); memcpy(val[i], C.val[i].data(), g.args[i]->size); }
  C.ret.resize(g.ret->size + 16); fill(g.ret, C.ret.data(), pbt::mix64(C.seed - 1) | 1);
  bool isint = isword(g.ret), calls = mode == CALL || mode == GOCALL || mode == RAWCALL; size_t rs = g.ret->k == VOID ? 0 : g.ret->size, robj = isint && calls ? WS : rs;
  u8 *rv = s.chance(1, 3) ? guarded(robj) : get(robj); C.rv = ad(rv); std::vector<u8> old(robj + 32); for (int i = 0; i < 16; i++) rv[i - 16] = (u8)(i * 3); for (size_t i = 0; i < robj; i++) rv[i] = old[i] = (u8)NZ.next(); bool tail = rv >= ARENA && rv < ARENA + ARN; if (tail) memset(rv + robj, 0x77, 16); std::string why;
  std::vector<word> pv; for (auto p : val) pv.push_back((word)ad(p)); word *av = (word *)get(WS * n, 8); if (n) memcpy(av, pv.data(), WS * n); u64 slots = 0; for (auto t : g.args) slots += t->k == ST || t->k == CX ? 1 : (t->size + WS - 1) / WS;
  if (calls) {
    C.have_rv = !s.chance(1, 6);
#if defined PORT_PPC64
    if (g.ret->k != VOID && g.ret->k != ST) C.have_rv = true;     // a result object may be left out only for structures here
#endif
     C.ctx = (word)s.u64() | 1; u64 vec = ad(av), cal = gate(G_CALLEE), out = C.have_rv ? C.rv : 0;
    if (mode == RAWCALL) { u64 sz = callc("ffi_raw_size", {C.cif}); if (sz != slots * WS) fail(fmt("raw size is %lu, expected %lu", sz, slots * WS)); u8 *r = guarded(slots * WS); callc("ffi_ptrarray_to_raw", {C.cif, ad(av), ad(r)}); vec = ad(r); }
    std::vector<u64> a = {C.cif, cal, out, vec}; if (mode == GOCALL) a.push_back(C.ctx); callc(mode == CALL ? "ffi_call" : mode == GOCALL ? "ffi_call_go" : "ffi_raw_call", a);
    if (C.count != 1) bad(fmt("the callee ran %d times", C.count));
    if (!C.have_rv || g.ret->k == VOID) { if (memcmp(rv, old.data(), robj)) bad("the result object was modified although none was supplied"); }
    else if (isint) { word w; memcpy(&w, rv, WS); if (w != (word)widen(g.ret, C.ret.data())) bad(fmt("result (%s) is %lx, expected %lx", name(g.ret).c_str(), (u64)w, widen(g.ret, C.ret.data()))); }
    else if (!same(g.ret, C.ret.data(), rv, &why)) bad(fmt("wrong result (%s): ", name(g.ret).c_str()) + why);
  } else {
    C.have_rv = true; C.ud = (word)s.u64(); u64 code = make_closure(s, mode);
    std::vector<u8> img(C.L.stack + PAD); for (auto &b : img) b = (u8)NZ.next(); noise(true);
#if defined PORT_A64
    if (C.L.sret) cpu.x[8] = C.rv;
#else
    if (C.L.sret) AX(0) = (word)C.rv;
#endif
    for (size_t i = 0; i < n; i++) { Loc &l = C.L.a[i]; if (l.ref) { u8 *c = s.chance(1, 8) ? guarded(g.args[i]->size) : get(g.args[i]->size); memcpy(c, val[i], g.args[i]->size); word p = (word)ad(c); place(l, (u8 *)&p, g.args[i], img.data(), true); } else place(l, val[i], g.args[i], img.data(), false); }
    if (mode == GOCLOSURE) cpu.x[CHAIN] = C.ud;
    enter(code, img, C.L.stack, "the closure", 2);
    if (C.count != 1) bad(fmt("the handler ran %d times", C.count)); std::vector<u8> got(rs + 16); const u8 *r = got.data();
    if (C.L.sret) r = rv; else { if (memcmp(rv, old.data(), robj)) bad("memory not passed to the closure was modified"); if (g.ret->k != VOID) fetch_(C.L.ret, nullptr, got.data()); }
    if (g.ret->k != VOID && !same(g.ret, C.ret.data(), r, &why)) bad(fmt("the caller received a wrong result (%s): ", name(g.ret).c_str()) + why);
    if (EXT && isint && AX(0) != regext(g.ret, C.ret.data())) bad(fmt("the integer result is not extended: %lx", (u64)AX(0))); if (APPLE && isint && g.ret->size < 4 && (u32)AX(0) != (u32)widen(g.ret, C.ret.data())) bad(fmt("the integer result is not extended to 32 bits: %lx", (u64)AX(0))); if (!C.L.sret) for (auto &p : C.L.ret.p) if (p.w == 'f' && p.n == 4 && !boxed(p.r)) bad("the floating result is not NaN-boxed");
  }
  for (int i = 0; i < 16; i++) { if (rv[i - 16] != (u8)(i * 3)) { bad("memory before the result object was modified"); break; } if (tail && rv[robj + i] != 0x77) { bad("memory after the result object was modified"); break; } }
  for (size_t i = 0; i < n; i++) { if (av[i] != pv[i]) bad("the argument vector was modified"); if (memcmp(val[i], C.val[i].data(), g.args[i]->size)) bad(fmt("the caller's object of argument %zu was modified", i)); }
  if (memcmp(&cifcopy, cif, sizeof cifcopy)) bad("the prepared interface was modified"); pbt::raise_err();
}
static void prop(pbt::Src &s) {
  load_all();
  try { one_case(s); } catch (Unknown &u) { label("instruction unknown to the interpreter"); static bool told; if (!told) { told = true; fprintf(stderr, "%s\n", u.what.c_str()); } throw pbt::Discard{}; }
}
int main(int argc, char **argv) {
  pbt::stable_env(argv); ty::set_port(); if (WS == 4) ty::set_32();
#if defined PORT_A32
  ty::set_arm();
#endif
#if APPLE
  ty::set_arm(), ty::MAXAL = 16;
#endif
  pbt::Config c; c.name = "port"; c.prop = prop; c.rule = "random signature, values, registers and machine state per case; non-trivial = a structure, complex or floating argument or result, or arguments on the stack; distinct by (mode, signature)";
  pbt::parse(c, argc, argv, [](const std::string &k, const std::string &v) { if (k == "--image") g_img = v; else if (k == "--cc") g_cc = v; else if (k == "--tmp") g_tmp = v;
#if defined PORT_A32
    else if (k == "--abi") g_abi = atoi(v.c_str());
#elif defined PORT_PPC64
    else if (k == "--abi") { ABI_CODE = atoi(v.c_str()); g_salign = ABI_CODE & 1; g_ld = !(ABI_CODE & 2) ? 1 : ABI_CODE & 4 ? 2 : 0; if (g_ld == 1) ty::set_arm(), ty::MAXAL = 16; if (g_ld == 2) ty::CN[ty::LD] = "__float128"; }
#elif defined PORT_A64
    else if (k == "--abi") ABI_CODE = atoi(v.c_str());
#else
    else if (k == "--fpregs") g_fpregs = atoi(v.c_str());
#endif
    else if (k == "--var") g_var = v == "1"; else if (k == "--mode") g_mode = v; else if (k == "--landing") g_bti = v == "1"; else return false; return true; });
  size_t i = 0; while (i <= g_mode.size()) { size_t j = g_mode.find(',', i); if (j == std::string::npos) j = g_mode.size(); for (int k = 0; k < NMODES; k++) if (g_mode.substr(i, j - i) == MN[k]) modes.push_back(k); i = j + 1; }
  if (modes[0] == TABLE) c.rule = "random history of allocations, preparations, calls, releases and failing system calls; non-trivial = several tables existed at once; distinct by history";
  if (modes[0] == THREADS) c.rule = "random operations of 2-3 threads, switched after random numbers of instructions; non-trivial = more than three switches; distinct by operations and places of the switches";
  int r = pbt::run(c); if (!r && pbt::SH->discards * 2 > pbt::SH->evals) { fprintf(stderr, "most cases use instructions the interpreter does not know\n"); return 3; } return r;
}
