// Register capture stubs and independent models of the System V and Microsoft x64 calling conventions.
#pragma once
#include "types.hpp"

namespace abi {
using namespace ty;
enum { RAX, RCX, RDX, RBX, RSP, RBP, RSI, RDI, R8, R9, R10, R11, R12, R13, R14, R15 };
struct Regs {
  uint64_t gpr[16]; u8 xmm[16][16]; uint64_t rflags; uint32_t mxcsr; uint16_t fcw, fsw; u8 env[28]; u8 pad0[4];
  uint32_t nx87; u8 pad1[12]; u8 st[2][16]; u8 pad2[32];
};
static_assert(sizeof(Regs) == 512 && offsetof(Regs, env) == 400 && offsetof(Regs, nx87) == 432 && offsetof(Regs, st) == 448, "layout");
struct CallCtx { Regs in, out; uint64_t target, image, image_bytes, host_rsp, call_rsp, sep_sp; uint32_t h_mxcsr; uint16_t h_fcw, pad; u8 fsave[112]; };
static_assert(offsetof(CallCtx, fsave) == 1024 + 56, "layout");
extern "C" { void cap_callee(); void cap_call(CallCtx *); extern void (*cap_hook)(Regs *); extern CallCtx *cap_cur; }

// separate stack for cap_call, with an inaccessible page above and below
inline u8 *sep_stack() {
  static u8 *top = nullptr; static const size_t N = 64u << 20;
  if (!top) { u8 *p = (u8 *)mmap(0, N + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); mprotect(p + 4096, N, PROT_READ | PROT_WRITE); top = p + 4096 + N; }
  return top;
}
inline void invoke(CallCtx &c, void *target, const std::vector<u8> &image) {
  c.target = (uint64_t)target; c.image = (uint64_t)image.data(); c.image_bytes = image.size(); c.sep_sp = (uint64_t)sep_stack();
  CallCtx *save = cap_cur; cap_call(&c); cap_cur = save;
}
// x87 results after cap_call: depth and st(i) in order
inline int x87_depth(const CallCtx &c) { uint16_t tw; memcpy(&tw, c.fsave + 8, 2); int n = 0; for (int i = 0; i < 8; i++) if (((tw >> (2 * i)) & 3) != 3) n++; return n; }
inline const u8 *x87_st(const CallCtx &c, int i) { return c.fsave + 28 + 10 * i; }
inline int x87_depth_env(const u8 *env) { uint16_t tw; memcpy(&tw, env + 8, 2); int n = 0; for (int i = 0; i < 8; i++) if (((tw >> (2 * i)) & 3) != 3) n++; return n; }

inline void noise(Regs &r, pbt::Rng &g) {
  for (auto &x : r.gpr) x = g.next();
  for (auto &x : r.xmm) for (int i = 0; i < 16; i += 8) { uint64_t v = g.next(); memcpy(x + i, &v, 8); }
  r.nx87 = 0; r.rflags = 0x202 | (g.next() & 0x8d5);
}

enum Abi { SYSV, WIN, GNUW };
inline ffi_abi ffiabi(Abi a) { return a == SYSV ? FFI_UNIX64 : a == WIN ? FFI_WIN64 : FFI_GNUW64; }
inline const char *aname(Abi a) { return a == SYSV ? "unix64" : a == WIN ? "win64" : "gnuw64"; }

// ---- System V -------------------------------------------------------------------------------------------------------
// class of each eightbyte: 'I' integer, 'S' sse; empty = memory; "X" = x87 (returns only), "XX" = complex x87
inline std::string sysv_classes(const Ty *t, bool ret) {
  if (t->k == VOID) return "";
  if (t->has_ld) {
    if (!ret) return "";
    if (t->size == 16) return "X";
    if (t->k == CX && t->base == LD) return "XX";
    return "";
  }
  if (t->size > 16) return "";
  std::string c((t->size + 7) / 8, '-');
  for (auto &s : t->flat) { char &e = c[s.off / 8]; if (is_int(s.k)) e = 'I'; else if (e == '-') e = 'S'; }
  return c;
}
struct Place { bool mem = false, ref = false; size_t off = 0; std::string cls; int idx[2] = {0, 0}; int slot = -1; };   // off: stack offset from the first stack argument
struct Layout { std::vector<Place> a; bool sret = false; std::string rcls; int ngpr = 0, nsse = 0; size_t stack = 0; int nslots = 0; };

inline Layout sysv(const Sig &g) {
  Layout L; L.rcls = sysv_classes(g.ret, true); L.sret = g.ret->k != VOID && L.rcls.empty();
  int ig = L.sret ? 1 : 0, is = 0; size_t st = 0;
  for (Ty *t : g.args) {
    Place p; p.cls = sysv_classes(t, false); int ni = 0, ns = 0; for (char c : p.cls) { ni += c == 'I'; ns += c == 'S'; }
    if (p.cls.empty() || ig + ni > 6 || is + ns > 8) {
      p.mem = true; size_t al = std::max<size_t>(8, t->align); st = (st + al - 1) / al * al; p.off = st; st += (t->size + 7) / 8 * 8;
    } else for (size_t i = 0; i < p.cls.size(); i++) p.idx[i] = p.cls[i] == 'I' ? ig++ : p.cls[i] == 'S' ? is++ : -1;
    L.a.push_back(p);
  }
  L.ngpr = ig; L.nsse = is; L.stack = st; return L;
}
static const int SYSV_GPR[6] = {RDI, RSI, RDX, RCX, R8, R9};
static const int WIN_GPR[4] = {RCX, RDX, R8, R9};

// ---- Microsoft x64 --------------------------------------------------------------------------------------------------
inline bool win_direct(const Ty *t) { return t->size == 1 || t->size == 2 || t->size == 4 || t->size == 8; }
inline Layout win(const Sig &g) {
  Layout L; const Ty *r = g.ret;
  if (r->k == VOID) L.rcls = ""; else if (r->k == F || r->k == D) L.rcls = "S"; else if (win_direct(r)) L.rcls = "I"; else L.sret = true;
  int j = L.sret ? 1 : 0;
  for (Ty *t : g.args) { Place p; p.slot = j++; p.ref = !win_direct(t); p.cls = t->k == F || t->k == D ? "S" : "I"; p.mem = p.slot >= 4; p.off = 8 * p.slot; L.a.push_back(p); }
  L.nslots = j; L.stack = 8 * std::max(4, j); return L;
}
inline Layout layout(Abi a, const Sig &g) { return a == SYSV ? sysv(g) : win(g); }

// Read argument i as a compiled callee would; stack = address of first stack argument (rsp+8 at entry).
// Returns the bytes in buf (t->size), for top-level narrow ints in registers *ext gets the whole register.
inline void read_arg(Abi a, const Sig &g, const Layout &L, size_t i, const Regs &r, const u8 *stack, u8 *buf, uint64_t *ext, bool *has_ext, uint64_t *refp) {
  const Ty *t = g.args[i]; const Place &p = L.a[i]; *has_ext = false; *refp = 0;
  if (a == SYSV) {
    if (p.mem) { memcpy(buf, stack + p.off, t->size); return; }
    u8 img[16]; for (size_t e = 0; e < p.cls.size(); e++) { if (p.cls[e] == 'I') memcpy(img + 8 * e, &r.gpr[SYSV_GPR[p.idx[e]]], 8); else if (p.cls[e] == 'S') memcpy(img + 8 * e, r.xmm[p.idx[e]], 8); else memset(img + 8 * e, 0, 8); }
    memcpy(buf, img, t->size);
    if (is_int(t->k) && t->k != PTR) { *ext = r.gpr[SYSV_GPR[p.idx[0]]]; *has_ext = true; }
    return;
  }
  uint64_t v;
  if (p.slot >= 4) memcpy(&v, stack + 8 * p.slot, 8);
  else if (p.cls == "S") memcpy(&v, r.xmm[p.slot], 8);
  else v = r.gpr[WIN_GPR[p.slot]];
  if (p.ref) { *refp = v; memcpy(buf, (void *)v, t->size); } else memcpy(buf, &v, t->size);
}
// Where does the argument live in memory, if it does (so that a callee may overwrite it)?
inline u8 *arg_mem(Abi a, const Layout &L, size_t i, const Regs &r, u8 *stack) {
  const Place &p = L.a[i];
  if (a == SYSV) return p.mem ? stack + p.off : nullptr;
  if (p.ref) { uint64_t v; if (p.slot >= 4) memcpy(&v, stack + 8 * p.slot, 8); else v = r.gpr[WIN_GPR[p.slot]]; return (u8 *)v; }
  return p.slot >= 4 ? stack + 8 * p.slot : nullptr;
}
// Build registers and stack image of a compiled caller.  noise must already be in r.  refs: storage for by-reference copies.
inline void write_args(Abi a, const Sig &g, const Layout &L, const std::vector<const u8 *> &val, void *sret, Regs &r, std::vector<u8> &img, std::vector<std::vector<u8>> &refs, pbt::Rng &nz, size_t pad) {
  img.resize(L.stack + pad); for (auto &b : img) b = (u8)nz.next();
  if (a == SYSV) {
    if (L.sret) r.gpr[RDI] = (uint64_t)sret;
    for (size_t i = 0; i < g.args.size(); i++) {
      const Ty *t = g.args[i]; const Place &p = L.a[i];
      if (p.mem) { memcpy(img.data() + p.off, val[i], t->size); continue; }
      u8 b[16]; for (int k = 0; k < 16; k += 8) { uint64_t v = nz.next(); memcpy(b + k, &v, 8); }
      memcpy(b, val[i], t->size);
      for (size_t e = 0; e < p.cls.size(); e++) if (p.cls[e] == 'I') memcpy(&r.gpr[SYSV_GPR[p.idx[e]]], b + 8 * e, 8); else if (p.cls[e] == 'S') memcpy(r.xmm[p.idx[e]], b + 8 * e, 8);
    }
    return;
  }
  auto put = [&](int slot, bool sse, uint64_t v) { if (slot >= 4) memcpy(img.data() + 8 * slot, &v, 8); else if (sse) memcpy(r.xmm[slot], &v, 8); else r.gpr[WIN_GPR[slot]] = v; };
  if (L.sret) put(0, false, (uint64_t)sret);
  refs.resize(g.args.size());
  for (size_t i = 0; i < g.args.size(); i++) {
    const Ty *t = g.args[i]; const Place &p = L.a[i]; uint64_t v = nz.next();
    if (p.ref) { refs[i].assign(t->size + 64, 0); u8 *q = refs[i].data(); q += (16 - (uint64_t)q % 16) % 16; memcpy(q, val[i], t->size); v = (uint64_t)q; }
    else memcpy(&v, val[i], t->size);
    put(p.slot, p.cls == "S", v);
  }
}
// Produce a compiled callee's result in registers (noise elsewhere)
inline void write_ret(Abi a, const Sig &g, const Layout &L, const u8 *val, void *sret, Regs &r, pbt::Rng &nz) {
  const Ty *t = g.ret; if (t->k == VOID) return;
  if (L.sret) { memcpy(sret, val, t->size); r.gpr[RAX] = (uint64_t)sret; return; }
  if (a == SYSV && L.rcls[0] == 'X') {
    r.nx87 = (uint32_t)L.rcls.size(); memcpy(r.st[0], val, 10); if (r.nx87 == 2) memcpy(r.st[1], val + 16, 10); return;
  }
  u8 b[16]; for (int k = 0; k < 16; k += 8) { uint64_t v = nz.next(); memcpy(b + k, &v, 8); }
  memcpy(b, val, t->size); int ni = 0, ns = 0;
  for (size_t e = 0; e < L.rcls.size(); e++) if (L.rcls[e] == 'I') memcpy(&r.gpr[ni++ ? RDX : RAX], b + 8 * e, 8); else if (L.rcls[e] == 'S') memcpy(r.xmm[ns++], b + 8 * e, 8);
}
// Read the result as a compiled caller would
inline bool read_ret(Abi a, const Sig &g, const Layout &L, const CallCtx &c, void *sret, u8 *buf, std::string *why) {
  const Ty *t = g.ret; int depth = x87_depth(c); int want = 0;
  if (t->k != VOID && !L.sret && a == SYSV && L.rcls[0] == 'X') want = (int)L.rcls.size();
  if (depth != want) { *why = fmt("x87 stack depth %d after the call, expected %d", depth, want); return false; }
  if (t->k == VOID) return true;
  if (L.sret) { if (c.out.gpr[RAX] != (uint64_t)sret) { *why = fmt("rax %lx is not the result address %p", c.out.gpr[RAX], sret); return false; } memcpy(buf, sret, t->size); return true; }
  if (want) { memset(buf, 0, t->size); memcpy(buf, x87_st(c, 0), 10); if (want == 2) memcpy(buf + 16, x87_st(c, 1), 10); return true; }
  u8 b[16]; int ni = 0, ns = 0;
  for (size_t e = 0; e < L.rcls.size(); e++) if (L.rcls[e] == 'I') memcpy(b + 8 * e, &c.out.gpr[ni++ ? RDX : RAX], 8); else if (L.rcls[e] == 'S') memcpy(b + 8 * e, c.out.xmm[ns++], 8); else memset(b + 8 * e, 0, 8);
  memcpy(buf, b, t->size); return true;
}
// expected register-wide image of a widened integral result
inline uint64_t widen(const Ty *t, const u8 *v) {
  switch (t->k) { case U8: return v[0]; case S8: return (uint64_t)(int64_t)(int8_t)v[0]; case U16: { uint16_t x; memcpy(&x, v, 2); return x; } case S16: { int16_t x; memcpy(&x, v, 2); return (uint64_t)(int64_t)x; }
  case U32: { uint32_t x; memcpy(&x, v, 4); return x; } case S32: { int32_t x; memcpy(&x, v, 4); return (uint64_t)(int64_t)x; } default: { uint64_t x = 0; memcpy(&x, v, 8); return x; } }
}
// which registers must a callee preserve?
inline bool preserved_gpr(Abi a, int r) { if (r == RBX || r == RBP || (r >= R12 && r <= R15)) return true; return a != SYSV && (r == RSI || r == RDI); }
inline bool preserved_xmm(Abi a, int x) { return a != SYSV && x >= 6; }

// ---- guarded objects ------------------------------------------------------------------------------------------------
// Objects end exactly at an inaccessible page.
struct Guard {
  static const size_t PAGES = 72, N = 40; u8 *base[N]; size_t used = 0; std::vector<std::vector<u8>> extra;
  Guard() { for (auto &b : base) { b = (u8 *)mmap(0, (PAGES + 1) * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); mprotect(b + PAGES * 4096, 4096, PROT_NONE); } }
  void reset() { used = 0; extra.clear(); }
  // size must be a multiple of the alignment
  u8 *get(size_t size, size_t align = 16) {
    size_t pad = 0; (void)align;
    if (used < N && size <= PAGES * 4096) return base[used++] + PAGES * 4096 - size - pad;
    extra.emplace_back(size + 208); u8 *p = extra.back().data() + 96; p += (16 - (uint64_t)p % 16) % 16; return p;
  }
};
} // namespace abi
