// The i386 port (src/x86/ffi.c, src/x86/sysv.S and the portable files compiled for 32 bits), run in compatibility mode inside
// this 64-bit process: the 32-bit image is loaded below 4 GB, called through the gates of lib/i386/gate.S with every register
// chosen, and its callees and handlers are this harness.  Oracle: a model of the i386 conventions.
#include "types.hpp"
#include <elf.h>
#include <map>
#include <sys/stat.h>
#include <xmmintrin.h>
using namespace ty; using pbt::fail; using pbt::label;
typedef uint32_t u32;
// ---- the 32-bit image
static std::vector<u8> IMG;
static u32 sym(const char *nm, bool optional = false) {
  Elf32_Ehdr *e = (Elf32_Ehdr *)IMG.data(); Elf32_Shdr *s = (Elf32_Shdr *)(IMG.data() + e->e_shoff);
  for (int i = 0; i < e->e_shnum; i++) if (s[i].sh_type == SHT_SYMTAB) { Elf32_Sym *y = (Elf32_Sym *)(IMG.data() + s[i].sh_offset); const char *st = (char *)IMG.data() + s[s[i].sh_link].sh_offset; for (unsigned k = 0; k < s[i].sh_size / sizeof *y; k++) if (!strcmp(st + y[k].st_name, nm)) return y[k].st_value; }
  if (optional) return 0; fprintf(stderr, "the 32-bit image has no %s\n", nm); _exit(3);
}
template <class T> static T *at(u32 a) { return (T *)(uint64_t)a; }
static u32 lo(const void *p) { return (u32)(uint64_t)p; }
enum { EAX, ECX, EDX, EBX, ESP, EBP, ESI, EDI };
struct Image { u32 r[8]; u32 efl, target, pad[2]; u8 env[28]; u32 nx87; u8 st[2][16]; u32 newesp, ret, pad2[2]; u8 fsave[128]; };
static_assert(sizeof(Image) == 256 && offsetof(Image, env) == 48 && offsetof(Image, st) == 80 && offsetof(Image, newesp) == 112 && offsetof(Image, fsave) == 128, "layout");
static Image *IN, *OUT, *REC; static uint64_t *HOST; static void (*GATE)(); static u32 CALLEE;
static u8 *ARENA, *STK, *ONE, *DW, *DX, *CODETAB; static const u32 AR = 0x50000000, STA = 0x60000000, GD = 0x68000000; static const size_t ARN = 64u << 20, STN = 8u << 20, NG = 24, GPG = 72;
static size_t used, gused;
static void *low(u32 a, size_t n, int prot, int fd = -1) { void *p = mmap((void *)(uint64_t)a, n, prot, (fd < 0 ? MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE : MAP_SHARED) | MAP_FIXED_NOREPLACE, fd, 0); if (p == MAP_FAILED) { perror("mapping low memory"); _exit(3); } return p; }
static std::string g_blob, g_abis = "sysv,stdcall,thiscall,fastcall,cdecl", g_mode = "call,closure"; static bool g_var;
static void load() {
  static bool done; if (done) return; done = true;
  FILE *f = fopen(g_blob.c_str(), "rb"); if (!f) { perror(g_blob.c_str()); _exit(3); } fseek(f, 0, SEEK_END); IMG.resize(ftell(f)); rewind(f); if (fread(IMG.data(), 1, IMG.size(), f) != IMG.size()) _exit(3); fclose(f);
  Elf32_Ehdr *e = (Elf32_Ehdr *)IMG.data(); Elf32_Phdr *p = (Elf32_Phdr *)(IMG.data() + e->e_phoff);
  u32 a = ~0u, z = 0; for (int i = 0; i < e->e_phnum; i++) if (p[i].p_type == PT_LOAD) { a = std::min(a, p[i].p_vaddr & ~4095u); z = std::max(z, (p[i].p_vaddr + p[i].p_memsz + 4095) & ~4095u); }
  low(a, z - a, PROT_READ | PROT_WRITE | PROT_EXEC); for (int i = 0; i < e->e_phnum; i++) if (p[i].p_type == PT_LOAD) memcpy(at<u8>(p[i].p_vaddr), IMG.data() + p[i].p_offset, p[i].p_filesz);
  ARENA = (u8 *)low(AR, ARN, PROT_READ | PROT_WRITE); STK = (u8 *)low(STA, STN, PROT_READ | PROT_WRITE); ONE = (u8 *)low(0x70000000, 4096, PROT_READ | PROT_WRITE | PROT_EXEC);
  for (size_t i = 0; i < NG; i++) low(GD + i * (GPG + 1) * 4096, GPG * 4096, PROT_READ | PROT_WRITE);
  int fd = memfd_create("dual", 0); if (ftruncate(fd, 4096)) _exit(3); DW = (u8 *)low(0x70010000, 4096, PROT_READ | PROT_WRITE, fd); DX = (u8 *)low(0x70020000, 4096, PROT_READ | PROT_EXEC, fd); close(fd);
  if (u32 t = sym("trampoline_code_table", true)) { CODETAB = (u8 *)low(0x70030000, 8192, PROT_READ | PROT_WRITE); memcpy(CODETAB, at<u8>(t), 4096); mprotect(CODETAB, 4096, PROT_READ | PROT_EXEC); }
  IN = at<Image>(sym("gate_in")); OUT = at<Image>(sym("gate_out")); REC = at<Image>(sym("gate_rec")); HOST = at<uint64_t>(sym("gate_host")); GATE = (void (*)())(uint64_t)sym("gate_call"); CALLEE = sym("gate_callee");
}
static u8 *get(size_t n, size_t align = 16) { used = (used + align - 1) / align * align + 16; u8 *p = ARENA + used; used += n + 16; if (used > ARN) { fprintf(stderr, "arena full\n"); _exit(3); } return p; }
// an object that ends where unmapped memory begins
static u8 *guarded(size_t n) { if (gused >= NG || n > GPG * 4096) return get(n); return at<u8>(GD + (gused++ * (GPG + 1) + GPG) * 4096 - n); }
// ---- the model
enum A3 { SYSV3, STDCALL, THISCALL, FASTCALL, CDECL3 }; static const char *AN[] = {"sysv", "stdcall", "thiscall", "fastcall", "cdecl"}; static const u32 ACODE[] = {1, 5, 3, 4, 8};
struct P3 { int reg = -1; u32 off = 0; }; struct L3 { std::vector<P3> a; bool sret = false; int sreg = -1; u32 stack = 0, pop = 0; };
static const int REGS[] = {ECX, EDX};
static int nregs(A3 a) { return a == THISCALL ? 1 : a == FASTCALL ? 2 : 0; }
static L3 layout3(A3 a, const Sig &g) {
  L3 l; int nr = nregs(a), n = 0; l.sret = g.ret->k == ST || (g.ret->k == CX && (g.ret->size >= 16));
  if (l.sret) { if (nr) { l.sreg = REGS[0]; n = 1; } else l.stack = 4; }
  for (Ty *t : g.args) {
    P3 p; if (is_int(t->k) && t->size <= 4 && n < nr) p.reg = REGS[n++];
    else { if (nr && (t->k == ST || t->k == U64 || t->k == S64)) n = nr; p.off = l.stack; l.stack += (t->size + 3) & ~3u; }
    l.a.push_back(p);
  }
  l.pop = a == SYSV3 ? (l.sret ? 4 : 0) : a == CDECL3 ? 0 : l.stack; return l;
}
static int leaves(const Ty *t) { if (t->k != ST) return 1; int n = 0; for (Ty *e : t->el) n += leaves(e); return n; }
static u32 widen3(const Ty *t, const u8 *p) { switch (t->k) { case U8: return *p; case S8: return (u32)(int8_t)*p; case U16: { uint16_t v; memcpy(&v, p, 2); return v; } case S16: { int16_t v; memcpy(&v, p, 2); return (u32)(int)v; } default: { u32 v; memcpy(&v, p, 4); return v; } } }
// ---- descriptions
struct T32 { u32 size; uint16_t align, type; u32 el; }; struct C32 { u32 abi, nargs, args, ret, bytes, flags; };
static std::map<const ffi_type *, u32> TM;
static u32 builtin3(const ffi_type *f) {
  static std::map<const ffi_type *, u32> m; if (m.empty()) {
    static const char *N[] = {"ffi_type_uint8", "ffi_type_sint8", "ffi_type_uint16", "ffi_type_sint16", "ffi_type_uint32", "ffi_type_sint32", "ffi_type_uint64", "ffi_type_sint64", "ffi_type_pointer", "ffi_type_float", "ffi_type_double", "ffi_type_longdouble"};
    for (int k = 0; k <= LD; k++) m[builtin((K)k)] = sym(N[k]); m[&ffi_type_void] = sym("ffi_type_void"); m[&ffi_type_complex_float] = sym("ffi_type_complex_float"); m[&ffi_type_complex_double] = sym("ffi_type_complex_double"); m[&ffi_type_complex_longdouble] = sym("ffi_type_complex_longdouble"); }
  auto i = m.find(f); return i == m.end() ? 0 : i->second;
}
static u32 conv(const Ty *t) {
  if (u32 b = builtin3(t->ft)) return b; auto i = TM.find(t->ft); if (i != TM.end()) return i->second;
  T32 *p = (T32 *)get(sizeof(T32), 4); *p = T32{(u32)t->size, (uint16_t)t->align, ftcode(t->k), 0};
  if (t->k == ST) { p->size = p->align = 0; std::vector<u32> e; for (Ty *x : t->el) e.push_back(conv(x)); e.push_back(0); u32 *v = (u32 *)get(e.size() * 4, 4); memcpy(v, e.data(), e.size() * 4); p->el = lo(v); }
  if (t->k == CX) { u32 *v = (u32 *)get(8, 4); v[0] = builtin3(builtin(t->base)); v[1] = 0; p->el = lo(v); }
  return TM[t->ft] = lo(p);
}
// ---- calls into the image
static pbt::Rng NZ(1);
static int depth(const u8 *env) { uint16_t tw; memcpy(&tw, env + 8, 2); int n = 0; for (int i = 0; i < 8; i++) if (((tw >> (2 * i)) & 3) != 3) n++; return n; }
static void bad(const std::string &m) { pbt::err(m); }
static void (*HOOK)(); static void hook_entry() { HOOK(); }
static const size_t PAD = 96;
struct St { u32 mx = 0x1f80; uint16_t cw = 0x37f; int want87 = 0; u32 pop = 0; };
// image: what lies at the stack pointer, followed by PAD bytes of the caller's frame
static void go(u32 target, const std::vector<u8> &img, u32 argbytes, St st, const char *what) {
  u8 *sp = STK + STN - 8192 - ((img.size() + 15) & ~15ull); memcpy(sp, img.data(), img.size());
  for (int i = 0; i < 8; i++) if (i != ESP && i != EAX && i != ECX && i != EDX) IN->r[i] = (u32)NZ.next();
  IN->r[ESP] = lo(sp); IN->efl = 0x202 | (NZ.next() & 0x8d5); IN->target = target; HOST[1] = (uint64_t)hook_entry;
  u32 keep[8]; memcpy(keep, IN->r, sizeof keep); u32 omx = _mm_getcsr(); uint16_t ocw; asm volatile("fnstcw %0" : "=m"(ocw)); _mm_setcsr(st.mx); asm volatile("fldcw %0" ::"m"(st.cw));
  GATE(); u32 nmx = _mm_getcsr(); _mm_setcsr(omx); asm volatile("fldcw %0" ::"m"(ocw));
  static const char *rn[] = {"eax", "ecx", "edx", "ebx", "esp", "ebp", "esi", "edi"};
  for (int i : {EBX, EBP, ESI, EDI}) if (OUT->r[i] != keep[i]) bad(fmt("%s: %s was not preserved: %x became %x", what, rn[i], keep[i], OUT->r[i]));
  if (OUT->r[ESP] != keep[ESP] + st.pop) bad(fmt("%s: the stack pointer changed by %d, expected %u", what, (int)(OUT->r[ESP] - keep[ESP]), st.pop));
  if (OUT->efl & 0x400) bad(fmt("%s: direction flag set on return", what)); if ((nmx & 0xffc0) != (st.mx & 0xffc0)) bad(fmt("%s: mxcsr changed", what));
  uint16_t cw; memcpy(&cw, OUT->fsave, 2); if (cw != st.cw) bad(fmt("%s: x87 control word %x became %x", what, st.cw, cw)); int d = depth(OUT->fsave); if (d != st.want87) bad(fmt("%s: %d values on the x87 stack on return, expected %d", what, d, st.want87));
  if (memcmp(sp + argbytes, img.data() + argbytes, img.size() - argbytes)) bad(fmt("%s: the caller's frame was modified", what));
}
static void rnd3() { for (int i : {EAX, ECX, EDX}) IN->r[i] = (u32)NZ.next(); }
static u32 call32(const char *fn, std::vector<u32> a, St st = St()) { std::vector<u8> img(a.size() * 4 + PAD); for (auto &b : img) b = (u8)NZ.next(); memcpy(img.data(), a.data(), a.size() * 4); rnd3(); go(sym(fn), img, (u32)a.size() * 4, st, fn); return OUT->r[EAX]; }
// ---- one case
enum Mode { CALL, CLOSURE, GOCALL, GOCLOSURE, RAWCALL, RAWCLOSURE, PACK, LAYOUT, NMODES }; static const char *MN[] = {"call", "closure", "gocall", "goclosure", "rawcall", "rawclosure", "pack", "layout"};
static std::vector<int> modes; static std::vector<A3> abis;
static struct { A3 a; int mode; Sig *g; L3 L; std::vector<std::vector<u8>> val; std::vector<u8> ret; u32 rv, cif, ud, ctx; int count; bool scribble, have_rv; uint64_t seed; St st; } C;
static void entry_state(const char *who) {
  Image *r = REC; if ((r->r[ESP] & 15) != 12) bad(fmt("%s entered with misaligned stack, esp %% 16 = %u", who, r->r[ESP] & 15)); if (r->efl & 0x400) bad(fmt("%s entered with the direction flag set", who));
  if (int d = depth(r->env)) bad(fmt("%s entered with %d values on the x87 stack", who, d)); uint16_t cw; memcpy(&cw, r->env, 2); if (cw != C.st.cw) bad(fmt("%s entered with x87 control word %x, caller had %x", who, cw, C.st.cw));
}
static void leave(u32 pop) { Image *r = REC; r->ret = *at<u32>(r->r[ESP]); r->newesp = r->r[ESP] + 4 + pop; r->nx87 = 0; for (int i : {EAX, ECX, EDX}) r->r[i] = (u32)NZ.next(); }
static void put_ret(Image *r, u32 sret) {
  Ty *t = C.g->ret; const u8 *v = C.ret.data(); if (t->k == VOID) return;
  if (C.L.sret) { memcpy(at<u8>(sret), v, t->size); r->r[EAX] = sret; return; }
  if (is_fp(t->k)) { r->nx87 = 1; long double x; float f; double d; if (t->k == F) memcpy(&f, v, 4), x = f; else if (t->k == D) memcpy(&d, v, 8), x = d; else memcpy(&x, v, 10); memcpy(r->st[0], &x, 10); return; }
  memcpy(&r->r[EAX], v, std::min<size_t>(4, t->size)); if (t->size > 4) memcpy(&r->r[EDX], v + 4, 4);
}
static void callee() {
  C.count++; entry_state("callee"); Image *r = REC; Sig &g = *C.g; u8 *sp = at<u8>(r->r[ESP] + 4); std::string why;
  for (size_t i = 0; i < g.args.size(); i++) {
    Ty *t = g.args[i]; P3 &p = C.L.a[i]; const u8 *q = p.reg >= 0 ? (u8 *)&r->r[p.reg] : sp + p.off;
    if (!same(t, C.val[i].data(), q, &why)) { bad(fmt("argument %zu (%s) arrived wrong: ", i, name(t).c_str()) + why); break; }
    u32 w; memcpy(&w, q, 4); if (is_int(t->k) && t->size < 4 && w != widen3(t, C.val[i].data())) bad(fmt("argument %zu (%s) is not extended: %x", i, name(t).c_str(), w));
  }
  u32 sret = 0; if (C.L.sret) { sret = C.L.sreg >= 0 ? r->r[C.L.sreg] : *(u32 *)sp; if (C.have_rv ? sret != C.rv : !sret) { bad(fmt("the result address passed is %x, the caller's object is at %x", sret, C.rv)); leave(C.L.pop); return; } }
  if (C.mode == GOCALL) { int cr = nregs(C.a) ? EAX : ECX; if (r->r[cr] != C.ctx) bad(fmt("static chain register holds %x, expected %x", r->r[cr], C.ctx)); }
  if (C.scribble) for (u32 i = 0; i < C.L.stack; i++) sp[i] = (u8)NZ.next();
  leave(C.L.pop); put_ret(r, sret);
}
static void handler() {
  C.count++; entry_state("handler"); Image *r = REC; u32 *sp = at<u32>(r->r[ESP] + 4); Sig &g = *C.g; std::string why;
  if (sp[0] != C.cif) bad("the handler got another interface"); if (sp[3] != C.ud) bad(fmt("the handler got user datum %x, expected %x", sp[3], C.ud)); u32 *av = at<u32>(sp[2]), ret = sp[1];
  if (C.mode == RAWCLOSURE) { u32 slot = 0; for (size_t i = 0; i < g.args.size(); i++) { Ty *t = g.args[i]; if (!same(t, C.val[i].data(), (u8 *)(av + slot), &why)) { bad(fmt("raw argument %zu (%s) wrong: ", i, name(t).c_str()) + why); break; } slot += (u32)(t->size + 3) / 4; } }
  else {
    for (size_t i = 0; i < g.args.size(); i++) { Ty *t = g.args[i]; if (av[i] % t->align) bad(fmt("handler: argument %zu is misaligned", i)); if (!same(t, C.val[i].data(), at<u8>(av[i]), &why)) { bad(fmt("handler: argument %zu (%s) wrong: ", i, name(t).c_str()) + why); break; } }
    if (C.scribble) {
      pbt::Rng a(C.seed), b(C.seed); for (size_t i = 0; i < g.args.size(); i++) for (size_t k = 0; k < g.args[i]->size; k++) at<u8>(av[i])[k] = (u8)a.next();
      for (size_t i = 0; i < g.args.size(); i++) for (size_t k = 0; k < g.args[i]->size; k++) if (at<u8>(av[i])[k] != (u8)b.next()) { bad(fmt("argument %zu shares memory with another one", i)); i = g.args.size(); break; }
    }
  }
  Ty *t = g.ret; if (C.L.sret && ret != C.rv) bad(fmt("the handler's result address is %x, the caller's is %x", ret, C.rv));
  else if (t->k != VOID) { if (is_int(t->k) && t->size < 4) { *at<u32>(ret) = widen3(t, C.ret.data()); } else memcpy(at<u8>(ret), C.ret.data(), t->size); }
  leave(0);
}
static void layout_check(Pool &P, pbt::Src &s, A3 a) {
  Ty *t = P.gen_struct(s, 3); u32 f = conv(t); u32 n = (u32)t->el.size(); pbt::describe(fmt("layout of %s\n", name(t).c_str())); pbt::nontrivial(thash(t)); pbt::sample(name(t)); label("layout");
  u32 *off = (u32 *)get(4 * n + 4, 4); off[n] = 0x5a5a5a5a; bool null = s.chance(1, 5); u32 st = call32("ffi_get_struct_offsets", {ACODE[a], f, null ? 0 : lo(off)}); if (st) fail(fmt("ffi_get_struct_offsets: status %u", st));
  T32 *d = at<T32>(f); if (d->size != t->size || d->align != t->align) fail(fmt("size %u alignment %u, expected %zu %zu", d->size, d->align, t->size, t->align));
  if (!null) { for (u32 i = 0; i < n; i++) if (off[i] != t->off[i]) fail(fmt("member %u at offset %u, expected %zu", i, off[i], t->off[i])); if (off[n] != 0x5a5a5a5a) fail("an offset was stored beyond the last member"); }
}
static u8 *slotpage(u8 *pg, unsigned &turn) { u8 *p = pg + 128 * (turn++ % 32); memset(p, 0xcc, 128); return p + 32; }
static void prop(pbt::Src &s) {
  load(); Pool P; TM.clear(); used = gused = 0; NZ = pbt::Rng(s.u64()); int mode = modes[s.below(modes.size())]; A3 a = abis[s.below(abis.size())]; if (g_var && mode != CALL) mode = CALL;
  if (mode == RAWCLOSURE) a = s.chance(1, 3) ? THISCALL : SYSV3;
  P.o.max_struct = 1 << 14; if (mode == LAYOUT) { layout_check(P, s, a); return; }
  Sig g; g.args = P.gen_args(s, 600); g.ret = P.gen_ret(s); size_t tot = 0;
  for (size_t i = 0; i < g.args.size(); i++) { Ty *&t = g.args[i]; if (nregs(a) && t->k == ST && (t->size <= 4 || leaves(t) == 1)) t = P.scalar(S32); if (mode == RAWCLOSURE && (t->k == ST || t->k == CX || t->k == LD)) t = P.scalar(s.chance(1, 2) ? D : S32); tot += t->size; if (tot > 200000) { g.args.resize(i); break; } }
  bool refused = false;   // raw closures: signatures whose arguments are not consecutive words on the stack are refused
  if (mode == RAWCLOSURE) {
    if (s.chance(1, 24)) { Ty *t = s.chance(1, 3) ? P.scalar(LD) : s.chance(1, 2) ? P.gen_struct(s, 1) : P.complex_(s.chance(1, 2) ? F : S8); g.args.insert(g.args.begin() + s.below(g.args.size() + 1), t); }
    if (a == THISCALL && !layout3(a, g).sret && !g.args.empty() && !(is_int(g.args[0]->k) && g.args[0]->size <= 4)) { if (s.chance(1, 8)) refused = true; else g.args[0] = P.scalar(S16); }
    for (auto t : g.args) refused |= t->k == ST || t->k == CX || t->k == LD;
  }
  if (g_var) { if (g.args.empty()) g.args.push_back(P.scalar(S32)); g.nfixed = 1 + (int)s.below(g.args.size()); for (size_t i = g.nfixed; i < g.args.size(); i++) { Ty *&t = g.args[i]; if (t->k == F) t = P.scalar(D); else if (is_int(t->k) && t->size < 4) t = P.scalar(S32); } }
  size_t n = g.args.size(); C = {}; C.a = a; C.mode = mode; C.g = &g; C.L = layout3(a, g); C.seed = s.u64(); C.scribble = s.chance(1, 2);
  pbt::describe(fmt("%s %s: ", MN[mode], AN[a]) + name(g) + "\n"); label(MN[mode]); label(AN[a]); if (C.L.sret) label("result in memory"); bool nt = g.ret->k == ST || g.ret->k == CX || is_fp(g.ret->k); for (auto t : g.args) nt |= t->k == ST || t->k == CX || t->size != 4; if (nt) { pbt::nontrivial(pbt::hcomb(thash(g), mode * 8 + a)); pbt::sample(fmt("%s %s: ", MN[mode], AN[a]) + name(g)); }
  // interface
  std::vector<u32> ts; for (auto t : g.args) ts.push_back(conv(t)); u32 *tv = (u32 *)get(4 * n, 4); if (n) memcpy(tv, ts.data(), 4 * n); C32 *cif = (C32 *)get(sizeof(C32), 4); C.cif = lo(cif); u32 rt = conv(g.ret);
  u32 stt = g_var ? call32("ffi_prep_cif_var", {C.cif, ACODE[a], (u32)g.nfixed, (u32)n, rt, lo(tv)}) : call32("ffi_prep_cif", {C.cif, ACODE[a], (u32)n, rt, lo(tv)}); if (stt) fail(fmt("ffi_prep_cif: status %u", stt));
  if (g.ret->k == ST) { T32 *d = at<T32>(rt); if (d->size != g.ret->size || d->align != g.ret->align) fail("wrong size of the result structure"); }
  C32 cifcopy = *cif;
  // values
  std::vector<u8 *> val(n); C.val.resize(n); for (size_t i = 0; i < n; i++) { val[i] = s.chance(1, 8) ? guarded(g.args[i]->size) : get(g.args[i]->size); C.val[i].resize(g.args[i]->size + 16); fill(g.args[i], C.val[i].data(), pbt::mix64(C.seed + i) | 1); memcpy(val[i], C.val[i].data(), g.args[i]->size); }
  C.ret.resize(g.ret->size + 16); fill(g.ret, C.ret.data(), pbt::mix64(C.seed - 1) | 1);
  bool isint = is_int(g.ret->k); size_t rs = g.ret->k == VOID ? 0 : g.ret->size, robj = isint && !(mode == CLOSURE || mode == GOCLOSURE || mode == RAWCLOSURE) ? std::max<size_t>(4, rs) : rs;
  u8 *rv = (s.chance(1, 3) ? guarded(robj) : get(robj)); C.rv = lo(rv); std::vector<u8> old(robj + 32); for (size_t i = 0; i < 16; i++) rv[-16 + (int)i] = (u8)(i * 3); for (size_t i = 0; i < robj; i++) rv[i] = old[i] = (u8)NZ.next();
  C.st.mx = 0x1f80 | (s.below(4) << 13); C.st.cw = 0x037f | (uint16_t)(s.below(4) << 10); std::string why;
  std::vector<u32> pv; for (auto p : val) pv.push_back(lo(p)); u32 *av = (u32 *)get(4 * n, 4); if (n) memcpy(av, pv.data(), 4 * n);
  u32 rawslots = 0; for (auto t : g.args) rawslots += t->k == ST || t->k == CX ? 1 : (u32)(t->size + 3) / 4;
  if (mode == PACK) {
    bool java = s.chance(1, 2); for (auto t : g.args) if (t->k == ST || t->k == CX || t->k == LD) java = false; label(java ? "java" : "raw"); u32 sz = call32(java ? "ffi_java_raw_size" : "ffi_raw_size", {C.cif});
    u32 want = rawslots * 4; if (sz != want) fail(fmt("%s size is %u, expected %u", java ? "Java raw" : "raw", sz, want));
    u8 *r = guarded(want), *copy; r[-1] = 77; call32(java ? "ffi_java_ptrarray_to_raw" : "ffi_ptrarray_to_raw", {C.cif, lo(av), lo(r)}); if (r[-1] != 77) fail("something was stored before the raw area"); copy = get(4 * n + 4, 4);
    u32 slot = 0; for (auto &t : g.args) { size_t i = &t - &g.args[0]; if (t->k != ST && t->k != CX) { if (!same(t, val[i], r + slot * 4, &why)) fail(fmt("argument %zu is not in its slots: ", i) + why); if (is_int(t->k) && t->size < 4 && *(u32 *)(r + slot * 4) != widen3(t, val[i])) fail(fmt("argument %zu is not widened in its slot", i)); slot += (u32)(t->size + 3) / 4; } else { if (*(u32 *)(r + slot * 4) != lo(val[i])) fail(fmt("slot of argument %zu does not refer to it", i)); slot++; } }
    call32(java ? "ffi_java_raw_to_ptrarray" : "ffi_raw_to_ptrarray", {C.cif, lo(r), lo(copy)}); for (size_t i = 0; i < n; i++) if (!same(g.args[i], val[i], at<u8>(((u32 *)copy)[i]), &why)) fail(fmt("packing and unpacking changed argument %zu: ", i) + why);
    pbt::raise_err(); return;
  }
  // calls
  if (mode == CALL || mode == GOCALL || mode == RAWCALL) {
    HOOK = callee; C.have_rv = !s.chance(1, 6); C.ctx = (u32)s.u64() | 1; u32 vec = lo(av), fnarg = C.have_rv ? C.rv : 0; u8 *r = nullptr;
    if (mode == RAWCALL) { r = guarded(rawslots * 4); call32("ffi_ptrarray_to_raw", {C.cif, lo(av), lo(r)}); vec = lo(r); }
    std::vector<u32> args = {C.cif, CALLEE, fnarg, vec}; if (mode == GOCALL) args.push_back(C.ctx);
    call32(mode == CALL ? "ffi_call" : mode == GOCALL ? "ffi_call_go" : "ffi_raw_call", args, C.st);
    if (C.count != 1) bad(fmt("the callee ran %d times", C.count));
    if (!C.have_rv || g.ret->k == VOID) { if (memcmp(rv, old.data(), robj)) bad("the result object was modified although none was supplied"); }
    else if (isint && rs <= 4) { u32 w; memcpy(&w, rv, 4); if (w != widen3(g.ret, C.ret.data())) bad(fmt("result (%s) is %x, expected %x", name(g.ret).c_str(), w, widen3(g.ret, C.ret.data()))); }
    else if (!same(g.ret, C.ret.data(), rv, &why)) bad(fmt("wrong result (%s): ", name(g.ret).c_str()) + why);
  } else {
    HOOK = handler; C.ud = (u32)s.u64(); u32 code; int kind = (int)s.below(4); C32 *cl; static unsigned t1, t2, t3; if (kind == 3 && (!CODETAB || mode == RAWCLOSURE)) kind = 0; u32 *sim = at<u32>(sym("shim_static")); *sim = 0;
    if (mode == GOCLOSURE) { u32 *gc = (u32 *)get(12, 4); if (u32 x = call32("ffi_prep_go_closure", {lo(gc), C.cif, CALLEE})) fail(fmt("ffi_prep_go_closure: status %u", x)); code = gc[0]; C.ud = lo(gc); label("go closure"); }
    else {
      u8 *w, *x; if (kind <= 1) { w = x = slotpage(ONE, t1); } else if (kind == 2) { w = slotpage(DW, t2); x = DX + (w - DW); } else { w = get(64, 4); u32 tsz = *at<u32>(sym("shim_tramp_size")); unsigned k = t3++ % (4096 / tsz); x = CODETAB + k * tsz; *sim = lo(CODETAB + 4096 + k * tsz); *(u32 *)w = 1; }
      label(kind == 3 ? "static trampoline" : kind == 2 ? "dual mapping" : "single mapping"); code = lo(x);
      bool noloc = kind <= 1 && s.chance(1, 2); u32 q = mode == CLOSURE ? (noloc ? call32("ffi_prep_closure", {lo(w), C.cif, CALLEE, C.ud}) : call32("ffi_prep_closure_loc", {lo(w), C.cif, CALLEE, C.ud, lo(x)})) : (noloc ? call32("ffi_prep_raw_closure", {lo(w), C.cif, CALLEE, C.ud}) : call32("ffi_prep_raw_closure_loc", {lo(w), C.cif, CALLEE, C.ud, lo(x)})); if (refused) { label("refused"); if (q != 1 /* FFI_BAD_TYPEDEF */) fail(fmt("preparing a raw closure for this signature: status %u, expected FFI_BAD_TYPEDEF", q)); pbt::raise_err(); return; } if (q) fail(fmt("preparing the closure: status %u", q));
    }
    std::vector<u8> img(C.L.stack + PAD); for (auto &b : img) b = (u8)NZ.next(); rnd3(); if (C.L.sret) { if (C.L.sreg >= 0) IN->r[C.L.sreg] = C.rv; else memcpy(img.data(), &C.rv, 4); }
    for (size_t i = 0; i < n; i++) { P3 &p = C.L.a[i]; u32 w = is_int(g.args[i]->k) && g.args[i]->size <= 4 ? widen3(g.args[i], val[i]) : 0; if (p.reg >= 0) IN->r[p.reg] = w; else if (is_int(g.args[i]->k) && g.args[i]->size <= 4) memcpy(&img[p.off], &w, 4); else memcpy(&img[p.off], val[i], g.args[i]->size); }
    if (mode == GOCLOSURE) IN->r[nregs(a) ? EAX : ECX] = C.ud;
    C.st.want87 = is_fp(g.ret->k) ? 1 : 0; C.st.pop = C.L.pop; go(code, img, C.L.stack, C.st, "the closure");
    if (C.count != 1) bad(fmt("the handler ran %d times", C.count)); u8 got[16]; const u8 *q = nullptr; memcpy(got, &OUT->r[EAX], 4); memcpy(got + 4, &OUT->r[EDX], 4);
    if (C.L.sret) { q = rv; if (OUT->r[EAX] != C.rv) bad("eax is not the address of the result"); }
    else { if (memcmp(rv, old.data(), robj)) bad("memory not passed to the closure was modified"); q = got; if (is_fp(g.ret->k)) { long double x; memcpy(&x, OUT->fsave + 28, 10); float f = (float)x; double d = (double)x; if (g.ret->k == F) memcpy(got, &f, 4); else if (g.ret->k == D) memcpy(got, &d, 8); else memcpy(got, OUT->fsave + 28, 10); } }
    if (g.ret->k != VOID && !same(g.ret, C.ret.data(), q, &why)) bad(fmt("the caller received a wrong result (%s): ", name(g.ret).c_str()) + why);
  }
  for (size_t i = 0; i < 16; i++) if (rv[-16 + (int)i] != (u8)(i * 3)) { bad("memory before the result object was modified"); break; }
  for (size_t i = 0; i < n; i++) { if (av[i] != pv[i]) bad("the argument vector was modified"); if (memcmp(val[i], C.val[i].data(), g.args[i]->size)) bad(fmt("the caller's object of argument %zu was modified", i)); }
  if (memcmp(&cifcopy, cif, sizeof cifcopy)) bad("the prepared interface was modified"); pbt::raise_err();
}
int main(int argc, char **argv) {
  pbt::stable_env(argv); ty::set_i386(); pbt::Config c; c.name = "i386"; c.prop = prop; c.rule = "random signature, values, registers and machine state per case; non-trivial = a structure, complex or floating result, or an argument that is not one 4-byte word; distinct by (mode, ABI, signature)";
  pbt::parse(c, argc, argv, [](const std::string &k, const std::string &v) { if (k == "--blob") g_blob = v; else if (k == "--var") g_var = v == "1"; else if (k == "--mode") g_mode = v; else if (k == "--abi") g_abis = v; else return false; return true; });
  auto split = [](const std::string &x) { std::vector<std::string> o; size_t i = 0; while (i <= x.size()) { size_t j = x.find(',', i); if (j == std::string::npos) j = x.size(); o.push_back(x.substr(i, j - i)); i = j + 1; } return o; };
  for (auto &m : split(g_mode)) for (int i = 0; i < NMODES; i++) if (m == MN[i]) modes.push_back(i); for (auto &m : split(g_abis)) for (int i = 0; i < 5; i++) if (m == AN[i]) abis.push_back((A3)i);
  // 32-bit code segments may be unavailable: then nothing can be decided here
  pid_t p = fork(); if (!p) { pbt::SH = pbt::shm<pbt::Shared>(); load(); _exit(call32("shim_probe", {}) == 42 && pbt::g_err.empty() ? 42 : 1); } int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st) != 42) { fprintf(stderr, "32-bit code cannot be run here\n"); return 3; }
  return pbt::run(c);
}
