// Model lanes: calls and closures of random signatures against the calling convention models in abi.hpp.
// Every aspect of a transition is checked; --aspects selects those a violation is reported for:
//   A arguments   R results   M memory confinement   S machine state
#include "abi.hpp"
#include <xmmintrin.h>
#include <signal.h>
#include <ucontext.h>
#define NO_SIM
#include "shapes.hpp"
using namespace abi;
using pbt::fail; using pbt::label;

static int g_hist = 1; static bool g_sig = false; static bool g_var = false; static unsigned g_own = 0;
static std::string g_aspects = "ARMS"; static std::string g_mode = "call,closure"; static std::string g_abis = "sysv";
static void bad(char aspect, const std::string &m) { if (g_aspects.find(aspect) != std::string::npos) pbt::err(fmt("[%c] ", aspect) + m); }

enum Mode { CALL, CLOSURE, GOCALL, GOCLOSURE, RAWCALL, RAWCLOSURE, JAVACALL, JAVACLOSURE, NMODES };
static const char *MN[] = {"call", "closure", "gocall", "goclosure", "rawcall", "rawclosure", "javacall", "javaclosure"};
static bool is_closure(int m) { return m == CLOSURE || m == GOCLOSURE || m == RAWCLOSURE || m == JAVACLOSURE; }

static Guard *G; static Guard &guard() { if (!G) G = new Guard; return *G; }

struct Cur {
  Abi a; int mode; Sig *g; Layout L; std::vector<u8 *> val; u8 *retval; void *rv_expect; bool rv_null; uint64_t seed; bool scribble; bool clobber;
  void *ud; ffi_cif *cif; int count; uint64_t ctx; uint32_t mxcsr, end_mx; uint16_t fcw, end_cw; bool have_state; bool deep_stack;
};
static Cur C;

static void clobber_sysv(Regs &r, pbt::Rng &nz, Abi a) {
  for (int i = 0; i < 16; i++) { if (i != RSP && !preserved_gpr(a, i)) r.gpr[i] = nz.next(); }
  for (int x = 0; x < 16; x++) if (!preserved_xmm(a, x)) for (int i = 0; i < 16; i += 8) { uint64_t v = nz.next(); memcpy(r.xmm[x] + i, &v, 8); }
}
static void check_entry_state(Regs *r, const char *who) {
  if ((r->gpr[RSP] & 15) != 8) bad('S', fmt("%s entered with misaligned stack, rsp %% 16 = %lu", who, r->gpr[RSP] & 15));
  if (r->rflags & 0x400) bad('S', fmt("%s entered with the direction flag set", who));
  int d = x87_depth_env(r->env); if (d) bad('S', fmt("%s entered with %d values on the x87 stack", who, d));
  if (C.have_state) {
    if ((r->mxcsr & 0xffff) != (C.mxcsr & 0xffff)) bad('S', fmt("%s entered with mxcsr %x, caller had %x", who, r->mxcsr, C.mxcsr));
    if (r->fcw != C.fcw) bad('S', fmt("%s entered with x87 control word %x, caller had %x", who, r->fcw, C.fcw));
  }
}
// ---- --signals=1: every instruction of the library is followed by a signal, whose frame overwrites the stack below the red
// zone; at some of them the signal handler makes calls and invokes closures of its own
static struct { bool on, alt; uint64_t steps, next; unsigned nested, gap; pbt::Rng rng{1}; char err[400]; void *code[NSHAPE]; ffi_go_closure go[2]; } SG;
static __attribute__((noinline)) void trap_on() { asm volatile("leaq -256(%%rsp), %%rsp; pushfq; orq $0x100, (%%rsp); popfq; leaq 256(%%rsp), %%rsp" ::: "memory", "cc"); }
static void nested_use() {
  SG.nested++; uint64_t r = SG.rng.next(); int sh = (int)(r % NSHAPE), w = (int)(r >> 8) % 5, native = (r >> 16) & 1; uint64_t v = SG.rng.next(); void *ud = (void *)(uint64_t)(sh * 16 + 1); std::string e;
  if (w == 4) { sh = sh % 2; e = viacall((void *)SG.go[sh].tramp, sh, 1, false, &SG.go[sh], v, 3, &SG.go[sh]); }
  else if (w == 3) e = callit(SG.code[sh], sh, 0, false, ud, v); else if (native) e = viacall((void *)NAT[sh], sh, 9, false, nullptr, v, w); else e = viacall(SG.code[sh], sh, 0, false, ud, v, w);
  if (!e.empty() && !SG.err[0]) snprintf(SG.err, sizeof SG.err, "in a signal handler: %s", e.c_str());
}
static void on_trap(int, siginfo_t *, void *u) {
  ucontext_t *uc = (ucontext_t *)u; if ((uint64_t)uc->uc_mcontext.gregs[REG_RIP] == (uint64_t)cap_callee || !SG.on) { uc->uc_mcontext.gregs[REG_EFL] &= ~0x100; return; }
  // (parts of the frame the kernel leaves unwritten do not shield anything: on the alternate stack the whole area is overwritten)
  if (SG.alt) { uint64_t *q = (uint64_t *)(((uint64_t)uc->uc_mcontext.gregs[REG_RSP] - 128) & ~7ull), v = SG.rng.next() | 1; for (int i = 1; i <= 160; i++) q[-i] = v; }
  if (++SG.steps >= SG.next && SG.nested < 250) { unsigned mx = _mm_getcsr(); _mm_setcsr(0x1f80); nested_use(); _mm_setcsr(mx); SG.next = SG.steps + 1 + SG.rng.below(SG.gap); }
}
static void sig_setup() {
  static bool done; if (done) return; done = true; shapes(); struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_trap; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sigaction(SIGTRAP, &sa, 0);
  u8 *pg = (u8 *)mmap(0, 4096, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  for (int i = 0; i < NSHAPE; i++) { void *p, *c; if (i & 1) p = c = pg + 256 * i; else p = ffi_closure_alloc(sizeof(ffi_raw_closure), &c); if (!p || prep(p, c, i, 0, false, (void *)(uint64_t)(i * 16 + 1)) != FFI_OK) fail("preparing a closure failed"); SG.code[i] = c; }
  for (int i = 0; i < 2; i++) if (ffi_prep_go_closure(&SG.go[i], &SH_[i].cif, H<1>) != FFI_OK) fail("ffi_prep_go_closure failed");
}
static void sig_stack(bool on) {
  static stack_t ss; if (!ss.ss_sp) { ss.ss_size = 256 << 10; ss.ss_sp = mmap(0, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
  ss.ss_flags = on ? 0 : SS_DISABLE; if (sigaltstack(&ss, 0)) fail("sigaltstack failed"); SG.alt = on;
}
// ---- the callee of dynamic calls
static void callee_body(Regs *r) {
  C.count++; check_entry_state(r, "callee");
  if (g_var && C.a == SYSV && ((r->gpr[RAX] & 0xff) < (unsigned)C.L.nsse || (r->gpr[RAX] & 0xff) > 8)) bad('A', fmt("al is %lu, %d vector registers carry arguments", r->gpr[RAX] & 0xff, C.L.nsse));
  Sig &g = *C.g; u8 *stack = (u8 *)r->gpr[RSP] + 8; pbt::Rng nz(C.seed ^ 0x1234567);
  static std::vector<u8> buf; std::vector<std::pair<u8 *, size_t>> mem;
  for (size_t i = 0; i < g.args.size(); i++) {
    Ty *t = g.args[i]; if (buf.size() < t->size + 16) buf.resize(t->size + 16);
    uint64_t ext, ref; bool hx; read_arg(C.a, g, C.L, i, *r, stack, buf.data(), &ext, &hx, &ref);
    std::string why;
    if (!same(t, C.val[i], buf.data(), &why)) bad('A', fmt("argument %zu (%s) arrived wrong: ", i, name(t).c_str()) + why);
    if (hx && t->size < 8 && ext != widen(t, C.val[i])) bad('A', fmt("argument %zu (%s) is not extended in its register: %lx expected %lx", i, name(t).c_str(), ext, widen(t, C.val[i])));
    if (g_var && C.a != SYSV && C.L.a[i].cls == "S" && C.L.a[i].slot < 4 && memcmp(&r->gpr[WIN_GPR[C.L.a[i].slot]], C.val[i], t->size)) bad('A', fmt("variadic argument %zu (%s) is not also in its integer register", i, name(t).c_str()));
    if (ref && C.a != SYSV) { if (ref % 16) bad('A', fmt("by-reference copy of argument %zu is misaligned", i)); if ((u8 *)ref + t->size > C.val[i] && (u8 *)ref < C.val[i] + t->size) bad('M', fmt("argument %zu is passed by reference to the caller's own object", i)); }
    if (u8 *m = arg_mem(C.a, C.L, i, *r, stack)) {
      size_t sz = C.a != SYSV && !C.L.a[i].ref ? 8 : t->size;
      if (ref && C.a != SYSV) for (size_t k = mem.size(); k-- > 0 && k + 64 >= mem.size();) if (m < mem[k].first + mem[k].second && mem[k].first < m + sz) { bad('A', fmt("argument %zu (%s) shares its memory with another one", i, name(t).c_str())); break; }
      mem.push_back({m, sz});
    }
  }
  if (C.a == SYSV) { unsigned al = r->gpr[RAX] & 0xff; (void)al; }
  if (C.ctx && r->gpr[R10] != C.ctx) bad('A', fmt("static chain register holds %lx, expected %lx", r->gpr[R10], C.ctx));
  void *sret = nullptr;
  if (C.L.sret) sret = (void *)(C.a == SYSV ? r->gpr[RDI] : r->gpr[RCX]);
  if (C.L.sret && (uint64_t)sret % g.ret->align) bad('R', fmt("the result address %p passed to the callee is not aligned for %s", sret, name(g.ret).c_str()));
  if (C.L.sret && !sret) { bad('R', "null pointer passed for a result in memory"); return; }
  if (C.scribble) {
    for (auto &m : mem) for (size_t i = 0; i < m.second; i++) m.first[i] = (u8)nz.next();
    if (C.a != SYSV) for (int i = 0; i < 32; i++) stack[i] = (u8)nz.next();
  }
  if (C.deep_stack) { volatile u8 big[20000]; for (size_t i = 0; i < sizeof big; i += 512) big[i] = (u8)i; }
  if (C.clobber) clobber_sysv(*r, nz, C.a);
  write_ret(C.a, g, C.L, C.retval, sret, *r, nz);
}
// ---- handler of closures (cap_callee called as handler: SysV convention)
static void store_result(void *ret, pbt::Rng &nz) {
  Ty *t = C.g->ret; if (t->k == VOID) return;
  if (is_int(t->k) && t->size < 8) { uint64_t w = widen(t, C.retval); memcpy(ret, &w, 8); } else memcpy(ret, C.retval, t->size);
}
static void check_values(void **args, const char *what) {
  Sig &g = *C.g; pbt::Rng nz(C.seed ^ 0x55); std::string why;
  for (size_t i = 0; i < g.args.size(); i++) {
    Ty *t = g.args[i]; u8 *p = (u8 *)args[i];
    if (!p) { bad('A', fmt("%s: null pointer for argument %zu", what, i)); return; }
    if (!same(t, C.val[i], p, &why)) { bad('A', fmt("%s: argument %zu (%s) wrong: ", what, i, name(t).c_str()) + why); return; }
    if ((C.mode == CLOSURE || C.mode == GOCLOSURE) && (uint64_t)p % t->align) bad('A', fmt("%s: argument %zu (%s) is misaligned at %p", what, i, name(t).c_str(), p));
  }
  if (!C.scribble) return;
  // the parameters belong to the handler: they can be overwritten independently
  std::vector<uint64_t> h;
  for (size_t i = 0; i < g.args.size(); i++) for (size_t k = 0; k < g.args[i]->size; k++) ((u8 *)args[i])[k] = (u8)(nz.next());
  pbt::Rng n2(C.seed ^ 0x55);
  for (size_t i = 0; i < g.args.size(); i++) for (size_t k = 0; k < g.args[i]->size; k++) if (((u8 *)args[i])[k] != (u8)n2.next()) { bad('A', fmt("%s: argument %zu shares memory with another one", what, i)); return; }
}
static void handler_body(Regs *r) {
  C.count++; check_entry_state(r, "handler"); pbt::Rng nz(C.seed ^ 0x1234567);
  ffi_cif *cif = (ffi_cif *)r->gpr[RDI]; void *ret = (void *)r->gpr[RSI]; void **args = (void **)r->gpr[RDX]; void *ud = (void *)r->gpr[RCX];
  if (cif != C.cif) bad('A', fmt("handler got interface %p, prepared with %p", cif, C.cif));
  if (ud != C.ud) bad('A', fmt("handler got user datum %p, expected %p", ud, C.ud));
  if (C.g->args.size()) {
    if (C.mode == CLOSURE || C.mode == GOCLOSURE) check_values(args, "handler");
    else {
      ffi_raw *raw = (ffi_raw *)args; std::vector<void *> pa(C.g->args.size() + 1, nullptr);
      if (C.mode == RAWCLOSURE) {
        size_t slot = 0;
        for (size_t i = 0; i < C.g->args.size(); i++) {
          Ty *t = C.g->args[i]; u8 *want; std::string why;
          if (t->k == ST || t->k == CX) { want = (u8 *)raw[slot].ptr; slot++; }
          else { want = (u8 *)&raw[slot]; if (t->size < 8 && is_int(t->k) && raw[slot].uint != widen(t, C.val[i])) bad('A', fmt("raw argument %zu is not widened in its slot", i)); slot += (t->size + 7) / 8; }
          if (!same(t, C.val[i], want, &why)) { bad('A', fmt("raw argument %zu (%s) wrong: ", i, name(t).c_str()) + why); break; }
        }
        ffi_raw_to_ptrarray(cif, raw, pa.data());
      } else {
        size_t slot = 0;
        for (size_t i = 0; i < C.g->args.size(); i++) {
          Ty *t = C.g->args[i]; std::string why;
          if (!same(t, C.val[i], (u8 *)&raw[slot], &why)) { bad('A', fmt("Java raw argument %zu (%s) wrong: ", i, name(t).c_str()) + why); break; }
          slot += t->k == U64 || t->k == S64 || t->k == D ? 2 : 1;
        }
        ffi_java_raw_to_ptrarray(cif, (ffi_java_raw *)raw, pa.data());
      }
      C.scribble = false; check_values(pa.data(), "unpacked raw argument");
    }
  }
  store_result(ret, nz);
  if (C.deep_stack) { volatile u8 big[20000]; for (size_t i = 0; i < sizeof big; i += 512) big[i] = (u8)i; }
  if (C.clobber) clobber_sysv(*r, nz, SYSV);
}

// the callee leaves the caller's floating-point environment alone, or it is one that changes it
static void leave() { if (C.have_state) { _mm_setcsr(C.end_mx); asm volatile("fnclex; fldcw %0" ::"m"(C.end_cw)); } if (SG.on) trap_on(); }
static void callee_hook(Regs *r) { callee_body(r); leave(); }
static void handler_hook(Regs *r) { handler_body(r); leave(); }

// ---- snapshots
struct Snap { std::vector<std::pair<const void *, std::vector<u8>>> v; void add(const void *p, size_t n) { if (!p) return; v.emplace_back(p, std::vector<u8>((const u8 *)p, (const u8 *)p + n)); } const void *diff() { for (auto &e : v) if (memcmp(e.first, e.second.data(), e.second.size())) return e.first; return nullptr; } };
static void snap_type(Snap &s, Ty *t, std::set<Ty *> &seen) {
  if (!seen.insert(t).second) return;
  s.add(t->ft, sizeof(ffi_type)); if (t->ft->elements) s.add(t->ft->elements, (t->k == CX ? 1 : t->el.size() + 1) * sizeof(ffi_type *));
  for (Ty *e : t->el) snap_type(s, e, seen);
}
static void snap_types(Snap &s, Sig &g) {
  std::set<Ty *> seen; for (Ty *t : g.args) snap_type(s, t, seen); snap_type(s, g.ret, seen);
  for (int k = 0; k <= LD; k++) s.add(builtin((K)k), sizeof(ffi_type));
  s.add(&ffi_type_void, sizeof(ffi_type)); s.add(&ffi_type_complex_float, sizeof(ffi_type)); s.add(&ffi_type_complex_double, sizeof(ffi_type)); s.add(&ffi_type_complex_longdouble, sizeof(ffi_type));
}

static uint64_t SUM(const std::vector<u8> &v) { uint64_t h = 7; for (u8 b : v) h = h * 131 + b; return h; }

static std::vector<int> modes; static std::vector<Abi> abis;
static u8 *user_exec(size_t n, void **code, bool dual) {
  static u8 *one = nullptr, *w = nullptr, *x = nullptr; static unsigned turn; const size_t SLOTB = 512, NS = 64;
  if (!one) {
    one = (u8 *)mmap(0, SLOTB * NS, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    int fd = memfd_create("dual", 0); if (ftruncate(fd, SLOTB * NS)) abort(); w = (u8 *)mmap(0, SLOTB * NS, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); x = (u8 *)mmap(0, SLOTB * NS, PROT_READ | PROT_EXEC, MAP_SHARED, fd, 0); close(fd);
  }
  size_t off = SLOTB * (turn++ % NS); u8 *b = (dual ? w : one) + off; memset(b, 0xcc, SLOTB); *code = (dual ? x : one) + off + 64; return b + 64;
}

struct Obj {
  int mode; Abi a; bool java; Sig g; size_t n; ffi_cif *cif; ffi_type **atv; Layout L; int rounds; void *codeloc = nullptr; ffi_closure *cl = nullptr; bool from_lib = false; ffi_go_closure *goc = nullptr; void *ud;
  size_t rsz, robj, rawslots; u8 *rv; std::vector<u8> retv; void **av; std::vector<void *> avcopy; ffi_raw *raw = nullptr; std::vector<u8 *> val; Snap snap;
  ~Obj() { if (from_lib && cl) ffi_closure_free(cl); }
};
static Ty *some_type(Pool &P, pbt::Src &s) { for (int k = 0; k < 8; k++) { Ty *t = P.tys[s.below(P.tys.size())].get(); if (t->k != VOID && P.adequate(t)) return t; } return P.scalar(S32); }
static void generate(Pool &P, pbt::Src &s, Obj &o) {
  Sig &g = o.g; size_t had = P.tys.size();
  g.args = P.gen_args(s); g.ret = P.gen_ret(s);
  if (o.java) { static const K jk[] = {S32, S64, F, D, S8, S16, U16, PTR, U8, U32, U64}; for (auto &t : g.args) t = P.scalar(jk[s.below(11)], s.chance(1, 12)); }
  else if (had && s.chance(2, 3)) {   // histories share descriptions (but never an enclosing type of another ABI)
    for (auto &t : g.args) if (s.chance(1, 3)) t = some_type(P, s);
    if (s.chance(1, 3)) g.ret = some_type(P, s);
  }
  if (g_sig) { size_t tot = 0; for (size_t i = 0; i < g.args.size(); i++) { tot += g.args[i]->size; if (tot > 1500) { g.args.resize(i); break; } } if (g.ret->size > 1500) g.ret = P.scalar(D); }
  if (g_var) {
    if (g.args.empty()) g.args.push_back(P.scalar(S32));
    g.nfixed = 1 + (int)s.below(g.args.size());
    for (size_t i = g.nfixed; i < g.args.size(); i++) { Ty *t = g.args[i]; if (t->k == F) g.args[i] = P.scalar(D); else if (is_int(t->k) && t->size < 4) g.args[i] = P.scalar(S32); }
  }
  o.n = g.args.size();
}
static void prepare(Pool &P, pbt::Src &s, Obj &o) {
  Sig &g = o.g; size_t n = o.n; Guard &gd = guard(); Abi a = o.a; int mode = o.mode; bool java = o.java;
  ffi_cif *&cif = o.cif; void *&codeloc = o.codeloc; ffi_closure *&cl = o.cl; auto &goc = o.goc; auto &ud = o.ud; auto &from_lib = o.from_lib;
  pbt::describe_more(fmt("%s %s: ", MN[mode], aname(a)) + name(g) + "\n");
  // preparation
  std::vector<ffi_type *> at(n + 1, nullptr); for (size_t i = 0; i < n; i++) at[i] = g.args[i]->ft;
  
  cif = (ffi_cif *)gd.get(sizeof(ffi_cif)); ffi_type **atv = o.atv = (ffi_type **)gd.get(n * sizeof(void *)); if (n) memcpy(atv, at.data(), n * sizeof(void *));
  ffi_status st = g_var ? ffi_prep_cif_var(cif, ffiabi(a), g.nfixed, (unsigned)n, g.ret->ft, atv) : ffi_prep_cif(cif, ffiabi(a), (unsigned)n, g.ret->ft, atv);
  if (st != FFI_OK) fail(fmt("ffi_prep_cif: status %d for a valid description", st));
  Layout &L = o.L; L = layout(a, g); o.rounds = 1 + (int)s.weighted({6, 3, 1});
  uint64_t h = pbt::hcomb(thash(g), mode * 8 + a);
  bool nt = L.stack > (a == SYSV ? 0 : 32) || g.ret->k == ST || g.ret->k == CX || g.ret->k == LD; for (Ty *t : g.args) nt |= t->k == ST || t->k == CX || t->k == LD;
  label(MN[mode]); label(aname(a)); if (L.sret) label("result in memory"); if (L.stack > (a == SYSV ? 0 : 32)) label("stack arguments"); if (n > 24) label("more than 24 arguments"); if (g.ret->k == ST) label("structure result"); if (g.ret->k == CX || g.ret->k == LD) label("complex or long double result");
  for (auto &p : L.a) if (p.cls == "IS" || p.cls == "SI") { label("mixed-class structure argument"); break; }
  if (nt) { pbt::nontrivial(h); pbt::sample(fmt("%s %s: ", MN[mode], aname(a)) + name(g)); }

  // objects
  ud = (void *)s.u64();
  if (is_closure(mode) && mode != GOCLOSURE) {
    size_t w = s.weighted({4, 1, 1}); size_t sz = mode == CLOSURE ? sizeof(ffi_closure) : sizeof(ffi_raw_closure);
    if (w == 0) { cl = (ffi_closure *)ffi_closure_alloc(sz + s.below(64), &codeloc); from_lib = true; if (!cl) fail("ffi_closure_alloc failed"); }
    else { cl = (ffi_closure *)user_exec(sz, &codeloc, w == 2); label(w == 2 ? "closure in dual-mapped memory" : "closure in user memory"); }
    ffi_status cs; void (*H)(void) = (void (*)(void))cap_callee;
    if (codeloc == (void *)cl && s.chance(1, 2)) {   // the forms without a separate code address
      label("prepared without a code address");
      if (mode == CLOSURE) cs = ffi_prep_closure(cl, cif, (void (*)(ffi_cif *, void *, void **, void *))H, ud);
      else if (mode == RAWCLOSURE) cs = ffi_prep_raw_closure((ffi_raw_closure *)cl, cif, (void (*)(ffi_cif *, void *, ffi_raw *, void *))H, ud);
      else cs = ffi_prep_java_raw_closure((ffi_java_raw_closure *)cl, cif, (void (*)(ffi_cif *, void *, ffi_java_raw *, void *))H, ud);
    }
    else if (mode == CLOSURE) cs = ffi_prep_closure_loc(cl, cif, (void (*)(ffi_cif *, void *, void **, void *))H, ud, codeloc);
    else if (mode == RAWCLOSURE) cs = ffi_prep_raw_closure_loc((ffi_raw_closure *)cl, cif, (void (*)(ffi_cif *, void *, ffi_raw *, void *))H, ud, codeloc);
    else cs = ffi_prep_java_raw_closure_loc((ffi_java_raw_closure *)cl, cif, (void (*)(ffi_cif *, void *, ffi_java_raw *, void *))H, ud, codeloc);
    if (cs != FFI_OK) fail(fmt("closure preparation: status %d", cs));
  } else if (mode == GOCLOSURE) {
    goc = (ffi_go_closure *)gd.get(sizeof(ffi_go_closure));
    ffi_status cs = ffi_prep_go_closure(goc, cif, (void (*)(ffi_cif *, void *, void **, void *))(void (*)(void))cap_callee);
    if (cs != FFI_OK) fail(fmt("go closure preparation: status %d", cs));
    codeloc = (void *)goc->tramp; ud = goc;
  }

  size_t &rsz = o.rsz, &robj = o.robj; rsz = g.ret->k == VOID ? 8 : g.ret->size; robj = is_closure(mode) || !(g.ret->k == VOID || is_int(g.ret->k)) ? rsz : std::max<size_t>(rsz, 8);
  o.rv = gd.get(robj); o.retv.resize(rsz + 16);
  o.av = (void **)gd.get(n * sizeof(void *)); o.avcopy.resize(n);
  size_t &rawslots = o.rawslots; rawslots = 0; for (Ty *t : g.args) rawslots += java ? (t->k == U64 || t->k == S64 || t->k == D ? 2 : 1) : (t->k == ST || t->k == CX) ? 1 : (t->size + 7) / 8;
  if (mode == RAWCALL || mode == JAVACALL) o.raw = (ffi_raw *)gd.get(rawslots * 8);
  o.val.resize(n); for (size_t i = 0; i < n; i++) o.val[i] = gd.get(g.args[i]->size);
  if (mode >= RAWCALL) {
    size_t sz = java ? ffi_java_raw_size(cif) : ffi_raw_size(cif);
    if (sz != rawslots * 8) bad('A', fmt("%s size is %zu, the slots used are %zu bytes", java ? "Java raw" : "raw", sz, rawslots * 8));
    if (sz > rawslots * 8 + 65536) pbt::raise_err();
  }
  Snap &snap = o.snap; snap.add(cif, sizeof *cif); if (n) snap.add(atv, n * sizeof(void *)); snap_types(snap, g);
  if (cl) snap.add(cl, 0);

}
static void one_round(pbt::Src &s, Obj &o, int round) {
  Sig &g = o.g; size_t n = o.n, rsz = o.rsz, robj = o.robj; Abi a = o.a; int mode = o.mode; ffi_cif *cif = o.cif; Layout &L = o.L; void *codeloc = o.codeloc; auto &goc = o.goc; void *ud = o.ud;
  u8 *rv = o.rv; auto &retv = o.retv; void **av = o.av; auto &avcopy = o.avcopy; ffi_raw *raw = o.raw; auto &val = o.val; auto &snap = o.snap;
  {
    C = Cur(); C.a = a; C.mode = mode; C.g = &g; C.L = L; C.cif = cif; C.ud = ud; C.seed = s.u64();
    C.scribble = s.chance(1, 2); C.clobber = !s.chance(1, 8); C.deep_stack = s.chance(1, 10);
    bool simple = s.chance(1, 40);
    for (size_t i = 0; i < n; i++) fill(g.args[i], val[i], simple ? 0 : pbt::mix64(C.seed + i) | 1);
    fill(g.ret, retv.data(), simple ? 0 : pbt::mix64(C.seed - 1) | 1);
    C.val = val; C.retval = retv.data();
    // one object used for several arguments, and for the result
    int rvalias = -1; size_t shared = 0;
    if (n && s.chance(1, 8)) {
      for (size_t i = 0; i < n && i < 400; i++) if (!s.chance(1, 3)) { size_t j = s.below(n); if (j != i && g.args[j]->ft == g.args[i]->ft) { memcpy(val[i], val[j], g.args[i]->size); shared |= 1; } }
      if (!is_closure(mode) && g.ret->k != VOID) { size_t i = s.below(n); if (g.args[i]->size >= robj && (uint64_t)val[i] % std::max<size_t>(8, g.ret->align) == 0) { rvalias = (int)i; rv = val[i]; label("result object is also an argument"); } }
    }
    std::vector<std::vector<u8>> orig(n); for (size_t i = 0; i < n; i++) orig[i].assign(val[i], val[i] + g.args[i]->size);
    // C.val must survive a callee that writes to its parameters: compare against private copies
    std::vector<std::vector<u8>> priv = orig; for (size_t i = 0; i < n; i++) C.val[i] = priv[i].data();
    pbt::Rng nz(C.seed ^ 0xabcdef); CallCtx ctx; memset(&ctx, 0, sizeof ctx); noise(ctx.in, nz);
    u8 pre[64]; for (int i = 0; i < 64; i++) rv[-64 + i] = pre[i] = (u8)nz.next(); if (rvalias < 0) for (size_t i = 0; i < robj; i++) rv[i] = (u8)nz.next();
    std::vector<u8> rvold(rv, rv + robj);
    // floating-point control state of the caller
    uint32_t mx = 0x1f80 | (s.below(4) << 13) | (s.chance(1, 6) ? 0x8000 : 0) | (s.chance(1, 6) ? 0x40 : 0); uint16_t cw = 0x037f | (uint16_t)(s.below(4) << 10); if (s.chance(1, 8)) cw &= ~0x300;
    uint32_t omx = _mm_getcsr(); uint16_t ocw; asm volatile("fnstcw %0" : "=m"(ocw));
    mx |= (uint32_t)s.below(64); uint32_t emx = mx | (uint32_t)s.below(64); uint16_t ecw = cw;
    if (s.chance(1, 5)) { label("callee changes the floating-point environment"); emx = 0x1f80 | (uint32_t)(s.below(4) << 13) | (uint32_t)(s.below(4) << 6 & 0x40) | (s.chance(1, 2) ? 0x8000 : 0) | (uint32_t)s.below(64); ecw = (uint16_t)(0x007f | s.below(4) << 10 | (s.chance(1, 3) ? 0 : 0x300)); }
    C.mxcsr = mx; C.fcw = cw; C.end_mx = emx; C.end_cw = ecw; C.have_state = true;
    std::vector<u8> img; std::vector<std::vector<u8>> refs; bool null_rv = false;
    for (size_t i = 0; i < n; i++) av[i] = avcopy[i] = val[i];
    if (shared) { label("one object for several arguments"); for (size_t i = 0; i < n && i < 400; i++) for (size_t j = 0; j < i && j < 40; j++) if ((int)i != rvalias && (int)j != rvalias && g.args[j]->ft == g.args[i]->ft && !memcmp(val[i], val[j], g.args[i]->size)) { av[i] = avcopy[i] = val[j]; break; } }
    const size_t PAD = 192; size_t img_args = 0;
    if (g_sig) { sig_setup(); sig_stack(s.chance(1, 2)); SG.steps = 0; SG.nested = 0; SG.err[0] = 0; SG.gap = 1u << s.below(10); SG.rng = pbt::Rng(s.u64()); SG.next = s.chance(1, 8) ? ~0ull : 1 + s.below(400); }
    if (!is_closure(mode)) {
      null_rv = s.chance(1, 6); C.rv_null = null_rv; cap_hook = callee_hook;
      ctx.in.gpr[RDI] = (uint64_t)cif; ctx.in.gpr[RSI] = (uint64_t)cap_callee; ctx.in.gpr[RDX] = null_rv ? 0 : (uint64_t)rv; ctx.in.gpr[RCX] = (uint64_t)av;
      void *fn = (void *)ffi_call;
      if (mode == GOCALL) { C.ctx = s.u64(); if (!C.ctx) C.ctx = 1; ctx.in.gpr[R8] = C.ctx; fn = (void *)ffi_call_go; }
      if (mode == RAWCALL || mode == JAVACALL) {
        if (mode == RAWCALL) { ffi_ptrarray_to_raw(cif, av, raw); fn = (void *)ffi_raw_call; } else { ffi_java_ptrarray_to_raw(cif, av, (ffi_java_raw *)raw); fn = (void *)ffi_java_raw_call; }
        // unpacking gives the same values
        std::vector<void *> pa(n + 1); if (mode == RAWCALL) ffi_raw_to_ptrarray(cif, raw, pa.data()); else ffi_java_raw_to_ptrarray(cif, (ffi_java_raw *)raw, pa.data());
        std::string why; for (size_t i = 0; i < n; i++) if (!same(g.args[i], val[i], (u8 *)pa[i], &why)) { bad('A', fmt("packing and unpacking changed argument %zu (%s): ", i, name(g.args[i]).c_str()) + why); break; }
        ctx.in.gpr[RCX] = (uint64_t)raw;
      }
      img.resize(PAD); for (auto &b : img) b = (u8)nz.next();
      // the caller of ffi_call passes nothing on the stack
      if (g_sig) ctx.in.rflags |= 0x100, SG.on = true; _mm_setcsr(mx); asm volatile("fnclex; fldcw %0" ::"m"(cw));
      invoke(ctx, fn, img);
    } else {
      cap_hook = handler_hook;
      std::vector<const u8 *> cv(val.begin(), val.end());
      write_args(a, g, L, cv, rv, ctx.in, img, refs, nz, PAD); img_args = img.size() - PAD;
      if (mode == GOCLOSURE) ctx.in.gpr[R10] = (uint64_t)goc;
      if (a == SYSV) ctx.in.gpr[RAX] = (ctx.in.gpr[RAX] & ~0xffull) | (unsigned)L.nsse;
      if (g_sig) ctx.in.rflags |= 0x100, SG.on = true; _mm_setcsr(mx); asm volatile("fnclex; fldcw %0" ::"m"(cw));
      invoke(ctx, codeloc, img);
    }
    _mm_setcsr(omx); asm volatile("fldcw %0" ::"m"(ocw));
    if (g_sig) { SG.on = false; if (SG.err[0]) bad('A', SG.err); label("instructions interrupted", SG.steps); label("nested uses in signal handlers", SG.nested); if (SG.steps < 20) bad('A', "nothing was interrupted"); }
    // ---- what the caller observes
    if (C.count != 1) bad(is_closure(mode) ? 'A' : 'A', fmt("%s was invoked %d times", is_closure(mode) ? "handler" : "callee", C.count));
    // memory: the caller's own stack area
    u8 *cs = (u8 *)ctx.call_rsp; for (size_t i = img_args; i < img.size(); i++) if (cs[i] != img[i]) { bad('M', fmt("the caller's frame was modified at offset %zu above the arguments", i - img_args)); break; }
    for (int i = 0; i < 64; i++) if (rv[-64 + i] != pre[i]) { bad('M', fmt("memory %d bytes before the result object was modified", 64 - i)); break; }
    for (size_t i = 0; i < n; i++) { if (av[i] != avcopy[i]) { bad('M', fmt("the argument vector was modified at index %zu", i)); break; } }
    if (mode != RAWCALL || true) for (size_t i = 0; i < n; i++) if (size_t skip = (int)i == rvalias && !null_rv ? robj : 0; memcmp(val[i] + skip, orig[i].data() + skip, orig[i].size() - skip)) { bad('M', fmt("the caller's object of argument %zu (%s) was modified", i, name(g.args[i]).c_str())); break; }
    if (const void *p = snap.diff()) bad('M', p == cif ? "the prepared interface was modified" : "a type description was modified");
    // machine state
    uint64_t *in = ctx.in.gpr, *out = ctx.out.gpr; Abi ca = is_closure(mode) ? a : SYSV;
    static const char *rn[] = {"rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15"};
    for (int i = 0; i < 16; i++) if (i != RSP && preserved_gpr(ca, i) && in[i] != out[i]) bad('S', fmt("%s was not preserved: %lx became %lx", rn[i], in[i], out[i]));
    for (int x = 0; x < 16; x++) if (preserved_xmm(ca, x) && memcmp(ctx.in.xmm[x], ctx.out.xmm[x], 16)) bad('S', fmt("xmm%d was not preserved", x));
    if (out[RSP] != ctx.call_rsp) bad('S', fmt("stack pointer changed by %ld", (long)(out[RSP] - ctx.call_rsp)));
    if (ctx.out.rflags & 0x400) bad('S', "direction flag set on return");
    if ((ctx.out.mxcsr & 0xffff) != emx) bad('S', fmt("mxcsr is %x on return, the callee left %x, the caller had %x", ctx.out.mxcsr, emx, mx));
    if (ctx.out.fcw != ecw) bad('S', fmt("the x87 control word is %x on return, the callee left %x, the caller had %x", ctx.out.fcw, ecw, cw));
    if (ctx.out.fsw & 0x7f) bad('S', fmt("x87 exceptions were raised, status word %x", ctx.out.fsw));
    int want87 = 0; if (is_closure(mode) && a == SYSV && g.ret->k != VOID && !L.sret && L.rcls[0] == 'X') want87 = (int)L.rcls.size();
    int d87 = x87_depth(ctx); if (d87 != want87) bad('S', fmt("%d values on the x87 stack on return, expected %d", d87, want87));
    // result
    std::string why;
    if (is_closure(mode)) {
      std::vector<u8> got(rsz + 16);
      if (!read_ret(a, g, L, ctx, rv, got.data(), &why)) bad('R', why);
      else if (g.ret->k != VOID && !same(g.ret, retv.data(), got.data(), &why)) bad('R', fmt("the caller received a wrong result (%s): ", name(g.ret).c_str()) + why);
      if (!L.sret && memcmp(rv, rvold.data(), robj)) bad('M', "memory not passed to the closure was modified");
    } else if (null_rv || g.ret->k == VOID) {
      if (memcmp(rv, rvold.data(), robj)) bad('M', "result object modified although none was supplied");
    } else {
      if (is_int(g.ret->k)) { uint64_t w, x = widen(g.ret, retv.data()); memcpy(&w, rv, 8); if (w != x) bad('R', fmt("result (%s) is %lx, expected %lx", name(g.ret).c_str(), w, x)); }
      else {
        if (!same(g.ret, retv.data(), rv, &why)) bad('R', fmt("wrong result (%s): ", name(g.ret).c_str()) + why);
        if (g.ret->k == ST && !L.sret && !g.ret->has_ld && L.rcls.find('-') == std::string::npos && memcmp(rv, retv.data(), g.ret->size)) bad('R', "padding of a structure result in registers was not stored byte for byte");
      }
    }
    if (!pbt::g_err.empty()) { pbt::describe_more(fmt("round %d, value seed %lx%s%s\n", round, C.seed, null_rv ? ", no result object" : "", C.scribble ? ", callee overwrites parameters" : "")); pbt::raise_err(); }
  }
}

// The storage of a description, an interface and its type vector is used again for others: each is what it says at the time
static void reuse(Pool &P, pbt::Src &s, Abi a) {
  static ffi_type tt[2]; static ffi_type *ee[2][80]; Guard &gd = guard(); size_t used = gd.used, extra = gd.extra.size(), k = 2 + s.below(4); size_t want[2] = {0, 0};
  for (size_t i = 0; i < k; i++) {
    Obj o; o.mode = modes[s.below(modes.size())]; o.a = a; o.java = o.mode == JAVACALL || o.mode == JAVACLOSURE; generate(P, s, o);
    if (!o.java) for (int q = 0; q < 2; q++) {
      Ty *t = nullptr; for (int tries = 0; tries < 30; tries++) { t = s.chance(1, 4) ? P.gen_struct(s, 1) : P.gen_small(s, 1); if (!t->own && P.adequate(t) && t->el.size() < 80 && (!want[q] || t->size == want[q])) break; t = nullptr; } if (!t) continue; want[q] = t->size;
      tt[q] = *t->ft; for (size_t x = 0; x <= t->el.size(); x++) ee[q][x] = t->ft->elements[x]; tt[q].elements = ee[q]; tt[q].size = tt[q].alignment = 0; t->ft = &tt[q];
      if (q == 0) o.g.ret = t; else if (o.n && o.g.nfixed != 0) o.g.args[s.below(o.g.nfixed > 0 ? o.g.nfixed : o.n)] = t;
    }
    if (o.java) for (auto &t : o.g.args) if (t->k == ST) t = P.scalar(S64);
    prepare(P, s, o); one_round(s, o, 0); if (!pbt::g_err.empty()) pbt::raise_err(); pbt::SH->evals++; label("storage of a description used again");
    for (auto &y : P.tys) if (y->ft == &tt[0] || y->ft == &tt[1]) y->k = VOID;    // not to be used by others
    gd.used = used; gd.extra.resize(extra);
  }
}
static void prop(pbt::Src &s) {
  Pool P; guard().reset(); Abi a = abis[s.below(abis.size())]; int nobj = 1 + (int)s.below(g_hist); bool fj = modes[0] == JAVACALL || modes[0] == JAVACLOSURE;
  if (fj) { P.o.cx = P.o.cint = P.o.ld = P.o.st = P.o.cld = false; }
  if (a == WIN) P.o.ld = P.o.cld = false;
  P.o.own = g_own; SNAN = true; P.o.vast = g_hist == 1 && !g_sig; P.o.own_mem = a != SYSV;
  std::vector<std::unique_ptr<Obj>> objs; pbt::describe("");
  auto fresh = [&] {
    objs.emplace_back(new Obj); Obj &o = *objs.back(); o.mode = modes[s.below(modes.size())]; o.a = a; o.java = o.mode == JAVACALL || o.mode == JAVACLOSURE;
    generate(P, s, o); prepare(P, s, o);
  };
  fresh(); if (g_hist == 1) { for (int r = 0; r < objs[0]->rounds; r++) one_round(s, *objs[0], r); return; }
  // a history: prepare, prepare again, fail to prepare, call through any of the interfaces
  int steps = 2 + (int)s.below(4 * g_hist);
  for (int k = 0; k < steps; k++) {
    size_t w = s.weighted({10, 6, 2, 2, 2, 2, 1}); Obj &o = *objs[s.below(objs.size())];
    if (w == 1 && (int)objs.size() < g_hist) { fresh(); continue; }
    if (w == 6) { reuse(P, s, a); continue; }
    if (w == 2) {       // same description again: an equal interface
      ffi_cif c2; ffi_status st = g_var ? ffi_prep_cif_var(&c2, ffiabi(a), o.g.nfixed, (unsigned)o.n, o.g.ret->ft, o.atv) : ffi_prep_cif(&c2, ffiabi(a), (unsigned)o.n, o.g.ret->ft, o.atv);
      if (st != FFI_OK) fail(fmt("preparing a description again gave status %d", st));
      if (c2.abi != o.cif->abi || c2.nargs != o.cif->nargs || c2.arg_types != o.cif->arg_types || c2.rtype != o.cif->rtype || c2.bytes != o.cif->bytes || c2.flags != o.cif->flags) fail("preparing the same description again gave a different interface");
      label("prepared again"); continue;
    }
    if (w == 3) {       // a preparation that fails: an incorrect type after shared ones
      ffi_type badt = {0, 0, FFI_TYPE_STRUCT, nullptr}; ffi_type *none[1] = {nullptr}; if (s.chance(1, 2)) badt.elements = none;
      std::vector<ffi_type *> at; for (auto t : o.g.args) at.push_back(t->ft); size_t pos = s.below(at.size() + 1); ffi_type *mem[4] = {some_type(P, s)->ft, &badt, some_type(P, s)->ft, nullptr}; ffi_type outer = {0, 0, FFI_TYPE_STRUCT, mem};
      at.insert(at.begin() + pos, s.chance(1, 2) ? &badt : &outer);
      ffi_cif c2; ffi_status st = ffi_prep_cif(&c2, ffiabi(a), (unsigned)at.size(), o.g.ret->ft, at.data()); if (st != FFI_BAD_TYPEDEF) fail(fmt("an incorrect description gave status %d", st));
      label("failed preparation"); continue;
    }
    if (w == 4) {       // a bad ABI
      ffi_cif c2; ffi_status st = ffi_prep_cif(&c2, (ffi_abi)(s.chance(1, 2) ? FFI_LAST_ABI : FFI_FIRST_ABI), (unsigned)o.n, o.g.ret->ft, o.atv); if (st != FFI_BAD_ABI) fail(fmt("a bad ABI gave status %d", st)); continue;
    }
    if (w == 5) {       // offsets of a shared structure, a variadic preparation over the same types
      for (auto t : o.g.args) if (t->k == ST && !t->own && s.chance(1, 2)) {
        std::vector<size_t> off(t->el.size() + 1, 77); if (ffi_get_struct_offsets(ffiabi(a), t->ft, off.data()) != FFI_OK) fail("ffi_get_struct_offsets failed for a valid structure");
        for (size_t i = 0; i < t->el.size(); i++) if (off[i] != t->off[i]) fail(fmt("member %zu of %s: offset %zu, expected %zu", i, name(t).c_str(), off[i], t->off[i]));
        if (off.back() != 77) fail("offset written beyond the last member");
      }
      if (o.n > 1) { ffi_cif c2; ffi_prep_cif_var(&c2, ffiabi(a), 1, (unsigned)o.n, o.g.ret->ft, o.atv); }
      continue;
    }
    one_round(s, o, k); if (!pbt::g_err.empty()) pbt::raise_err();
    label("history step");
  }
}

int main(int argc, char **argv) {
  pbt::stable_env(argv);
  pbt::Config c; c.name = "abi"; c.prop = prop;
  c.rule = "random signature, values, registers and machine state per case; non-trivial = some argument on the stack or of structure, complex or long double type, or such a result; distinct by (mode, ABI, signature)";
  pbt::parse(c, argc, argv, [](const std::string &k, const std::string &v) {
    if (k == "--history") g_hist = atoi(v.c_str()); else if (k == "--own") g_own = atoi(v.c_str()); else if (k == "--signals") g_sig = v == "1"; else if (k == "--var") g_var = v == "1"; else if (k == "--aspects") g_aspects = v; else if (k == "--mode") g_mode = v; else if (k == "--abi") g_abis = v; else return false; return true; });
  auto split = [](const std::string &x) { std::vector<std::string> o; size_t i = 0; while (i <= x.size()) { size_t j = x.find(',', i); if (j == std::string::npos) j = x.size(); o.push_back(x.substr(i, j - i)); i = j + 1; } return o; };
  for (auto &m : split(g_mode)) for (int i = 0; i < NMODES; i++) if (m == MN[i]) modes.push_back(i);
  for (auto &m : split(g_abis)) { if (m == "sysv") abis.push_back(SYSV); if (m == "win") abis.push_back(WIN); if (m == "gnuw") abis.push_back(GNUW); }
  return pbt::run(c);
}
