// Random trees of nested calls and closures.
// --mode=nest: values (C18)   --mode=eh: C++ exceptions (C17)   --mode=jmp: longjmp (C17).  The oracle is the same tree run with direct calls.
#include "types.hpp"
#include <csetjmp>
#include <exception>
#include <sys/mman.h>
using namespace ty; using pbt::fail; using pbt::fmt; using pbt::label;
static std::string g_mode = "nest"; static std::vector<ffi_abi> g_abis = {FFI_UNIX64}; static bool EH, JMP;
#ifdef __clang__
#define NOINLINE __attribute__((noinline))
#define NOICF NOINLINE
#else
#define NOINLINE __attribute__((noinline, noclone))
#define NOICF __attribute__((noinline, noclone, no_icf))
#endif

// ---- entities: an interface with several closures ----------------------------------------------------------------------
enum { CLOS, GO, RAW, NKIND };
struct Ent { ffi_abi abi; Sig g; int form = -1; std::vector<ffi_type *> at; ffi_cif cif; void *cl = nullptr, *code = nullptr; bool user = false; ffi_go_closure go; void *rcl = nullptr, *rcode = nullptr; void *ud; int id; size_t nargs; std::vector<size_t> off; size_t frame; };
enum Link { L_CALL, L_GO, L_RAWRAW, L_RAWCLOS, L_CALLRAW, L_FRESH, L_FRESHCIF, L_NATIVE, L_DIRECT, NLINK };
static const char *LN[] = {"call", "go", "raw", "raw-to-closure", "call-to-raw", "fresh", "fresh-cif", "native", "direct"};
enum AK { CHILD, THROW, JUMP };
struct Node; struct Act { AK k; Node *c = nullptr; int how = 0; int v = 0; };
struct Node { int id; Ent *e; Link l; std::vector<Act> acts; bool track, disc = false, early = false; Node *dtor = nullptr; };
struct Rec { Node *n; uint64_t seed; int entered; void *ud; ffi_cif *cif; };
static Rec ACT[4096]; static int SPX; static uint32_t *LOG; static size_t NLOG; static bool DIRECT; static unsigned char *ARENA, *AP; static jmp_buf JB[600]; static int NJB; static uint64_t CALLS, THROWS, DEPTH;
static const size_t MAXLOG = 1 << 18, ARENASZ = 256u << 20;
static void ev(int kind, int n, int i = 0) { if (NLOG < MAXLOG) LOG[NLOG++] = kind << 28 | n << 12 | (i & 0xfff); }
struct X1 { uint64_t v; X1(uint64_t v) : v(v) {} virtual ~X1() {} }; struct X2 : X1 { uint64_t w; X2(uint64_t v) : X1(v), w(~v) {} };
static std::vector<void *> *LEAKED;

static void body(Node *n, uint64_t seed, void **args);
static void check_args(Node *n, uint64_t seed, void **args, const char *when) {
  Sig &g = n->e->g; alignas(16) static unsigned char buf[70000]; std::string why;
  for (size_t i = 0; i < n->e->nargs; i++) { fill(g.args[i], buf, seed + i * 7 + 1); if (!same(g.args[i], buf, (unsigned char *)args[i], &why)) { pbt::err(fmt("node %d (%s): argument %zu (%s) %s: ", n->id, LN[n->l], i, name(g.args[i]).c_str(), when) + why); return; } }
}
static void put_result(Ent *e, uint64_t seed, void *ret) {
  Ty *t = e->g.ret; if (t->k == VOID) return; alignas(16) static unsigned char buf[70000]; fill(t, buf, seed ^ 0xbeef);
  if (is_int(t->k) && t->size < 8) { uint64_t w = 0; int64_t sgn; switch (t->k) { case S8: sgn = *(int8_t *)buf; w = sgn; break; case S16: sgn = *(int16_t *)buf; w = sgn; break; case S32: sgn = *(int32_t *)buf; w = sgn; break; default: memcpy(&w, buf, t->size); } memcpy(ret, &w, 8); } else memcpy(ret, buf, t->size);
}
NOINLINE static void enter(ffi_cif *cif, void *ret, void **args, void *ud) {
  int my = SPX; Rec &r = ACT[my]; if (++r.entered != 1) pbt::err(fmt("the handler of node %d ran %d times", r.n->id, r.entered)); if (ud != r.ud) pbt::err(fmt("node %d (%s): the handler got user datum %p, registered %p", r.n->id, LN[r.n->l], ud, r.ud)); if (cif != r.cif) pbt::err(fmt("node %d (%s): the handler got another interface", r.n->id, LN[r.n->l]));
  Node *n = r.n; uint64_t seed = r.seed; check_args(n, seed, args, "wrong"); Ty *t = n->e->g.ret; bool early = n->early && t->k != VOID; if (early) put_result(n->e, seed, ret); body(n, seed, args); if (SPX != my) pbt::err("activations do not nest"); check_args(n, seed, args, "changed while the handler was active");
  if (early) { alignas(16) static unsigned char buf[70000]; fill(t, buf, seed ^ 0xbeef); if (memcmp(buf, ret, t->size)) pbt::err(fmt("node %d (%s): the result that the handler had stored was changed while it was active", n->id, LN[n->l])); } else put_result(n->e, seed, ret);
}
static void H(ffi_cif *cif, void *ret, void **args, void *ud) { enter(cif, ret, args, ud); }
static void HR(ffi_cif *cif, void *ret, ffi_raw *raw, void *ud) { void *a[256]; ffi_raw_to_ptrarray(cif, raw, a); enter(cif, ret, a, ud); }
// a function without arguments, called through any signature with an integral or no result
NOINLINE static uint64_t native() { int my = SPX; Rec &r = ACT[my]; r.entered++; Node *n = r.n; uint64_t seed = r.seed; body(n, seed, nullptr); if (SPX != my) pbt::err("activations do not nest"); alignas(16) uint64_t v = 0; put_result(n->e, seed, &v); return v; }
static __attribute__((ms_abi)) uint64_t native_ms() { return native(); }

// ---- direct calls of closures with compiled signatures -------------------------------------------------------------------
struct SD { double d; long l; }; struct Big { long a[4]; };
// neither templates (gcc drops ms_abi from function types that depend on template parameters) nor one function (gcc merges calls that differ in ms_abi alone)
#define DC(R, TYPES, ARGS) do { R r = ((R (ATTR *) TYPES)code) ARGS; memcpy(ret, &r, sizeof r); } while (0)
#define DCV(TYPES, ARGS) ((void (ATTR *) TYPES)code) ARGS
#define V(T, i) (*(T *)v[i])
#define CASES \
    case 0: DC(unsigned long, (unsigned long, double), (V(unsigned long, 0), V(double, 1))); break; \
    case 1: DC(SD, (SD, unsigned, double), (V(SD, 0), V(unsigned, 1), V(double, 2))); break; \
    case 2: DC(double, (double, float, long, short), (V(double, 0), V(float, 1), V(long, 2), V(short, 3))); break; \
    case 3: DC(Big, (Big, float), (V(Big, 0), V(float, 1))); break; \
    case 4: DCV((signed char, void *), (V(signed char, 0), V(void *, 1))); break; \
    case 5: DC(long, (long, long, long, long, long, long, long, SD), (V(long, 0), V(long, 1), V(long, 2), V(long, 3), V(long, 4), V(long, 5), V(long, 6), V(SD, 7))); break;
NOICF static void dcall_sysv(int form, void *code, unsigned char *ret, void **v) {
#define ATTR
  switch (form) { CASES }
#undef ATTR
}
NOICF static void dcall_ms(int form, void *code, unsigned char *ret, void **v) {
#define ATTR __attribute__((ms_abi))
  switch (form) { CASES }
#undef ATTR
}
static void dcall(Ent *e, void *code, unsigned char *ret, void **v) { if (e->abi == FFI_UNIX64) dcall_sysv(e->form, code, ret, v); else dcall_ms(e->form, code, ret, v); }
static void form_sig(Pool &P, int f, Sig &g) {
  auto sd = [&] { return P.strct({P.scalar(D), P.scalar(S64)}); }; auto big = [&] { return P.strct({P.scalar(S64), P.scalar(S64), P.scalar(S64), P.scalar(S64)}); };
  switch (f) {
    case 0: g.ret = P.scalar(U64); g.args = {P.scalar(U64), P.scalar(D)}; break; case 1: g.ret = sd(); g.args = {sd(), P.scalar(U32), P.scalar(D)}; break;
    case 2: g.ret = P.scalar(D); g.args = {P.scalar(D), P.scalar(F), P.scalar(S64), P.scalar(S16)}; break; case 3: g.ret = big(); g.args = {big(), P.scalar(F)}; break;
    case 4: g.ret = P.scalar(VOID); g.args = {P.scalar(S8), P.scalar(PTR)}; break; default: g.ret = P.scalar(S64); for (int i = 0; i < 7; i++) g.args.push_back(P.scalar(S64)); g.args.push_back(sd()); }
}
// ---- invocations -------------------------------------------------------------------------------------------------------
static void *user_page() { static unsigned char *p = nullptr; static unsigned k; if (!p) p = (unsigned char *)mmap(0, 65536, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); return p + 512 * (k++ % 128); }
static uint64_t fresh_count;
struct Fresh { void *p, *code; bool user; };
static Fresh fresh(Ent *e, void *ud, ffi_cif *cif) {
  Fresh f; f.user = ++fresh_count % 5 == 0; if (f.user) f.p = f.code = user_page(); else f.p = ffi_closure_alloc(sizeof(ffi_closure) + fresh_count % 64, &f.code); if (!f.p) fail("ffi_closure_alloc failed");
  if (ffi_prep_closure_loc((ffi_closure *)f.p, cif, H, ud, f.code) != FFI_OK) fail("ffi_prep_closure_loc failed"); return f;
}
struct FreeGuard { Fresh f; ~FreeGuard() { if (!f.user) ffi_closure_free(f.p); } };
static void *fresh_ud() { return (void *)(0x1000 + ++fresh_count * 8); }
NOINLINE static void inv_fresh_eh(Node *c, unsigned char *ret, void **v) { Rec &r = ACT[SPX]; r.ud = fresh_ud(); FreeGuard g{fresh(c->e, r.ud, &c->e->cif)}; if (c->e->form >= 0 && (fresh_count & 1)) dcall(c->e, g.f.code, ret, v); else ffi_call(&c->e->cif, FFI_FN(g.f.code), ret, v); }
NOINLINE static void inv_fresh(Node *c, unsigned char *ret, void **v) { Rec &r = ACT[SPX]; r.ud = fresh_ud(); Fresh f = fresh(c->e, r.ud, &c->e->cif); if (JMP && !f.user) LEAKED->push_back(f.p); if (c->e->form >= 0 && (fresh_count & 1)) dcall(c->e, f.code, ret, v); else ffi_call(&c->e->cif, FFI_FN(f.code), ret, v); if (!JMP && !f.user) ffi_closure_free(f.p); }
struct Inv { Ent *e; unsigned char *mark, *ret; void **v; ffi_raw *raw; int my; };
// false: the program with direct calls; the node has run
NOINLINE static bool inv_begin(Node *c, uint64_t seed, Inv &I) {
  CALLS++; if (SPX + 1 >= 4096) fail("program too deep"); SPX++; DEPTH = std::max<uint64_t>(DEPTH, SPX); Ent *e = c->e; ACT[SPX] = Rec{c, seed, 0, e->ud, &e->cif};
  if (DIRECT) { ACT[SPX].entered = 1; body(c, seed, nullptr); SPX--; return false; }
  unsigned char *mark = AP; if (AP + e->frame + 4096 > ARENA + ARENASZ) fail("program too big"); unsigned char *m = AP; AP += e->frame; void **v = (void **)m; m += (e->nargs * 8 + 31) & ~15ul;
  for (size_t i = 0; i < e->nargs; i++) { v[i] = m; fill(e->g.args[i], m, seed + i * 7 + 1); m += (e->g.args[i]->size + 31) & ~15ul; }
  size_t rs = e->g.ret->size; unsigned char *ret = m; m += (std::max<size_t>(rs, 16) + 31) & ~15ul; memset(ret, 0xa7, std::max<size_t>(rs, 16)); I = Inv{e, mark, ret, v, (ffi_raw *)m, SPX}; return true;
}
NOINLINE static void inv_end(Node *c, uint64_t seed, Inv &I, bool direct, bool disc) {
  Ent *e = I.e; unsigned char *ret = I.ret; void **v = I.v; int my = I.my;
  if (ACT[my].entered != 1) pbt::err(fmt("node %d (%s): the callee ran %d times", c->id, LN[c->l], ACT[my].entered)); if (SPX != my) pbt::err("activations do not nest");
  Ty *t = e->g.ret; size_t rs = std::max<size_t>(t->size, 16);
  if (t->k != VOID && !disc) { alignas(16) static unsigned char buf[70000]; std::string why; fill(t, buf, seed ^ 0xbeef); if (!same(t, buf, ret, &why)) pbt::err(fmt("node %d (%s): wrong result (%s): ", c->id, LN[c->l], name(t).c_str()) + why); if (is_int(t->k) && t->size < 8 && !direct && !(c->l == L_FRESH)) { uint64_t w; put_result(e, seed, &w); if (memcmp(&w, ret, 8)) pbt::err(fmt("node %d (%s): the result is not widened", c->id, LN[c->l])); } }
  else for (size_t i = 0; i < rs; i++) if (ret[i] != 0xa7) { pbt::err(fmt("node %d (%s): something was stored as the result %s", c->id, LN[c->l], disc ? "although none was wanted" : "of a void function")); break; }
  if (g_mode == "nest") for (size_t i = 0; i < e->nargs; i++) { alignas(16) static unsigned char buf[70000]; fill(e->g.args[i], buf, seed + i * 7 + 1); if (!same(e->g.args[i], buf, (unsigned char *)v[i])) { pbt::err(fmt("node %d (%s): the caller's argument %zu was changed", c->id, LN[c->l], i)); break; } }
  AP = I.mark; SPX--; if (!pbt::g_err.empty() && !EH && !JMP) pbt::raise_err();
}
NOINLINE static void invoke(Node *c, uint64_t seed) {
  Inv I; if (!inv_begin(c, seed, I)) return; Ent *e = I.e; void **v = I.v; unsigned char *ret = I.ret; ffi_raw *raw = I.raw; int my = I.my; bool disc = c->disc && c->l != L_DIRECT && c->l != L_FRESH; unsigned char *rv = disc ? nullptr : ret;
  switch (c->l) {
    case L_CALL: ffi_call(&e->cif, FFI_FN(e->code), rv, v); break;
    case L_GO: ACT[my].ud = &e->go; ffi_call_go(&e->cif, FFI_FN(e->go.tramp), rv, v, &e->go); break;
    case L_RAWRAW: ffi_ptrarray_to_raw(&e->cif, v, raw); ffi_raw_call(&e->cif, FFI_FN(e->rcode), rv, raw); break;
    case L_RAWCLOS: ffi_ptrarray_to_raw(&e->cif, v, raw); ffi_raw_call(&e->cif, FFI_FN(e->code), rv, raw); break;
    case L_CALLRAW: ffi_call(&e->cif, FFI_FN(e->rcode), rv, v); break;
    case L_FRESH: if (EH) inv_fresh_eh(c, ret, v); else inv_fresh(c, ret, v); break;
    case L_FRESHCIF: { ffi_cif cf; ffi_go_closure gc; if (ffi_prep_cif(&cf, e->abi, e->nargs, e->g.ret->ft, e->at.data()) != FFI_OK || ffi_prep_go_closure(&gc, &cf, H) != FFI_OK) fail("preparing an interface failed"); ACT[my].ud = &gc; ACT[my].cif = &cf; ffi_call_go(&cf, FFI_FN(gc.tramp), rv, v, &gc); break; }
    case L_NATIVE: ffi_call(&e->cif, e->abi == FFI_UNIX64 ? FFI_FN(native) : FFI_FN(native_ms), rv, v); break;
    default: dcall(e, e->code, ret, v); break;
  }
  inv_end(c, seed, I, c->l == L_DIRECT, disc);
}
// form 0 of a go closure, entered by compiled code: (x, code, closure, d)
extern "C" unsigned long go_form0(unsigned long, void *, void *, double); asm(".text\n.p2align 4\ngo_form0: .cfi_startproc\n endbr64\n movq %rdx, %r10\n jmp *%rsi\n .cfi_endproc\n");
// ---- frames that catch --------------------------------------------------------------------------------------------------
static inline uint64_t opq(uint64_t x) { x = pbt::mix64(x); asm volatile("" : "+r"(x)); return x; }
#define LIVE(s) uint64_t a_ = opq((s) + 1), b_ = opq((s) + 2), c_ = opq((s) + 3), d_ = opq((s) + 4), e_ = opq((s) + 5), f_ = opq((s) + 6), g_ = opq((s) + 7)
static uint64_t live_hash(uint64_t a, uint64_t b, uint64_t c, uint64_t d, uint64_t e, uint64_t f, uint64_t g) { return a ^ b * 3 ^ c * 5 ^ d * 7 ^ e * 11 ^ f * 13 ^ g * 17; }
static uint64_t live_want(uint64_t s) { LIVE(s); return live_hash(a_, b_, c_, d_, e_, f_, g_); }
#define LIVECHK(s, n) do { asm volatile("" : "+r"(a_), "+r"(b_), "+r"(c_), "+r"(d_), "+r"(e_), "+r"(f_)); if (live_hash(a_, b_, c_, d_, e_, f_, g_) != live_want(s)) pbt::err(fmt("node %d: the local values of the frame that continues are not what they were", n->id)); } while (0)
struct Tk { int n, i; Node *d; uint64_t s; Tk(int n, int i, Node *d = nullptr, uint64_t s = 0) : n(n), i(i), d(d), s(s) { ev(1, n, i); } ~Tk() { ev(2, n, i); if (d) { int sp = SPX; invoke(d, s ^ 0xd7); SPX = sp; ev(3, n, i); } } };
struct Keep { int sp; unsigned char *ap; Keep() : sp(SPX), ap(AP) {} void back() { SPX = sp; AP = ap; } };
template <int K> NOINLINE static void catcher(Node *n, Node *c, uint64_t s) {
  Keep k; LIVE(s); Tk t1(n->id, K * 2, n->dtor, s);
  try { Tk t2(n->id, K * 2 + 1); LIVE(s ^ 99); invoke(c, s); LIVECHK(s ^ 99, n); }
  catch (int v) { if (K != 1) { if (K == 4) { k.back(); ev(4, n->id, 100); LIVECHK(s, n); return; } if (K == 6) { ev(4, n->id, 101); LIVECHK(s, n); throw X1(v); } throw; } k.back(); ev(4, n->id, v & 0xff); LIVECHK(s, n); }
  catch (X2 &x) { if (x.w != ~x.v) pbt::err("the exception object was altered"); if (K == 3 || K == 2) { k.back(); ev(5, n->id, x.v & 0xff); LIVECHK(s, n); } else if (K == 4) { k.back(); ev(5, n->id, 100); LIVECHK(s, n); } else if (K == 6) { ev(5, n->id, 101); LIVECHK(s, n); throw (int)(x.v & 0xff); } else throw; }
  catch (X1 &x) { if (K == 2) { k.back(); ev(6, n->id, x.v & 0xff); LIVECHK(s, n); } else if (K == 4) { k.back(); ev(6, n->id, 100); LIVECHK(s, n); } else if (K == 6) { ev(6, n->id, 101); LIVECHK(s, n); throw X2(x.v + 1); } else throw; }
  LIVECHK(s, n);
}
NOINLINE static void only_int(Node *n, Node *c, uint64_t s) { Keep k; LIVE(s); Tk t(n->id, 20); try { invoke(c, s); } catch (int v) { k.back(); ev(7, n->id, v & 0xff); LIVECHK(s, n); } LIVECHK(s, n); }
NOINLINE static void only_x2(Node *n, Node *c, uint64_t s) { Keep k; LIVE(s); Tk t(n->id, 21, n->dtor, s); try { invoke(c, s); } catch (const X2 &v) { k.back(); ev(8, n->id, v.v & 0xff); LIVECHK(s, n); } LIVECHK(s, n); }
NOINLINE static void all(Node *n, Node *c, uint64_t s) { Keep k; LIVE(s); try { Tk t(n->id, 22); invoke(c, s); } catch (...) { k.back(); ev(9, n->id); LIVECHK(s, n); } LIVECHK(s, n); }
NOINLINE static void cleanup(Node *n, Node *c, uint64_t s) { LIVE(s); Tk t(n->id, 23, n->dtor, s); Tk u(n->id, 24); invoke(c, s); LIVECHK(s, n); }
NOINLINE static void plain(Node *n, Node *c, uint64_t s) { invoke(c, s); }
NOINLINE static void noexc(Node *n, Node *c, uint64_t s) { Keep k; LIVE(s); std::exception_ptr p; try { invoke(c, s); } catch (...) { k.back(); p = std::current_exception(); ev(10, n->id); } LIVECHK(s, n); if (p) { try { Tk t(n->id, 25); std::rethrow_exception(p); } catch (int v) { ev(4, n->id, v & 0xff); } catch (X1 &x) { ev(6, n->id, x.v & 0xff); } } LIVECHK(s, n); }
// frames that catch and call the closure themselves, without a frame of the harness in between
#define ATTR
#define DIRECT_CATCH(NAME, FORM, CALL, CAUGHT) NOICF static void NAME(Node *n, Node *c, uint64_t s) { \
  Keep k; Inv I; LIVE(s); Tk t(n->id, 26); try { if (inv_begin(c, s, I)) { void *code = I.e->code; (void)code; unsigned char *ret = I.ret; (void)ret; void **v = I.v; CALL; LIVECHK(s, n); inv_end(c, s, I, true, false); } } CAUGHT; LIVECHK(s, n); }
#define BY_INT catch (int v) { k.back(); ev(7, n->id, v & 0xff); LIVECHK(s, n); }
#define BY_ANY catch (...) { k.back(); ev(9, n->id); LIVECHK(s, n); }
DIRECT_CATCH(dc0, 0, DC(unsigned long, (unsigned long, double), (V(unsigned long, 0), V(double, 1))), BY_ANY)
DIRECT_CATCH(dc1, 1, DC(SD, (SD, unsigned, double), (V(SD, 0), V(unsigned, 1), V(double, 2))), BY_ANY)
DIRECT_CATCH(dc2, 2, DC(double, (double, float, long, short), (V(double, 0), V(float, 1), V(long, 2), V(short, 3))), BY_INT)
DIRECT_CATCH(dc3, 3, DC(Big, (Big, float), (V(Big, 0), V(float, 1))), BY_ANY)
DIRECT_CATCH(dc4, 4, DCV((signed char, void *), (V(signed char, 0), V(void *, 1))), BY_INT)
DIRECT_CATCH(dc5, 5, DC(long, (long, long, long, long, long, long, long, SD), (V(long, 0), V(long, 1), V(long, 2), V(long, 3), V(long, 4), V(long, 5), V(long, 6), V(SD, 7))), BY_ANY)
DIRECT_CATCH(dg0, 0, ACT[I.my].ud = &I.e->go; unsigned long r = go_form0(V(unsigned long, 0), (void *)I.e->go.tramp, &I.e->go, V(double, 1)); memcpy(ret, &r, 8), BY_ANY)
#undef ATTR
static void (*const DCF[])(Node *, Node *, uint64_t) = {dc0, dc1, dc2, dc3, dc4, dc5};
NOINLINE static void jumper(Node *n, Node *c, uint64_t s) {
  LIVE(s); int sp = SPX; unsigned char *ap = AP; int j = NJB; if (j >= 600) { invoke(c, s); return; } NJB++; volatile int times = 0;
  int r = _setjmp(JB[j]); if (!r) { invoke(c, s); LIVECHK(s, n); } else { times = times + 1; SPX = sp; AP = ap; ev(11, n->id, r & 0xff); LIVECHK(s, n); } NJB = j;
}
static const int NHOW = 13;
static void child(Node *n, Act &a, uint64_t s) {
  if (EH && a.c->l == L_DIRECT && a.c->e->abi == FFI_UNIX64 && a.c->e->form >= 0 && a.v & 1) { if (a.c->e->form == 0 && a.v & 2) dg0(n, a.c, s); else DCF[a.c->e->form](n, a.c, s); return; }
  if (JMP) { if (a.how % 3) jumper(n, a.c, s); else plain(n, a.c, s); return; }
  if (!EH) { plain(n, a.c, s); return; }
  switch (a.how) { case 0: catcher<1>(n, a.c, s); break; case 1: catcher<2>(n, a.c, s); break; case 2: catcher<3>(n, a.c, s); break; case 3: catcher<4>(n, a.c, s); break; case 4: catcher<5>(n, a.c, s); break; case 5: catcher<6>(n, a.c, s); break; case 6: only_int(n, a.c, s); break; case 7: only_x2(n, a.c, s); break; case 8: all(n, a.c, s); break; case 9: cleanup(n, a.c, s); break; case 10: noexc(n, a.c, s); break; case 11: cleanup(n, a.c, s); break; default: plain(n, a.c, s); }
}
NOINLINE static void body_acts(Node *n, uint64_t seed, void **args) {
  for (size_t i = 0; i < n->acts.size(); i++) {
    Act &a = n->acts[i]; uint64_t s = pbt::mix64(seed + i * 1000003 + 17);
    switch (a.k) {
      case CHILD: child(n, a, s); if (args && !JMP) check_args(n, seed, args, "changed by a nested call"); break;
      case THROW: THROWS++; ev(12, n->id, a.v & 0xff); switch (a.how % 3) { case 0: throw (int)a.v; case 1: throw X1(a.v); default: throw X2(a.v); }
      case JUMP: if (NJB > 0) { THROWS++; ev(12, n->id, a.v & 0xff); longjmp(JB[a.how % NJB], 1 + (a.v & 0x7f)); } break;
    }
  }
}
NOINLINE static void body_tracked(Node *n, uint64_t seed, void **args) { Tk t(n->id, 30); LIVE(seed); body_acts(n, seed, args); LIVECHK(seed, n); }
static void body(Node *n, uint64_t seed, void **args) { ev(13, n->id); if (EH && n->track) body_tracked(n, seed, args); else body_acts(n, seed, args); ev(14, n->id); }
NOINLINE static void run_root(Node *root, uint64_t seed) {
  NLOG = 0; SPX = 0; NJB = 0; AP = ARENA; LIVE(seed);
  if (JMP) { volatile int done = 0; NJB = 1; if (!_setjmp(JB[0])) invoke(root, seed); else ev(15, 0); done = 1; }
  else if (EH) { try { invoke(root, seed); } catch (int v) { ev(15, 1, v); } catch (X1 &x) { ev(15, 2, x.v & 0xff); } }
  else invoke(root, seed);
  LIVECHK(seed, root); if (std::uncaught_exceptions()) pbt::err("exceptions are still in flight");
}
// ---- generation ----------------------------------------------------------------------------------------------------------
struct World { Pool P; std::vector<std::unique_ptr<Ent>> ents; std::vector<std::unique_ptr<Node>> nodes; ~World() { for (auto &e : ents) { if (e->cl && !e->user) ffi_closure_free(e->cl); if (e->rcl) ffi_closure_free(e->rcl); } } };
static void make_ent(World &w, pbt::Src &s) {
  w.ents.emplace_back(new Ent); Ent &e = *w.ents.back(); e.id = (int)w.ents.size() - 1; e.abi = g_abis[s.below(g_abis.size())]; bool win = e.abi == FFI_WIN64; w.P.o.ld = w.P.o.cld = !win; w.P.o.max_struct = 3000; w.P.o.big = 1;
  if (s.chance(2, 5)) { e.form = (int)s.below(6); form_sig(w.P, e.form, e.g); } else { e.g.args = w.P.gen_args(s, s.chance(1, 10) ? 120 : 14); size_t tot = 0; for (size_t i = 0; i < e.g.args.size(); i++) { tot += e.g.args[i]->size; if (tot > 20000) { e.g.args.resize(i); break; } } e.g.ret = w.P.gen_ret(s); if (e.g.ret->size > 60000) e.g.ret = w.P.scalar(S32); }
  e.nargs = e.g.args.size(); for (auto t : e.g.args) e.at.push_back(t->ft); e.at.push_back(nullptr); if (ffi_prep_cif(&e.cif, e.abi, e.nargs, e.g.ret->ft, e.at.data()) != FFI_OK) fail("ffi_prep_cif failed for " + name(e.g));
  e.frame = 4096 + e.nargs * 64; for (auto t : e.g.args) e.frame += 2 * t->size + 64; e.frame += 2 * e.g.ret->size; e.frame = (e.frame + 63) & ~63ul; e.ud = (void *)(s.u64() | 1);
  e.user = s.chance(1, 4); if (e.user) e.cl = e.code = user_page(); else e.cl = ffi_closure_alloc(sizeof(ffi_closure), &e.code); if (!e.cl || ffi_prep_closure_loc((ffi_closure *)e.cl, &e.cif, H, e.ud, e.code) != FFI_OK) fail("ffi_prep_closure_loc failed");
  e.rcl = ffi_closure_alloc(sizeof(ffi_raw_closure), &e.rcode); if (!e.rcl || ffi_prep_raw_closure_loc((ffi_raw_closure *)e.rcl, &e.cif, HR, e.ud, e.rcode) != FFI_OK) fail("ffi_prep_raw_closure_loc failed");
  if (ffi_prep_go_closure(&e.go, &e.cif, H) != FFI_OK) fail("ffi_prep_go_closure failed");
}
static Node *gen(World &w, pbt::Src &s, int depth, int &budget, bool safe) {
  w.nodes.emplace_back(new Node); Node *n = w.nodes.back().get(); n->id = (int)w.nodes.size() & 0xffff; n->e = w.ents[s.below(w.ents.size())].get(); n->l = (Link)s.weighted({5, 3, 2, 2, 2, 3, 2, 3, 5}); K rk = n->e->g.ret->k; n->track = s.chance(1, 2); n->disc = s.chance(1, 5); n->early = s.chance(1, 3);
  if (n->l == L_NATIVE && !(is_int(rk) || rk == VOID)) n->l = L_CALL; if (n->l == L_DIRECT && n->e->form < 0) n->l = L_GO;
  budget--; size_t k = depth <= 0 || budget <= 0 ? 0 : s.weighted({2, 6, 3, 1}); bool big = n->e->frame > 20000; if (big) k = std::min<size_t>(k, 1);
  for (size_t i = 0; i < k && budget > 0; i++) { Act a; a.k = CHILD; a.how = (int)s.below(NHOW); a.v = (int)s.below(4); a.c = gen(w, s, depth - 1, budget, safe); n->acts.push_back(a); }
  if (!safe && (EH || JMP) && s.chance(1, depth <= 0 || !k ? 2 : 6)) { Act a; a.k = EH ? THROW : JUMP; a.how = (int)s.below(JMP ? 64 : 3); a.v = (int)s.below(200); n->acts.insert(n->acts.begin() + s.below(n->acts.size() + 1), a); }
  if (EH && !safe && s.chance(1, 10)) { int b = 3; n->dtor = gen(w, s, 2, b, true); }
  return n;
}
static std::string show(Node *n, int lim) {
  std::string o = fmt("%d:%s/f%d", n->id, LN[n->l], n->e->id); if (n->acts.empty()) return o; o += "("; for (auto &a : n->acts) { if (o.size() > (size_t)lim) { o += "..."; break; } if (a.k == CHILD) o += (EH || JMP ? fmt("h%d ", a.how) : "") + show(a.c, lim - (int)o.size()) + " "; else o += a.k == THROW ? fmt("throw%d ", a.how) : fmt("jump%d ", a.how); } return o + ")";
}
static void prop(pbt::Src &s) {
  if (!LOG) { LOG = (uint32_t *)mmap(0, MAXLOG * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); ARENA = (unsigned char *)mmap(0, ARENASZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
  static std::vector<void *> leaked; LEAKED = &leaked; World w; CALLS = THROWS = DEPTH = 0; pbt::g_err.clear(); size_t ne = 1 + s.below(4); for (size_t i = 0; i < ne; i++) make_ent(w, s);
  int budget = 1 + (int)s.below(s.chance(1, 4) ? 120 : 24), depth = (int)s.below(s.chance(1, 4) ? 60 : 10); Node *root = gen(w, s, depth, budget, false); std::string d; for (auto &e : w.ents) d += fmt("f%d abi %d %s\n", e->id, (int)e->abi, name(e->g).substr(0, 300).c_str()); d += show(root, 2000) + "\n"; pbt::describe(d);
  size_t rounds = 1 + s.below(3); uint64_t thr = 0, deep = 0, calls = 0, h = 7; size_t events = 0;
  for (size_t r = 0; r < rounds; r++) {
    uint64_t seed = s.u64() | 1; fresh_count = 0; CALLS = THROWS = 0; DIRECT = true; run_root(root, seed); std::vector<uint32_t> want(LOG, LOG + NLOG); thr = THROWS; calls = CALLS; THROWS = CALLS = 0; fresh_count = 0; DIRECT = false; run_root(root, seed); deep = DEPTH;
    for (auto p : leaked) ffi_closure_free(p); leaked.clear(); pbt::raise_err();
    if (NLOG != want.size() || memcmp(LOG, want.data(), 4 * NLOG)) { size_t i = 0; while (i < NLOG && i < want.size() && LOG[i] == want[i]) i++; fail(fmt("event %zu differs from the program with direct calls: kind %u at node %u (%u), expected kind %u at node %u (%u); %zu events, expected %zu", i, i < NLOG ? LOG[i] >> 28 : 99, i < NLOG ? LOG[i] >> 12 & 0xffff : 0, i < NLOG ? LOG[i] & 0xfff : 0, i < want.size() ? want[i] >> 28 : 99, i < want.size() ? want[i] >> 12 & 0xffff : 0, i < want.size() ? want[i] & 0xfff : 0, NLOG, want.size())); }
    events += NLOG; if (CALLS != calls) fail("another number of calls than with direct calls");
    struct { uint16_t cw, r0, sw, r1, tag, r2; uint32_t rest[4]; } env; asm volatile("fnstenv %0; fldenv %0" : "+m"(env)); if (env.tag != 0xffff) fail("values are left on the x87 stack"); uint64_t fl; asm volatile("pushfq; pop %0" : "=r"(fl)); if (fl & 0x400) fail("the direction flag is set");
  }
  // later calls behave normally
  if (EH || JMP) { bool eh = EH, jm = JMP; for (auto &e : w.ents) { Node n; n.id = 4000; n.e = e.get(); n.track = false; for (Link l : {L_CALL, L_GO, L_RAWRAW}) { n.l = l; SPX = 0; AP = ARENA; invoke(&n, 4711 + l); } } EH = eh; JMP = jm; pbt::raise_err(); }
  label("calls", calls * rounds); label("events compared", events); if (thr) label("exceptions or jumps", thr); if (deep > 10) label("more than ten levels"); for (auto &n : w.nodes) label(LN[n->l]);
  bool nt = EH || JMP ? thr > 0 && deep > 1 : deep > 2; for (auto &n : w.nodes) h = pbt::hcomb(h, n->l * 1000 + n->acts.size() * 10 + thash(n->e->g)); if (nt) { pbt::nontrivial(h); pbt::sample(d.substr(0, 700)); }
}
int main(int argc, char **argv) {
  pbt::stable_env(argv, 512); pbt::Config c; c.name = "tree"; c.prop = prop;
  pbt::parse(c, argc, argv, [&](const std::string &k, const std::string &v) { if (k == "--mode") g_mode = v; else if (k == "--abi") { g_abis.clear(); if (v.find("sysv") != std::string::npos) g_abis.push_back(FFI_UNIX64); if (v.find("win") != std::string::npos) g_abis.push_back(FFI_WIN64); if (v.find("gnuw") != std::string::npos) g_abis.push_back(FFI_GNUW64); } else return false; return true; });
  EH = g_mode == "eh"; JMP = g_mode == "jmp";
  c.rule = EH || JMP ? "random trees of nested invocations with exceptions or jumps; non-trivial = at least one exception or jump and two levels; distinct by links, shapes and signatures" : "random trees of nested invocations; non-trivial = at least three levels; distinct by links, shapes and signatures"; return pbt::run(c);
}
