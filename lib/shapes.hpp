// A fixed set of closure shapes under several ABIs, with handlers that record what they were given and a caller that checks everything.
#pragma once
#ifdef NO_SIM
#include "pbt.hpp"
#include <stdarg.h>
namespace sim { struct Lib { ~Lib() {} }; }
#else
#include "simos.hpp"
#endif
#include <ffi.h>
using namespace sim; using pbt::fail; using pbt::fmt; using pbt::label;
// ---- shapes of closures -------------------------------------------------------------------------------------------
struct SD { double d; long l; }; struct Big { long a[4]; };
enum { NSHAPE = 8 };
struct Shape { ffi_cif cif; ffi_cif cif2; size_t need; int kind; };   // kind 0 ordinary, 1 raw, 2 java raw
static Shape SH_[NSHAPE]; static ffi_type *SDe[] = {&ffi_type_double, &ffi_type_slong, 0}, *BGe[] = {&ffi_type_slong, &ffi_type_slong, &ffi_type_slong, &ffi_type_slong, 0}; static ffi_type SDt = {0, 0, FFI_TYPE_STRUCT, SDe}, BGt = {0, 0, FFI_TYPE_STRUCT, BGe};
static void shapes() {
  static ffi_type *a0[] = {&ffi_type_ulong}, *a1[] = {&ffi_type_double, &ffi_type_float, &ffi_type_slong}, *a2[] = {&SDt, &ffi_type_longdouble}, *a3[] = {&ffi_type_ulong, &ffi_type_double}, *a4[] = {&BGt, &ffi_type_float}, *a5[] = {&ffi_type_ulong, &ffi_type_double}, *a6[] = {&ffi_type_sint, &ffi_type_slong};
  static ffi_type *a7[] = {&ffi_type_double, &ffi_type_double, &ffi_type_double, &ffi_type_double, &ffi_type_double, &ffi_type_double, &ffi_type_double, &ffi_type_double, &ffi_type_ulong};
  struct { ffi_abi abi; unsigned n; ffi_type *r; ffi_type **a; size_t need; int kind; } D[NSHAPE] = {
    {FFI_UNIX64, 1, &ffi_type_ulong, a0, sizeof(ffi_closure), 0}, {FFI_UNIX64, 3, &ffi_type_double, a1, sizeof(ffi_closure), 0}, {FFI_UNIX64, 2, &SDt, a2, sizeof(ffi_closure), 0}, {FFI_WIN64, 2, &ffi_type_ulong, a3, sizeof(ffi_closure), 0},
    {FFI_GNUW64, 2, &BGt, a4, sizeof(ffi_closure), 0}, {FFI_UNIX64, 2, &ffi_type_ulong, a5, sizeof(ffi_raw_closure), 1}, {FFI_UNIX64, 2, &ffi_type_slong, a6, sizeof(ffi_java_raw_closure), 2}, {FFI_UNIX64, 9, &ffi_type_ulong, a7, sizeof(ffi_closure), 0}};
  for (int i = 0; i < NSHAPE; i++) { for (ffi_cif *c : {&SH_[i].cif, &SH_[i].cif2}) if (ffi_prep_cif(c, D[i].abi, D[i].n, D[i].r, D[i].a) != FFI_OK) { fprintf(stderr, "cannot prepare shape %d\n", i); _exit(3); } SH_[i].need = D[i].need; SH_[i].kind = D[i].kind; }
}
struct Rec { int n, which; ffi_cif *cif; void *ud; long sum; }; static __thread Rec R; static __thread void (*in_handler)();
static long key(void *ud) { return (long)(pbt::mix64((uint64_t)ud) & 0xfffff); }
static void finish(ffi_cif *cif, void *ret, void *ud, long sum, int which) {
  Rec me{1, which, cif, ud, sum}; me.n = R.n + 1; if (in_handler) { auto f = in_handler; in_handler = nullptr; f(); }
  R = me; long v = key(ud) + sum + which;
  if (cif->rtype == &ffi_type_double) *(double *)ret = (double)v; else if (cif->rtype == &SDt) *(SD *)ret = SD{(double)v, v + 1}; else if (cif->rtype == &BGt) *(Big *)ret = Big{{v, v + 1, v + 2, v + 3}}; else *(ffi_arg *)ret = (ffi_arg)v;
}
static long val(ffi_type *t, const void *p) {
  if (t == &ffi_type_double) return (long)*(double *)p; if (t == &ffi_type_float) return (long)*(float *)p; if (t == &ffi_type_longdouble) return (long)*(long double *)p;
  if (t == &SDt) { const SD *s = (const SD *)p; return (long)s->d + s->l; } if (t == &BGt) { const Big *b = (const Big *)p; return b->a[0] + b->a[1] + b->a[2] + b->a[3]; } if (t == &ffi_type_sint) return *(int *)p; return *(long *)p;
}
template <int W> static void H(ffi_cif *cif, void *ret, void **args, void *ud) { long s = 0; for (unsigned i = 0; i < cif->nargs; i++) s += (i + 1) * val(cif->arg_types[i], args[i]); finish(cif, ret, ud, s, W); }
template <int W> static void HR(ffi_cif *cif, void *ret, ffi_raw *raw, void *ud) { void *a[16]; ffi_raw_to_ptrarray(cif, raw, a); long s = 0; for (unsigned i = 0; i < cif->nargs; i++) s += (i + 1) * val(cif->arg_types[i], a[i]); finish(cif, ret, ud, s, W); }
template <int W> static void HJ(ffi_cif *cif, void *ret, ffi_java_raw *raw, void *ud) { void *a[16]; ffi_java_raw_to_ptrarray(cif, raw, a); long s = 0; for (unsigned i = 0; i < cif->nargs; i++) s += (i + 1) * val(cif->arg_types[i], a[i]); finish(cif, ret, ud, s, W); }
static ffi_status prep(void *p, void *code, int shape, int which, bool second, void *ud) {
  Lib l; Shape &s = SH_[shape]; ffi_cif *c = second ? &s.cif2 : &s.cif;
  if (s.kind == 1) return ffi_prep_raw_closure_loc((ffi_raw_closure *)p, c, which ? HR<1> : HR<0>, ud, code);
  if (s.kind == 2) return ffi_prep_java_raw_closure_loc((ffi_java_raw_closure *)p, c, which ? HJ<1> : HJ<0>, ud, code);
  return ffi_prep_closure_loc((ffi_closure *)p, c, which ? H<1> : H<0>, ud, code);
}
// call the closure; empty string if everything arrived
static std::string callit(void *code, int shape, int which, bool second, void *ud, uint64_t r) {
  long a = r & 0xfff, b = (r >> 12) & 0xfff, c = (r >> 24) & 0xfff; long sum = 0, got = 0; R = Rec{}; long v; bool more = true; ffi_cif *cif = second ? &SH_[shape].cif2 : &SH_[shape].cif;
  switch (shape) {
    case 0: sum = a; got = ((unsigned long (*)(unsigned long))code)(a); break;
    case 1: sum = a + 2 * b + 3 * c; got = (long)((double (*)(double, float, long))code)(a, b, c); break;
    case 2: { sum = a + b + 2 * c; SD x = ((SD (*)(SD, long double))code)(SD{(double)a, b}, (long double)c); got = (long)x.d; more = x.l == got + 1; break; }
    case 3: sum = a + 2 * b; got = ((__attribute__((ms_abi)) unsigned long (*)(unsigned long, double))code)(a, b); break;
    case 4: { sum = 4 * a + 6 + 2 * b; Big x = ((__attribute__((ms_abi)) Big (*)(Big, float))code)(Big{{a, a + 1, a + 2, a + 3}}, b); got = x.a[0]; more = x.a[1] == got + 1 && x.a[3] == got + 3; break; }
    case 5: sum = a + 2 * b; got = ((unsigned long (*)(unsigned long, double))code)(a, b); break;
    case 6: sum = a + 2 * b; got = ((long (*)(int, long))code)((int)a, b); break;
    case 7: sum = a + 2 * b + 3 * c + 4 + 5 + 6 + 7 + 8 + 9 * a; got = ((unsigned long (*)(double, double, double, double, double, double, double, double, unsigned long))code)(a, b, c, 1, 1, 1, 1, 1, a); break;
  }
  v = key(ud) + sum + which;
  if (R.n != 1) return fmt("a handler ran %d times", R.n);
  if (R.which != which) return "another handler ran"; if (R.cif != cif) return "the handler got another interface"; if (R.ud != ud) return fmt("the handler got user datum %p, registered %p", R.ud, ud);
  if (R.sum != sum) return fmt("the handler got wrong arguments (shape %d)", shape); if (got != v || !more) return fmt("wrong result %ld, expected %ld (shape %d)", got, v, shape); return "";
}
// ---- native functions and calls through interfaces -----------------------------------------------------------------
static __thread int nat_n; static long nat(long sum) { nat_n++; R.n++; R.which = 9; R.sum = sum; return key(0) + sum + 9; }
static unsigned long n0(unsigned long a) { return nat(a); }
static double n1(double a, float b, long c) { return (double)nat((long)a + 2 * (long)b + 3 * c); }
static SD n2(SD a, long double b) { long v = nat((long)a.d + a.l + 2 * (long)b); return SD{(double)v, v + 1}; }
static __attribute__((ms_abi)) unsigned long n3(unsigned long a, double b) { return nat(a + 2 * (long)b); }
static __attribute__((ms_abi)) Big n4(Big a, float b) { long v = nat(a.a[0] + a.a[1] + a.a[2] + a.a[3] + 2 * (long)b); return Big{{v, v + 1, v + 2, v + 3}}; }
static unsigned long n5(unsigned long a, double b) { return nat(a + 2 * (long)b); }
static long n6(int a, long b) { return nat(a + 2 * b); }
static unsigned long n7(double a, double b, double c, double d, double e, double f, double g, double h, unsigned long i) { return nat((long)a + 2 * (long)b + 3 * (long)c + 4 * (long)d + 5 * (long)e + 6 * (long)f + 7 * (long)g + 8 * (long)h + 9 * i); }
static void (*const NAT[NSHAPE])() = {(void (*)())n0, (void (*)())n1, (void (*)())n2, (void (*)())n3, (void (*)())n4, (void (*)())n5, (void (*)())n6, (void (*)())n7};
static long vsum(long n, ...) { va_list ap; va_start(ap, n); long s = n; for (long i = 0; i < n; i++) { s += (i + 2) * va_arg(ap, long); s += (i + 3) * (long)va_arg(ap, double); } va_end(ap); return nat(s); }

static long put(ffi_type *t, void *p, long a, long b) {
  if (t == &ffi_type_double) { *(double *)p = a; return a; } if (t == &ffi_type_float) { *(float *)p = a; return a; } if (t == &ffi_type_longdouble) { *(long double *)p = a; return a; }
  if (t == &SDt) { *(SD *)p = SD{(double)a, b}; return a + b; } if (t == &BGt) { *(Big *)p = Big{{a, b, a + 1, b + 1}}; return 2 * a + 2 * b + 2; } if (t == &ffi_type_sint) { *(int *)p = (int)a; return a; } *(long *)p = a; return a;
}
// how: 0 ffi_call, 1 the same without a result object, 2 raw (shapes 5, 6), 3 go
static std::string viacall(void *fn, int shape, int which, bool second, void *ud, uint64_t r, int how, void *go = nullptr) {
  Shape &s = SH_[shape]; ffi_cif *cif = second ? &s.cif2 : &s.cif; alignas(16) unsigned char v[9][32]; void *av[9]; long sum = 0; pbt::Rng g(r);
  for (unsigned i = 0; i < cif->nargs; i++) { av[i] = v[i]; long a = g.below(4096), b = g.below(4096); sum += (i + 1) * put(cif->arg_types[i], v[i], a, b); }
  struct { alignas(16) unsigned char b[64]; unsigned char g[16]; } ret; memset(&ret, 0x5a, sizeof ret); R = Rec{}; ffi_raw raw[16]; ffi_java_raw jraw[32];
  if (how == 2 && s.kind == 1) { ffi_ptrarray_to_raw(cif, av, raw); ffi_raw_call(cif, FFI_FN(fn), ret.b, raw); }
  else if (how == 2 && s.kind == 2) { ffi_java_ptrarray_to_raw(cif, av, jraw); ffi_java_raw_call(cif, FFI_FN(fn), ret.b, jraw); }
  else if (how == 3) ffi_call_go(cif, FFI_FN(fn), ret.b, av, go);
  else ffi_call(cif, FFI_FN(fn), how == 1 ? nullptr : ret.b, av);
  if (R.n != 1) return fmt("a callee ran %d times", R.n); if (R.which != which) return "another function ran"; if (which != 9 && R.cif != cif) return "the handler got another interface"; if (which != 9 && R.ud != ud) return fmt("the handler got user datum %p, registered %p", R.ud, ud);
  if (R.sum != sum) return fmt("wrong arguments were delivered (shape %d)", shape);
  if (how == 1) { for (size_t i = 0; i < sizeof ret; i++) if (((unsigned char *)&ret)[i] != 0x5a) return "something was stored"; return ""; }
  long x = key(which == 9 ? nullptr : ud) + sum + which, got = 0; bool more = true;
  if (cif->rtype == &ffi_type_double) got = (long)*(double *)ret.b; else if (cif->rtype == &SDt) { got = (long)((SD *)ret.b)->d; more = ((SD *)ret.b)->l == x + 1; } else if (cif->rtype == &BGt) { got = ((Big *)ret.b)->a[0]; more = ((Big *)ret.b)->a[3] == x + 3 && ((Big *)ret.b)->a[1] == x + 1; } else got = *(long *)ret.b;
  if (got != x || !more) return fmt("wrong result %ld, expected %ld (shape %d)", got, x, shape); return "";
}
