// Random type trees: layout model, ffi_type construction, C source, values.
#pragma once
#include "pbt.hpp"
#include <ffi.h>
#include <memory>

namespace ty {
using pbt::Src; using pbt::fmt;
typedef unsigned char u8;

enum K { U8, S8, U16, S16, U32, S32, U64, S64, PTR, F, D, LD, CX, ST, VOID, NK };
enum Cls { CI, CF };  // integer / floating scalar

struct Scal { size_t off; K k; };            // flattened scalar (complex numbers become two)

struct Ty {
  K k; K base = VOID;                         // base: component of a complex type
  size_t size = 0, align = 1;
  std::vector<Ty *> el; std::vector<size_t> off;
  bool arr = false;                           // emulated array: all el equal
  ffi_type *ft = nullptr; int id = -1;
  std::vector<Scal> flat;
  bool has_ld = false;
  enum Own { NONE, UNION, ALIGNED, OPAQUE } own = NONE;   // size and alignment given by the description, as documented for unions
  std::vector<Ty *> alts;                     // members of a union; the description lists the largest (el)
  bool has_own() const { if (own) return true; for (Ty *e : el) if (e->has_own()) return true; return false; }
};

static size_t SZ[] = {1, 1, 2, 2, 4, 4, 8, 8, 8, 4, 8, 16, 0, 0, 1};
static bool SNAN = false;                         // signalling NaNs and unnormal long doubles too
static size_t MAXAL = 16;                        // no scalar is aligned to more
static size_t LDBYTES = 10;                      // bytes of a long double that carry its value
inline void set_port() { LDBYTES = 16; }           // IEEE quadruple precision
inline void set_i386() { SZ[PTR] = 4; SZ[LD] = 12; MAXAL = 4; }
inline size_t AL(K k) { return SZ[k] < MAXAL ? SZ[k] : MAXAL; }
static const char *CN[] = {"unsigned char", "signed char", "unsigned short", "short", "unsigned int", "int", "unsigned long", "long", "void *", "float", "double", "long double", "", "", "void"};
static const char *SN[] = {"u8", "s8", "u16", "s16", "u32", "s32", "u64", "s64", "ptr", "f", "d", "ld", "cx", "st", "void"};
inline void set_32() { SZ[PTR] = 4; CN[U64] = "unsigned long long"; CN[S64] = "long long"; }
inline void set_arm() { SZ[LD] = 8; MAXAL = LDBYTES = 8; }
inline bool is_int(K k) { return k <= PTR; }
inline bool is_signed(K k) { return k == S8 || k == S16 || k == S32 || k == S64; }
inline bool is_fp(K k) { return k == F || k == D || k == LD; }
inline size_t meaningful(K k) { return k == LD ? LDBYTES : SZ[k]; }

inline ffi_type *builtin(K k) {
  switch (k) { case U8: return &ffi_type_uint8; case S8: return &ffi_type_sint8; case U16: return &ffi_type_uint16; case S16: return &ffi_type_sint16;
  case U32: return &ffi_type_uint32; case S32: return &ffi_type_sint32; case U64: return &ffi_type_uint64; case S64: return &ffi_type_sint64;
  case PTR: return &ffi_type_pointer; case F: return &ffi_type_float; case D: return &ffi_type_double; case LD: return &ffi_type_longdouble; case VOID: return &ffi_type_void; default: return 0; }
}
inline unsigned short ftcode(K k) { static const unsigned short c[] = {FFI_TYPE_UINT8, FFI_TYPE_SINT8, FFI_TYPE_UINT16, FFI_TYPE_SINT16, FFI_TYPE_UINT32, FFI_TYPE_SINT32, FFI_TYPE_UINT64, FFI_TYPE_SINT64, FFI_TYPE_POINTER, FFI_TYPE_FLOAT, FFI_TYPE_DOUBLE, FFI_TYPE_LONGDOUBLE, FFI_TYPE_COMPLEX, FFI_TYPE_STRUCT, FFI_TYPE_VOID}; return c[k]; }

struct Opts {
  bool cx = true, cint = true, ld = true, st = true, cld = true;
  bool private_copies = true;   // sometimes use user-made copies of scalar descriptions
  size_t max_struct = 1 << 17;
  unsigned big = 3;             // weight of big structures (of 100)
  bool vast = false;            // now and then tens of thousands of arguments, structures of many megabytes, very deep nesting
  unsigned own = 0;             // weight of types with a size and alignment of their own (of 100)
  bool own_mem = false;         // any type is described well enough by its size (Microsoft conventions)
};

struct Pool {
  std::vector<std::unique_ptr<Ty>> tys; std::vector<std::unique_ptr<ffi_type>> fts; std::vector<std::unique_ptr<ffi_type *[]>> els;
  Opts o;
  ffi_type *newft() { fts.emplace_back(new ffi_type()); return fts.back().get(); }
  ffi_type **newel(size_t n) { els.emplace_back(new ffi_type *[n]()); return els.back().get(); }
  Ty *mk() { tys.emplace_back(new Ty()); Ty *t = tys.back().get(); t->id = (int)tys.size(); return t; }

  Ty *scalar(K k, bool copy = false) {
    Ty *t = mk(); t->k = k; t->size = SZ[k]; t->align = AL(k); t->flat = {{0, k}}; t->has_ld = k == LD;
    if (k == VOID) { t->flat.clear(); t->size = 0; }
    if (copy && k != VOID) { t->ft = newft(); *t->ft = *builtin(k); } else t->ft = builtin(k);
    return t;
  }
  Ty *complex_(K b, bool copy = false) {
    Ty *t = mk(); t->k = CX; t->base = b; t->size = 2 * SZ[b]; t->align = AL(b); t->flat = {{0, b}, {SZ[b], b}}; t->has_ld = b == LD;
    ffi_type *bi = b == F ? &ffi_type_complex_float : b == D ? &ffi_type_complex_double : b == LD ? &ffi_type_complex_longdouble : nullptr;
    if (bi && !copy) t->ft = bi;
    else { t->ft = newft(); t->ft->size = t->size; t->ft->alignment = (unsigned short)t->align; t->ft->type = FFI_TYPE_COMPLEX; ffi_type **e = newel(2); e[0] = builtin(b); t->ft->elements = e; }
    return t;
  }
  // structure description is left for the library to lay out (size = alignment = 0)
  Ty *strct(const std::vector<Ty *> &el, bool arr = false) {
    Ty *t = mk(); t->k = ST; t->el = el; t->arr = arr; size_t o = 0, al = 1;
    size_t nf = 0; for (Ty *e : el) nf += e->flat.size(); t->flat.reserve(nf);
    for (Ty *e : el) {
      o = (o + e->align - 1) / e->align * e->align; t->off.push_back(o);
      for (auto &s : e->flat) t->flat.push_back({o + s.off, s.k});
      o += e->size; if (e->align > al) al = e->align; t->has_ld |= e->has_ld;
    }
    t->size = (o + al - 1) / al * al; t->align = al;
    t->ft = newft(); t->ft->size = 0; t->ft->alignment = 0; t->ft->type = FFI_TYPE_STRUCT;
    ffi_type **e = newel(el.size() + 1); for (size_t i = 0; i < el.size(); i++) e[i] = el[i]->ft; e[el.size()] = nullptr; t->ft->elements = e;
    return t;
  }
  // a description whose size and alignment the user has filled in (libffi.texi, "Arrays, Unions, and Enumerations")
  Ty *own_desc(Ty *t, Ty *listed) { t->k = ST; t->el = {listed}; t->off = {0}; t->ft = newft(); t->ft->size = t->size; t->ft->alignment = (unsigned short)t->align; t->ft->type = FFI_TYPE_STRUCT; ffi_type **e = newel(2); e[0] = listed->ft; t->ft->elements = e; return t; }
  void lay(Ty *t) { if (t->k != ST || t->own) { for (Ty *a : t->alts) lay(a); return; } ffi_cif c; if (ffi_prep_cif(&c, FFI_DEFAULT_ABI, 0, t->ft, nullptr) != FFI_OK) abort(); }   // "the ffi_prep_cif trick"
  Ty *union_(const std::vector<Ty *> &alts) {
    Ty *t = mk(), *big = alts[0]; for (Ty *a : alts) { lay(a); if (a->size > big->size) big = a; t->align = std::max(t->align, a->align); t->has_ld |= a->has_ld; for (auto &f : a->flat) t->flat.push_back(f); }
    t->alts = alts; t->own = Ty::UNION; t->size = (big->size + t->align - 1) / t->align * t->align; return own_desc(t, big);
  }
  Ty *aligned(Ty *m, size_t al) { Ty *t = mk(); lay(m); t->own = Ty::ALIGNED; t->align = std::max(m->align, al); t->size = (m->size + t->align - 1) / t->align * t->align; t->flat = m->flat; t->has_ld = m->has_ld; return own_desc(t, m); }
  Ty *opaque(size_t n, size_t al) { Ty *t = mk(); t->own = Ty::OPAQUE; t->align = al; t->size = (n + al - 1) / al * al; for (size_t i = 0; i < t->size; i++) t->flat.push_back({i, U8}); return own_desc(t, scalar(U8)); }
  static void described(const Ty *t, size_t o, std::vector<Scal> &v) { if (t->k != ST) { for (auto &f : t->flat) v.push_back({o + f.off, f.k}); return; } for (size_t i = 0; i < t->el.size(); i++) described(t->el[i], o + t->off[i], v); }
  // does the description determine how the type travels?  (the listed member of a union may be of another class than the union)
  bool adequate(const Ty *t) {
    if (t->k != ST || t->size > 16 || o.own_mem) return true;
    std::vector<Scal> d; described(t, 0, d); std::string c[2] = {std::string((t->size + 7) / 8, '-'), std::string((t->size + 7) / 8, '-')};
    for (int i = 0; i < 2; i++) for (auto &f : i ? d : t->flat) { char &e = c[i][f.off / 8]; if (f.k == LD) { if (e != '-' && e != 'X') return false; e = 'X'; } else if (e == 'X') return false; else if (is_int(f.k)) e = 'I'; else if (e != 'I') e = f.k == F && f.off % 8 == 0 && (e == '-' || e == 's') ? 's' : 'S'; }
    return c[0] == c[1];
  }
  Ty *gen_own(Src &s, int depth) {
    for (int tries = 0; tries < 8; tries++) {
      Ty *t; unsigned w = s.weighted({6, 3, 2});
      if (w == 0) { std::vector<Ty *> a; size_t n = 1 + s.below(4); bool like = s.chance(1, 2); for (size_t i = 0; i < n; i++) a.push_back(like && i ? (is_fp(a[0]->k) ? scalar(s.chance(1, 2) ? F : D) : is_int(a[0]->k) ? scalar(gen_int(s)) : gen_small(s, 0)) : s.chance(1, 2) ? gen_scalar(s, true) : gen_small(s, depth)); t = union_(a); }
      else if (w == 1) t = aligned(s.chance(1, 2) ? gen_scalar(s, true) : gen_small(s, depth), (size_t)1 << s.below(5));
      else t = opaque(17 + s.below(s.chance(1, 4) ? 3000 : 60), (size_t)1 << s.below(5));
      if (s.chance(1, 3)) { std::vector<Ty *> el; size_t n = 1 + s.below(3), at = s.below(n); for (size_t i = 0; i < n; i++) el.push_back(i == at ? t : gen_scalar(s, true)); t = s.chance(1, 4) ? strct(std::vector<Ty *>(1 + s.below(4), t), true) : strct(el); }
      if (adequate(t)) return t;
    }
    return aligned(scalar(gen_int(s)), 16);
  }
  // ---- random types
  K gen_int(Src &s) { static const K ks[] = {S32, U32, S64, U64, PTR, S8, U8, S16, U16}; return ks[s.below(9)]; }
  Ty *gen_scalar(Src &s, bool aggregate_member = false) {
    bool copy = o.private_copies && s.chance(1, 12);
    switch (s.weighted({50, 16, 18, (unsigned)(o.ld ? 8 : 0), (unsigned)(o.cx ? 9 : 0)})) {
      case 0: return scalar(gen_int(s), copy);
      case 1: return scalar(F, copy);
      case 2: return scalar(D, copy);
      case 3: return scalar(LD, copy);
      default: return gen_complex(s, copy);
    }
  }
  Ty *gen_complex(Src &s, bool copy) {
    unsigned w = s.weighted({4, 4, (unsigned)(o.cld && o.ld ? 2 : 0), (unsigned)(o.cint ? 3 : 0)});
    if (w == 0) return complex_(F, copy); if (w == 1) return complex_(D, copy); if (w == 2) return complex_(LD, copy);
    static const K ks[] = {S32, U32, S64, U64, S8, U8, S16, U16}; return complex_(ks[s.below(8)], true);
  }
  // small structures: the ones that travel in registers
  Ty *gen_small(Src &s, int depth) {
    std::vector<Ty *> el; size_t left = 16;
    int n = 1 + (int)s.weighted({3, 5, 4, 3, 1, 1, 1, 1});
    int bias = (int)s.below(4);   // 0 mixed, 1 floats, 2 narrow ints, 3 mixed
    for (int i = 0; i < n && left > 0; i++) {
      Ty *t;
      if (depth > 0 && s.chance(1, 6)) t = gen_small(s, depth - 1);
      else if (bias == 1) t = scalar(s.chance(1, 4) ? D : F);
      else if (bias == 2) { static const K ks[] = {S8, U8, S16, U16, S32, U32}; t = scalar(ks[s.below(6)]); }
      else t = gen_scalar(s, true);
      if (t->size > left && !el.empty()) break;
      el.push_back(t); left = left > t->size ? left - t->size : 0;
    }
    if (s.chance(1, 12)) { size_t c = 1 + s.below(16 / el[0]->size + 1); std::vector<Ty *> a(c, el[0]); return strct(a, true); }
    return strct(el);
  }
  Ty *gen_struct(Src &s, int depth = 2) {
    if (o.own && s.chance(o.own, 100)) { Ty *t = gen_own(s, 1); if (depth == 2 || t->own) return t; }
    switch (s.weighted({55, 22, 15, 8, o.big})) {
      case 0: return gen_small(s, depth);
      case 1: { int n = 1 + (int)s.below(8); std::vector<Ty *> el; for (int i = 0; i < n; i++) el.push_back(depth > 0 && s.chance(1, 3) ? gen_struct(s, depth - 1) : gen_scalar(s, true)); return strct(el); }
      case 2: { Ty *e = depth > 0 && s.chance(1, 3) ? gen_small(s, depth - 1) : gen_scalar(s, true); size_t n = 1 + s.below(s.chance(1, 4) ? 70 : 12); std::vector<Ty *> el(n, e); Ty *a = strct(el, true); if (s.chance(1, 2)) return a; std::vector<Ty *> w; if (s.chance(1, 2)) w.push_back(gen_scalar(s)); w.push_back(a); if (s.chance(1, 2)) w.push_back(gen_scalar(s)); return strct(w); }
      case 3: { int n = 1 + (int)s.below(40); std::vector<Ty *> el; for (int i = 0; i < n; i++) el.push_back(gen_scalar(s, true)); return strct(el); }
      default: { Ty *e = gen_scalar(s, true); size_t maxn = std::max<size_t>(2, o.max_struct / e->size); uint64_t bits = 5 + s.below(13); if (o.vast && s.chance(1, 400)) { bits = 17 + s.below(9); maxn = (40u << 20) / e->size; } size_t n = std::min<size_t>(maxn, (1ull << bits) + s.below(3) - 1); n = std::max<size_t>(1, n / (s.chance(1, 2) ? 1 : e->size)); std::vector<Ty *> el(n, e); Ty *a = strct(el, true); if (s.chance(1, 2)) return a; std::vector<Ty *> w = {a, gen_scalar(s)}; return strct(w); }
    }
  }
  // structures nested many levels deep around one scalar or pair
  Ty *gen_deep(Src &s) { Ty *t = gen_scalar(s, true); int n = 1 + (int)s.below(o.vast && s.chance(1, 5) ? 300 : 30); for (int i = 0; i < n; i++) { std::vector<Ty *> el = {t}; if (t->size < 64 && s.chance(1, 5)) el.push_back(gen_scalar(s, true)); t = strct(el); } return t; }
  Ty *gen_arg(Src &s, int theme) { Ty *t = gen_arg0(s, theme); return o.own && !adequate(t) ? gen_own(s, 1) : t; }
  Ty *gen_arg0(Src &s, int theme) {
    unsigned ws = o.st ? 1 : 0; if (o.own && ws && s.chance(o.own, 100)) return gen_own(s, 1);
    switch (theme) {
      case 0: { size_t w = s.weighted({60, 38 * ws, 2 * ws}); return w == 0 ? gen_scalar(s) : w == 1 ? gen_struct(s) : gen_deep(s); }
      case 1: return s.chance(1, 5) && ws ? gen_small(s, 1) : scalar(gen_int(s));                                     // integers
      case 2: return s.chance(1, 5) && ws ? gen_small(s, 1) : scalar(s.chance(1, 3) ? F : D);                          // floats
      case 3: return ws ? gen_small(s, 2) : gen_scalar(s);                                                             // register structures
      case 4: { unsigned w = s.weighted({3, 3, 2 * ws, (unsigned)(o.cx ? 1 : 0)}); return w == 0 ? scalar(gen_int(s)) : w == 1 ? scalar(s.chance(1, 2) ? F : D) : w == 2 ? gen_small(s, 1) : gen_complex(s, false); } // exhaustion
      default: { static const K ks[] = {S8, U8, S16, U16, S32, U32}; return scalar(ks[s.below(6)]); }                  // narrow integers
    }
  }
  std::vector<Ty *> gen_args(Src &s, size_t maxn = 80000) {
    size_t n;
    switch (s.weighted({22, 42, 26, 8, 2})) {
      case 0: n = s.below(4); break; case 1: n = 4 + s.below(7); break; case 2: n = 11 + s.below(14); break;
      case 3: n = 25 + s.below(96); break; default: n = 100 + s.below(s.chance(1, 4) ? o.vast && s.chance(1, 60) ? 70000 : 3000 : 400); break; }
    n = std::min(n, maxn);
    int theme = (int)s.weighted({40, 12, 10, 14, 16, 8});
    std::vector<Ty *> a; size_t total = 0;
    for (size_t i = 0; i < n; i++) { Ty *t = gen_arg(s, n > 60 && theme == 0 ? (s.chance(9, 10) ? 4 : 0) : theme); a.push_back(t); total += t->size; if (total > (1u << 20)) break; }
    return a;
  }
  Ty *gen_ret(Src &s) { Ty *t = gen_ret0(s); return o.own && !adequate(t) ? gen_own(s, 1) : t; }
  Ty *gen_ret0(Src &s) {
    if (o.own && o.st && s.chance(o.own, 100)) return gen_own(s, 1);
    switch (s.weighted({12, 30, 10, (unsigned)(o.st ? 28 : 0), (unsigned)(o.st ? 12 : 0), (unsigned)(o.st ? 2 : 0)})) {
      case 0: return scalar(VOID); case 1: return gen_scalar(s); case 2: return scalar(gen_int(s));
      case 3: return gen_small(s, 2); case 4: return gen_struct(s); default: return gen_deep(s); }
  }
};

// ---- names and C source ---------------------------------------------------------------------------------------------
inline std::string name(const Ty *t, int lim = 60) {
  if (t->k == CX) return std::string("c") + SN[t->base];
  if (t->k != ST) return SN[t->k];
  if (t->own == Ty::UNION) { std::string o = "union{"; for (size_t i = 0; i < t->alts.size(); i++) o += (i ? "," : "") + name(t->alts[i], lim); return o + "}"; }
  if (t->own == Ty::ALIGNED) return fmt("aligned(%zu)", t->align) + name(t->el[0], lim);
  if (t->own == Ty::OPAQUE) return fmt("opaque(%zu,%zu)", t->size, t->align);
  if (t->arr) return name(t->el[0], lim) + fmt("[%zu]", t->el.size());
  std::string o = "{"; for (size_t i = 0; i < t->el.size(); i++) { if (i) o += ","; if ((int)o.size() > lim) { o += fmt("...%zu", t->el.size()); break; } o += name(t->el[i], lim); } return o + "}";
}
inline uint64_t thash(const Ty *t) {
  uint64_t h = t->k * 31 + t->base + 7; if (t->own) { h = pbt::hcomb(h, t->own * 1000003 + t->size * 64 + t->align); for (auto e : t->alts) h = pbt::hcomb(h, thash(e)); } if (t->k == ST) { h = pbt::hcomb(h, t->el.size()); if (t->arr) h = pbt::hcomb(h, thash(t->el[0])); else for (auto e : t->el) h = pbt::hcomb(h, thash(e)); }
  return h;
}
struct CEmit {
  std::string out; std::set<const Ty *> done; int uid;
  std::string cname(const Ty *t) { return t->k == CX ? std::string("_Complex ") + CN[t->base] : t->k == ST ? fmt("T%d_%d", uid, t->id) : CN[t->k]; }
  void need(const Ty *t) {
    if (t->k != ST || done.count(t)) return; done.insert(t);
    for (auto e : t->el) need(e);
    for (auto e : t->alts) need(e);
    if (t->own == Ty::UNION) { out += "typedef union { "; for (size_t i = 0; i < t->alts.size(); i++) out += cname(t->alts[i]) + fmt(" m%zu; ", i); out += "} " + cname(t) + ";\n"; return; }
    if (t->own == Ty::ALIGNED) { out += "typedef struct { " + cname(t->el[0]) + fmt(" m0; } __attribute__((aligned(%zu))) ", t->align) + cname(t) + ";\n"; return; }
    if (t->own == Ty::OPAQUE) { out += fmt("typedef struct { unsigned char m0[%zu]; } __attribute__((aligned(%zu))) ", t->size, t->align) + cname(t) + ";\n"; return; }
    out += "typedef struct { ";
    if (t->arr) out += cname(t->el[0]) + fmt(" m[%zu]; ", t->el.size());
    else for (size_t i = 0; i < t->el.size(); i++) out += cname(t->el[i]) + fmt(" m%zu; ", i);
    out += "} " + cname(t) + ";\n";
  }
};

// ---- values ---------------------------------------------------------------------------------------------------------
inline void fill_scalar(u8 *p, K k, pbt::Rng &r, bool simple, unsigned ctr) {
  size_t n = SZ[k]; if (k == LD && n == 8) k = D;
  if (simple) {   // recognisable, distinct bytes
    if (is_int(k)) { for (size_t i = 0; i < n; i++) p[i] = (u8)(ctr * 16 + i + 1); return; }
    if (k == F) { float v = (float)ctr + 0.5f; memcpy(p, &v, 4); } else if (k == D) { double v = ctr + 0.25; memcpy(p, &v, 8); } else { long double v = (long double)ctr + 0.125L; memset(p, 0, SZ[LD]); memcpy(p, &v, 10); }
    return;
  }
  uint64_t a = r.next(), b = r.next(); unsigned m = (unsigned)(a >> 58);
  if (is_int(k)) {
    uint64_t v = b;
    if (m < 6) { static const uint64_t sp[] = {0, ~0ull, 0x8080808080808080ull, 0x7f7f7f7f7f7f7f7full, 0x8000000000000000ull, 0x7fffffffffffffffull}; v = sp[m]; }
    else if (m < 10) v = (uint64_t)1 << (b & 63); else if (m < 12) v = ~((uint64_t)1 << (b & 63)); else if (m < 14) v = (uint64_t)(int64_t)(int8_t)b;
    memcpy(p, &v, n); return;
  }
  if (k == F) {
    uint32_t v = (uint32_t)b; if (m < 4) { static const uint32_t sp[] = {0x80000000u, 0x7f800000u, 0xff800000u, 0x00000001u}; v = sp[m]; } else if (m < 6) v = 0x7fc00000u | (v & 0x803fffffu);
    else if (SNAN && m == 6) v = 0x7f800000u | (v & 0x803fffffu);
    if (!SNAN && (v & 0x7f800000u) == 0x7f800000u && (v & 0x7fffffu)) v |= 0x400000u;
    memcpy(p, &v, 4);
  } else if (k == D) {
    uint64_t v = b; if (m < 4) { static const uint64_t sp[] = {1ull << 63, 0x7ffull << 52, 0xfffull << 52, 1}; v = sp[m]; } else if (m < 6) v |= 0x7ff8ull << 48;
    else if (SNAN && m == 6) v = 0x7ffull << 52 | (v & 0x8007ffffffffffffull);
    if (!SNAN && (v & (0x7ffull << 52)) == (0x7ffull << 52) && (v << 12)) v |= 1ull << 51;
    memcpy(p, &v, 8);
  } else {
    uint64_t mant = b; uint16_t ex = (uint16_t)(a); if (m < 3) ex = (ex & 0x8000) | 0x7fff; else if (m < 6) ex &= 0x8000;
    if (SNAN && m > 58) { if (m == 60) ex |= 0x7fff; } else if (ex & 0x7fff) mant |= 1ull << 63; else mant &= ~(1ull << 63);
    if (!SNAN && (ex & 0x7fff) == 0x7fff && (mant << 1)) mant |= 1ull << 62;
    memcpy(p, &mant, 8); memcpy(p + 8, &ex, 2);
    uint64_t pad = r.next(); memcpy(p + 10, &pad, SZ[LD] - 10);
  }
}
// fills the whole object; padding bytes get noise
inline void fill(const Ty *t, u8 *p, uint64_t seed) {
  pbt::Rng r(seed * 77 + 5); 
  if (t->size && seed) { for (size_t i = 0; i < t->size; i += 8) { uint64_t v = r.next(); memcpy(p + i, &v, std::min<size_t>(8, t->size - i)); } } else memset(p, 0, t->size);
  unsigned c = (unsigned)(seed ? 0 : t->id % 7); for (auto &s : t->flat) fill_scalar(p + s.off, s.k, r, seed == 0, ++c);
}
inline bool same(const Ty *t, const u8 *a, const u8 *b, std::string *why = nullptr) {
  for (auto &s : t->flat) if (memcmp(a + s.off, b + s.off, meaningful(s.k))) {
    if (why) { auto hx = [&](const u8 *p) { std::string o; for (size_t i = 0; i < meaningful(s.k); i++) o += fmt("%02x", p[i]); return o; }; *why = fmt("%s at offset %zu: expected %s got %s", SN[s.k], s.off, hx(a + s.off).c_str(), hx(b + s.off).c_str()); }
    return false;
  }
  return true;
}
struct Sig { std::vector<Ty *> args; Ty *ret = nullptr; int nfixed = -1; };
inline std::string name(const Sig &g) { std::string o = name(g.ret) + " f("; for (size_t i = 0; i < g.args.size(); i++) { if (i) o += ", "; if ((int)i == g.nfixed) o += "..., "; if (o.size() > 1500) { o += fmt("... %zu args", g.args.size()); break; } o += name(g.args[i]); } return o + ")"; }
inline uint64_t thash(const Sig &g) { uint64_t h = thash(g.ret) + (g.nfixed + 1); for (auto a : g.args) h = pbt::hcomb(h, thash(a)); return h; }
} // namespace ty
