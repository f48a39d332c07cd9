// Type descriptions: layout, validity and the acceptance rules of preparation.
// Random DAGs of descriptions (valid and incorrect ones, shared between each other), random histories of requests;
// oracle: pure recursive functions of the description.   --mode=layout | valid | var | cc
#include "pbt.hpp"
#include <ffi.h>
#include <memory>
#include <dlfcn.h>
#include <spawn.h>
#include <complex.h>
using pbt::fail; using pbt::fmt; using pbt::label; typedef unsigned char u8;
extern char **environ;
static std::string g_mode = "layout", g_tmp = "/tmp";

enum Kind { SCALAR, COMPLEX, STRUCT, PRESET, BAD_NULL, BAD_EMPTY, BAD_SCALAR };   // PRESET: size and alignment given by the user (unions)
struct Node {
  Kind kind; int id; ffi_type *ft; ffi_type *builtin = nullptr; std::vector<Node *> el; std::string cname; size_t bsize = 0, balign = 0; bool is_float = false, is_small_int = false, arr = false;
  std::unique_ptr<ffi_type> own; std::unique_ptr<ffi_type *[]> els; unsigned depth = 0; bool touched = false; uint64_t hash = 0; std::vector<size_t> snap_el;
  // oracle
  int v = -1; bool done = false; size_t size = 0, align = 0; std::vector<size_t> off;
  bool valid() {
    if (v >= 0) return v;
    bool r = kind != BAD_NULL && kind != BAD_EMPTY && kind != BAD_SCALAR;
    if (kind == STRUCT) for (Node *e : el) r = r && e->valid();
    return v = r;
  }
  void lay() {
    if (done) return; done = true;
    if (kind != STRUCT) { size = bsize; align = balign; return; }
    size_t o = 0, a = 1; for (Node *e : el) { e->lay(); o = (o + e->align - 1) / e->align * e->align; off.push_back(o); o += e->size; a = std::max(a, e->align); }
    size = (o + a - 1) / a * a; align = a;
  }
};
#define B(n, c) {&ffi_type_##n, #c, sizeof(c), __alignof__(c)}
struct Bi { const ffi_type *t; const char *c; size_t size, align; };
typedef unsigned char uc; typedef unsigned short us; typedef unsigned int ui; typedef unsigned long ul; typedef long double ld; typedef void *vp; typedef signed char sc;
typedef float _Complex cf; typedef double _Complex cd; typedef long double _Complex cl;
static const Bi SC[] = {{&ffi_type_sint32, "int", 4, __alignof__(int)}, {&ffi_type_uint8, "unsigned char", 1, 1}, {&ffi_type_sint8, "signed char", 1, 1}, {&ffi_type_uint16, "unsigned short", 2, 2}, {&ffi_type_sint16, "short", 2, 2},
  {&ffi_type_uint32, "unsigned int", 4, 4}, {&ffi_type_uint64, "unsigned long", sizeof(ul), __alignof__(ul)}, {&ffi_type_sint64, "long", sizeof(long), __alignof__(long)}, {&ffi_type_pointer, "void *", sizeof(vp), __alignof__(vp)},
  {&ffi_type_float, "float", sizeof(float), __alignof__(float)}, {&ffi_type_double, "double", sizeof(double), __alignof__(double)}, {&ffi_type_longdouble, "long double", sizeof(ld), __alignof__(ld)}};
static const Bi CXS[] = {{&ffi_type_complex_float, "float _Complex", sizeof(cf), __alignof__(cf)}, {&ffi_type_complex_double, "double _Complex", sizeof(cd), __alignof__(cd)}, {&ffi_type_complex_longdouble, "long double _Complex", sizeof(cl), __alignof__(cl)}};

struct World {
  std::vector<std::unique_ptr<Node>> n; bool bad = false, huge = false, preset = true; size_t total = 0;
  Node *mk(Kind k) { n.emplace_back(new Node()); Node *x = n.back().get(); x->kind = k; x->id = (int)n.size(); return x; }
  Node *scalar(pbt::Src &s, int which = -1) {
    if (which < 0 && s.chance(1, 9)) {
      Node *x = mk(COMPLEX);
      if (s.chance(1, 3)) {   // complex integers, described by the user
        static const int base[] = {0, 1, 2, 3, 4, 5, 6, 7}; const Bi &b = SC[base[s.below(8)]]; x->own.reset(new ffi_type()); x->els.reset(new ffi_type *[2]()); x->els[0] = (ffi_type *)b.t; x->ft = x->own.get(); x->ft->size = x->bsize = 2 * b.size; x->ft->alignment = (unsigned short)(x->balign = b.align); x->ft->type = FFI_TYPE_COMPLEX; x->ft->elements = x->els.get(); x->cname = std::string("_Complex ") + b.c; x->hash = 300 + (&b - SC); return x;
      }
      const Bi &b = CXS[s.below(3)]; x->ft = (ffi_type *)b.t; x->bsize = b.size; x->balign = b.align; x->cname = b.c; x->hash = 200 + (&b - CXS);
      if (s.chance(1, 6)) { x->own.reset(new ffi_type(*b.t)); x->ft = x->own.get(); }
      return x;
    }
    Node *x = mk(SCALAR); int k = which >= 0 ? which : (int)s.below(12); const Bi &b = SC[k]; x->ft = (ffi_type *)b.t; x->bsize = b.size; x->balign = b.align; x->cname = b.c; x->hash = 100 + k; x->is_float = k == 9; x->is_small_int = k >= 1 && k <= 4;
    if (s.chance(1, 8)) { x->own.reset(new ffi_type(*b.t)); x->ft = x->own.get(); }
    return x;
  }
  void setels(Node *x) { x->els.reset(new ffi_type *[x->el.size() + 1]()); for (size_t i = 0; i < x->el.size(); i++) x->els[i] = x->el[i]->ft; x->ft->elements = x->els.get(); }
  Node *strct(std::vector<Node *> el, bool arr = false) {
    Node *x = mk(STRUCT); x->own.reset(new ffi_type()); x->ft = x->own.get(); x->ft->type = FFI_TYPE_STRUCT; x->el = el; x->arr = arr; setels(x); x->hash = 7 + arr; for (Node *e : el) { x->hash = pbt::hcomb(x->hash, e->hash); x->depth = std::max(x->depth, e->depth + 1); }
    return x;
  }
  Node *broken(pbt::Src &s) {
    Node *x = mk((Kind)(BAD_NULL + s.below(3))); x->own.reset(new ffi_type()); x->ft = x->own.get(); x->hash = 500 + x->kind; x->cname = "bad";
    if (x->kind == BAD_SCALAR) x->ft->type = SC[s.below(12)].t->type;   // a scalar without size
    else { x->ft->type = FFI_TYPE_STRUCT; if (x->kind == BAD_EMPTY) { x->els.reset(new ffi_type *[1]()); x->ft->elements = x->els.get(); } }
    x->ft->alignment = (unsigned short)s.below(3);
    return x;
  }
  Node *presets(pbt::Src &s) {   // what the documentation recommends for unions: size and alignment set by hand
    Node *x = mk(PRESET); x->own.reset(new ffi_type()); x->els.reset(new ffi_type *[2]()); x->els[0] = (ffi_type *)SC[s.below(12)].t; x->ft = x->own.get(); x->ft->type = FFI_TYPE_STRUCT; x->ft->elements = x->els.get();
    x->balign = 1ull << s.below(6); x->bsize = x->balign * (1 + s.below(9)); x->ft->size = x->bsize; x->ft->alignment = (unsigned short)x->balign; x->hash = pbt::hcomb(x->bsize, x->balign); x->cname = fmt("struct { char c[%zu]; } __attribute__((aligned(%zu)))", x->bsize, x->balign);
    return x;
  }
  Node *any(pbt::Src &s, int depth) {
    size_t w = s.weighted({40, 25u * (depth > 0), 20, (unsigned)(bad ? 6 : 0), (unsigned)(preset ? 4 : 0)});
    if (w == 1) return gen(s, depth - 1);
    if (w == 2 && !n.empty()) return n[s.below(n.size())].get();     // shared
    if (w == 3) return broken(s);
    if (w == 4) return presets(s);
    return scalar(s);
  }
  Node *gen(pbt::Src &s, int depth) {
    std::vector<Node *> el; size_t k = 1 + s.below(s.chance(1, 5) ? 24 : 5);
    if (s.chance(1, 10)) { Node *e = any(s, depth); size_t c = 1 + s.below(s.chance(1, 4) ? 300 : 8); return strct(std::vector<Node *>(c, e), true); }
    for (size_t i = 0; i < k; i++) el.push_back(any(s, depth));
    return strct(el);
  }
};
static std::string show(Node *x, int lim = 500) {
  if (x->kind == STRUCT) { if (x->arr && x->el.size() > 1) return show(x->el[0], lim) + fmt("[%zu]", x->el.size()); std::string o = "{"; for (size_t i = 0; i < x->el.size(); i++) { if (i) o += ", "; if ((int)o.size() > lim) { o += fmt("... %zu", x->el.size()); break; } o += show(x->el[i], lim - (int)o.size()); } return o + "}"; }
  static const char *k[] = {"", "", "", "preset", "NO-ELEMENTS", "EMPTY", "SIZELESS-SCALAR"}; return x->cname.empty() || x->kind > STRUCT ? k[x->kind] : x->cname;
}
// check every structure reachable from x that must have been laid out
static void check_laid_out(Node *x, std::set<Node *> &seen) {
  if (!seen.insert(x).second) return;
  x->lay();
  if (x->ft->size != x->size || x->ft->alignment != x->align) fail(fmt("size %zu alignment %u, expected %zu and %zu for ", x->ft->size, x->ft->alignment, x->size, x->align) + show(x));
  for (Node *e : x->el) check_laid_out(e, seen);
}
static void check_els(World &w) {
  for (auto &x : w.n) if (x->kind == STRUCT) { if (x->ft->elements != x->els.get()) fail("the list of members was replaced"); for (size_t i = 0; i < x->el.size(); i++) if (x->els[i] != x->el[i]->ft) fail("a member was replaced"); if (x->els[x->el.size()]) fail("the end of the list of members was overwritten"); }
}
static const ffi_abi GOOD[] = {FFI_UNIX64, FFI_WIN64, FFI_GNUW64};
static const char *SN(int s) { static const char *n[] = {"FFI_OK", "FFI_BAD_TYPEDEF", "FFI_BAD_ABI", "FFI_BAD_ARGTYPE"}; return s >= 0 && s < 4 ? n[s] : "?"; }

static void builtins_once() {
  static bool done = false; if (done) return; done = true;
  struct { const char *n; const ffi_type *t; size_t size, align; int kind; bool sgn; } E[] = {
#define T(nm, c, k) {#nm, &ffi_type_##nm, sizeof(c), __alignof__(c), k, false}
    T(uint8, unsigned char, FFI_TYPE_UINT8), T(sint8, signed char, FFI_TYPE_SINT8), T(uint16, unsigned short, FFI_TYPE_UINT16), T(sint16, short, FFI_TYPE_SINT16), T(uint32, unsigned int, FFI_TYPE_UINT32), T(sint32, int, FFI_TYPE_SINT32),
    T(uint64, unsigned long, FFI_TYPE_UINT64), T(sint64, long, FFI_TYPE_SINT64), T(pointer, void *, FFI_TYPE_POINTER), T(float, float, FFI_TYPE_FLOAT), T(double, double, FFI_TYPE_DOUBLE), T(longdouble, long double, FFI_TYPE_LONGDOUBLE),
    T(complex_float, float _Complex, FFI_TYPE_COMPLEX), T(complex_double, double _Complex, FFI_TYPE_COMPLEX), T(complex_longdouble, long double _Complex, FFI_TYPE_COMPLEX),
    T(uchar, unsigned char, FFI_TYPE_UINT8), T(schar, signed char, FFI_TYPE_SINT8), T(ushort, unsigned short, FFI_TYPE_UINT16), T(sshort, short, FFI_TYPE_SINT16), T(uint, unsigned int, FFI_TYPE_UINT32), T(sint, int, FFI_TYPE_SINT32), T(ulong, unsigned long, FFI_TYPE_UINT64), T(slong, long, FFI_TYPE_SINT64)};
  for (auto &e : E) if (e.t->size != e.size || e.t->alignment != e.align || e.t->type != e.kind) fail(fmt("built-in type %s: size %zu alignment %u kind %u, expected %zu %zu %d", e.n, e.t->size, e.t->alignment, e.t->type, e.size, e.align, e.kind));
  if (ffi_type_void.type != FFI_TYPE_VOID) fail("built-in type void has another kind");
  if (ffi_type_complex_float.elements[0] != &ffi_type_float || ffi_type_complex_double.elements[0] != &ffi_type_double || ffi_type_complex_longdouble.elements[0] != &ffi_type_longdouble) fail("component of a built-in complex type");
}

static void request(pbt::Src &s, World &w, bool var) {
  // which descriptions take part
  size_t na = s.below(s.chance(1, 5) ? 12 : 4); std::vector<Node *> a; for (size_t i = 0; i < na; i++) a.push_back(s.chance(2, 3) ? w.n[s.below(w.n.size())].get() : w.scalar(s));
  Node *r = s.chance(1, 2) ? w.n[s.below(w.n.size())].get() : w.scalar(s); bool rvoid = s.chance(1, 6);
  bool badabi = s.chance(1, 8); ffi_abi abi = GOOD[s.weighted({4, 1, 1})];
  if (badabi) { static const long bad[] = {FFI_LAST_ABI, FFI_FIRST_ABI, 0, FFI_LAST_ABI + 1, 1000, 0x7fffffff, -1, FFI_LAST_ABI + 5}; abi = (ffi_abi)bad[s.below(8)]; if (abi > FFI_FIRST_ABI && abi < FFI_LAST_ABI) abi = FFI_LAST_ABI; }
  std::set<Node *> seen;
  if (s.chance(1, 3) && !var) {      // offsets
    Node *x = s.chance(1, 8) ? w.scalar(s) : w.n[s.below(w.n.size())].get(); bool isst = x->ft->type == FFI_TYPE_STRUCT;
    if (x->kind == PRESET) return;   // its members do not describe it
    bool want = s.chance(3, 4); std::vector<size_t> off(x->el.size() + 2, 0x5a5a5a5a5a5aull); pbt::describe_more("offsets of " + show(x) + "\n");
    ffi_status st = ffi_get_struct_offsets(abi, x->ft, want ? off.data() + 1 : nullptr); ffi_status ex = badabi ? FFI_BAD_ABI : isst && x->valid() ? FFI_OK : FFI_BAD_TYPEDEF;
    bool either = badabi && !(isst && x->valid());
    if (st != ex && !(either && st == FFI_BAD_TYPEDEF)) fail(fmt("ffi_get_struct_offsets: %s, expected %s", SN(st), SN(ex)));
    if (off[0] != 0x5a5a5a5a5a5aull || off.back() != 0x5a5a5a5a5a5aull) fail("offsets stored outside the array");
    label(fmt("offsets %s", SN(ex)).c_str());
    if (ex == FFI_OK) { check_laid_out(x, seen); if (want) for (size_t i = 0; i < x->el.size(); i++) if (off[i + 1] != x->off[i]) fail(fmt("offset of member %zu is %zu, expected %zu, in ", i, off[i + 1], x->off[i]) + show(x)); }
    else if (badabi) for (auto o : off) if (o != 0x5a5a5a5a5a5aull) fail("offsets stored although the ABI was refused");
    return;
  }
  int nfixed = -1; bool argbad = false, argmaybe = false;   // argmaybe: a user's copy of the float description, about which the documentation says nothing
  if (var) { if (a.empty()) a.push_back(w.scalar(s)); nfixed = 1 + (int)s.below(a.size()); for (size_t i = nfixed; i < a.size(); i++) { argbad |= (a[i]->is_float && a[i]->ft == &ffi_type_float) || a[i]->is_small_int; argmaybe |= a[i]->is_float; } }
  bool ok = rvoid || r->valid(); for (Node *x : a) ok &= x->valid();
  if (abi == FFI_WIN64) for (Node *x : a) (void)x;
  if (abi == FFI_WIN64 && r->ft->type == FFI_TYPE_LONGDOUBLE && !rvoid) return;
  ffi_cif *cif = (ffi_cif *)malloc(sizeof(ffi_cif)); std::vector<ffi_type *> at(a.size() + 1, nullptr); for (size_t i = 0; i < a.size(); i++) at[i] = a[i]->ft;
  std::string d = rvoid ? "void" : show(r); d += " f("; for (size_t i = 0; i < a.size(); i++) { d += (i ? ", " : ""); if ((int)i == nfixed) d += "..., "; d += show(a[i]); } pbt::describe_more((var ? "variadic: " : "prepare: ") + d + ")\n");
  ffi_type *rt = rvoid ? &ffi_type_void : r->ft; std::vector<ffi_type *> keep = at;
  ffi_status st = var ? ffi_prep_cif_var(cif, abi, nfixed, (unsigned)a.size(), rt, at.data()) : ffi_prep_cif(cif, abi, (unsigned)a.size(), rt, at.data());
  ffi_status ex = badabi ? FFI_BAD_ABI : !ok ? FFI_BAD_TYPEDEF : argbad ? FFI_BAD_ARGTYPE : FFI_OK;
  // with several things wrong at once, any of the matching codes is a correct answer
  bool fine = st == ex || (st == FFI_BAD_TYPEDEF && !ok) || (st == FFI_BAD_ABI && badabi) || (st == FFI_BAD_ARGTYPE && (argbad || argmaybe));
  if (!fine) fail(fmt("status %s, expected %s (abi %d)", SN(st), SN(ex), (int)abi));
  label(fmt("%s %s", var ? "variadic" : "prepare", SN(ex)).c_str());
  if (keep != at) fail("the vector of argument types was modified");
  if (st == FFI_OK) {
    if (cif->abi != abi || cif->nargs != a.size() || cif->rtype != rt || (a.size() && cif->arg_types != at.data())) fail("the interface does not describe the request");
    for (Node *x : a) check_laid_out(x, seen); if (!rvoid) check_laid_out(r, seen);
  }
  free(cif);
}

static void prop(pbt::Src &s) {
  builtins_once(); World w; bool var = g_mode == "var"; w.bad = g_mode == "valid" || (var && s.chance(1, 8)); pbt::describe("");
  if (g_mode == "layout" && s.chance(1, 12)) {   // towers of arrays: sizes far beyond memory
    Node *t = w.scalar(s); int k = 1 + (int)s.below(7); size_t total = 1;
    for (int i = 0; i < k; i++) { size_t c = 1 + s.below(300); if (total > (1ull << 56) / c) break; total *= c; t = w.strct(std::vector<Node *>(c, t), true); if (s.chance(1, 3)) { std::vector<Node *> e = {t, w.scalar(s)}; if (s.chance(1, 2)) std::swap(e[0], e[1]); t = w.strct(e); } }
    if (t->kind != STRUCT) t = w.strct({t}); t->lay(); pbt::describe(show(t)); std::vector<size_t> off(t->el.size()); label("tower of arrays");
    ffi_status st = ffi_get_struct_offsets(GOOD[s.below(3)], t->ft, off.data()); if (st != FFI_OK) fail(fmt("status %d", st));
    std::set<Node *> seen; check_laid_out(t, seen); for (size_t i = 0; i < off.size(); i++) if (off[i] != t->off[i]) fail(fmt("offset of member %zu is %zu, expected %zu", i, off[i], t->off[i]));
    if (t->size > 0xffffffffull) label("more than 4 GB"); pbt::nontrivial(t->hash); return;
  }
  size_t roots = 1 + s.below(6); unsigned depth = 0; bool anybad = false;
  for (size_t i = 0; i < roots; i++) { if (var) { w.scalar(s, (int)s.below(12)); if (s.chance(1, 2)) w.scalar(s); } Node *x = w.gen(s, (int)s.below(5)); depth = std::max(depth, x->depth); anybad |= !x->valid(); }
  uint64_t h = 3; for (auto &x : w.n) h = pbt::hcomb(h, x->hash);
  size_t reqs = 1 + s.below(s.chance(1, 4) ? 24 : 8); size_t before = w.n.size();
  for (size_t k = 0; k < reqs; k++) {
    request(s, w, var && s.chance(5, 6));
    if (g_mode == "valid" && s.chance(1, 8)) {   // the user completes or breaks a description that has not been accepted yet
      std::vector<Node *> c; for (auto &x : w.n) if ((x->kind == BAD_EMPTY || x->kind == BAD_NULL) && x->ft->size == 0) c.push_back(x.get());
      if (!c.empty()) { Node *x = c[s.below(c.size())]; Node *m = w.scalar(s); x->kind = STRUCT; x->el = {m}; w.setels(x); x->ft->alignment = 0; for (auto &y : w.n) y->v = -1; label("description completed after a refusal"); pbt::describe_more("(completed)\n"); }
    }
  }
  check_els(w);
  if (depth >= 1 || anybad || var) { pbt::nontrivial(h); std::string d; for (size_t i = 0; i < before && d.size() < 400; i++) if (w.n[i]->kind == STRUCT) d += show(w.n[i].get(), 200) + "; "; pbt::sample(fmt("%zu requests over: ", reqs) + d); }
}

// ---- layout as the compilers see it
static void cname(Node *x, std::string &out, std::set<Node *> &seen) {
  if (x->kind != STRUCT && x->kind != PRESET) return;
  if (!seen.insert(x).second) return;
  for (Node *e : x->el) cname(e, out, seen);
  if (x->kind == PRESET) { out += fmt("typedef struct { _Alignas(%zu) char c[%zu]; } T%d;\n", x->balign, x->bsize, x->id); return; }
  auto nm = [](Node *e) { return e->kind == STRUCT || e->kind == PRESET ? fmt("T%d", e->id) : e->cname; };
  out += "typedef struct {";
  if (x->arr) out += " " + nm(x->el[0]) + fmt(" m0[%zu];", x->el.size()); else for (size_t i = 0; i < x->el.size(); i++) out += " " + nm(x->el[i]) + fmt(" m%zu;", i);
  out += fmt(" } T%d;\n", x->id);
}
static void prop_cc(pbt::Src &s) {
  builtins_once(); size_t nb = 1 + s.below(40); World w; std::vector<Node *> roots; pbt::describe("");
  for (size_t i = 0; i < nb; i++) roots.push_back(w.gen(s, (int)s.below(4)));
  std::string src = "#include <stddef.h>\n"; std::set<Node *> seen; for (Node *r : roots) cname(r, src, seen);
  src += "size_t L[] = {\n"; std::vector<Node *> order;
  for (auto &x : w.n) if (seen.count(x.get()) && x->kind == STRUCT) { order.push_back(x.get()); src += fmt("sizeof(T%d), _Alignof(T%d),", x->id, x->id); if (x->arr) { src += fmt("sizeof(((T%d *)0)->m0[0]),", x->id); } else for (size_t i = 0; i < x->el.size(); i++) src += fmt(" offsetof(T%d, m%zu),", x->id, i); src += "\n"; }
  src += "0 };\n"; static int serial; std::string so = fmt("%s/lay-%d-%d.so", g_tmp.c_str(), (int)getpid(), serial++), c = so + ".c";
  FILE *f = fopen(c.c_str(), "w"); if (!f) { perror(c.c_str()); _exit(3); } fputs(src.c_str(), f); fclose(f); const char *cc = s.chance(1, 2) ? "clang" : "gcc";
  const char *av[] = {cc, "-std=gnu11", "-w", "-shared", "-fPIC", "-O0", "-o", so.c_str(), c.c_str(), nullptr}; pid_t p; int st; posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); posix_spawn_file_actions_addopen(&fa, 2, "/dev/null", O_WRONLY, 0);
  if (posix_spawnp(&p, cc, &fa, 0, (char **)av, environ)) _exit(3); while (waitpid(p, &st, 0) < 0 && errno == EINTR);
  if (!getenv("CCL_KEEP")) unlink(c.c_str());
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { pbt::SH->excluded++; label("batch does not compile"); throw pbt::Discard(); }
  void *dl = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL); unlink(so.c_str()); if (!dl) _exit(3); struct Cl { void *d; ~Cl() { dlclose(d); } } cl{dl}; label(cc);
  // lay the structures out in a random way and order
  for (Node *r : roots) if (s.chance(1, 2)) { ffi_cif cif; ffi_type *at[1] = {r->ft}; if (r->ft->size == 0 || s.chance(1, 2)) if (ffi_prep_cif(&cif, GOOD[s.below(3)], 1, s.chance(1, 2) ? r->ft : &ffi_type_void, at) != FFI_OK) fail("ffi_prep_cif failed for " + show(r)); }
  const size_t *L = (const size_t *)dlsym(dl, "L");
  for (Node *x : order) {
    std::vector<size_t> off(x->el.size(), 1); pbt::describe(show(x) + fmt(" compiled by %s", cc)); if (ffi_get_struct_offsets(GOOD[s.below(3)], x->ft, off.data()) != FFI_OK) fail("ffi_get_struct_offsets failed");
    size_t sz = *L++, al = *L++; if (x->ft->size != sz || x->ft->alignment != al) fail(fmt("size %zu alignment %u, the compiler says %zu and %zu", x->ft->size, x->ft->alignment, sz, al));
    if (x->arr) { size_t e = *L++; for (size_t i = 0; i < off.size(); i++) if (off[i] != i * e) fail(fmt("element %zu at %zu, the compiler says %zu", i, off[i], i * e)); }
    else for (size_t i = 0; i < off.size(); i++) { if (off[i] != *L) fail(fmt("member %zu at %zu, the compiler says %zu", i, off[i], *L)); L++; }
    pbt::SH->evals++; if (x->el.size() > 1) pbt::nontrivial(x->hash);
  }
  if (order.size() > 2) pbt::sample(show(order[order.size() / 2]) + fmt(" (%s)", cc));
}

int main(int argc, char **argv) {
  pbt::stable_env(argv, 64); pbt::Config c; c.name = "prep"; c.hang_ms = 60000;
  pbt::parse(c, argc, argv, [&](const std::string &k, const std::string &v) { if (k == "--mode") g_mode = v; else if (k == "--tmp") g_tmp = v; else return false; return true; });
  c.prop = g_mode == "cc" ? prop_cc : prop; if (g_mode == "cc") c.shrink_runs = 100;
  c.rule = g_mode == "cc" ? "random structures compiled by gcc and clang; non-trivial = more than one member; distinct by structure" : g_mode == "layout" ? "random sets of shared descriptions and requests; non-trivial = nested structures; distinct by the set of descriptions" : g_mode == "valid" ? "random sets of valid and incorrect descriptions and requests; non-trivial = contains nesting or an incorrect description; distinct by the set of descriptions" : "random variadic requests; distinct by the set of descriptions";
  return pbt::run(c);
}
