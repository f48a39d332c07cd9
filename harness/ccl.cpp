// Compiler lanes: batches of random signatures are written out as C, compiled by gcc or clang, and every compiled
// function is called through the library / calls a closure.  A control run (compiled caller, compiled callee) keeps
// compiler disagreements out of the oracle.
#include "abi.hpp"
#include <dlfcn.h>
#include <spawn.h>
using namespace abi; using pbt::fail; using pbt::label;
extern char **environ;

static std::string g_aspects = "ARMS", g_tmp = "/tmp"; static std::vector<std::string> modes; static std::vector<std::string> abis; static unsigned g_batch = 40, g_own = 0;
static void bad(char aspect, const std::string &m) { if (g_aspects.find(aspect) != std::string::npos) pbt::err(fmt("[%c] ", aspect) + m); }
static std::vector<std::string> split(const std::string &x) { std::vector<std::string> o; size_t i = 0; while (i <= x.size()) { size_t j = x.find(',', i); if (j == std::string::npos) j = x.size(); o.push_back(x.substr(i, j - i)); i = j + 1; } return o; }

struct Sh { u8 **out; const u8 *ret; int count; int scribble; void (*scrib)(void *, size_t); };   // shared with the compiled code
static void scrib(void *p, size_t n) { for (size_t i = 0; i < n; i++) ((volatile u8 *)p)[i] = (u8)(0x5a + i * 3); }

struct One { Sig g; Abi a; bool var; int mode; };   // mode 0 call, 1 closure
static const char *PRE = "typedef unsigned long size_t; void *memcpy(void *, const void *, size_t);\n"
  "struct Sh { unsigned char **out; const unsigned char *ret; int count; int scribble; void (*scrib)(void *, size_t); }; struct Sh sh;\n";

static std::string emit(One &o, int k) {
  CEmit e; e.uid = k; for (Ty *t : o.g.args) e.need(t); e.need(o.g.ret);
  std::string A = o.a == SYSV ? "" : "__attribute__((ms_abi)) ", R = e.cname(o.g.ret), s = e.out, params, types, vaty = o.a == SYSV ? "__builtin_va_list" : "__builtin_ms_va_list", vast = o.a == SYSV ? "__builtin_va_start" : "__builtin_ms_va_start", vaend = o.a == SYSV ? "__builtin_va_end" : "__builtin_ms_va_end";
  size_t n = o.g.args.size(), nf = o.var ? o.g.nfixed : n;
  for (size_t i = 0; i < nf; i++) { params += fmt("%s%s a%zu", i ? ", " : "", e.cname(o.g.args[i]).c_str(), i); types += fmt("%s%s", i ? ", " : "", e.cname(o.g.args[i]).c_str()); }
  if (o.var) { params += ", ..."; types += ", ..."; } else if (!n) params = types = "void";
  // callee
  s += A + R + fmt(" callee_%d(", k) + params + ") {\n  sh.count++;\n";
  if (o.var) {
    s += "  " + vaty + " ap; " + vast + fmt("(ap, a%zu);\n", nf - 1);
    for (size_t i = nf; i < n; i++) s += fmt("  %s a%zu = __builtin_va_arg(ap, %s);\n", e.cname(o.g.args[i]).c_str(), i, e.cname(o.g.args[i]).c_str());
    s += "  " + vaend + "(ap);\n";
  }
  for (size_t i = 0; i < n; i++) s += fmt("  memcpy(sh.out[%zu], &a%zu, sizeof a%zu);\n", i, i, i);
  if (n) { s += "  if (sh.scribble) {"; for (size_t i = 0; i < n; i++) s += fmt(" sh.scrib(&a%zu, sizeof a%zu);", i, i); s += " }\n"; }
  if (o.g.ret->k != VOID) s += "  " + R + " r; memcpy(&r, sh.ret, sizeof r); return r;\n";
  s += "}\n";
  // caller; val holds locals around the call to notice clobbered registers and frames
  s += fmt("void caller_%d(void *fn, unsigned char **in, unsigned char *out) {\n  volatile unsigned long g1 = 0x1122334455667788ul; ", k);
  for (size_t i = 0; i < n; i++) s += fmt("  %s a%zu; memcpy(&a%zu, in[%zu], sizeof a%zu);\n", e.cname(o.g.args[i]).c_str(), i, i, i, i);
  std::string call = "((" + R + " (" + A + "*)(" + types + "))fn)("; for (size_t i = 0; i < n; i++) call += fmt("%sa%zu", i ? ", " : "", i); call += ")";
  if (o.g.ret->k != VOID) s += "  " + R + " r = " + call + "; memcpy(out, &r, sizeof r);\n"; else s += "  " + call + ";\n";
  s += "  if (g1 != 0x1122334455667788ul) sh.count += 1000;\n}\n";
  return s;
}

struct HCtx { One *o; std::vector<u8 *> val; u8 *ret; ffi_cif *cif; void *ud; int count; bool scribble; };
static HCtx H;
static void handler(ffi_cif *cif, void *ret, void **args, void *ud) {
  H.count++; if (cif != H.cif) bad('A', "wrong interface in the handler"); if (ud != H.ud) bad('A', "wrong user datum in the handler"); std::string why; Sig &g = H.o->g;
  for (size_t i = 0; i < g.args.size(); i++) if (!same(g.args[i], H.val[i], (u8 *)args[i], &why)) { bad('A', fmt("handler: argument %zu (%s) wrong: ", i, name(g.args[i]).c_str()) + why); break; }
  if (H.scribble) for (size_t i = 0; i < g.args.size(); i++) scrib(args[i], g.args[i]->size);
  if (g.ret->k == VOID) return;
  if (is_int(g.ret->k) && g.ret->size < 8) { uint64_t w = widen(g.ret, H.ret); memcpy(ret, &w, 8); } else memcpy(ret, H.ret, g.ret->size);
}
static bool compile(const std::string &src, const std::string &so, const char *cc, const char *opt) {
  std::string c = so + ".c"; FILE *f = fopen(c.c_str(), "w"); if (!f) { perror(c.c_str()); _exit(3); } fputs(src.c_str(), f); fclose(f);
  const char *av[] = {cc, opt, "-w", "-shared", "-fPIC", "-fno-strict-aliasing", "-o", so.c_str(), c.c_str(), nullptr}; pid_t p; int st;
  posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); posix_spawn_file_actions_addopen(&fa, 2, "/dev/null", O_WRONLY, 0);
  if (posix_spawnp(&p, cc, &fa, 0, (char **)av, environ)) { perror(cc); _exit(3); }
  while (waitpid(p, &st, 0) < 0 && errno == EINTR);
  if (!getenv("CCL_KEEP")) unlink(c.c_str()); return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}

static void prop(pbt::Src &s) {
  Pool P; unsigned nb = 1 + (unsigned)s.below(g_batch); bool anyvar = false;
  const std::string &mode = modes[s.below(modes.size())];
  std::vector<One> v;
  for (unsigned k = 0; k < nb; k++) {
    One o; const std::string &an = abis[s.below(abis.size())]; o.a = an == "sysv" ? SYSV : an == "win" ? WIN : GNUW; o.mode = mode == "closure"; o.var = mode == "var";
    P.o = Opts(); P.o.max_struct = 4096; if (o.a == WIN || (o.a == GNUW && o.var)) P.o.ld = P.o.cld = false;
    P.o.own = g_own; SNAN = true; P.o.own_mem = o.a != SYSV;
    if (o.a != SYSV) { P.o.cint = true; }
    o.g.args = P.gen_args(s, 60); o.g.ret = P.gen_ret(s);
    if (o.var) {
      if (o.g.args.empty()) o.g.args.push_back(P.scalar(S32));
      o.g.nfixed = 1 + (int)s.below(o.g.args.size());
      for (size_t i = o.g.nfixed; i < o.g.args.size(); i++) { Ty *t = o.g.args[i]; if (t->k == F) o.g.args[i] = P.scalar(D); else if (is_int(t->k) && t->size < 4) o.g.args[i] = P.scalar(S32); }
    }
    v.push_back(o);
  }
  // MS variadic access to aggregates is only implemented by clang; gcc implements ms_abi for long double as MinGW does
  bool ms = false, ms_ld = false; for (auto &o : v) { if (o.a != SYSV) ms = true; if (o.a == GNUW) ms_ld = true; }
  const char *cc = mode == "var" ? (ms ? "clang" : s.chance(1, 2) ? "clang" : "gcc") : ms ? "gcc" : s.chance(1, 2) ? "clang" : "gcc";
  static const char *opts[] = {"-O0", "-O2", "-O1"}; const char *opt = opts[s.weighted({3, 2, 1})];
  std::string src = PRE; for (unsigned k = 0; k < nb; k++) src += emit(v[k], k);
  static int serial = 0; std::string so = fmt("%s/ccl-%d-%d.so", g_tmp.c_str(), (int)getpid(), serial++);
  if (!compile(src, so, cc, opt)) { pbt::SH->excluded++; label("batch does not compile"); throw pbt::Discard(); }
  void *dl = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL); if (!getenv("CCL_KEEP")) unlink(so.c_str());
  if (!dl) { fprintf(stderr, "%s\n", dlerror()); _exit(3); }
  struct Close { void *d; ~Close() { dlclose(d); } } closer{dl};
  Sh *sh = (Sh *)dlsym(dl, "sh"); sh->scrib = scrib; label(fmt("%s %s", cc, opt).c_str());
  for (unsigned k = 0; k < nb; k++) {
    One &o = v[k]; Sig &g = o.g; size_t n = g.args.size();
    void *callee = dlsym(dl, fmt("callee_%u", k).c_str()); auto caller = (void (*)(void *, u8 **, u8 *))dlsym(dl, fmt("caller_%u", k).c_str());
    pbt::describe(fmt("%s %s compiled by %s %s: ", mode.c_str(), aname(o.a), cc, opt) + name(g) + "\n");
    std::vector<ffi_type *> at(n + 1, nullptr); for (size_t i = 0; i < n; i++) at[i] = g.args[i]->ft;
    ffi_cif cif; ffi_status st = o.var ? ffi_prep_cif_var(&cif, ffiabi(o.a), g.nfixed, (unsigned)n, g.ret->ft, at.data()) : ffi_prep_cif(&cif, ffiabi(o.a), (unsigned)n, g.ret->ft, at.data());
    if (st != FFI_OK) fail(fmt("preparation of a valid description: status %d", st));
    int rounds = 1 + (int)s.below(2);
    for (int r = 0; r < rounds; r++) {
      uint64_t seed = s.u64(); bool simple = s.chance(1, 20); H.scribble = s.chance(1, 2); sh->scribble = H.scribble;
      std::vector<std::vector<u8>> in(n), orig(n), out(n); std::vector<u8 *> inp(n + 1), outp(n + 1), origp(n + 1); std::vector<void *> av(n + 1);
      auto al = [](std::vector<u8> &b, size_t z) { b.assign(z + 48, 0xee); u8 *p = b.data(); return p + (16 - (uint64_t)p % 16) % 16; };
      for (size_t i = 0; i < n; i++) { inp[i] = al(in[i], g.args[i]->size); outp[i] = al(out[i], g.args[i]->size); origp[i] = al(orig[i], g.args[i]->size); fill(g.args[i], inp[i], simple ? 0 : pbt::mix64(seed + i) | 1); memcpy(origp[i], inp[i], g.args[i]->size); av[i] = inp[i]; }
      std::vector<u8> retb, rvb, rv2; u8 *ret = al(retb, g.ret->size + 8), *rv = al(rvb, g.ret->size + 8), *rc = al(rv2, g.ret->size + 8);
      fill(g.ret, ret, simple ? 0 : pbt::mix64(seed - 1) | 1); sh->out = outp.data(); sh->ret = ret; sh->count = 0;
      // control: is the compiled code consistent with itself?
      caller(callee, inp.data(), rc); std::string why; bool consistent = sh->count == 1;
      for (size_t i = 0; i < n && consistent; i++) consistent = same(g.args[i], origp[i], outp[i]) && !memcmp(inp[i], origp[i], g.args[i]->size);
      if (consistent && g.ret->k != VOID) consistent = same(g.ret, ret, rc);
      if (!consistent) { pbt::SH->excluded++; label("compiler not consistent with itself"); break; }
      if (!r) { bool nt = false; for (Ty *t : g.args) nt |= t->k == ST || t->k == CX || t->k == LD; nt |= n > 6 || g.ret->k == ST || g.ret->k == CX || g.ret->k == LD; label(aname(o.a)); if (nt) { pbt::nontrivial(pbt::hcomb(thash(g), o.a * 8 + o.mode * 2 + o.var)); if (k == nb / 2) pbt::sample(pbt::SLOTS[pbt::g_worker].desc); } }
      pbt::SH->evals += (k || r) ? 1 : 0; sh->count = 0;
      for (size_t i = 0; i < n; i++) memset(outp[i], 0x77, g.args[i]->size);
      if (!o.mode) {
        bool null_rv = s.chance(1, 8); memset(rv, 0x33, g.ret->size + 8);
        ffi_call(&cif, (void (*)(void))callee, null_rv ? nullptr : rv, av.data());
        if (sh->count != 1) bad('A', fmt("the callee ran %d times", sh->count));
        for (size_t i = 0; i < n; i++) {
          if (!same(g.args[i], origp[i], outp[i], &why)) { bad('A', fmt("argument %zu (%s) arrived wrong: ", i, name(g.args[i]).c_str()) + why); break; }
          if (memcmp(inp[i], origp[i], g.args[i]->size)) { bad('M', fmt("the caller's object of argument %zu (%s) was modified", i, name(g.args[i]).c_str())); break; }
          if (av[i] != inp[i]) { bad('M', fmt("argument vector modified at %zu", i)); break; }
        }
        if (!null_rv && g.ret->k != VOID) {
          if (is_int(g.ret->k)) { uint64_t w, x = widen(g.ret, ret); memcpy(&w, rv, 8); if (w != x) bad('R', fmt("result (%s) is %lx, expected %lx", name(g.ret).c_str(), w, x)); }
          else if (!same(g.ret, ret, rv, &why)) bad('R', fmt("wrong result (%s): ", name(g.ret).c_str()) + why);
          size_t own = is_int(g.ret->k) ? std::max<size_t>(8, g.ret->size) : g.ret->size; for (size_t i = own; i < g.ret->size + 8; i++) if (rv[i] != 0x33) { bad('M', fmt("byte %zu after the result object (%s) was overwritten", i - own, name(g.ret).c_str())); break; }
        } else { size_t z = g.ret->size + 8; for (size_t i = 0; i < z; i++) if (rv[i] != 0x33) { bad('M', "stored a result although none was asked for"); break; } }
      } else {
        void *code; ffi_closure *cl = (ffi_closure *)ffi_closure_alloc(sizeof(ffi_closure), &code); if (!cl) fail("ffi_closure_alloc failed");
        H.o = &o; H.val = origp; H.ret = ret; H.cif = &cif; H.ud = (void *)seed; H.count = 0;
        if (ffi_prep_closure_loc(cl, &cif, handler, H.ud, code) != FFI_OK) fail("closure preparation failed");
        memset(rv, 0x33, g.ret->size + 8);
        caller(code, inp.data(), rv);
        if (sh->count >= 1000) bad('S', "the caller's frame was damaged");
        if (H.count != 1) bad('A', fmt("the handler ran %d times", H.count));
        if (g.ret->k != VOID && !same(g.ret, ret, rv, &why)) bad('R', fmt("the caller received a wrong result (%s): ", name(g.ret).c_str()) + why);
        for (size_t i = 0; i < n; i++) if (memcmp(inp[i], origp[i], g.args[i]->size)) { bad('M', "caller's objects modified"); break; }
        ffi_closure_free(cl);
      }
      if (!pbt::g_err.empty()) { pbt::describe_more(fmt("value seed %lx%s\n", seed, H.scribble ? ", callee overwrites its parameters" : "")); pbt::raise_err(); }
    }
  }
}

int main(int argc, char **argv) {
  pbt::stable_env(argv); pbt::Config c; c.name = "ccl"; c.prop = prop; c.shrink_runs = 120; c.hang_ms = 120000;
  c.rule = "batches of random signatures compiled from C; non-trivial = more than six arguments or an aggregate, complex or long double argument or result; distinct by (ABI, direction, signature)";
  std::string m = "call,closure", ab = "sysv";
  pbt::parse(c, argc, argv, [&](const std::string &k, const std::string &v) {
    if (k == "--aspects") g_aspects = v; else if (k == "--mode") m = v; else if (k == "--abi") ab = v; else if (k == "--tmp") g_tmp = v; else if (k == "--own") g_own = atoi(v.c_str()); else if (k == "--batch") g_batch = atoi(v.c_str()); else return false; return true; });
  modes = split(m); abis = split(ab); return pbt::run(c);
}
