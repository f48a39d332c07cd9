// Several threads using closures, interfaces and calls at the same time.
// --mode=sched: the threads are coroutines of one thread; a generated schedule switches between them at any basic block of the
//   library (compiled with -fsanitize-coverage=trace-pc) and at its locks; every run can be replayed.
// --mode=mt: real threads, to be built with ThreadSanitizer or without.
#include "shapes.hpp"
#include <atomic>
#include <thread>
#include <ucontext.h>
extern "C" void *ffi_data_to_code_pointer(void *) __attribute__((visibility("hidden")));
static std::string g_mode = "sched"; static bool g_notramp = false;
static void log(const std::string &m) { pbt::describe_more(m + "\n"); }

// ---- programs -------------------------------------------------------------------------------------------------------
struct Op { int kind; uint64_t a; };
struct Own { unsigned char *p; size_t size; void *code; int shape = -1, which = 0; bool second = false; void *ud = nullptr; uint64_t pat; };
struct Shared { void *p, *code; int shape, which; bool second; void *ud; ffi_go_closure *go = nullptr; };
struct Thr { int id; std::vector<Op> ops; std::vector<Own> own; std::string err; uint64_t done = 0; std::string what; };
static std::vector<Shared> *SHR; static std::map<unsigned char *, size_t> *LIVE; static std::map<void *, int> *CODES; static std::vector<size_t> *sizes;
static bool must = true, coro = false;
static __thread Thr *ME;
static void err(const std::string &m) { if (ME->err.empty()) ME->err = fmt("thread %d: ", ME->id) + m; }
static void chk(const std::string &m) { if (!m.empty()) err(ME->what + ": " + m); }
static void fillb(Own &o) { pbt::Rng r(o.pat); for (size_t i = sizeof(ffi_raw_closure); i < o.size; i++) o.p[i] = (unsigned char)r.next(); }
static bool intact(Own &o) { pbt::Rng r(o.pat); for (size_t i = sizeof(ffi_raw_closure); i < o.size; i++) if (o.p[i] != (unsigned char)r.next()) return false; return true; }
static Own *t_alloc(size_t size, pbt::Rng &g) {
  Own o; void *code = nullptr; void *p; { Lib l; p = ffi_closure_alloc(size, &code); } if (!p) { if (must) err(fmt("ffi_closure_alloc(%zu) failed", size)); return nullptr; }
  o.p = (unsigned char *)p; o.size = size; o.code = code; o.pat = g.next(); if (!code) err("no code address"); if ((size_t)p % 8) err("the block is misaligned");
  if (coro) { size_t n = std::max<size_t>(size, 1); auto it = LIVE->upper_bound(o.p); if (it != LIVE->end() && it->first < o.p + n) err("a block overlaps a live one"); if (it != LIVE->begin()) { --it; if (it->first + it->second > o.p) err("a block overlaps a live one"); } if (CODES->count(code)) err("two live closures have one code address"); if (!ME->err.empty()) return nullptr; (*LIVE)[o.p] = n; (*CODES)[code] = ME->id; }
  fillb(o); ME->own.push_back(o); return &ME->own.back();
}
static void t_free(size_t i) {
  Own o = ME->own[i]; ME->own[i] = ME->own.back(); ME->own.pop_back(); if (!intact(o)) err("a block was altered"); if (coro) { LIVE->erase(o.p); CODES->erase(o.code); }
  { Lib l; ffi_closure_free(o.p); }
}
static void t_prep(Own &o, pbt::Rng &g) {
  int sh = (int)g.below(NSHAPE); if (o.size < SH_[sh].need) return; int w = (int)g.below(2); bool sec = g.below(2); void *ud = (void *)(g.next() | 1);
  ffi_status st = prep(o.p, o.code, sh, w, sec, ud); if (st != FFI_OK) { err(fmt("preparing a closure: status %d", st)); return; } o.shape = sh; o.which = w; o.second = sec; o.ud = ud;
}
static size_t t_size(pbt::Rng &g) { switch (g.below(8)) { default: return sizeof(ffi_raw_closure); case 5: return sizeof(ffi_raw_closure) + g.below(300); case 6: return g.below(3000); case 7: return g.below(8) ? g.below(20000) : g.below(400000); } }
static void echo(ffi_cif *cif, void *ret, void **args, void *ud) { R.n++; R.ud = ud; memcpy(ret, args[0], cif->rtype->size); }
static void run_op(const Op &op, int depth); static __thread const Op *nested_op;
static void nested() { Op o = *nested_op; nested_op = nullptr; Rec save = R; run_op(o, 1); pbt::Rng g(o.a); o.kind = (int)g.below(14); o.a = g.next(); run_op(o, 1); R = save; }
static const char *ON[] = {"allocate", "release", "prepare", "call", "call through an interface", "look up", "call a shared closure", "call a shared closure through an interface", "call a function through a shared interface", "own go closure", "shared go closure", "own interface", "variadic", "burst", "operations in a handler", "own interface over shared types"};
static void run_op(const Op &op, int depth) {
  pbt::Rng g(op.a); auto &v = ME->own; ME->what = ON[op.kind];
  Own *o = v.empty() ? nullptr : &v[g.below(v.size())];
  switch (op.kind) {
    case 0: if (v.size() < 300) if (Own *n = t_alloc(t_size(g), g)) if (g.below(8)) t_prep(*n, g); break;
    case 1: if (o) t_free(o - v.data()); break;
    case 2: if (o) { t_prep(*o, g); if (o->shape >= 0) chk(callit(o->code, o->shape, o->which, o->second, o->ud, g.next())); } break;
    case 3: if (o && o->shape >= 0) chk(callit(o->code, o->shape, o->which, o->second, o->ud, g.next())); if (o && !intact(*o)) err("a block was altered"); break;
    case 4: if (o && o->shape >= 0) chk(viacall(o->code, o->shape, o->which, o->second, o->ud, g.next(), (int)g.below(3))); break;
    case 5: if (o) { void *c; { Lib l; c = ffi_data_to_code_pointer(o->p); } if (c != o->code) err("looking up the code address gives another address"); } break;
    case 6: case 7: if (SHR->size()) { Shared &x = (*SHR)[g.below(SHR->size())]; if (x.go) break; chk(op.kind == 6 ? callit(x.code, x.shape, x.which, x.second, x.ud, g.next()) : viacall(x.code, x.shape, x.which, x.second, x.ud, g.next(), (int)g.below(3))); } break;
    case 8: { int sh = (int)g.below(NSHAPE); chk(viacall((void *)NAT[sh], sh, 9, g.below(2), nullptr, g.next(), (int)g.below(3))); break; }
    case 9: { static const int GS[] = {0, 1, 2, 3, 4, 7}; int sh = GS[g.below(6)]; bool sec = g.below(2); ffi_go_closure gc; ffi_status st = ffi_prep_go_closure(&gc, sec ? &SH_[sh].cif2 : &SH_[sh].cif, H<1>); if (st != FFI_OK) { err("ffi_prep_go_closure failed"); break; } chk(viacall((void *)gc.tramp, sh, 1, sec, &gc, g.next(), 3, &gc)); break; }
    case 10: for (auto &x : *SHR) if (x.go && g.below(2)) { chk(viacall((void *)x.go->tramp, x.shape, x.which, x.second, x.go, g.next(), 3, x.go)); break; } break;
    case 11: {
      ffi_type *B[] = {&ffi_type_uint8, &ffi_type_sint16, &ffi_type_sint, &ffi_type_slong, &ffi_type_float, &ffi_type_double, &ffi_type_longdouble, &ffi_type_pointer}; ffi_type *e[13] = {0}, st = {0, 0, FFI_TYPE_STRUCT, e}; size_t n = 1 + g.below(12), size = 0, al = 1, off[12], got[12];
      for (size_t i = 0; i < n; i++) { e[i] = B[g.below(8)]; size = (size + e[i]->alignment - 1) / e[i]->alignment * e[i]->alignment; off[i] = size; size += e[i]->size; al = std::max<size_t>(al, e[i]->alignment); } size = (size + al - 1) / al * al;
      bool first = g.below(2); ffi_cif c; ffi_type *at[] = {&st}; ffi_abi ab = g.below(4) ? FFI_UNIX64 : FFI_GNUW64; ffi_go_closure gc; ffi_status s1 = FFI_OK; if (first) s1 = ffi_get_struct_offsets(ab, &st, got); ffi_status s2 = ffi_prep_cif(&c, ab, 1, &st, at); if (!first) s1 = ffi_get_struct_offsets(ab, &st, got);
      if (s1 != FFI_OK || s2 != FFI_OK) { err(fmt("preparing an interface of its own: status %d %d", s1, s2)); break; } if (st.size != size || st.alignment != al) err("wrong layout"); for (size_t i = 0; i < n; i++) if (got[i] != off[i]) err("wrong offset");
      if (ffi_prep_go_closure(&gc, &c, echo) != FFI_OK) { err("ffi_prep_go_closure failed"); break; }
      alignas(16) unsigned char a[256], b[256]; for (size_t i = 0; i < sizeof a; i++) a[i] = (unsigned char)g.next(); memset(b, 0, sizeof b); for (size_t i = 0; i < n; i++) if (e[i] == &ffi_type_longdouble) *(long double *)(a + off[i]) = (long double)(long)g.next();
      void *av[] = {a}; R = Rec{}; ffi_call_go(&c, FFI_FN(gc.tramp), b, av, &gc); if (R.n != 1 || R.ud != &gc) err("the go handler did not run as registered"); for (size_t i = 0; i < n; i++) if (memcmp(a + off[i], b + off[i], e[i] == &ffi_type_longdouble ? 10 : e[i]->size)) err("a structure was altered on the way"); break; }
    case 12: {
      ffi_cif c; ffi_type *t[13]; long n = g.below(6); t[0] = &ffi_type_slong; for (long i = 0; i < n; i++) { t[1 + 2 * i] = &ffi_type_slong; t[2 + 2 * i] = &ffi_type_double; } if (ffi_prep_cif_var(&c, FFI_UNIX64, 1, 1 + 2 * n, &ffi_type_slong, t) != FFI_OK) { err("ffi_prep_cif_var failed"); break; }
      long l[6]; double d[6]; void *av[13]; av[0] = &n; long sum = n; for (long i = 0; i < n; i++) { l[i] = g.below(999); d[i] = g.below(999); sum += (i + 2) * l[i] + (i + 3) * (long)d[i]; av[1 + 2 * i] = &l[i]; av[2 + 2 * i] = &d[i]; } R = Rec{}; ffi_arg ret = 0; ffi_call(&c, FFI_FN(vsum), &ret, av);
      if (R.n != 1 || R.sum != sum) err("a variadic function got wrong arguments"); if ((long)ret != key(0) + sum + 9) err("wrong result of a variadic function"); break; }
    case 13: { size_t n = 1 + g.below(g.below(3) ? 8 : 70); std::vector<size_t> mine; for (size_t i = 0; i < n && ME->err.empty(); i++) if (Own *x = t_alloc(sizeof(ffi_raw_closure), g)) t_prep(*x, g); size_t keep = g.below(4) ? 0 : g.below(n + 1); while (n-- > keep && !v.empty() && ME->err.empty()) t_free(g.below(2) ? v.size() - 1 : g.below(v.size())); break; }
    case 15: {   // descriptions that others use, laid out already
      static ffi_type *const T[] = {&SDt, &BGt, &ffi_type_complex_float, &ffi_type_complex_double, &ffi_type_slong, &ffi_type_double, &ffi_type_longdouble}; struct { SD a; Big b; double c; } x; ffi_type *e[4] = {&SDt, &BGt, &ffi_type_double, nullptr}, own = {0, 0, FFI_TYPE_STRUCT, e}; ffi_type *at[7]; ffi_cif c; size_t n = 1 + g.below(6); for (size_t i = 0; i < n; i++) at[i] = T[g.below(7)]; if (g.below(2)) at[g.below(n)] = &own;
      ffi_type *rt = g.below(3) ? T[g.below(7)] : &own; ffi_abi ab = g.below(4) ? FFI_UNIX64 : FFI_GNUW64; bool var = g.below(4) == 0; ffi_status st = var ? ffi_prep_cif_var(&c, ab, 1, (unsigned)n, rt, at) : ffi_prep_cif(&c, ab, (unsigned)n, rt, at); if (st != FFI_OK) { err(fmt("preparing an interface over shared types: status %d", st)); break; }
      if (SDt.size != sizeof(SD) || BGt.size != sizeof(Big)) err("the layout of a shared type is not what it was"); bool used = rt == &own; for (size_t i = 0; i < n; i++) used |= at[i] == &own; if (used && own.size != sizeof x) err("wrong layout of a structure with shared members");
      if (at[0] != rt || rt == &own || rt == &ffi_type_longdouble) break; ffi_go_closure gc; if (ffi_prep_go_closure(&gc, &c, echo) != FFI_OK) { err("ffi_prep_go_closure failed"); break; }
      alignas(16) unsigned char a[7][128], b[128]; void *av[7]; for (size_t i = 0; i < n; i++) { for (auto &y : a[i]) y = (unsigned char)g.next(); av[i] = a[i]; if (at[i] == &ffi_type_longdouble) *(long double *)a[i] = 3; } memset(b, 0, sizeof b); R = Rec{}; ffi_call_go(&c, FFI_FN(gc.tramp), b, av, &gc); if (R.n != 1 || R.ud != &gc) err("the go handler did not run as registered"); if (memcmp(a[0], b, rt->size)) err("a value was altered on the way"); break; }
    case 14: if (depth) break; { Op inner; inner.kind = (int)g.below(14); inner.a = g.next(); Own x; if (o && o->shape >= 0) x = *o; else if (SHR->size() && !(*SHR)[0].go) { Shared &q = (*SHR)[0]; x.code = q.code; x.shape = q.shape; x.which = q.which; x.second = q.second; x.ud = q.ud; } else break;
        // the active closure itself stays allocated: it is taken out of the thread's list meanwhile
        bool mine = o && o->shape >= 0; if (mine) { v[o - v.data()] = v.back(); v.pop_back(); } nested_op = &inner; in_handler = nested; bool via = g.below(2); std::string m = via ? viacall(x.code, x.shape, x.which, x.second, x.ud, g.next(), (int)g.below(2)) : callit(x.code, x.shape, x.which, x.second, x.ud, g.next()); in_handler = nullptr; nested_op = nullptr; ME->what = ON[14]; chk(m); if (mine) v.push_back(x); } break;
  }
  ME->done++;
}
static void run_thread(Thr &t) {
  ME = &t; for (auto &op : t.ops) { run_op(op, 0); if (!t.err.empty()) return; }
  for (auto &o : t.own) { if (!intact(o)) err("a block was altered"); if (o.shape >= 0) chk(callit(o.code, o.shape, o.which, o.second, o.ud, 12345)); if (!t.err.empty()) return; }
  while (!t.own.empty() && t.err.empty()) t_free(t.own.size() - 1);
}
// ---- coroutines -----------------------------------------------------------------------------------------------------
struct Co { ucontext_t uc; void *stack; bool done = false; void *waits = nullptr; int in = 0; Rec r; void (*ih)(); int eno; Thr *me; const Op *nop; std::vector<void *> held; };
static const size_t STK = 1 << 20; static Co *CO; static int NCO, CUR = -1; static ucontext_t MAINC; static std::map<void *, int> *OWNER; static std::map<void *, int> *ONCE; static uint64_t YIELDS, SWITCHES; static pbt::Rng *SR; static unsigned SP; static std::vector<uint64_t> *POINTS; static size_t NEXTP;
static std::string *switch_log;
static bool ready(int i) { return !CO[i].done && (!CO[i].waits || !OWNER->count(CO[i].waits)); }
static void save(Co &c) { c.in = g_in; c.r = R; c.ih = in_handler; c.eno = errno; c.me = ME; c.nop = nested_op; }
static void load(Co &c) { g_in = c.in; R = c.r; in_handler = c.ih; errno = c.eno; ME = c.me; nested_op = c.nop; }
static void to(int n) { int o = CUR; if (n == o) return; SWITCHES++; save(CO[o]); CUR = n; load(CO[n]); swapcontext(&CO[o].uc, &CO[n].uc); }
static int pick() { int c[8], n = 0; for (int i = 0; i < NCO; i++) if (ready(i)) c[n++] = i; return n ? c[SR->below(n)] : -1; }
static void yield_point() {
  if (CUR < 0) return; YIELDS++; bool sw = false;
  if (SP) sw = SR->below(SP) == 0; else if (NEXTP < POINTS->size() && YIELDS >= (*POINTS)[NEXTP]) { NEXTP++; sw = true; }
  if (!sw) return; int o = CUR, n = -1; int c[8], k = 0; for (int i = 0; i < NCO; i++) if (i != o && ready(i)) c[k++] = i; if (!k) return; n = c[SR->below(k)]; to(n);
}
extern "C" void __sanitizer_cov_trace_pc() { yield_point(); }
static bool co_lock(pthread_mutex_t *m) {
  if (CUR < 0) return false; while (OWNER->count(m)) {
    if ((*OWNER)[m] == CUR) pbt::fail_now("deadlock: the library takes a lock that it already holds");
    CO[CUR].waits = m; int n = pick(); if (n < 0) { Out o; pbt::fail_now("deadlock: every thread waits for a lock"); } to(n);
  }
  CO[CUR].waits = nullptr; (*OWNER)[m] = CUR; return true;
}
static bool co_unlock(pthread_mutex_t *m) { if (CUR < 0) return false; auto it = OWNER->find(m); if (it == OWNER->end() || it->second != CUR) { Out o; err("the library releases a lock that it does not hold"); return true; } OWNER->erase(it); yield_point(); return true; }
static int co_trylock(pthread_mutex_t *m) { if (CUR < 0) return __real_pthread_mutex_trylock(m); if (OWNER->count(m)) return EBUSY; (*OWNER)[m] = CUR; return 0; }
static void co_once(pthread_once_t *o, void (*f)()) {
  int &st = (*ONCE)[o]; if (st == 2) return; if (st == 1) { while ((*ONCE)[o] == 1) { int n = pick(); if (n == CUR || n < 0) { int k = -1; for (int i = 0; i < NCO; i++) if (i != CUR && ready(i)) k = i; if (k < 0) pbt::fail_now("deadlock in pthread_once"); n = k; } to(n); } return; } st = 1; f(); (*ONCE)[o] = 2; }
static void co_main() {
  Co &c = CO[CUR]; try { run_thread(*c.me); } catch (pbt::Fail &f) { if (c.me->err.empty()) c.me->err = f.msg; }
  int me = CUR; { Out o; for (auto &x : *OWNER) if (x.second == me && c.me->err.empty()) c.me->err = fmt("thread %d ends while the library holds a lock for it", me); }
  CO[me].done = true; bool failed = !c.me->err.empty(); int n = failed ? -1 : pick();
  if (n < 0) { if (!failed) for (int i = 0; i < NCO; i++) if (!CO[i].done) { c.me->err = "deadlock: every thread waits for a lock"; } CUR = -1; g_in = 0; setcontext(&MAINC); }
  CUR = n; load(CO[n]); setcontext(&CO[n].uc);
}
static std::vector<std::string> made_dirs;
struct Cleaner { ~Cleaner() { for (auto &d : made_dirs) { if (DIR *x = opendir(d.c_str())) { while (dirent *e = readdir(x)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) unlinkat(dirfd(x), e->d_name, 0); closedir(x); } rmdir(d.c_str()); } } };
static std::string mkscratch() { const char *b = getenv("VERIF_SCRATCH"); std::string t = std::string(b ? b : "/tmp") + "/concXXXXXX"; std::vector<char> x(t.begin(), t.end()); x.push_back(0); if (!mkdtemp(x.data())) _exit(3); made_dirs.push_back(x.data()); return x.data(); }
static void make_shared(pbt::Src &s, bool cold, std::string &d) {
  size_t n = s.below(5); static unsigned char *page = nullptr; if (!page && n) page = (unsigned char *)mmap(0, 65536, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  for (size_t i = 0; i < n; i++) {
    Shared x; x.shape = (int)s.below(NSHAPE); x.which = (int)s.below(2); x.second = s.below(2); x.ud = (void *)(s.u64() | 1); int how = (int)s.below(3);
    if (how == 2) { static const int GS[] = {0, 1, 2, 3, 4, 7, 0, 1}; x.shape = GS[x.shape]; x.go = new ffi_go_closure; ffi_prep_go_closure(x.go, x.second ? &SH_[x.shape].cif2 : &SH_[x.shape].cif, x.which ? H<1> : H<0>); d += "shared go closure, "; }
    else { if (how == 1 || cold) { x.p = x.code = page + 1024 * i; d += "shared closure in user memory, "; } else { Lib l; x.p = ffi_closure_alloc(sizeof(ffi_raw_closure), &x.code); d += "shared closure, "; } if (!x.p) fail("ffi_closure_alloc failed"); if (prep(x.p, x.code, x.shape, x.which, x.second, x.ud) != FFI_OK) fail("preparing a shared closure failed"); if (coro && (how != 1 && !cold)) { (*LIVE)[(unsigned char *)x.p] = sizeof(ffi_raw_closure); (*CODES)[x.code] = -1; } }
    SHR->push_back(x);
  }
}
static int pick_op(pbt::Src &s) { return (int)s.weighted({16, 10, 7, 8, 6, 8, 6, 5, 7, 4, 3, 5, 3, 5, 5, 5}); }
static void prop(pbt::Src &s) {
  Cleaner cl; shapes(); coro = g_mode == "sched"; SHR = new std::vector<Shared>; LIVE = new std::map<unsigned char *, size_t>; CODES = new std::map<void *, int>; std::string d;
  int n = 2 + (int)s.weighted({6, 3, 2, 1}); bool cold = s.chance(1, 2);
  if (coro) {
    S->on = true; S->env_on = true; S->placement = (int)s.below(4); S->prng = pbt::Rng(s.u64()); S->scratch = mkscratch(); Dir t; t.real = S->scratch; S->dirs["/tmp"] = t; S->mtab_missing = true; S->mounts = "proc /proc proc rw,noexec 0 0\n";
    int kind = g_notramp ? 2 + (int)s.below(2) : (int)s.weighted({5, 2, 2, 3});
    if (kind >= 1) { switch (s.below(3)) { case 0: S->hide_maps = true; break; case 1: S->lib_open = 1; break; default: S->lib_noexec = true; } }
    if (kind >= 2) S->memfd.st = NOEXEC; if (kind == 3) { if (g_notramp && s.chance(1, 2)) S->memfd.st = OK; switch (s.below(3)) { case 0: S->rwx_errno = EPERM; break; case 1: S->selinux = 1 + (int)s.below(2); break; default: S->pax = "PeMRs"; } }
    static const char *KN[] = {"library file", "temporary trampoline file", "anonymous memory", "file-backed heap"}; d = fmt("%s, ", KN[kind]); label(KN[kind]);
  }
  d += fmt("%d threads, %s, ", n, cold ? "the pool not used before" : "the pool used before");
  if (!cold) { Lib l; void *c, *p = ffi_closure_alloc(72, &c); if (!p) fail("ffi_closure_alloc failed"); ffi_closure_free(p); }
  make_shared(s, cold, d); std::vector<Thr> T(n); uint64_t total = 0;
  for (int i = 0; i < n; i++) { T[i].id = i; size_t k = 1 + s.below(coro ? 24 : 120); for (size_t j = 0; j < k; j++) { Op o; o.kind = pick_op(s); o.a = s.u64(); T[i].ops.push_back(o); } total += k; }
  std::string prog; for (auto &t : T) { prog += fmt("thread %d:", t.id); for (auto &o : t.ops) prog += std::string(" ") + ON[o.kind] + ";"; prog += "\n"; }
  if (coro) {
    OWNER = new std::map<void *, int>; ONCE = new std::map<void *, int>; CO = new Co[n]; NCO = n; pbt::Rng sr(s.u64()); SR = &sr; POINTS = new std::vector<uint64_t>;
    if (s.chance(1, 2)) { static const unsigned P[] = {1, 2, 4, 10, 30, 100, 400}; SP = P[s.below(7)]; d += fmt("switches with probability 1/%u", SP); }
    else { SP = 0; size_t k = s.below(8); uint64_t span = total * (s.chance(1, 2) ? 200 : 20) + 50; for (size_t i = 0; i < k; i++) POINTS->push_back(s.below(span)); std::sort(POINTS->begin(), POINTS->end()); d += "switches at"; for (auto p : *POINTS) d += fmt(" %lu", p); }
    pbt::describe(d + "\n" + prog);
    for (int i = 0; i < n; i++) { getcontext(&CO[i].uc); CO[i].stack = mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); CO[i].uc.uc_stack.ss_sp = CO[i].stack; CO[i].uc.uc_stack.ss_size = STK; CO[i].uc.uc_link = nullptr; makecontext(&CO[i].uc, co_main, 0); CO[i].me = &T[i]; CO[i].ih = nullptr; CO[i].eno = 0; CO[i].nop = nullptr; }
    sim_lock = co_lock; sim_unlock = co_unlock; sim_trylock = co_trylock; sim_once = co_once; sim_yield = [](int, void *) { yield_point(); };
    volatile bool back = false; getcontext(&MAINC); if (!back) { back = true; CUR = (int)sr.below(n); load(CO[CUR]); setcontext(&CO[CUR].uc); }
    CUR = -1; g_in = 0; sim_lock = nullptr; sim_unlock = nullptr; sim_trylock = nullptr; sim_once = nullptr; sim_yield = nullptr;
    for (auto &t : T) if (!t.err.empty()) fail(t.err);
    S->quarantine_check(); if (!S->error.empty()) fail(S->error);
    if (S->fds.size() > 1) fail(fmt("%zu descriptors are held", S->fds.size()));
    for (int i = 0; i < n; i++) munmap(CO[i].stack, STK);
  } else {
    pbt::describe(d + "\n" + prog); std::atomic<int> go{0}; std::vector<std::thread> th; bool jitter = s.chance(1, 2);
    for (auto &t : T) th.emplace_back([&] { ME = &t; go.fetch_add(1, std::memory_order_relaxed); while (go.load(std::memory_order_relaxed) < n) sched_yield(); pbt::Rng j(t.id); for (auto &op : t.ops) { run_op(op, 0); if (!t.err.empty()) return; if (jitter && j.below(4) == 0) sched_yield(); } std::vector<Op> rest; t.ops.swap(rest); run_thread(t); });
    for (auto &t : th) t.join(); for (auto &t : T) if (!t.err.empty()) fail(t.err);
  }
  // afterwards the shared closures work, and so does the pool
  Thr last; last.id = -1; ME = &last; for (auto &x : *SHR) if (!x.go) { std::string m = callit(x.code, x.shape, x.which, x.second, x.ud, 99); if (!m.empty()) fail("afterwards: " + m); }
  { pbt::Rng g(1); for (int i = 0; i < 3; i++) { if (Own *o = t_alloc(72, g)) t_prep(*o, g); } for (auto &o : last.own) if (o.shape >= 0) { std::string m = callit(o.code, o.shape, o.which, o.second, o.ud, 98); if (!m.empty()) fail("afterwards: " + m); } while (!last.own.empty()) t_free(0); if (!last.err.empty()) fail("afterwards: " + last.err); }
  if (coro) { label("yield points", YIELDS); label("switches", SWITCHES); } label("operations", total); if (cold) label("first use is concurrent");
  if (!coro || SWITCHES > (uint64_t)n) { pbt::nontrivial(pbt::hcomb(pbt::hstr(d + prog), SWITCHES)); pbt::sample(d + fmt("; %lu operations, %lu switches at %lu points\n", total, SWITCHES, YIELDS) + prog.substr(0, 300)); }
}
int main(int argc, char **argv) {
  pbt::stable_env(argv, 64); pbt::Config c; c.name = "conc"; c.fork_per_case = true; c.hang_ms = 60000; c.prop = prop;
  pbt::parse(c, argc, argv, [&](const std::string &k, const std::string &v) { if (k == "--mode") g_mode = v; else if (k == "--notramp") g_notramp = true; else if (k == "--tmp") setenv("VERIF_SCRATCH", v.c_str(), 1); else return false; return true; });
  if (g_mode == "mt") { c.nondet = true; c.workers = 4; }
  c.rule = g_mode == "sched" ? "programs of two to five threads with a generated schedule; non-trivial = more context switches inside the library than threads; distinct by programs and schedule" : "programs of two to five real threads; distinct by programs"; return pbt::run(c);
}
