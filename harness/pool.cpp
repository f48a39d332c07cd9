// The closure pool under generated histories, placements, configurations and faults (see lib/simos.hpp).
// --mode=hist | cycle | fault | fork | search      --aspects: I identity  A availability  B bounds  F clean failure  O search order  W misuse of the system
#include "shapes.hpp"
#include <memory>
#include <sys/socket.h>
extern "C" void *ffi_data_to_code_pointer(void *) __attribute__((visibility("hidden")));
using namespace sim; using pbt::fail; using pbt::fmt; using pbt::label;
static std::string g_mode = "hist", g_aspects = "IABFOW"; static bool g_notramp = false, g_track = false;
static void bad(char a, const std::string &m) { if (g_aspects.find(a) != std::string::npos) pbt::err(fmt("[%c] ", a) + m); }
static void log(const std::string &m) { pbt::describe_more(m + "\n"); }

// ---- the model ------------------------------------------------------------------------------------------------------
struct Live { u8 *p; size_t size; void *code; int shape = -1, which; bool second; void *ud; uint64_t pat; int id; bool user = false; };
struct Model {
  std::vector<Live> v; std::map<u8 *, size_t> at; std::set<void *> codes; uint64_t bytes = 0, peak = 0, peak_n = 0; int ids = 0; uint64_t allocs = 0, fails = 0; bool failed_last = false; uint64_t checks = 0;
};
static Model *M; static size_t NT = 100; static std::vector<size_t> REST;   // calibrated: closures per trampoline table, resources at rest
static size_t hdr(const Live &l) { return l.shape >= 0 ? SH_[l.shape].need : sizeof(ffi_raw_closure); }
static void paint(Live &l) { pbt::Rng r(l.pat); for (size_t i = sizeof(ffi_raw_closure); i < l.size;) { uint64_t v = r.next(); size_t n = std::min<size_t>(8, l.size - i); memcpy(l.p + i, &v, n); i += n; if (l.size > 20000 && i > 8192 && i < l.size - 8192) i += 4000; } }
static bool intact(Live &l) { pbt::Rng r(l.pat); for (size_t i = sizeof(ffi_raw_closure); i < l.size;) { uint64_t v = r.next(); size_t n = std::min<size_t>(8, l.size - i); if (memcmp(l.p + i, &v, n)) return false; i += n; if (l.size > 20000 && i > 8192 && i < l.size - 8192) i += 4000; } return true; }
static void sys_checks(const char *op) {
  if (!S->error.empty()) bad('W', S->error + fmt(" (during %s)", op)); if (S->lockdepth) bad('F', fmt("a lock is still held after %s", op));
}
static void bounds(const char *op) {
  if (!S->on || S->munmap_faults) return; size_t peak = M->peak_n, tables = peak / NT + 1;
  if (S->fds.size() > 1) bad('B', fmt("%zu file descriptors are held after %s", S->fds.size(), op));
  if (S->files.size() > 1) bad('B', fmt("%zu streams are open after %s", S->files.size(), op));
  if (S->blocks.size() > REST[1] * tables + 1) bad('B', fmt("%zu heap blocks are held after %s, at most %zu closures were ever live", S->blocks.size(), op, peak));
  size_t limit = 6 * (M->peak * (S->rwx_errno || S->selinux || !S->pax.empty() ? 2 : 1)) + tables * 2 * 8192 + 393216;
  if (S->mapped > limit) bad('B', fmt("%zu bytes are mapped after %s, at most %lu bytes in %zu closures were ever live", S->mapped, op, M->peak, peak));
}
static Live *do_alloc(size_t size, bool must) {
  void *code = (void *)0x1; u8 *p; S->optrace.clear();
  { Lib l; p = (u8 *)ffi_closure_alloc(size, &code); }
  sys_checks("ffi_closure_alloc"); M->allocs++;
  if (!p) { M->fails++; if (must) bad('A', fmt("ffi_closure_alloc(%zu) failed although resources are available", size)); return nullptr; }
  Live l; l.p = p; l.size = size; l.code = code; l.id = M->ids++; l.pat = pbt::mix64(l.id + 77);
  if ((size_t)p % 8) bad('I', fmt("block %p is misaligned", p));
  if (!code) bad('I', "no code address was reported");
  size_t span = std::max<size_t>(size, 1); auto it = M->at.upper_bound(p); if (it != M->at.end() && it->first < p + span) bad('I', "a new block overlaps a live one"); if (it != M->at.begin()) { --it; if (it->first + it->second > p) bad('I', "a new block overlaps a live one"); }
  if (M->codes.count(code)) bad('I', "a new closure has the code address of a live one");
  pbt::raise_err();
  if (S->on && !S->covered(p, span)) { bad('I', "the block lies outside the memory the library has mapped"); pbt::raise_err(); }
  M->at[p] = span; M->codes.insert(code); M->bytes += size + 48; M->peak = std::max(M->peak, M->bytes);
  paint(l); M->v.push_back(l); M->peak_n = std::max<uint64_t>(M->peak_n, M->v.size());
  { Lib lb; void *c2 = ffi_data_to_code_pointer(p); if (c2 != code) bad('I', "looking up the code address gives another address than the allocation"); }
  bounds("ffi_closure_alloc"); return &M->v.back();
}
static void do_prep(Live &l, int shape, int which, bool second, void *ud) {
  if (l.size < SH_[shape].need && !l.user) return;
  uint64_t before = S->seq; ffi_status st = prep(l.p, l.code, shape, which, second, ud); if (st != FFI_OK) { bad('I', fmt("preparing a closure: status %d", st)); return; }
  if (S->on && S->seq != before) bad('B', "preparing a closure acquires system resources: " + S->optrace); sys_checks("preparation");
  l.shape = shape; l.which = which; l.second = second; l.ud = ud;
}
static void verify(Live &l, uint64_t r, bool deep) {
  if (!l.user) { if (l.size > sizeof(ffi_raw_closure) && deep && !intact(l)) { bad('I', fmt("block %d (%zu bytes) was altered", l.id, l.size)); return; } }
  if (l.shape >= 0) { uint64_t b = S->seq; std::string e; { e = callit(l.code, l.shape, l.which, l.second, l.ud, r); } if (!e.empty()) bad('I', fmt("closure %d: ", l.id) + e); if (S->on && S->seq != b) bad('B', "calling a closure acquires system resources"); M->checks++; }
  Lib lb; void *c2 = ffi_data_to_code_pointer(l.p); if (c2 != l.code) bad('I', fmt("closure %d: looking up the code address gives another address", l.id));
}
static void verify_all(uint64_t r) { S->quarantine_check(); if (!S->error.empty()) bad('W', S->error); for (auto &l : M->v) { verify(l, r += 0x9e3779b97f4a7c15ull, true); if (!pbt::g_err.empty()) return; } }
static void do_free(size_t i) {
  Live l = M->v[i]; if (!intact(l)) bad('I', fmt("block %d (%zu bytes) was altered", l.id, l.size)); M->v[i] = M->v.back(); M->v.pop_back(); M->at.erase(l.p); M->codes.erase(l.code); M->bytes -= l.size + 48;
  S->optrace.clear(); { Lib lb; ffi_closure_free(l.p); } sys_checks("ffi_closure_free"); bounds("ffi_closure_free");
}
static size_t gen_size(pbt::Src &s) {
  switch (s.weighted({50, 20, 12, 8, 4, 2, 1})) {
    case 0: return sizeof(ffi_raw_closure); case 1: return sizeof(ffi_raw_closure) + s.below(200); case 2: return sizeof(ffi_closure); case 3: return s.below(4000); case 4: return s.below(70000); case 5: return s.below(1 << 20); default: return s.below(6 << 20); }
}
static void gen_prep(pbt::Src &s, Live &l) { int sh = (int)s.below(NSHAPE); do_prep(l, sh, (int)s.below(2), s.below(2), (void *)(s.chance(1, 8) ? 0 : s.u64())); }
static u8 *user_page() { static u8 *p = nullptr; if (!p) p = (u8 *)mmap(0, 65536, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); return p; }

// operations inside a handler: the pool changes while a closure is active
static pbt::Src *hsrc; static void nested_ops() {
  pbt::Src &s = *hsrc; size_t k = s.below(6); for (size_t i = 0; i < k; i++) { if (M->v.size() > 1 && s.chance(1, 2)) { size_t x = 1 + s.below(M->v.size() - 1); do_free(x); } else if (Live *l = do_alloc(gen_size(s), !S->fault)) gen_prep(s, *l); }
}
// one random operation
static void step(pbt::Src &s, size_t maxlive, bool must, bool verbose) {
  size_t w = s.weighted({30, 22, 12, 14, 8, 6, 2, 2}); auto &v = M->v;
  if (w == 0 || v.empty()) { if (v.size() < maxlive) { size_t z = gen_size(s); if (z > 100000 && v.size() > 40 && M->bytes > (64u << 20)) z = 100; if (verbose) log(fmt("allocate %zu", z)); if (Live *l = do_alloc(z, must)) if (s.chance(7, 8)) gen_prep(s, *l); } return; }
  size_t i = s.below(v.size());
  switch (w) {
    case 1: if (verbose) log(fmt("release %d", v[i].id)); do_free(i); break;
    case 2: if (verbose) log(fmt("prepare %d", v[i].id)); gen_prep(s, v[i]); verify(v[i], s.u64(), true); break;
    case 3: verify(v[i], s.u64(), true); break;
    case 4: { size_t n = 1 + s.below(s.chance(1, 4) ? 2 * NT + 20 : 30); if (verbose) log(fmt("allocate %zu closures", n)); size_t z = s.chance(2, 3) ? sizeof(ffi_raw_closure) : gen_size(s) % 20000; for (size_t k = 0; k < n && v.size() < maxlive; k++) if (Live *l = do_alloc(z, must)) { do_prep(*l, (int)(k % NSHAPE), k & 1, 0, (void *)(uint64_t)(l->id * 3 + 1)); } break; }
    case 5: { size_t n = 1 + s.below(s.chance(1, 4) ? 2 * NT + 20 : 30); int order = (int)s.below(3); if (verbose) log(fmt("release %zu closures, order %d", n, order)); for (size_t k = 0; k < n && !v.empty(); k++) { size_t best = 0; if (order == 2) best = s.below(v.size()); else for (size_t q = 1; q < v.size(); q++) if (order ? v[q].id > v[best].id : v[q].id < v[best].id) best = q; do_free(best); } break; }
    case 6: {  // a closure in the user's own memory
      u8 *m = user_page() + 256 * s.below(256); Live l; l.p = l.p = m; l.code = m; l.size = sizeof(ffi_raw_closure); l.user = true; l.id = -1; if (verbose) log("closure in user memory"); gen_prep(s, l); if (l.shape >= 0) verify(l, s.u64(), false); break; }
    default: // pool operations inside an active handler
      if (v[0].shape < 0) gen_prep(s, v[0]);
      if (v[0].shape >= 0) { if (verbose) log(fmt("operations inside the handler of %d", v[0].id)); Live l = v[0]; hsrc = &s; in_handler = nested_ops; std::string e = callit(l.code, l.shape, l.which, l.second, l.ud, s.u64()); in_handler = nullptr; if (!e.empty()) bad('I', "active closure: " + e); }
  }
  pbt::raise_err();
}

// ---- configurations ---------------------------------------------------------------------------------------------------
static std::vector<std::string> made_dirs;
static std::string mkscratch() {
  const char *b = getenv("VERIF_SCRATCH"); std::string t = std::string(b ? b : "/tmp") + "/poolXXXXXX"; std::vector<char> x(t.begin(), t.end()); x.push_back(0); if (!mkdtemp(x.data())) { perror("mkdtemp"); _exit(3); } made_dirs.push_back(x.data()); return x.data();
}
struct Cleaner { ~Cleaner() { for (auto it = made_dirs.rbegin(); it != made_dirs.rend(); ++it) { if (DIR *d = opendir(it->c_str())) { while (dirent *e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) unlinkat(dirfd(d), e->d_name, 0); closedir(d); } rmdir(it->c_str()); } made_dirs.clear(); } };
static Dir &sdir(const std::string &name) {
  auto it = S->dirs.find(name); if (it != S->dirs.end()) return it->second;
  if (S->scratch.empty()) S->scratch = mkscratch(); std::string real = S->scratch + fmt("/d%zu", S->dirs.size()); mkdir(real.c_str(), 0700); made_dirs.push_back(real); Dir d; d.real = real; return S->dirs[name] = d;
}
static const int TMPERR[] = {0, EOPNOTSUPP, EISDIR, EINVAL};
static const char *SENAME[] = {"", "SELinux at /selinux, ", "SELinux in the mount table, ", ""};
// kind: 0 library file, 1 temporary trampoline file, 2 anonymous executable memory, 3 file-backed heap
static std::string configure(pbt::Src &s, int kind) {
  S->on = true; S->env_on = true; S->placement = (int)s.below(4); S->prng = pbt::Rng(s.u64()); std::string d = fmt("placement %d, ", S->placement);
  S->mounts = "proc /proc proc rw,nosuid,nodev,noexec 0 0\n"; S->mtab_missing = true;
  if (kind == 0) { if (s.chance(1, 3)) { S->rwx_errno = EPERM; S->memfd.st = NOEXEC; } return d + "trampolines from the library file"; }
  switch (s.below(4)) { case 0: S->hide_maps = true; d += "maps hidden, "; break; case 1: S->lib_open = 1; d += "library file not readable, "; break; case 2: S->lib_noexec = true; d += "library file not executable, "; break; default: S->lib_open = 2 + (int)s.below(2); d += "library file replaced, "; }
  if (kind == 1) { if (s.chance(1, 3)) { S->memfd.st = MISSING; sdir("/tmp").tmpfile = TMPERR[s.below(4)]; d += "no memfd, "; } if (s.chance(1, 3)) S->rwx_errno = EPERM; return d + "trampolines from a temporary file"; }
  // static trampolines must fail: the first location that opens is not executable
  if (s.chance(1, 2)) S->memfd.st = NOEXEC; else { S->memfd.st = MISSING; S->env["LIBFFI_TMPDIR"] = "/sim/noexec"; sdir("/sim/noexec").st = NOEXEC; sdir("/sim/noexec").tmpfile = TMPERR[s.below(4)]; }
  if (kind == 2) { if (s.chance(1, 4)) { S->selinux = 3; } return d + "anonymous executable memory"; }
  if (g_notramp && s.chance(1, 2)) { S->memfd.st = OK; }
  switch (s.below(4)) { case 0: S->rwx_errno = EPERM; break; case 1: S->rwx_errno = EACCES; break; case 2: S->selinux = 1 + (int)s.below(2); break; default: S->pax = s.chance(1, 2) ? "PeMRs" : "pEMrs"; }
  d += SENAME[S->selinux]; if (!S->pax.empty()) d += "PaX MPROTECT, ";
  static const char *L[] = {"/tmp", "/var/tmp", "/dev/shm"}; Dir &w = sdir(L[s.below(3)]); w.st = OK; w.tmpfile = TMPERR[s.below(4)];
  return d + "file-backed heap";
}
static void finish_case() {
  // everything is released: what is still held?
  if (!S->munmap_faults && REST.size()) {
    if (S->fds.size() > 1) bad('B', fmt("%zu file descriptors are still held when no closure is left", S->fds.size()));
    if (S->tramp_regions() > REST[4] && !S->selinux && !S->rwx_errno && S->pax.empty()) bad('B', fmt("%zu trampoline tables are still mapped when no closure is left", S->tramp_regions()));
    if (S->blocks.size() > REST[1]) bad('B', fmt("%zu heap blocks are still held when no closure is left (%zu in a process that used one closure)", S->blocks.size(), REST[1]));
  }
  for (auto &d : S->dirs) { if (DIR *x = opendir(d.second.real.c_str())) { while (dirent *e = readdir(x)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) { bad('O', "a file was left behind in " + d.first); break; } closedir(x); } }
  S->quarantine_check(); if (!S->error.empty()) bad('W', S->error);
}

// ---- modes ------------------------------------------------------------------------------------------------------------
static void prop_hist(pbt::Src &s) {
  Cleaner cl; Model m; M = &m; shapes(); int kind = (int)(g_notramp ? s.weighted({0, 0, 3, 3}) : s.weighted({5, 2, 2, 3})); std::string d = configure(s, kind); pbt::describe(d + "\n");
  size_t n = 5 + s.below(s.chance(1, 4) ? 400 : 80), maxlive = 1 + s.below(s.chance(1, 3) ? 5 * NT : 60);
  for (size_t k = 0; k < n; k++) { step(s, maxlive, true, true); if (k % 24 == 23) { verify_all(s.u64()); pbt::raise_err(); } }
  verify_all(s.u64()); pbt::raise_err(); size_t most = m.peak_n; if (s.chance(1, 2)) { while (!m.v.empty()) do_free(s.below(m.v.size())); finish_case(); pbt::raise_err(); }
  static const char *KN[] = {"library file", "temporary trampoline file", "anonymous memory", "file-backed heap"}; label(KN[kind]); if (most > NT) label("more than one trampoline table"); label("closure calls checked", m.checks);
  if (most >= 3) { pbt::nontrivial(pbt::hcomb(pbt::hcomb(m.allocs, m.peak), pbt::hcomb(kind * 4 + S->placement, m.checks))); pbt::sample(fmt("%s; %zu steps, %lu allocations, at most %zu live, %lu calls checked", d.c_str(), n, m.allocs, most, m.checks)); }
}
// repeated cycles of the same shape
static void prop_cycle(pbt::Src &s) {
  Cleaner cl; Model m; M = &m; shapes(); int kind = (int)(g_notramp ? s.weighted({0, 0, 3, 3}) : s.weighted({6, 2, 2, 3})); std::string d = configure(s, kind); S->placement = (int)s.below(3); pbt::describe(d + "\n");
  size_t cycles = 4 + s.below(40), grow = 1 + s.below(s.chance(1, 3) ? 4 * NT : 40); uint64_t seed = s.u64(); int order = (int)s.below(4), style = (int)s.below(4); size_t base = style == 1 ? 60 + s.below(3000) : style == 2 ? 4000 + s.below(100000) : sizeof(ffi_raw_closure); if (base * grow > (32u << 20)) grow = (32u << 20) / base + 1;
  size_t churn = s.below(200); log(fmt("%zu cycles of %zu closures, style %d, base size %zu, order %d, churn %zu", cycles, grow, style, base, order, churn));
  size_t peak1 = 0, rest1 = 0, exec1 = 0; std::vector<size_t> fd1;
  for (size_t c = 0; c < cycles; c++) {
    pbt::Rng r(seed); size_t peak = 0;
    auto size = [&] { return style == 3 ? 56 + r.below(600) : style == 1 || style == 2 ? base + r.below(64) : base; };
    for (size_t k = 0; k < grow; k++) if (Live *l = do_alloc(size(), true)) { do_prep(*l, (int)r.below(NSHAPE), 0, 0, (void *)r.next()); peak = std::max(peak, S->mapped); pbt::raise_err(); }
    for (size_t k = 0; k < churn; k++) { do_free(r.below(m.v.size())); if (Live *l = do_alloc(size(), true)) do_prep(*l, (int)r.below(NSHAPE), 0, 0, (void *)r.next()); peak = std::max(peak, S->mapped); pbt::raise_err(); if (m.v.empty()) break; }
    if (!m.v.empty()) verify(m.v[r.below(m.v.size())], r.next(), true);
    while (!m.v.empty()) { size_t i = order == 0 ? m.v.size() - 1 : order == 1 ? 0 : r.below(m.v.size()); do_free(i); pbt::raise_err(); }
    if (!c) { peak1 = peak; rest1 = S->mapped; exec1 = S->tramp_regions(); }
    else {
      if (peak > 2 * peak1 + 131072) bad('B', fmt("cycle %zu of the same shape maps %zu bytes, the first one %zu", c + 1, peak, peak1));
      if (kind < 2 && S->tramp_regions() > exec1) bad('B', fmt("%zu tables are mapped after cycle %zu, %zu after the first", S->tramp_regions(), c + 1, exec1));
    }
    finish_case(); pbt::raise_err();
  }
  label(kind == 0 ? "library file" : kind == 1 ? "temporary trampoline file" : kind == 2 ? "anonymous memory" : "file-backed heap"); if (grow > NT) label("more than one trampoline table");
  if (grow > 2) { pbt::nontrivial(pbt::hcomb(pbt::hcomb(grow, base), pbt::hcomb(cycles * 16 + order * 4 + style, kind * 8 + churn))); pbt::sample(fmt("%s; %zu cycles of %zu closures of about %zu bytes, release order %d; peak %zu bytes mapped, %zu at rest", d.c_str(), cycles, grow, base, order, peak1, S->mapped)); }
}
static int errno_for(Site k, uint64_t r) {
  switch (k) { case MMAP: { static const int e[] = {ENOMEM, EPERM, EACCES, EAGAIN, ENFILE}; return e[r % 5]; } case MUNMAP: return ENOMEM; case OPEN: { static const int e[] = {EMFILE, ENOENT, EACCES, EOPNOTSUPP, EISDIR, EINVAL, EINTR}; return e[r % 7]; } case MEMFD: { static const int e[] = {ENOSYS, EMFILE, ENOMEM}; return e[r % 3]; } case MKSTEMP: { static const int e[] = {EACCES, ENOSPC, EROFS}; return e[r % 3]; }
    case WRITE: { static const int e[] = {ENOSPC, EIO, EDQUOT}; return e[r % 3]; } case FTRUNCATE: case PREAD: return EIO; case MALLOC: case GETLINE: return ENOMEM; default: return r & 1 ? EMFILE : ENOENT; }
}
// resources run out for a long time: failing again and again costs nothing, and everything works when they are back
static void drought(pbt::Src &s) {
  Cleaner cl; Model m; M = &m; shapes(); int kind = (int)(g_notramp ? s.weighted({0, 0, 3, 3}) : s.weighted({5, 2, 2, 3})); std::string d = configure(s, kind);
  size_t warm = 1 + s.below(s.chance(1, 2) ? 3 * NT / 2 : 8); for (size_t i = 0; i < warm; i++) if (Live *l = do_alloc(s.chance(1, 4) ? gen_size(s) % 30000 : sizeof(ffi_raw_closure), true)) gen_prep(s, *l); pbt::raise_err(); for (size_t i = s.below(warm + 1) / 2; i > 0; i--) do_free(s.below(m.v.size()));
  static const char *FN[] = {"executable mappings of files fail", "anonymous mappings fail", "malloc fails", "every mapping fails", "writable mappings of files fail", "no file can be opened", "writing to files fails"}; int f = (int)s.weighted({6, 3, 3, 2, 2, 2, 2});
  size_t z = s.weighted({5, 3, 2}); z = z == 0 ? sizeof(ffi_raw_closure) + s.below(100) : z == 1 ? 500 + s.below(8000) : gen_size(s); uint64_t r = s.u64(), before = S->mapped; bool active = true;
  size_t n = std::min<size_t>(4000, 2 + (3u << 19) / std::max<size_t>(z, 80)); pbt::describe(d + fmt(", %zu closures live; then %s while %zu bytes are asked for %zu times\n", m.v.size(), FN[f], z, n));
  S->fault = [&](Site k, const char *w) -> int {
    bool hit = false; if (active) switch (f) { case 0: hit = k == MMAP && !strcmp(w, "file exec"); break; case 1: hit = k == MMAP && !strncmp(w, "anon", 4); break; case 2: hit = k == MALLOC; break; case 3: hit = k == MMAP; break; case 4: hit = k == MMAP && !strcmp(w, "file"); break; case 5: hit = k == OPEN || k == MEMFD || k == MKSTEMP; break; default: hit = k == WRITE || k == FTRUNCATE; }
    return hit ? errno_for(k, r) : 0; };
  bool failed = false; size_t got = 0; while (got < 2 * NT + 10 && m.bytes < (24u << 20)) { Live *l = do_alloc(z, false); if (!l) { failed = true; break; } got++; active = false; if (l->size >= sizeof(ffi_raw_closure)) gen_prep(s, *l); active = true; pbt::raise_err(); }
  uint64_t fails = 0;
  if (failed) {
    std::vector<size_t> v0 = S->vec(); for (size_t i = 0; i < n; i++) { if (do_alloc(z, false)) { got++; continue; } fails++; if (i % 512 == 511) { active = false; if (!m.v.empty()) verify(m.v[s.below(m.v.size())], s.u64(), true); active = true; } pbt::raise_err(); if (m.v.size() > 4 * NT) break; }
    std::vector<size_t> v = S->vec(); if (m.v.size() <= 4 * NT && !S->munmap_faults) {
      uint64_t extra = (got * (z + 64)) * 2; if (v[0] > v0[0] + 262144 + extra) bad('F', fmt("%lu allocations that failed took %zu bytes of address space", fails, v[0] - v0[0])); if (v[1] > v0[1] + 4 + got / 8) bad('F', fmt("%lu allocations that failed took %zu heap blocks", fails, v[1] - v0[1])); if (v[2] > v0[2] + 1 || v[3] > v0[3]) bad('F', fmt("%lu allocations that failed keep descriptors open: ", fails) + S->res()); }
    verify_all(s.u64()); pbt::raise_err();
  }
  active = false; S->fault = nullptr;
  // the memory that the failed attempts had for a time serves the ones that succeed
  uint64_t now = S->mapped; size_t more = std::min<size_t>(fails, 300), k = 0; for (; k < more && m.bytes < (48u << 20); k++) if (Live *l = do_alloc(z, true)) { if (l->size >= sizeof(ffi_raw_closure)) gen_prep(s, *l); } else break; pbt::raise_err();
  uint64_t allowed = now + 2 * (k * (z + 64)) * (kind == 3 ? 2 : 1) + (k / NT + 2) * 2 * 8192 + 262144; if (S->mapped > allowed) bad('F', fmt("%zu allocations after the failed ones took %lu bytes of address space", k, S->mapped - now));
  verify_all(s.u64()); while (!m.v.empty()) do_free(s.below(m.v.size())); finish_case();
  if (!S->munmap_faults && S->mapped > before + 786432 + (kind == 3 ? 2 : 1) * 2 * m.peak) bad('F', fmt("%zu bytes are mapped after everything was released", S->mapped)); pbt::raise_err();
  static const char *KN[] = {"library file", "temporary trampoline file", "anonymous memory", "file-backed heap"}; label(KN[kind]); label("repeated failures", fails); label(FN[f]);
  if (fails) { pbt::nontrivial(pbt::hcomb(pbt::hstr(pbt::SLOTS[pbt::g_worker].desc), fails)); pbt::sample(std::string(pbt::SLOTS[pbt::g_worker].desc).substr(0, 400)); }
}
static void prop_fault(pbt::Src &s) {
  if (s.chance(1, 5)) { drought(s); return; }
  Cleaner cl; Model m; M = &m; shapes(); int kind = (int)(g_notramp ? s.weighted({0, 0, 3, 3}) : s.weighted({5, 2, 2, 3})); std::string d = configure(s, kind);
  // a mechanism must remain that the first use did not find unusable
  bool warm = s.chance(1, 3); bool fallback = true; if (kind < 2) { if (S->rwx_errno) { if (s.chance(1, 2)) { sdir("/var/tmp").tmpfile = TMPERR[s.below(4)]; } else fallback = warm; } }
  pbt::describe(d + (warm ? ", used before the faults\n" : "\n")); if (warm) { size_t k = 1 + s.below(4); for (size_t i = 0; i < k; i++) if (Live *l = do_alloc(gen_size(s), true)) gen_prep(s, *l); pbt::raise_err(); }
  size_t phases = 1 + s.below(4); uint64_t hits = 0; bool munmap_ok = s.chance(1, 2);
  for (size_t ph = 0; ph < phases; ph++) {
    int plan = (int)s.weighted({5, 3, 3, 2}); uint64_t at = s.chance(1, 2) ? 1 + s.below(12) : 1 + s.below(220), r = s.u64(), cnt = 0; uint32_t mask = (uint32_t)s.below(1u << 17); if (s.chance(1, 2)) mask = 1u << s.below(NSITES); unsigned p = 1 + (unsigned)s.below(30); pbt::Rng fr(s.u64());
    log(fmt("phase %zu: %s", ph, plan == 0 ? fmt("call %lu of each operation fails", at).c_str() : plan == 1 ? fmt("calls in mask %x fail", mask).c_str() : plan == 2 ? fmt("one call in %u fails at random", p).c_str() : fmt("all calls from number %lu on fail", at).c_str()));
    uint64_t phstart = S->seq; bool active = true;
    S->fault = [&](Site k, const char *) -> int {
      if (!active || (k == MUNMAP && !munmap_ok) || k == UNLINK) return 0; cnt++; bool f = plan == 0 ? cnt == at : plan == 1 ? (mask >> k) & 1 : plan == 2 ? fr.below(p) == 0 : S->seq - phstart >= at; return f ? errno_for(k, r + (plan == 2 ? cnt : 0)) : 0; };
    size_t ops = 1 + s.below(s.chance(1, 3) ? 90 : 12); std::vector<size_t> lastvec; std::string lasttrace; size_t samesize = gen_size(s); bool same = s.chance(1, 2);
    for (size_t k = 0; k < ops; k++) {
      cnt = 0;
      if (m.v.empty() || s.chance(3, 4)) {
        uint64_t h0 = S->faults_hit; size_t z = same ? samesize : gen_size(s); Live *l = m.v.size() < 3 * NT ? do_alloc(z, false) : nullptr; bool hit = S->faults_hit != h0; S->optrace = S->optrace; hits += hit;
        if (l) { lastvec.clear(); log(fmt("allocate %zu%s", z, hit ? ": works in spite of a fault" : "")); std::string tr = S->optrace; active = false; gen_prep(s, *l); if (l->shape < 0 && l->size >= sizeof(ffi_raw_closure)) do_prep(*l, 0, 0, 0, (void *)7); verify(*l, s.u64(), true); active = true; }
        else {
          std::string tr = S->optrace; log(fmt("allocate %zu: fails: ", z) + tr.substr(0, 300));
          if (!hit && kind != 3 && fallback && m.v.size() < 3 * NT && !S->munmap_faults) bad('A', fmt("ffi_closure_alloc(%zu) failed without a fault", z));
          std::vector<size_t> v = S->vec(); if (!lastvec.empty() && tr == lasttrace && v != lastvec && !S->munmap_faults && same) { bool more = false; for (size_t q = 0; q < 4; q++) more |= v[q] > lastvec[q]; if (more) bad('F', "a failed allocation leaks: " + S->res() + ", before it " + fmt("%zu bytes, %zu blocks, %zu descriptors, %zu files", lastvec[0], lastvec[1], lastvec[2], lastvec[3])); }
          lastvec = v; lasttrace = tr;
        }
      } else { size_t i = s.below(m.v.size()); log(fmt("release %d", m.v[i].id)); do_free(i); lastvec.clear(); }
      active = false; if (!m.v.empty()) verify(m.v[s.below(m.v.size())], s.u64(), true); pbt::raise_err(); active = true;
    }
    S->fault = nullptr; verify_all(s.u64()); pbt::raise_err();
    if (s.chance(1, 2)) { size_t k = 1 + s.below(4); for (size_t i = 0; i < k; i++) if (Live *l = do_alloc(gen_size(s), fallback)) { gen_prep(s, *l); verify(*l, s.u64(), true); } pbt::raise_err(); }
  }
  // resources are back
  for (size_t i = 0; i < 3; i++) if (Live *l = do_alloc(sizeof(ffi_raw_closure), fallback)) { gen_prep(s, *l); verify(*l, s.u64(), true); } pbt::raise_err();
  verify_all(s.u64()); while (!m.v.empty()) do_free(s.below(m.v.size())); pbt::raise_err();
  if (!S->munmap_faults) {
    if (S->fds.size() > 1) bad('F', fmt("%zu file descriptors are held after failed attempts", S->fds.size())); if (S->files.size() > 1) bad('F', fmt("%zu streams are open after failed attempts", S->files.size()));
    if (S->blocks.size() > REST[1]) bad('F', fmt("%zu heap blocks are held after failed attempts (%zu without failures)", S->blocks.size(), REST[1]));
    if (S->tramp_regions() > REST[4] && !S->rwx_errno && !S->selinux && S->pax.empty()) bad('F', fmt("%zu tables are mapped after failed attempts", S->tramp_regions()));
    size_t data = 0, exec = 0; for (auto &x : S->regs) ((x.second.prot & PROT_EXEC) && !(x.second.prot & PROT_WRITE) ? exec : data) += x.second.len; if (kind == 3 && exec > data) bad('F', fmt("%zu bytes of executable mappings are left for %zu bytes of closures", exec, data));
  }
  for (size_t i = 0; i < 5; i++) if (Live *l = do_alloc(sizeof(ffi_raw_closure), fallback)) { gen_prep(s, *l); verify(*l, s.u64(), true); } finish_case(); pbt::raise_err();
  static const char *KN[] = {"library file", "temporary trampoline file", "anonymous memory", "file-backed heap"}; label(KN[kind]); label("faults hit", S->faults_hit); for (int k = 0; k < NSITES; k++) if (S->calls[k]) label(fmt("reached %s", SITE[k]).c_str());
  if (S->faults_hit) { pbt::nontrivial(pbt::hcomb(pbt::hstr(pbt::SLOTS[pbt::g_worker].desc), S->faults_hit)); pbt::sample(std::string(pbt::SLOTS[pbt::g_worker].desc).substr(0, 600)); } if (m.fails) label("failed allocations", m.fails);
}
// ---- search order -----------------------------------------------------------------------------------------------------
static void prop_search(pbt::Src &s) {
  Cleaner cl; Model m; M = &m; shapes(); S->on = true; S->env_on = true; S->placement = (int)s.below(4); S->scratch = mkscratch(); std::string d;
  auto rdir = [&](const std::string &n) { bool fresh = !S->dirs.count(n); Dir &x = sdir(n); if (!fresh) return; x.st = (DState)s.weighted({3, 4, 3, 3, 2}); x.tmpfile = TMPERR[s.below(4)]; x.access_ok = x.st != DENIED && x.st != MISSING; if (s.chance(1, 12)) x.access_ok = !x.access_ok; };
  S->memfd.st = (DState)s.weighted({1, 5, 0, 4, 2});
  std::vector<std::string> names = {"/sim/a", "/sim/b", "/sim/c", "/tmp", "/var/tmp", "/dev/shm", "/home/u", "/mnt/with space", "/mnt/x", "/sim/" + std::string(1 + s.below(2500), 'l')};
  for (auto &n : names) if (s.chance(2, 3) || n == "/tmp") rdir(n);
  for (const char *e : {"LIBFFI_TMPDIR", "TMPDIR", "HOME"}) if (s.chance(1, 2)) S->env[e] = s.chance(1, 10) ? "" : names[s.below(names.size())];
  if (s.chance(1, 4)) { for (const char *n : {"/tmp", "/var/tmp", "/dev/shm"}) { rdir(n); if (S->dirs[n].st == OK) S->dirs[n].st = NOEXEC; } }
  auto table = [&](std::vector<std::string> &cand) {
    std::string t; size_t n = s.below(6); static const char *opt[] = {"rw,relatime", "rw", "ro", "rw,noexec", "noexec,rw", "rw,nosuid,ro", "rw,errors=remount-ro", "rw,rootcontext=x", "rw,noexecx", "defaults"};
    for (size_t i = 0; i < n; i++) {
      if (s.chance(1, 8)) t += "# comment\n"; if (s.chance(1, 10)) t += "\n";
      std::string dir = names[s.below(names.size())], enc; for (char c : dir) { if (c == ' ') enc += "\\040"; else enc += c; } size_t o = s.below(10); t += fmt("dev%zu ", i) + enc + " ext4 " + opt[o] + (s.chance(1, 2) ? " 0 0\n" : " 1 2\n");
      bool skip = (o >= 2 && o <= 5); auto it = S->dirs.find(dir); if (!skip && it != S->dirs.end() && it->second.st != MISSING && it->second.access_ok) cand.push_back(dir);
    } return t; };
  std::vector<std::string> cand = {"memfd"}; for (const char *e : {"LIBFFI_TMPDIR", "TMPDIR"}) if (S->env.count(e)) cand.push_back(S->env[e]); cand.push_back("/tmp"); cand.push_back("/var/tmp"); cand.push_back("/dev/shm"); if (S->env.count("HOME")) cand.push_back(S->env["HOME"]);
  std::vector<std::string> mt, pm; S->mtab = table(mt); S->mounts = table(pm); S->mtab_missing = s.chance(1, 4); S->mounts_missing = s.chance(1, 8); if (!S->mtab_missing) cand.insert(cand.end(), mt.begin(), mt.end()); if (!S->mounts_missing) cand.insert(cand.end(), pm.begin(), pm.end());
  S->lib_open = 1; switch (s.below(3)) { case 0: S->rwx_errno = EPERM; break; case 1: S->rwx_errno = EACCES; break; default: S->pax = "PeMRs"; }
  auto state = [&](const std::string &c) { if (c == "memfd") return S->memfd.st; auto it = S->dirs.find(c); return it == S->dirs.end() ? MISSING : it->second.st; };
  static const char *SN[] = {"ok", "missing", "denied", "noexec", "full"}; std::string used; d = "candidates:"; for (auto &c : cand) { std::string n = c.size() > 40 ? c.substr(0, 20) + "..." : c; d += " " + (n.empty() ? "''" : n) + "=" + SN[state(c)]; if (used.empty() && state(c) == OK) used = c; } pbt::describe(d + "\n");
  Live *l = do_alloc(sizeof(ffi_raw_closure), false); std::string tr; size_t from = 0; for (size_t i = 0; i < S->attempts.size(); i++) { if (S->attempts[i] == "memfd") from = i; tr += " " + (S->attempts[i].size() > 40 ? S->attempts[i].substr(0, 20) + "..." : S->attempts[i]); } log("attempts:" + tr);
  // the last pass
  std::vector<std::string> a; for (size_t i = from; i < S->attempts.size(); i++) { if (i > from && a.back() == S->attempts[i] && state(a.back()) != MISSING && S->dirs.count(a.back()) && S->dirs[a.back()].tmpfile && (a.size() < 2 || true)) { bool dup = true; size_t same = 0; for (size_t j = i; j > from && S->attempts[j - 1] == S->attempts[i]; j--) same++; if (same % 2 == 0) dup = false; if (dup) continue; } a.push_back(S->attempts[i]); }
  size_t ci = 0; for (auto &x : a) { while (ci < cand.size() && cand[ci] != x) { if (state(cand[ci]) == OK) { bad('O', "location " + cand[ci] + " works but was passed over"); break; } ci++; } if (ci == cand.size()) { bad('O', "attempt at " + x + " is out of order"); break; } ci++; }
  if (used.empty()) { if (l) bad('O', "a closure was allocated although no location works"); }
  else {
    if (!l) { bad('O', "location " + used.substr(0, 60) + " works, but no closure could be allocated"); bad('A', "no closure could be allocated although a location works"); }
    else { std::set<std::string> now; for (auto &r : S->regs) if (!r.second.anon && r.second.fd >= 0) now.insert(S->fds.count(r.second.fd) ? S->fds[r.second.fd] : "?"); for (auto &n : now) if (n != used) bad('O', "location " + n.substr(0, 60) + " is used, the first one that works is " + used.substr(0, 60)); if (S->fds.size() != 1) bad('B', fmt("%zu descriptors are held", S->fds.size())); if (S->files.size() > 1) bad('O', "a mount table is left open"); }
  }
  pbt::raise_err();
  if (l) { gen_prep(s, *l); verify(*l, s.u64(), true); size_t n = s.below(60); for (size_t k = 0; k < n; k++) step(s, 60, true, false); verify_all(s.u64()); while (!m.v.empty()) do_free(s.below(m.v.size())); }
  else { // a location appears later
    if (s.chance(1, 2)) { size_t which = 1 + s.below(cand.size() - 1); if (!cand[which].empty()) { Dir &x = sdir(cand[which]); x.st = OK; x.access_ok = true; log("later " + cand[which].substr(0, 60) + " works"); Live *q = do_alloc(sizeof(ffi_raw_closure), false); if (!q) bad('O', "a location works now, but no closure could be allocated"); else { gen_prep(s, *q); verify(*q, s.u64(), true); } label("location appears later"); while (!m.v.empty()) do_free(0); } }
  }
  finish_case(); pbt::raise_err();
  label(used.empty() ? "nothing works" : used == "memfd" ? "used memfd" : fmt("used candidate %d", (int)std::min<size_t>(12, std::find(cand.begin(), cand.end(), used) - cand.begin())).c_str());
  if (used != "memfd") { pbt::nontrivial(pbt::hstr(d)); pbt::sample(d + " attempts:" + tr.substr(0, 300)); }
}
// ---- fork -------------------------------------------------------------------------------------------------------------
static void prop_fork(pbt::Src &s) {
  Cleaner cl; Model m; M = &m; shapes(); int kind = (int)(g_notramp ? 2 : s.weighted({4, 2, 2})); std::string d = configure(s, kind); pbt::describe(d + "\n");
  size_t n = 1 + s.below(60), maxlive = 2 + s.below(s.chance(1, 3) ? 3 * NT : 30); for (size_t k = 0; k < n; k++) step(s, maxlive, true, true);
  // both processes continue with their own copies of the model and of the source of choices; they take turns
  int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) _exit(3); fflush(0); size_t turns = 1 + s.below(4); uint64_t cs = s.u64(); log("fork");
  pid_t pid = fork(); bool child = pid == 0; int fd = child ? sv[1] : sv[0]; close(child ? sv[0] : sv[1]); char c = 0; pbt::Src own; pbt::Src &q = own; own.hidden = true; own.slot = s.slot; own.rng = pbt::Rng(cs + child);
  auto turn = [&]() -> bool { return read(fd, &c, 1) == 1; }; auto pass = [&] { c = 1; if (write(fd, &c, 1) != 1) {} };
  std::string failed;
  try {
    for (size_t t = 0; t < turns; t++) {
      if (!child || t > 0) { if (child ? !turn() : (t > 0 && !turn())) fail("the other process failed"); }
      else if (!turn()) fail("the other process failed");
      verify_all(q.u64()); pbt::raise_err();
      size_t k = q.below(30); for (size_t i = 0; i < k; i++) step(q, maxlive, true, false);
      if (q.chance(1, 3)) for (auto &l : m.v) if (q.chance(1, 2)) gen_prep(q, l);
      if (q.chance(1, 4)) while (!m.v.empty()) do_free(q.below(m.v.size()));
      pbt::raise_err(); pass();
    }
    verify_all(q.u64()); pbt::raise_err();
  } catch (pbt::Fail &f) { failed = f.msg; }
  if (child) {
    made_dirs.clear(); if (!failed.empty()) { uint32_t l = failed.size(); if (write(fd, "\2", 1) == 1) { if (write(fd, failed.c_str(), l)) {} } } shutdown(fd, SHUT_WR); _exit(failed.empty() ? 0 : 1);
  }
  std::string other; char buf[600]; shutdown(fd, SHUT_WR); ssize_t r; while ((r = read(fd, buf, sizeof buf)) > 0) other.append(buf, r); int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR); close(fd);
  if (failed == "the other process failed") failed.clear(); if (!failed.empty()) fail("in the parent: " + failed);
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { size_t z = other.find('\2'); fail("in the child: " + (z != std::string::npos ? other.substr(z + 1) : WIFSIGNALED(st) ? fmt("signal %d", WTERMSIG(st)) : fmt("%s", pbt::SLOTS[pbt::g_worker].msg))); }
  label(kind == 0 ? "library file" : kind == 1 ? "temporary trampoline file" : "anonymous memory"); pbt::nontrivial(pbt::hcomb(pbt::hcomb(m.allocs, m.peak), pbt::hcomb(kind * 8 + turns, cs))); pbt::sample(d + fmt("; %zu steps, fork, %zu turns each", n, turns));
}

static void calibrate() {
  int p[2]; if (pipe(p)) _exit(3); pid_t pid = fork();
  if (!pid) {
    Model m; M = &m; REST.assign(5, 1000); shapes(); S->on = true; S->placement = 0; size_t nt = 0; do_alloc(sizeof(ffi_raw_closure), true); size_t t0 = S->tramp_regions(); size_t out[6] = {0};
    if (t0) { while (S->tramp_regions() == t0 && nt < 5000) { nt++; do_alloc(sizeof(ffi_raw_closure), true); } } while (!m.v.empty()) do_free(0); std::vector<size_t> v = S->vec(); out[0] = nt; for (int i = 0; i < 4; i++) out[1 + i] = v[i]; out[5] = S->tramp_regions(); if (write(p[1], out, sizeof out)) {} _exit(0);
  }
  size_t out[6] = {0}; close(p[1]); ssize_t r = read(p[0], out, sizeof out); close(p[0]); int st; waitpid(pid, &st, 0);
  if (r != sizeof out) { NT = 100; REST = {0, 4, 1, 1, 1}; return; }   // the histories will find out why
  NT = out[0] ? std::min<size_t>(out[0], 2000) : 100; REST.assign(out + 1, out + 6); REST[1] = std::max<size_t>(REST[1], 0); if (NT > 200) NT = 100;
}
int main(int argc, char **argv) {
  pbt::stable_env(argv, 64); pbt::Config c; c.name = "pool"; c.fork_per_case = true; c.hang_ms = 30000;
  pbt::parse(c, argc, argv, [&](const std::string &k, const std::string &v) { if (k == "--mode") g_mode = v; else if (k == "--aspects") g_aspects = v; else if (k == "--notramp") g_notramp = true; else if (k == "--tmp") setenv("VERIF_SCRATCH", v.c_str(), 1); else return false; return true; });
  calibrate(); c.prop = g_mode == "hist" ? prop_hist : g_mode == "cycle" ? prop_cycle : g_mode == "fault" ? prop_fault : g_mode == "search" ? prop_search : prop_fork;
  c.rule = g_mode == "hist" ? "histories of closure operations; non-trivial = at least three closures live at once; distinct by configuration and outcome of the history" : g_mode == "cycle" ? "repeated growth and release cycles; non-trivial = more than two closures per cycle; distinct by shape of the cycle" : g_mode == "fault" ? "histories with injected failures; non-trivial = a failure was hit; distinct by the history" : g_mode == "search" ? "simulated locations, environments and mount tables; non-trivial = the first location does not work; distinct by candidates and their states" : "histories with a fork; distinct by history";
  return pbt::run(c);
}
