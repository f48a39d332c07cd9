// Interposition (ld --wrap) on everything the library asks of the system: accounting, simulated configurations,
// address placement, fault injection, lock tracking.  Only calls made while inside the library (g_in) are touched.
#pragma once
#include "pbt.hpp"
#include <map>
#include <set>
#include <vector>
#include <string>
#include <mntent.h>
#include <pthread.h>
#include <sched.h>
#include <sys/vfs.h>
#include <sys/stat.h>
#include <dirent.h>

namespace sim {
typedef unsigned char u8;
inline __thread int g_in = 0;
struct Lib { Lib() { g_in++; } ~Lib() { g_in--; } };
struct Out { int save; Out() : save(g_in) { g_in = 0; } ~Out() { g_in = save; } };

enum Site { MMAP, MUNMAP, OPEN, MEMFD, MKSTEMP, WRITE, FTRUNCATE, PREAD, FOPEN, FGETS, GETLINE, SETMNTENT, GETMNTENT, MALLOC, STATFS, ACCESS, UNLINK, NSITES };
inline const char *SITE[] = {"mmap", "munmap", "open", "memfd_create", "mkstemp", "write", "ftruncate", "pread", "fopen", "fgets", "getline", "setmntent", "getmntent_r", "malloc", "statfs", "access", "unlink"};

enum DState { OK, MISSING, DENIED, NOEXEC, FULL };
struct Dir { DState st = OK; int tmpfile = 0; size_t capacity = ~0ul; std::string real; bool access_ok = true; };
struct Region { size_t len; int prot; bool anon; int fd; };
struct Block { size_t n; };

struct Sim {
  bool on = false, track = false;
  // ---- configuration
  bool hide_maps = false; int lib_open = 0; bool lib_noexec = false; int rwx_errno = 0; bool exec_any_refused = false;
  int selinux = 0; std::string pax; std::map<std::string, Dir> dirs; Dir memfd; std::map<std::string, std::string> env; bool env_on = false;
  std::string mtab, mounts; bool mtab_missing = false, mounts_missing = false; bool proc_mounts_sim = false; std::string scratch; int placement = 0;
  // ---- accounting
  std::map<u8 *, Region> regs; std::map<void *, size_t> blocks; std::map<int, std::string> fds; std::map<FILE *, std::string> files; size_t mapped = 0; uint64_t calls[NSITES] = {}; uint64_t seq = 0;
  std::vector<std::string> attempts; std::map<std::string, std::string> tmpnames; std::map<int, size_t> written; std::map<int, std::set<size_t>> backed;   // pages of temporary files that have been given space
  std::string optrace; std::string error; int lockdepth = 0; std::vector<std::pair<u8 *, size_t>> quarantine; std::vector<void *> held;
  u8 *arena = nullptr; size_t arena_len = 16ull << 30; u8 *lo = nullptr, *hi = nullptr; pbt::Rng prng{1};
  // ---- faults: decided by a callback; returns errno to fail with, 0 to let the call through
  std::function<int(Site, const char *detail)> fault; uint64_t faults_hit = 0, munmap_faults = 0;
  void bad(const std::string &m) { if (error.empty()) error = m; }
  void poison_check(const std::pair<u8 *, size_t> &q) { for (size_t i = 0; i < q.second; i++) if (q.first[i] != 0xdd) { bad("the library wrote to a heap block after releasing it"); return; } }
  void quarantine_check() { for (auto &q : quarantine) poison_check(q); }
  int hit(Site k, const char *d = "") {
    calls[k]++; seq++; if (optrace.size() < 4000) { optrace += SITE[k]; if (*d) { optrace += "("; optrace += d; optrace += ")"; } optrace += " "; }
    if (!fault) return 0; int e = fault(k, d); if (e) { faults_hit++; if (k == MUNMAP) munmap_faults++; if (optrace.size() < 4000) optrace += "=FAILED "; } return e;
  }
  u8 *place(size_t len) {
    if (!arena) { arena = (u8 *)mmap(0, arena_len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (arena == MAP_FAILED) { perror("arena"); _exit(3); } lo = hi = arena + arena_len / 2; }
    len = (len + 4095) & ~4095ul; auto fits = [&](u8 *p) { if (p < arena || p + len > arena + arena_len) return false; auto it = regs.upper_bound(p); if (it != regs.end() && it->first < p + len) return false; if (it != regs.begin()) { --it; if (it->first + it->second.len > p) return false; } return true; };
    int pol = placement == 3 ? (int)prng.below(3) : placement;
    for (int k = 0; k < 50; k++) {
      u8 *p;
      if (pol == 0) { p = lo - len; if (fits(p)) { lo = p; return p; } }
      if (pol == 1) { p = hi; if (fits(p)) { hi = p + len; return p; } }
      // next to an existing mapping, or anywhere
      if (!regs.empty() && prng.below(2)) { auto it = regs.begin(); std::advance(it, prng.below(regs.size())); p = prng.below(2) ? it->first + it->second.len : it->first - len; }
      else p = arena + (prng.below((arena_len - len) >> 12) << 12);
      if (fits(p)) { if (p < lo) lo = p; if (p + len > hi) hi = p + len; return p; }
    }
    for (u8 *p = lo; p > arena + len;) { p -= len; if (fits(p)) return lo = p; }
    return nullptr;
  }
  void unmap_range(u8 *a, size_t len) {     // split and remove
    u8 *e = a + len; auto it = regs.upper_bound(a); if (it != regs.begin()) --it;
    while (it != regs.end() && it->first < e) {
      u8 *s = it->first, *t = s + it->second.len; Region r = it->second; if (t <= a) { ++it; continue; }
      it = regs.erase(it); mapped -= r.len;
      if (s < a) { Region x = r; x.len = a - s; regs[s] = x; mapped += x.len; }
      if (t > e) { Region x = r; x.len = t - e; it = regs.emplace(e, x).first; mapped += x.len; ++it; }
    }
  }
  bool covered(u8 *a, size_t len) {
    u8 *p = a; while (p < a + len) { auto it = regs.upper_bound(p); if (it == regs.begin()) return false; --it; if (it->first + it->second.len <= p) return false; p = it->first + it->second.len; } return true;
  }
  size_t exec_regions() { size_t n = 0; for (auto &r : regs) if (r.second.prot & PROT_EXEC) n++; return n; }
  size_t exec_bytes() { size_t n = 0; for (auto &r : regs) if (r.second.prot & PROT_EXEC) n += r.second.len; return n; }
  bool file_heap() { for (auto &r : regs) if (!r.second.anon && (r.second.prot & PROT_WRITE)) return true; return false; }
  size_t tramp_regions() { if (file_heap()) return 0; size_t n = 0; for (auto &r : regs) if ((r.second.prot & PROT_EXEC) && !r.second.anon && r.second.len == 4096) n++; return n; }
  std::string res() { return pbt::fmt("mappings %zu (%zu bytes), blocks %zu, descriptors %zu, files %zu", regs.size(), mapped, blocks.size(), fds.size(), files.size()); }
  std::vector<size_t> vec() { return {mapped, blocks.size(), fds.size(), files.size()}; }
};
inline Sim *S = new Sim;

inline std::string pathof(int fd) { auto it = S->fds.find(fd); return it == S->fds.end() ? "" : it->second; }
inline DState fdstate(int fd) { std::string p = pathof(fd); if (p == "memfd") return S->memfd.st; if (p == "lib") return S->lib_noexec ? NOEXEC : OK; auto it = S->dirs.find(p); return it == S->dirs.end() ? OK : it->second.st; }
inline size_t fdcap(int fd) { std::string p = pathof(fd); if (p == "memfd") return S->memfd.capacity; auto it = S->dirs.find(p); return it == S->dirs.end() ? ~0ul : it->second.capacity; }
} // namespace sim

#define SIM_WRAPS "mmap,munmap,mmap64,open,open64,openat,memfd_create,mkstemp,mkostemp,write,ftruncate,pread,pread64,fopen,fopen64,fdopen,fclose,close,fgets,getline,__getdelim,getdelim,setmntent,endmntent,getmntent_r,malloc,calloc,realloc,free,statfs,access,unlink,getenv,pthread_mutex_lock,pthread_mutex_trylock,pthread_mutex_unlock,pthread_once"

using sim::S; using sim::g_in; using sim::u8;
// scheduling hook for the concurrency harness
inline void (*sim_yield)(int what, void *obj) = nullptr;      // 0 before lock, 1 after unlock, 2 other call
inline bool (*sim_lock)(pthread_mutex_t *) = nullptr;         // takes over locking if it returns true
inline bool (*sim_unlock)(pthread_mutex_t *) = nullptr;
inline int (*sim_trylock)(pthread_mutex_t *) = nullptr;
inline void (*sim_once)(pthread_once_t *, void (*)()) = nullptr;

extern "C" {
void *__real_mmap(void *, size_t, int, int, int, off_t); int __real_munmap(void *, size_t); int __real_open(const char *, int, ...); int __real_openat(int, const char *, int, ...); int __real_memfd_create(const char *, unsigned); int __real_mkstemp(char *); int __real_mkostemp(char *, int);
ssize_t __real_write(int, const void *, size_t); int __real_ftruncate(int, off_t); ssize_t __real_pread(int, void *, size_t, off_t); FILE *__real_fopen(const char *, const char *); FILE *__real_fdopen(int, const char *); int __real_fclose(FILE *); int __real_close(int); char *__real_fgets(char *, int, FILE *);
ssize_t __real_getline(char **, size_t *, FILE *); ssize_t __real___getdelim(char **, size_t *, int, FILE *); ssize_t __real_getdelim(char **, size_t *, int, FILE *); FILE *__real_setmntent(const char *, const char *); int __real_endmntent(FILE *); struct mntent *__real_getmntent_r(FILE *, struct mntent *, char *, int);
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *); int __real_statfs(const char *, struct statfs *); int __real_access(const char *, int); int __real_unlink(const char *); char *__real_getenv(const char *);
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_trylock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *);

#define ACTIVE (g_in && S->on)
#define FAIL(site, d, ret) do { if (int e_ = S->hit(sim::site, d)) { errno = e_; return ret; } } while (0)

void *__wrap_mmap(void *a, size_t len, int prot, int flags, int fd, off_t off) {
  if (!ACTIVE) { if (g_in && sim_yield) sim_yield(2, 0); return __real_mmap(a, len, prot, flags, fd, off); }
  sim::Out o; bool anon = flags & MAP_ANONYMOUS;
  FAIL(MMAP, anon ? (prot & PROT_EXEC ? "anonymous exec" : "anonymous") : (prot & PROT_EXEC ? "file exec" : "file"), MAP_FAILED);
  if (anon && (prot & PROT_EXEC) && (prot & PROT_WRITE) && S->rwx_errno) { errno = S->rwx_errno; return MAP_FAILED; }
  if (!anon && (prot & PROT_EXEC) && (sim::fdstate(fd) == sim::NOEXEC || S->exec_any_refused)) { errno = EPERM; return MAP_FAILED; }
  if (len == 0) { errno = EINVAL; return MAP_FAILED; }
  size_t rl = (len + 4095) & ~4095ul; u8 *p;

  if (flags & MAP_FIXED) { p = (u8 *)a; if (!S->covered(p, rl)) { S->bad(pbt::fmt("mmap(MAP_FIXED) over memory the library does not own")); errno = EINVAL; return MAP_FAILED; } }
  else { p = S->place(rl); if (!p) { errno = ENOMEM; return MAP_FAILED; } }
  if (!anon && S->fds.count(fd) && S->fds[fd] != "lib" && (flags & MAP_SHARED)) for (size_t q = off >> 12; q < (off + rl) >> 12; q++) if (!S->backed[fd].count(q)) { S->bad("a part of the temporary file is mapped that has no space allocated"); break; }
  void *r = __real_mmap(p, rl, prot, flags | MAP_FIXED, fd, off); if (r == MAP_FAILED) return r;
  S->unmap_range(p, rl); S->regs[p] = sim::Region{rl, prot, anon, fd}; S->mapped += rl; return r;
}
int __wrap_munmap(void *a, size_t len) {
  if (!ACTIVE) { if (g_in && sim_yield) sim_yield(2, 0); return __real_munmap(a, len); }
  sim::Out o; FAIL(MUNMAP, "", -1); size_t rl = (len + 4095) & ~4095ul;
  if (!S->covered((u8 *)a, rl) || ((size_t)a & 4095) || !len) { S->bad(pbt::fmt("munmap of memory that the library does not own (%zu bytes)", len)); errno = EINVAL; return -1; }
  S->unmap_range((u8 *)a, rl);
  __real_mmap(a, rl, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0); return 0;
}
static int sim_open(const char *path, int flags, int mode) {
  sim::Out o; std::string p = path;
  if ((flags & O_TMPFILE) == O_TMPFILE) {
    S->attempts.push_back(p); FAIL(OPEN, "O_TMPFILE", -1);
    auto it = S->dirs.find(p); if (it == S->dirs.end()) { errno = ENOENT; return -1; }
    sim::Dir &d = it->second; if (d.st == sim::MISSING) { errno = ENOENT; return -1; } if (d.tmpfile) { errno = d.tmpfile; return -1; } if (d.st == sim::DENIED) { errno = EACCES; return -1; }
    int fd = __real_open(d.real.c_str(), O_RDWR | O_TMPFILE | O_CLOEXEC, 0700); if (fd < 0) fd = __real_memfd_create("x", MFD_CLOEXEC);
    S->fds[fd] = p; S->written[fd] = 0; return fd;
  }
  FAIL(OPEN, "library", -1);
  if (S->lib_open == 1) { errno = EACCES; return -1; }
  int fd;
  if (S->lib_open == 2) { fd = __real_memfd_create("replaced", MFD_CLOEXEC); std::vector<u8> junk(1 << 20, 0xcc); for (int i = 0; i < 8; i++) if (__real_write(fd, junk.data(), junk.size()) < 0) break; }
  else if (S->lib_open == 3) { fd = __real_memfd_create("replaced", MFD_CLOEXEC); }    // an empty file
  else fd = __real_open(path, flags, mode);
  if (fd >= 0) S->fds[fd] = "lib"; return fd;
}
int __wrap_open(const char *path, int flags, ...) { va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap); if (!ACTIVE) return __real_open(path, flags, mode); return sim_open(path, flags, mode); }
int __wrap_open64(const char *path, int flags, ...) { va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap); if (!ACTIVE) return __real_open(path, flags, mode); return sim_open(path, flags, mode); }
int __wrap_openat(int dfd, const char *path, int flags, ...) { va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap); if (!ACTIVE) return __real_openat(dfd, path, flags, mode); return sim_open(path, flags, mode); }
int __wrap_memfd_create(const char *n, unsigned f) {
  if (!ACTIVE) return __real_memfd_create(n, f);
  sim::Out o; S->attempts.push_back("memfd"); FAIL(MEMFD, "", -1); if (S->memfd.st == sim::MISSING || S->memfd.st == sim::DENIED) { errno = ENOSYS; return -1; }
  int fd = __real_memfd_create(n, f); if (fd >= 0) { S->fds[fd] = "memfd"; S->written[fd] = 0; } return fd;
}
static int sim_mkstemp(char *name, int flags) {
  sim::Out o; std::string p = name; size_t sl = p.rfind('/'); std::string dir = p.substr(0, sl); if (dir.empty()) dir = "/"; S->attempts.push_back(dir); FAIL(MKSTEMP, "", -1);
  auto it = S->dirs.find(dir); if (it == S->dirs.end() || it->second.st == sim::MISSING) { errno = ENOENT; return -1; } if (it->second.st == sim::DENIED) { errno = EACCES; return -1; }
  std::string real = it->second.real + "/" + p.substr(sl + 1); std::vector<char> b(real.begin(), real.end()); b.push_back(0); int fd = __real_mkostemp(b.data(), flags | O_CLOEXEC);
  if (fd < 0) return fd; std::string got = b.data(); memcpy(name + p.size() - 6, got.c_str() + got.size() - 6, 6); S->tmpnames[name] = got; S->fds[fd] = dir; S->written[fd] = 0; return fd;
}
int __wrap_mkstemp(char *n) { if (!ACTIVE) return __real_mkstemp(n); return sim_mkstemp(n, 0); }
int __wrap_mkostemp(char *n, int f) { if (!ACTIVE) return __real_mkostemp(n, f); return sim_mkstemp(n, f); }
int __wrap_unlink(const char *p) { if (!ACTIVE) return __real_unlink(p); sim::Out o; S->hit(sim::UNLINK); auto it = S->tmpnames.find(p); if (it == S->tmpnames.end()) { S->bad(std::string("unlink of a file the library did not create: ") + p); errno = ENOENT; return -1; } int r = __real_unlink(it->second.c_str()); S->tmpnames.erase(it); return r; }
ssize_t __wrap_write(int fd, const void *b, size_t n) {
  if (!ACTIVE) return __real_write(fd, b, n);
  sim::Out o; FAIL(WRITE, "", -1); if (fd < 0) { errno = EBADF; return -1; } if (!S->fds.count(fd)) { S->bad(pbt::fmt("write to descriptor %d, which the library does not own", fd)); errno = EBADF; return -1; }
  if (sim::fdstate(fd) == sim::FULL || S->written[fd] + n > sim::fdcap(fd)) { errno = ENOSPC; return -1; }
  off_t at = lseek(fd, 0, SEEK_CUR); ssize_t r = __real_write(fd, b, n); if (r > 0) { S->written[fd] += r; for (off_t q = at >> 12; q <= (at + r - 1) >> 12; q++) S->backed[fd].insert(q); } return r;
}
int __wrap_ftruncate(int fd, off_t l) { if (!ACTIVE) return __real_ftruncate(fd, l); sim::Out o; FAIL(FTRUNCATE, "", -1); int r = __real_ftruncate(fd, l); if (!r) { auto &b = S->backed[fd]; b.erase(b.lower_bound((l + 4095) >> 12), b.end()); } return r; }
static ssize_t sim_pread(int fd, void *b, size_t n, off_t off) { sim::Out o; FAIL(PREAD, "", -1); return __real_pread(fd, b, n, off); }
ssize_t __wrap_pread(int fd, void *b, size_t n, off_t off) { if (!ACTIVE) return __real_pread(fd, b, n, off); return sim_pread(fd, b, n, off); }
ssize_t __wrap_pread64(int fd, void *b, size_t n, off_t off) { if (!ACTIVE) return __real_pread(fd, b, n, off); return sim_pread(fd, b, n, off); }
int __wrap_close(int fd) {
  if (!ACTIVE) return __real_close(fd); sim::Out o; if (fd < 0) { errno = EBADF; return -1; }
  if (!S->fds.erase(fd)) { S->bad(pbt::fmt("close of descriptor %d, which the library does not own", fd)); errno = EBADF; return -1; } S->written.erase(fd); S->backed.erase(fd); return __real_close(fd);
}
static FILE *sim_fopen(const char *path, const char *m) {
  sim::Out o; std::string p = path; FAIL(FOPEN, p.find("maps") != std::string::npos ? "maps" : p.find("status") != std::string::npos ? "status" : "mounts", (FILE *)0); FILE *f = nullptr;
  if (p.size() > 5 && p.rfind("/maps") == p.size() - 5) { if (S->hide_maps) { errno = EACCES; return 0; } f = __real_fopen(path, m); }
  else if (p == "/proc/self/status") { f = fmemopen(0, 4096, "w+"); if (f) { fprintf(f, "Name:\tx\nUmask:\t0022\n%s%s%sThreads:\t1\n", S->pax.empty() ? "" : "PaX:\t", S->pax.c_str(), S->pax.empty() ? "" : "\n"); rewind(f); } }
  else if (p == "/proc/mounts") { if (S->mounts_missing) { errno = ENOENT; return 0; } f = fmemopen(0, 65536, "w+"); if (f) { fputs(S->mounts.c_str(), f); if (S->selinux == 2) fputs("selinuxfs /sys/fs/selinux selinuxfs rw 0 0\n", f); if (S->mounts.empty() && S->selinux != 2) fputs("none /none none ro 0 0\n", f); fflush(f); rewind(f); } }
  else f = __real_fopen(path, m);
  if (f) S->files[f] = p; return f;
}
FILE *__wrap_fopen(const char *p, const char *m) { if (!ACTIVE) return __real_fopen(p, m); return sim_fopen(p, m); }
FILE *__wrap_fopen64(const char *p, const char *m) { if (!ACTIVE) return __real_fopen(p, m); return sim_fopen(p, m); }
FILE *__wrap_fdopen(int fd, const char *m) { if (!ACTIVE) return __real_fdopen(fd, m); sim::Out o; FILE *f = __real_fdopen(fd, m); if (f) { S->files[f] = S->fds[fd]; S->fds.erase(fd); } return f; }
int __wrap_fclose(FILE *f) { if (!ACTIVE) return __real_fclose(f); sim::Out o; if (!S->files.erase(f)) S->bad("fclose of a stream the library does not own"); return __real_fclose(f); }
char *__wrap_fgets(char *b, int n, FILE *f) { if (!ACTIVE) return __real_fgets(b, n, f); sim::Out o; if (int e = S->hit(sim::FGETS)) { errno = e; return 0; } return __real_fgets(b, n, f); }
static ssize_t sim_getdelim(char **b, size_t *n, int d, FILE *f) { sim::Out o; if (int e = S->hit(sim::GETLINE)) { errno = e; return -1; } bool had = *b; void *old = *b; ssize_t r = __real_getdelim(b, n, d, f); if (had && old != *b) S->blocks.erase(old); if (*b) S->blocks[*b] = 0; return r; }
ssize_t __wrap_getline(char **b, size_t *n, FILE *f) { if (!ACTIVE) return __real_getline(b, n, f); return sim_getdelim(b, n, '\n', f); }
ssize_t __wrap___getdelim(char **b, size_t *n, int d, FILE *f) { if (!ACTIVE) return __real___getdelim(b, n, d, f); return sim_getdelim(b, n, d, f); }
ssize_t __wrap_getdelim(char **b, size_t *n, int d, FILE *f) { if (!ACTIVE) return __real_getdelim(b, n, d, f); return sim_getdelim(b, n, d, f); }
FILE *__wrap_setmntent(const char *p, const char *m) {
  if (!ACTIVE) return __real_setmntent(p, m);
  sim::Out o; FAIL(SETMNTENT, p, (FILE *)0); std::string n = p; bool mt = n == "/etc/mtab"; if (mt ? S->mtab_missing : S->mounts_missing) { errno = ENOENT; return 0; }
  std::string fn = S->scratch + "/mnt"; FILE *w = __real_fopen(fn.c_str(), "w"); if (!w) return 0; fputs((mt ? S->mtab : S->mounts).c_str(), w); __real_fclose(w); FILE *f = __real_setmntent(fn.c_str(), "r"); __real_unlink(fn.c_str()); if (f) S->files[f] = n; return f;
}
int __wrap_endmntent(FILE *f) { if (!ACTIVE) return __real_endmntent(f); sim::Out o; if (!S->files.erase(f)) S->bad("endmntent of a stream the library does not own"); return __real_endmntent(f); }
struct mntent *__wrap_getmntent_r(FILE *f, struct mntent *m, char *b, int n) { if (!ACTIVE) return __real_getmntent_r(f, m, b, n); sim::Out o; FAIL(GETMNTENT, "", (struct mntent *)0); if (!S->files.count(f)) { S->bad("getmntent_r on a stream that is not open"); return 0; } return __real_getmntent_r(f, m, b, n); }
// heap blocks: filled with noise, surrounded by canaries, poisoned on release
static const size_t CAN = 32;
static void *sim_alloc(size_t n) { sim::Out o; FAIL(MALLOC, "", (void *)0); u8 *p = (u8 *)__real_malloc(n + 2 * CAN); if (!p) return 0; memset(p, 0xfd, CAN); memset(p + CAN, 0xcd, n); memset(p + CAN + n, 0xfd, CAN); S->blocks[p + CAN] = n + 1; return p + CAN; }
static bool sim_free(void *q) {
  sim::Out o; auto it = S->blocks.find(q); if (it == S->blocks.end()) { S->bad("free of a block the library does not own"); return true; }
  if (it->second == 0) { S->blocks.erase(it); return false; }     // came from getline
  size_t n = it->second - 1; u8 *p = (u8 *)q; for (size_t i = 0; i < CAN; i++) if (p[i - CAN] != 0xfd || p[n + i] != 0xfd) { S->bad("the library wrote outside a heap block"); break; }
  memset(p, 0xdd, n); S->blocks.erase(it); S->quarantine.emplace_back(p, n); if (S->quarantine.size() > 64) { S->poison_check(S->quarantine.front()); __real_free(S->quarantine.front().first - CAN); S->quarantine.erase(S->quarantine.begin()); } return true;
}
void *__wrap_malloc(size_t n) { if (!ACTIVE) return __real_malloc(n); return sim_alloc(n); }
void *__wrap_calloc(size_t a, size_t b) { if (!ACTIVE) return __real_calloc(a, b); void *p = sim_alloc(a * b); if (p) memset(p, 0, a * b); return p; }
void *__wrap_realloc(void *q, size_t n) { if (!ACTIVE) return __real_realloc(q, n); size_t old = 0; if (q && S->blocks.count(q)) old = S->blocks[q] - 1; void *p = sim_alloc(n); if (p && q) { memcpy(p, q, std::min(old, n)); sim_free(q); } return p; }
void __wrap_free(void *p) { if (!ACTIVE || !p) { __real_free(p); return; } if (!sim_free(p)) __real_free(p); }
int __wrap_statfs(const char *p, struct statfs *s) { if (!ACTIVE) return __real_statfs(p, s); sim::Out o; FAIL(STATFS, "", -1); if (S->selinux == 1) { memset(s, 0, sizeof *s); s->f_type = 0xf97cff8c; return 0; } if (S->selinux == 3) { memset(s, 0, sizeof *s); s->f_type = 0x1021994; return 0; } errno = ENOENT; return -1; }
int __wrap_access(const char *p, int m) { if (!ACTIVE) return __real_access(p, m); sim::Out o; FAIL(ACCESS, "", -1); auto it = S->dirs.find(p); if (it == S->dirs.end() || it->second.st == sim::MISSING) { errno = ENOENT; return -1; } if (!it->second.access_ok) { errno = EACCES; return -1; } return 0; }
char *__wrap_getenv(const char *n) { if (!ACTIVE || !S->env_on) return __real_getenv(n); sim::Out o; auto it = S->env.find(n); return it == S->env.end() ? nullptr : (char *)it->second.c_str(); }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  if (!g_in) return __real_pthread_mutex_lock(m);
  if (sim_yield) { sim_yield(0, m); }
  if (sim_lock && sim_lock(m)) { return 0; }
  if (S->on) { sim::Out o; for (void *h : S->held) if (h == m) { S->bad("a lock the library already holds is taken again"); pbt::err("deadlock: a lock is taken twice"); pbt::fail_now("deadlock: the library takes a lock that it already holds"); } S->held.push_back(m); S->lockdepth++; }
  return __real_pthread_mutex_lock(m);
}
int __real_pthread_once(pthread_once_t *, void (*)());
int __wrap_pthread_once(pthread_once_t *o, void (*f)()) { if (g_in && sim_once) { sim_once(o, f); return 0; } return __real_pthread_once(o, f); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { if (g_in && sim_trylock) return sim_trylock(m); int r = __real_pthread_mutex_trylock(m); if (g_in && S->on && !r) { sim::Out o; S->held.push_back(m); S->lockdepth++; } return r; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!g_in) return __real_pthread_mutex_unlock(m);
  if (sim_unlock && sim_unlock(m)) { if (sim_yield) sim_yield(1, m); return 0; }
  if (S->on) { sim::Out o; S->lockdepth--; auto it = std::find(S->held.begin(), S->held.end(), (void *)m); if (it == S->held.end()) S->bad("the library releases a lock that it does not hold"); else S->held.erase(it); }
  int r = __real_pthread_mutex_unlock(m); if (sim_yield) sim_yield(1, m); return r;
}
}
