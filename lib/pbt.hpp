// A small property-based testing engine.
//
// Every random choice of a case is one entry of a "tape" of 64-bit numbers.  A case is a pure function of its tape
// (and of the code under test).  New tapes come from a PRNG seeded by (VERIF_SEED, lane, worker, case number);
// failing tapes are shrunk and written to a replay file.  Cases run in forked workers, so that a crash or a hang of
// the code under test is an observation like any other.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <functional>
#include <algorithm>
#include <atomic>
#include <set>
#include <signal.h>
#include <errno.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <ucontext.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <sys/prctl.h>

namespace pbt {

struct Fail { std::string msg; };
struct Discard {};

inline uint64_t mix64(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
inline uint64_t hcomb(uint64_t a, uint64_t b) { return mix64(a * 0x100000001b3ull ^ b); }
inline uint64_t hstr(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return mix64(h); }
struct Rng { uint64_t s; explicit Rng(uint64_t x = 0) : s(mix64(x)) {} uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix64(s); } uint64_t below(uint64_t n) { return n <= 1 ? 0 : (uint64_t)(((unsigned __int128)next() * n) >> 64); } };

static const size_t TAPE_MAX = 1 << 17;
static const int MAX_WORKERS = 16, MAX_LABELS = 160, NSAMPLE = 4, SAMPLE_LEN = 900;

struct Slot {                       // shared memory, one per worker
  std::atomic<uint32_t> state;      // 0 idle, 1 running a case, 2 failed (message valid), 3 done
  uint64_t first_case, cur_case;
  std::atomic<uint64_t> t_start_ms;
  uint64_t ntape; uint32_t overflow;
  char msg[4096]; char desc[16384];
  uint64_t tape[TAPE_MAX];
};
struct Shared {
  std::atomic<uint64_t> evals, nontrivial, distinct, discards, excluded;
  std::atomic<uint32_t> nlabels; std::atomic<uint32_t> lablock;
  char labname[MAX_LABELS][48]; std::atomic<uint64_t> labcount[MAX_LABELS];
  std::atomic<uint32_t> nsamples; char samples[16][SAMPLE_LEN];
  std::atomic<uint32_t> stop;
  uint64_t tabsize;
};
inline Shared *SH; inline Slot *SLOTS; inline std::atomic<uint64_t> *TAB; static const uint64_t TABBITS = 21;
inline int g_worker = -1; inline uint64_t g_case; inline bool g_verbose, g_replaying;

template <class T> T *shm(size_t n = 1) { void *p = mmap(0, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(3); } return (T *)p; }
inline uint64_t now_ms() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000ull + t.tv_nsec / 1000000; }

struct Src {
  Slot *slot; Rng rng; bool replay = false; std::vector<uint64_t> in; size_t pos = 0; bool hidden = false;
  uint64_t raw(uint64_t n, uint64_t v) {
    if (hidden) return v;
    if (slot->ntape < TAPE_MAX) slot->tape[slot->ntape++] = v; else slot->overflow = 1;
    return v;
  }
  // choice in [0,n); 0 is the "simplest"
  uint64_t below(uint64_t n) {
    if (n <= 1) return 0;
    uint64_t v;
    if (replay) { v = pos < in.size() ? in[pos] : 0; pos++; if (v >= n) v = n - 1; }
    else v = rng.below(n);
    return raw(n, v);
  }
  uint64_t u64() {
    uint64_t v;
    if (replay) { v = pos < in.size() ? in[pos] : 0; pos++; } else v = rng.next();
    return raw(0, v);
  }
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
  bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }   // 0 -> false
  // weighted choice; weights by index, index 0 simplest
  size_t weighted(std::initializer_list<unsigned> w) {
    uint64_t tot = 0; for (auto x : w) tot += x;
    uint64_t v = below(tot); size_t i = 0;
    for (auto x : w) { if (v < x) return i; v -= x; i++; }
    return 0;
  }
  bool more(unsigned num, unsigned den) { return chance(num, den); }
};

inline void label(const char *name, uint64_t n = 1) {
  if (g_replaying) return;
  uint32_t k = SH->nlabels.load();
  for (uint32_t i = 0; i < k; i++) if (!strcmp(SH->labname[i], name)) { SH->labcount[i] += n; return; }
  while (SH->lablock.exchange(1)) ;
  k = SH->nlabels.load(); uint32_t i;
  for (i = 0; i < k; i++) if (!strcmp(SH->labname[i], name)) break;
  if (i == k && k < MAX_LABELS) { strncpy(SH->labname[k], name, 47); SH->nlabels = k + 1; }
  SH->lablock = 0;
  if (i < MAX_LABELS) SH->labcount[i] += n;
}
inline void nontrivial(uint64_t h) {
  if (g_replaying) return;
  SH->nontrivial++;
  if (!h) h = 1;
  uint64_t m = (1ull << TABBITS) - 1, i = mix64(h) & m;
  for (int k = 0; k < 64; k++, i = (i + 1) & m) {
    uint64_t e = 0;
    if (TAB[i].load() == h) return;
    if (TAB[i].load() == 0 && TAB[i].compare_exchange_strong(e, h)) { SH->distinct++; return; }
    if (e == h) return;
  }
}
// description of the running case, kept where the parent can read it even after a crash
inline void describe(const std::string &s) { Slot *sl = &SLOTS[g_worker]; size_t n = std::min(s.size(), sizeof sl->desc - 1); memcpy(sl->desc, s.data(), n); sl->desc[n] = 0; }
inline void describe_more(const std::string &s) { Slot *sl = &SLOTS[g_worker]; size_t l = strlen(sl->desc), n = std::min(s.size(), sizeof sl->desc - 1 - l); memcpy(sl->desc + l, s.data(), n); sl->desc[l + n] = 0; }
inline void sample(const std::string &s) {
  if (g_replaying) return;
  static int mine = 0; if (mine >= 2 || g_case < (unsigned)(3 + 5 * mine)) return;
  mine++; uint32_t i = SH->nsamples++; if (i >= 16) return;
  size_t n = std::min(s.size(), (size_t)SAMPLE_LEN - 1); memcpy(SH->samples[i], s.data(), n); SH->samples[i][n] = 0;
}
inline std::string fmt(const char *f, ...) { char b[2048]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
[[noreturn]] inline void fail(const std::string &m) { throw Fail{m}; }
// for places that must not throw (callbacks below foreign frames): remember the first error
inline std::string g_err;
inline void err(const std::string &m) { if (g_err.empty()) g_err = m; }
inline void raise_err() { if (!g_err.empty()) { std::string m; m.swap(g_err); throw Fail{m}; } }
// stop the process at once with a failure (for threads and signal contexts)
inline void fail_now(const char *m) { Slot *s = &SLOTS[g_worker]; strncpy(s->msg, m, sizeof s->msg - 1); s->state = 2; _exit(1); }

struct Config {
  std::string name;                       // lane name, part of the seed
  std::function<void(Src &)> prop;        // one case
  std::function<void()> init;             // per process
  int workers = 8; double secs = 20; uint64_t max_cases = ~0ull;
  bool fork_per_case = false; uint64_t hang_ms = 60000;
  bool nondet = false;                    // depends on thread timing
  int shrink_runs = 400; double shrink_secs = 45;
  std::string outfile, replayfile, replaydir, property;
  uint64_t seed = 1;
  std::string rule; std::string extra;    // extra command line needed for replay
  std::vector<uint64_t> only;             // run only this tape
};

static void crash_handler(int sig, siginfo_t *si, void *uc) {
  Slot *s = g_worker >= 0 ? &SLOTS[g_worker] : nullptr;
  ucontext_t *u = (ucontext_t *)uc;
  if (s && s->state == 1) {
    // no stdio here: format by hand
    char *p = s->msg; const char *t = "signal "; while (*t) *p++ = *t++;
    if (sig >= 10) *p++ = '0' + sig / 10; *p++ = '0' + sig % 10;
    auto hex = [&](const char *n, uint64_t v) { while (*n) *p++ = *n++; for (int i = 60; i >= 0; i -= 4) *p++ = "0123456789abcdef"[(v >> i) & 15]; };
    hex(" fault address 0x", (uint64_t)si->si_addr);
    hex(" rip 0x", (uint64_t)u->uc_mcontext.gregs[REG_RIP]);
    *p = 0; s->state = 2;
  }
  _exit(99);
}
inline void install_crash_handler() {
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
  return;
#endif
  static char *st = (char *)mmap(0, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  stack_t ss = {}; ss.ss_sp = st; ss.ss_size = 65536; sigaltstack(&ss, 0);
  struct sigaction sa = {}; sa.sa_sigaction = crash_handler; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP, SIGSYS}) sigaction(s, &sa, 0);
}

// run one case in this process.  Returns true if it passed.
inline bool run_case(Config &c, int w, Src &s) {
  Slot *sl = &SLOTS[w]; sl->ntape = 0; sl->overflow = 0; sl->msg[0] = 0; sl->desc[0] = 0; s.slot = sl; s.pos = 0; g_err.clear();
  sl->t_start_ms = now_ms(); sl->state = 1;
  try { c.prop(s); raise_err(); }
  catch (Fail &f) { strncpy(sl->msg, f.msg.c_str(), sizeof sl->msg - 1); sl->msg[sizeof sl->msg - 1] = 0; sl->state = 2; return false; }
  catch (Discard &) { if (!g_replaying) SH->discards++; }
  sl->state = 0; return true;
}
inline uint64_t case_seed(Config &c, int w, uint64_t i) { return hcomb(hcomb(hcomb(hstr(c.name), c.seed), w), i); }

inline void child_setup(Config &c, int w, bool replaying) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  setpgid(0, 0);
  g_worker = w; g_replaying = replaying; install_crash_handler();
}
struct Outcome { bool failed; std::string msg; };
inline Outcome collect(int w, int status, bool timeout) {
  Slot *sl = &SLOTS[w]; Outcome o{false, ""};
  if (timeout) { o.failed = true; o.msg = "no progress (hang)"; return o; }
  if (WIFEXITED(status) && WEXITSTATUS(status) == 0) return o;
  o.failed = true;
  if (sl->msg[0]) o.msg = sl->msg;
  else if (WIFSIGNALED(status)) o.msg = fmt("killed by signal %d", WTERMSIG(status));
  else o.msg = fmt("process exit %d", WEXITSTATUS(status));
  return o;
}
inline void kill_group(pid_t p) { kill(-p, SIGKILL); kill(p, SIGKILL); }
inline int wait_child(pid_t p, uint64_t limit_ms, bool *timeout) {
  uint64_t t0 = now_ms(); int st; *timeout = false;
  for (;;) {
    pid_t r = waitpid(p, &st, WNOHANG);
    if (r == p) { kill(-p, SIGKILL); return st; }
    if (now_ms() - t0 > limit_ms) { kill_group(p); waitpid(p, &st, 0); *timeout = true; return st; }
    usleep(now_ms() - t0 < 20 ? 200 : 2000);
  }
}
// run a tape in a fresh process; on failure the (re-recorded) tape, message and description are in slot w
inline Outcome run_tape(Config &c, int w, const std::vector<uint64_t> &tape) {
  fflush(0); pid_t p = fork();
  if (p == 0) {
    child_setup(c, w, true); if (c.init) c.init();
    Src s; s.replay = true; s.in = tape;
    bool ok = run_case(c, w, s); fflush(0); _exit(ok ? 0 : 1);
  }
  SLOTS[w].msg[0] = 0; bool to; int st = wait_child(p, c.hang_ms, &to); return collect(w, st, to);
}
inline Outcome run_history(Config &c, int w, uint64_t from, uint64_t to) {
  fflush(0); pid_t p = fork();
  if (p == 0) {
    child_setup(c, w, true); if (c.init) c.init();
    for (uint64_t i = from; i <= to; i++) { g_case = i; Src s; s.rng = Rng(case_seed(c, w % 1000, i)); if (!run_case(c, w, s)) { fflush(0); _exit(1); } }
    _exit(0);
  }
  SLOTS[w].msg[0] = 0; bool t; int st = wait_child(p, std::max<uint64_t>(c.hang_ms, 2000 + (to - from) * 50), &t); return collect(w, st, t);
}

struct Replay { std::vector<uint64_t> tape; bool history = false; uint64_t w = 0, from = 0, to = 0, seed = 0; };

inline std::vector<uint64_t> shrink(Config &c, int w, std::vector<uint64_t> best, std::string &msg, std::string &desc) {
  int runs = 0; uint64_t t0 = now_ms();
  auto left = [&] { return runs < c.shrink_runs && now_ms() - t0 < c.shrink_secs * 1000; };
  auto attempt = [&](const std::vector<uint64_t> &t) {
    runs++; int need = c.nondet ? 3 : 1; Outcome o{};
    for (int i = 0; i < need; i++) { o = run_tape(c, w, t); if (o.failed) break; }
    if (!o.failed) return false;
    best = t; if (!SLOTS[w].overflow && SLOTS[w].ntape <= t.size()) best.assign(SLOTS[w].tape, SLOTS[w].tape + SLOTS[w].ntape);
    msg = o.msg; desc = SLOTS[w].desc; return true;
  };
  bool improved = true;
  while (improved && left()) {
    improved = false;
    for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1 && left(); len /= 2)
      for (size_t i = best.size(); i > 0 && left();) {
        size_t b = i > len ? i - len : 0;
        std::vector<uint64_t> t(best.begin(), best.begin() + b); t.insert(t.end(), best.begin() + std::min(i, best.size()), best.end());
        if (attempt(t)) { improved = true; i = std::min(b, best.size()); } else i = b;
        if (len > 8 && b == 0) break;
      }
    for (size_t len = std::max<size_t>(1, best.size() / 4); len >= 1 && left(); len /= 2)
      for (size_t i = 0; i < best.size() && left(); i += len) {
        bool any = false; std::vector<uint64_t> t = best;
        for (size_t k = i; k < std::min(best.size(), i + len); k++) if (t[k]) { t[k] = 0; any = true; }
        if (any && attempt(t)) improved = true;
      }
    for (size_t i = 0; i < best.size() && left(); i++) {
      uint64_t lo = 0, hi = best[i];
      if (hi > 1 << 20) continue;
      while (lo + 1 < hi && left()) {
        uint64_t mid = lo + (hi - lo) / 2; std::vector<uint64_t> t = best; if (i >= t.size()) break; t[i] = mid;
        if (attempt(t)) { hi = mid; improved = true; } else lo = mid;
      }
    }
  }
  return best;
}

inline std::string jesc(const std::string &s) { std::string o; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch == '\n') o += "\\n"; else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; } else o += ch; } return o; }

inline bool load_replay(const char *path, Replay &r) {
  FILE *f = fopen(path, "r"); if (!f) { perror(path); return false; }
  char line[1 << 16];
  while (fgets(line, sizeof line, f)) {
    if (!strncmp(line, "tape ", 5)) { char *p = line + 5, *e; for (;;) { uint64_t v = strtoull(p, &e, 0); if (e == p) break; r.tape.push_back(v); p = e; } }
    else if (!strncmp(line, "history ", 8)) { r.history = true; sscanf(line + 8, "%lu %lu %lu %lu", &r.seed, &r.w, &r.from, &r.to); }
  }
  fclose(f); return true;
}

// Returns 0 ok, 1 violation, 2 flaky/inconclusive only
inline int run(Config c) {
  SH = shm<Shared>(); SLOTS = shm<Slot>(MAX_WORKERS); TAB = shm<std::atomic<uint64_t>>(1ull << TABBITS);
  uint64_t t0 = now_ms();
  if (!c.replayfile.empty()) {
    Replay r; if (!load_replay(c.replayfile.c_str(), r)) return 3;
    if (r.history) c.seed = r.seed;
    for (int k = 0; k < 12; k++) {
      Outcome o = r.history ? run_history(c, r.w, r.from, r.to) : run_tape(c, 0, r.tape);
      if (o.failed) { printf("replay fails: %s\n%s\n", o.msg.c_str(), SLOTS[r.history ? r.w : 0].desc); return 1; }
    }
    printf("replay passes\n"); return 0;
  }
  int W = std::min(c.workers, MAX_WORKERS);
  std::vector<pid_t> pid(W, 0); std::vector<uint64_t> next(W, 0); std::vector<bool> live(W, true);
  uint64_t deadline = t0 + (uint64_t)(c.secs * 1000);
  auto spawn = [&](int w) {
    SLOTS[w].first_case = next[w]; SLOTS[w].cur_case = next[w]; SLOTS[w].state = 0; SLOTS[w].t_start_ms = now_ms(); SLOTS[w].msg[0] = 0;
    fflush(0); pid_t p = fork();
    if (p == 0) {
      child_setup(c, w, false);
      if (c.init && !c.fork_per_case) c.init();
      for (uint64_t i = next[w]; i < c.max_cases / W && now_ms() < deadline && !SH->stop; i++) {
        SLOTS[w].cur_case = i; g_case = i;
        SH->evals++;
        if (c.fork_per_case) {
          SLOTS[w].state = 1; SLOTS[w].t_start_ms = now_ms(); SLOTS[w].msg[0] = 0;
          pid_t q = fork();
          if (q == 0) { if (c.init) c.init(); install_crash_handler(); Src s; s.rng = Rng(case_seed(c, w, i)); bool ok = run_case(c, w, s); fflush(0); _exit(ok ? 0 : 1); }
          int st; while (waitpid(q, &st, 0) < 0 && errno == EINTR);
          if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { if (!SLOTS[w].msg[0]) snprintf(SLOTS[w].msg, 200, WIFSIGNALED(st) ? "killed by signal %d" : "process exit %d", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)); _exit(1); }
          SLOTS[w].state = 0;
        } else {
          Src s; s.rng = Rng(case_seed(c, w, i));
          if (!run_case(c, w, s)) { fflush(0); _exit(1); }
        }
      }
      SLOTS[w].state = 3; fflush(0); _exit(0);
    }
    pid[w] = p;
  };
  for (int w = 0; w < W; w++) spawn(w);
  std::vector<std::string> notes; int unrepro = 0; bool violated = false; std::string vmsg, vdesc, vpath;
  int alive = W;
  while (alive > 0) {
    bool any = false;
    for (int w = 0; w < W; w++) {
      if (!live[w]) continue;
      int st; pid_t r = waitpid(pid[w], &st, WNOHANG); bool to = false;
      if (r != pid[w]) {
        if (SLOTS[w].state == 1 && now_ms() > SLOTS[w].t_start_ms + c.hang_ms) { kill_group(pid[w]); waitpid(pid[w], &st, 0); to = true; }
        else continue;
      } else kill(-pid[w], SIGKILL);
      any = true;
      Outcome o = collect(w, st, to);
      if (!o.failed || (SLOTS[w].state == 3 && !to)) { live[w] = false; alive--; continue; }
      if (SLOTS[w].state == 0 && !to && !SLOTS[w].msg[0] && !c.fork_per_case) { o.msg += " (between cases)"; }
      if (violated) { live[w] = false; alive--; continue; }
      // a failure: reproduce it.  Stop the others from hogging the CPU first.
      for (int x = 0; x < W; x++) if (x != w && live[x]) kill(-pid[x], SIGSTOP);
      std::vector<uint64_t> tape(SLOTS[w].tape, SLOTS[w].tape + SLOTS[w].ntape);
      uint64_t from = SLOTS[w].first_case, cur = SLOTS[w].cur_case; std::string msg = o.msg, desc = SLOTS[w].desc; bool over = SLOTS[w].overflow;
      fprintf(stderr, "[%s] worker %d case %lu failed: %s\n", c.name.c_str(), w, cur, msg.c_str());
      int need = 3, tries = c.nondet ? 40 : 12, hits = 0; if (c.nondet) need = 1;
      uint64_t r0 = now_ms();
      if (!over) for (int k = 0; k < tries && hits < need && (hits || k < 6 || c.nondet) && now_ms() - r0 < 150000; k++) if (run_tape(c, w, tape).failed) hits++;
      std::string body; bool conf = false;
      if (hits >= need) {
        conf = true; msg = SLOTS[w].msg[0] ? SLOTS[w].msg : msg;
        tape = shrink(c, w, tape, msg, desc);
        body = "tape"; for (size_t i = 0; i < tape.size(); i++) { if (i && i % 500 == 0) body += "\ntape"; body += fmt(" %lu", tape[i]); } body += "\n";
      } else {
        hits = 0; for (int k = 0; k < 5 && hits < need && now_ms() - r0 < 240000; k++) if (run_history(c, w, from, cur).failed) hits++; else if (k >= 1 && !hits) break;
        if (hits >= need) {
          conf = true; uint64_t lo = from, hi = cur;   // shorten the prefix
          while (lo < hi && now_ms() - r0 < 300000) { uint64_t mid = lo + (hi - lo + 1) / 2; if (run_history(c, w, mid, cur).failed) lo = mid; else hi = mid - 1; }
          if (!run_history(c, w, lo, cur).failed) lo = from;
          body = fmt("history %lu %d %lu %lu\n", c.seed, w, lo, cur);
        } else { unrepro++; notes.push_back(fmt("worker %d case %lu: %s (not reproduced)", w, cur, msg.c_str()));
          if (c.nondet && unrepro >= 3) { conf = true; body = fmt("history %lu %d %lu %lu\n", c.seed, w, cur, cur); } }
      }
      if (conf) {
        violated = true; vmsg = msg; vdesc = desc; SH->stop = 1;
        vpath = c.replaydir + "/" + c.property + "." + c.name + fmt(".%08lx.replay", hstr(body) & 0xffffffff);
        FILE *f = fopen(vpath.c_str(), "w");
        if (f) {
          auto com = [&](const std::string &s) { std::string o = "# "; for (char ch : s) { o += ch; if (ch == '\n') o += "# "; } return o + "\n"; };
          fprintf(f, "# property %s lane %s seed %lu\n# replay: python3 check.py %s --replay %s\n", c.property.c_str(), c.name.c_str(), c.seed, c.property.c_str(), vpath.c_str());
          fprintf(f, "lane %s\n%s%s%s", c.name.c_str(), com(vmsg).c_str(), com(vdesc).c_str(), body.c_str()); fclose(f);
        }
      }
      for (int x = 0; x < W; x++) if (x != w && live[x]) { if (violated) kill_group(pid[x]); else { SLOTS[x].t_start_ms = now_ms(); kill(-pid[x], SIGCONT); } }
      if (violated) { live[w] = false; alive--; continue; }
      next[w] = cur + 1;
      if (unrepro > 20) { live[w] = false; alive--; } else spawn(w);
    }
    if (!any) usleep(3000);
  }
  double wall = (now_ms() - t0) / 1000.0;
  std::string js = fmt("{\"lane\":\"%s\",\"evaluations\":%lu,\"nontrivial\":%lu,\"distinct_nontrivial\":%lu,\"discards\":%lu,\"excluded\":%lu,\"wall_s\":%.2f,\"violations\":%d,\"unreproduced\":%d,",
    c.name.c_str(), SH->evals.load(), SH->nontrivial.load(), SH->distinct.load(), SH->discards.load(), SH->excluded.load(), wall, violated ? 1 : 0, unrepro);
  js += "\"rule\":\"" + jesc(c.rule) + "\",\"labels\":{";
  for (uint32_t i = 0; i < SH->nlabels; i++) js += fmt("%s\"%s\":%lu", i ? "," : "", SH->labname[i], SH->labcount[i].load());
  js += "},\"samples\":["; uint32_t ns = std::min<uint32_t>(SH->nsamples, 6);
  for (uint32_t i = 0; i < ns; i++) js += std::string(i ? "," : "") + "\"" + jesc(SH->samples[i]) + "\"";
  js += "],\"notes\":["; for (size_t i = 0; i < notes.size(); i++) js += std::string(i ? "," : "") + "\"" + jesc(notes[i]) + "\"";
  js += "]";
  if (violated) js += ",\"message\":\"" + jesc(vmsg) + "\",\"replay\":\"" + jesc(vpath) + "\",\"description\":\"" + jesc(vdesc) + "\"";
  js += "}\n";
  if (!c.outfile.empty()) { FILE *f = fopen(c.outfile.c_str(), "w"); if (f) { fputs(js.c_str(), f); fclose(f); } } else fputs(js.c_str(), stdout);
  return violated ? 1 : 0;
}

// ---- command line shared by all harnesses -----------------------------------------------------------------------
inline void parse(Config &c, int argc, char **argv, std::function<bool(const std::string &, const std::string &)> other = nullptr) {
  if (const char *e = getenv("VERIF_SEED")) c.seed = strtoull(e, 0, 0);
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i], k = a, v; size_t eq = a.find('='); if (eq != std::string::npos) { k = a.substr(0, eq); v = a.substr(eq + 1); }
    if (k == "--secs") c.secs = atof(v.c_str()); else if (k == "--cases") c.max_cases = strtoull(v.c_str(), 0, 0);
    else if (k == "--workers") c.workers = atoi(v.c_str()); else if (k == "--out") c.outfile = v; else if (k == "--replay") c.replayfile = v;
    else if (k == "--replaydir") c.replaydir = v; else if (k == "--property") c.property = v; else if (k == "--seed") c.seed = strtoull(v.c_str(), 0, 0);
    else if (k == "--lane") c.name = v; else if (k == "--hang") c.hang_ms = strtoull(v.c_str(), 0, 0);
    else if (!other || !other(k, v)) { fprintf(stderr, "unknown argument %s\n", a.c_str()); exit(3); }
  }
  if (c.replaydir.empty()) c.replaydir = ".";
}
// re-exec once with address randomisation off and a large stack, for reproducible runs
inline void stable_env(char **argv, size_t stack_mb = 512) {
  if (getenv("PBT_REEXEC")) return;
  setenv("PBT_REEXEC", "1", 1);
  int p = personality(0xffffffff); if (p != -1) personality(p | ADDR_NO_RANDOMIZE);
  rlimit r; getrlimit(RLIMIT_STACK, &r); rlim_t want = (rlim_t)stack_mb << 20; if (r.rlim_max != RLIM_INFINITY && want > r.rlim_max) want = r.rlim_max; r.rlim_cur = want; setrlimit(RLIMIT_STACK, &r);
  rlimit nc = {0, 0}; setrlimit(RLIMIT_CORE, &nc);
  execv("/proc/self/exe", argv);
}
} // namespace pbt
