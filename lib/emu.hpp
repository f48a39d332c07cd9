// Common parts of the instruction interpreters that run other ports of the library (64-bit, little endian): the image, the code
// that may be executed, the instruction cache, calls between the interpreted code and the harness.
// Interpreted code uses the addresses of this process directly.
#pragma once
#include "pbt.hpp"
#include <elf.h>
#include <map>
#include <sys/stat.h>
namespace emu {
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef int32_t i32; typedef unsigned char u8;
using pbt::fail; using pbt::fmt;
#if defined PORT_A32 || defined PORT_RV32
typedef u32 word; typedef Elf32_Ehdr Eh; typedef Elf32_Phdr Ph; typedef Elf32_Shdr Shd; typedef Elf32_Sym Sy; static const u64 GATE = 0x12300000ull;
#else
typedef u64 word; typedef Elf64_Ehdr Eh; typedef Elf64_Phdr Ph; typedef Elf64_Shdr Shd; typedef Elf64_Sym Sy; static const u64 GATE = 0x1230000000ull;
#endif
        // never mapped; the harness runs when the program counter arrives here
enum { G_RETURN, G_CALLEE, G_HANDLER, G_ABORT, G_FLUSH, G_MALLOC, G_FREE, G_VMALLOC, G_VMDEALLOC, G_VMPROTECT, G_VMREMAP, G_LOCK, G_UNLOCK, NGATE };
inline u64 gate(int i) { return GATE + i * 16; }
inline bool is_gate(u64 a) { return a - GATE < NGATE * 16; }
struct Unknown { std::string what; };            // an instruction the interpreter does not know: no answer, never a verdict
struct Seg { u64 a, z; bool x, w; };
static std::vector<Seg> SEGS; static std::map<std::string, u64> SYMS; static std::vector<u8> FILE_;
inline u64 sym(const char *n, bool optional = false) { auto i = SYMS.find(n); if (i != SYMS.end()) return i->second; if (optional) return 0; fprintf(stderr, "the image has no %s\n", n); _exit(3); }
inline std::pair<u64, u64> load(const std::string &path, int priority = 1) {   // returns where it is mapped
  FILE *f = fopen(path.c_str(), "rb"); if (!f) { perror(path.c_str()); _exit(3); } fseek(f, 0, SEEK_END); FILE_.resize(ftell(f)); rewind(f); if (fread(FILE_.data(), 1, FILE_.size(), f) != FILE_.size()) _exit(3); fclose(f);
  Eh *e = (Eh *)FILE_.data(); Ph *p = (Ph *)(FILE_.data() + e->e_phoff); u64 a = ~0ull, z = 0;
  for (int i = 0; i < e->e_phnum; i++) if (p[i].p_type == PT_LOAD) { a = std::min<u64>(a, p[i].p_vaddr & ~65535ull); z = std::max<u64>(z, (p[i].p_vaddr + p[i].p_memsz + 65535) & ~65535ull); SEGS.push_back({p[i].p_vaddr, p[i].p_vaddr + p[i].p_memsz, (p[i].p_flags & PF_X) != 0, (p[i].p_flags & PF_W) != 0}); }
  if (mmap((void *)a, z - a, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED) { perror("mapping the image"); _exit(3); }
  for (int i = 0; i < e->e_phnum; i++) if (p[i].p_type == PT_LOAD) memcpy((void *)(u64)p[i].p_vaddr, FILE_.data() + p[i].p_offset, p[i].p_filesz);
  for (int i = 0; i < e->e_phnum; i++) if (p[i].p_type == PT_LOAD && !(p[i].p_flags & PF_W)) mprotect((void *)((u64)p[i].p_vaddr & ~4095ull), (p[i].p_vaddr % 4096 + p[i].p_memsz + 4095) & ~4095ull, PROT_READ);
  Shd *s = (Shd *)(FILE_.data() + e->e_shoff);
  for (int i = 0; i < e->e_shnum; i++) if (s[i].sh_type == SHT_SYMTAB) { Sy *y = (Sy *)(FILE_.data() + s[i].sh_offset); const char *st = (char *)FILE_.data() + s[s[i].sh_link].sh_offset; for (u64 k = 0; k < s[i].sh_size / sizeof *y; k++) if (y[k].st_shndx && y[k].st_name) { if (priority) SYMS[st + y[k].st_name] = y[k].st_value; else SYMS.insert({st + y[k].st_name, y[k].st_value}); } }
  return {a, z};
}
inline void unload(std::pair<u64, u64> r) {
  munmap((void *)r.first, r.second - r.first); for (size_t i = 0; i < SEGS.size();) if (SEGS[i].a >= r.first && SEGS[i].a < r.second) SEGS.erase(SEGS.begin() + i); else i++;
  for (auto i = SYMS.begin(); i != SYMS.end();) if (i->second >= r.first && i->second < r.second) i = SYMS.erase(i); else ++i;
}
// Code written at run time. What the processor fetches is what was there when the range was last flushed ("shadow").
struct Code { u64 a, n; std::vector<u8> shadow; };
static std::vector<Code> CODE;
inline void add_code(void *p, size_t n) { Code c{(u64)p, n, std::vector<u8>(n)}; CODE.push_back(c); }
inline void stale(u64 a, u64 n) { for (auto &c : CODE) if (a >= c.a && a + n <= c.a + c.n) memset(&c.shadow[a - c.a], 0, n); }
inline void flush(u64 a, u64 z) { a &= ~15ull; z = (z + 15) & ~15ull; for (auto &c : CODE) { u64 f = std::max(a, c.a), t = std::min(z, c.a + c.n); if (f < t) memcpy(&c.shadow[f - c.a], (void *)f, t - f); } }
inline void flush_all() { for (auto &c : CODE) memcpy(c.shadow.data(), (void *)c.a, c.n); }
static u64 LASTPC;
inline u32 fetch(u64 pc) {
  LASTPC = pc;
  if (pc & 3) fail(fmt("jump to misaligned address %lx", pc));
  for (auto &s : SEGS) if (s.x && pc >= s.a && pc < s.z) return *(u32 *)pc;
  for (auto &c : CODE) if (pc >= c.a && pc < c.a + c.n) { u32 v; memcpy(&v, &c.shadow[pc - c.a], 4); if (v != *(u32 *)pc) fail(fmt("code at %lx is executed before the instruction cache was synchronised", pc)); return v; }
  fail(fmt("jump to %lx, which is not code", pc));
}
template <class T> inline T ld(u64 a) { T v; if (a < 65536) fail(fmt("load from %lx at %lx", a, LASTPC)); memcpy(&v, (void *)a, sizeof v); return v; }
template <class T> inline void st(u64 a, T v) { if (a < 65536) fail(fmt("store to %lx at %lx", a, LASTPC)); memcpy((void *)a, &v, sizeof v); }
} // namespace emu
