/* the few functions of the C library and of the operating system layer that the i386 port needs */
#include <ffi.h>
#include <tramp.h>
#include <ffi_common.h>
#include "internal.h"
void abort (void) { for (;;) __asm__ volatile ("ud2"); }
void *memcpy (void *d, const void *s, size_t n) { void *r = d; __asm__ volatile ("rep movsb" : "+D"(d), "+S"(s), "+c"(n) :: "memory"); return r; }
void *memset (void *d, int c, size_t n) { void *r = d; __asm__ volatile ("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); return r; }
void *memmove (void *d, const void *s, size_t n) { char *a = d; const char *b = s; if (a <= b) return memcpy (d, s, n); while (n--) { a[n] = b[n]; __asm__ volatile ("" ::: "memory"); } return d; }
int memcmp (const void *x, const void *y, size_t n) { const unsigned char *a = x, *b = y; for (; n--; a++, b++) if (*a != *b) return *a - *b; return 0; }
size_t strlen (const char *s) { size_t n = 0; while (s[n]) { n++; __asm__ volatile ("" ::: "memory"); } return n; }
/* static trampolines: the harness maps the code table and its parameter table and says which parameters the next closure has */
void *shim_static; unsigned shim_tramp_size = X86_TRAMP_SIZE;
int ffi_tramp_is_present (void *closure) { return shim_static != 0; }
void ffi_tramp_set_parms (void *t, void *target, void *data) { ((void **) shim_static)[0] = data; ((void **) shim_static)[1] = target; }
/* the debug build */
typedef struct FILE FILE; FILE *stderr; int fprintf (FILE *f, const char *s, ...) { return 0; }
int shim_probe (void) { return 42; }
