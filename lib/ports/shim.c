/* the few functions of the C library and of the operating system layer that the ports need */
#include <ffi.h>
#include <ffi_common.h>
#include <tramp.h>
#define GATE(n) ((sizeof (void *) == 4 ? 0x12300000ull : 0x1230000000ull) + 16 * (n))
void abort (void) { ((void (*) (void)) GATE (3)) (); for (;;) ; }
void *memcpy (void *d, const void *s, size_t n) { char *a = d; const char *b = s; while (n--) { *a++ = *b++; __asm__ volatile ("" ::: "memory"); } return d; }
void *memset (void *d, int c, size_t n) { char *a = d; while (n--) { *a++ = c; __asm__ volatile ("" ::: "memory"); } return d; }
void *memmove (void *d, const void *s, size_t n) { char *a = d; const char *b = s; if (a <= b) return memcpy (d, s, n); while (n--) { a[n] = b[n]; __asm__ volatile ("" ::: "memory"); } return d; }
int memcmp (const void *x, const void *y, size_t n) { const unsigned char *a = x, *b = y; for (; n--; a++, b++) if (*a != *b) return *a - *b; return 0; }
size_t strlen (const char *s) { size_t n = 0; while (s[n]) { n++; __asm__ volatile ("" ::: "memory"); } return n; }
void __clear_cache (void *a, void *z) { ((void (*) (void *, void *)) GATE (4)) (a, z); }
int __riscv_flush_icache (void *a, void *z, unsigned long f) { ((void (*) (void *, void *)) GATE (4)) (a, z); return 0; }
#ifdef __arm__
void __aeabi_memcpy (void *d, const void *s, size_t n) { memcpy (d, s, n); } void __aeabi_memcpy4 (void *d, const void *s, size_t n) { memcpy (d, s, n); } void __aeabi_memcpy8 (void *d, const void *s, size_t n) { memcpy (d, s, n); }
void __aeabi_memmove (void *d, const void *s, size_t n) { memmove (d, s, n); } void __aeabi_memmove4 (void *d, const void *s, size_t n) { memmove (d, s, n); } void __aeabi_memmove8 (void *d, const void *s, size_t n) { memmove (d, s, n); }
void __aeabi_memset (void *d, size_t n, int c) { memset (d, c, n); } void __aeabi_memset4 (void *d, size_t n, int c) { memset (d, c, n); } void __aeabi_memset8 (void *d, size_t n, int c) { memset (d, c, n); }
void __aeabi_memclr (void *d, size_t n) { memset (d, 0, n); } void __aeabi_memclr4 (void *d, size_t n) { memset (d, 0, n); } void __aeabi_memclr8 (void *d, size_t n) { memset (d, 0, n); }
#endif
/* static trampolines: the harness maps the code table and its parameter table and says which parameters the next closure has */
void *shim_static; size_t shim_delta, shim_tramp_size, shim_map_size; void *shim_table;
int ffi_tramp_is_present (void *closure) { return shim_static != 0; }
void ffi_tramp_set_parms (void *t, void *target, void *data) { ((void **) shim_static)[0] = data; ((void **) shim_static)[1] = target; }
void *ffi_data_to_code_pointer (void *d) { return (char *) d + shim_delta; }
#ifdef SHIM_TRAMP
void *ffi_tramp_arch (size_t *, size_t *);
void shim_arch (void) { shim_table = ffi_tramp_arch (&shim_tramp_size, &shim_map_size); }
#endif
#ifdef __MACH__
/* the parts of the system below the trampoline tables belong to the harness */
#include <mach/mach.h>
#include <pthread.h>
#include <stdlib.h>
void *malloc (size_t n) { return ((void *(*) (size_t, size_t)) GATE (5)) (n, 0); }
void *calloc (size_t k, size_t n) { return ((void *(*) (size_t, size_t)) GATE (5)) (k * n, 1); }
void free (void *p) { ((void (*) (void *)) GATE (6)) (p); }
mach_port_t mach_task_self (void) { return 0x103; }
kern_return_t vm_allocate (mach_port_t t, vm_address_t *a, vm_size_t n, int f) { return ((int (*) (mach_port_t, vm_address_t *, vm_size_t, int)) GATE (7)) (t, a, n, f); }
kern_return_t vm_deallocate (mach_port_t t, vm_address_t a, vm_size_t n) { return ((int (*) (mach_port_t, vm_address_t, vm_size_t)) GATE (8)) (t, a, n); }
kern_return_t vm_protect (mach_port_t t, vm_address_t a, vm_size_t n, boolean_t m, vm_prot_t p) { return ((int (*) (mach_port_t, vm_address_t, vm_size_t, boolean_t, vm_prot_t)) GATE (9)) (t, a, n, m, p); }
kern_return_t vm_remap (mach_port_t t, vm_address_t *a, vm_size_t n, vm_address_t mask, int f, mach_port_t st, vm_address_t s, boolean_t c, vm_prot_t *cur, vm_prot_t *max, vm_inherit_t i)
{ if (t != 0x103 || st != 0x103 || mask || f != VM_FLAGS_OVERWRITE || c) abort (); return ((int (*) (vm_address_t *, vm_size_t, vm_address_t, vm_prot_t *, vm_prot_t *)) GATE (10)) (a, n, s, cur, max); }
int pthread_mutex_lock (pthread_mutex_t *m) { ((void (*) (pthread_mutex_t *)) GATE (11)) (m); return 0; }
int pthread_mutex_unlock (pthread_mutex_t *m) { ((void (*) (pthread_mutex_t *)) GATE (12)) (m); return 0; }
void sys_icache_invalidate (void *a, size_t n) { ((void (*) (void *, void *)) GATE (4)) (a, (char *) a + n); }
unsigned shim_page = PAGE_MAX_SIZE, shim_closure = sizeof (ffi_closure);
#endif
/* the debug build */
struct FILE *stderr; int fprintf (struct FILE *f, const char *s, ...) { return 0; }
int shim_probe (void) { return 42; }
