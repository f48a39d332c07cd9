#ifndef SHIM_STDLIB
#define SHIM_STDLIB
#include <stddef.h>
void abort (void) __attribute__((noreturn));
void *malloc (size_t); void free (void *);
#endif
