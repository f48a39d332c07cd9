#ifndef SHIM_STDLIB
typedef long ssize_t;
#define SHIM_STDLIB
#include <stddef.h>
void abort (void) __attribute__((noreturn));
void *malloc (size_t); void *calloc (size_t, size_t); void free (void *);
#endif
