#include <ffi.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <sys/mman.h>
#define CHECK(x) do { if (!(x)) { fprintf(stderr, "failed: %s\n", #x); exit(1); } } while (0)

static short f(int x){ return x; }
int main(){ ffi_type *at[]={&ffi_type_sint}; int x=-3; void *av[]={&x}; ffi_cif c; ffi_sarg r=0; CHECK(ffi_prep_cif(&c,FFI_DEFAULT_ABI,1,&ffi_type_sshort,at)==FFI_OK); ffi_call(&c,FFI_FN(f),&r,av); CHECK(r==-3); return 0; }
