#include <ffi.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <sys/mman.h>
#define CHECK(x) do { if (!(x)) { fprintf(stderr, "failed: %s\n", #x); exit(1); } } while (0)

struct S { short a, b; }; static __attribute__((ms_abi)) long f(int x){ return 0x1122334400000000L | (x<<16) | x; }
int main(){ ffi_type *el[]={&ffi_type_sshort,&ffi_type_sshort,0}; ffi_type S={0,0,FFI_TYPE_STRUCT,el}; ffi_type *at[]={&ffi_type_sint}; int x=5; void *av[]={&x}; ffi_cif c; struct S r[2]; memset(r,0x55,sizeof r);
 CHECK(ffi_prep_cif(&c,FFI_GNUW64,1,&S,at)==FFI_OK); ffi_call(&c,FFI_FN(f),r,av); CHECK(r[0].a==5&&r[0].b==5&&r[1].a==0x5555&&r[1].b==0x5555); return 0; }
