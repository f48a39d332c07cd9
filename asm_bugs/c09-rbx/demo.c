#include <ffi.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <sys/mman.h>
#define CHECK(x) do { if (!(x)) { fprintf(stderr, "failed: %s\n", #x); exit(1); } } while (0)

struct M { double d; long l; }; static void h(ffi_cif*c,void*r,void**a,void*u){ ((struct M*)r)->d=1; ((struct M*)r)->l=2; }
int main(){ ffi_type *el[]={&ffi_type_double,&ffi_type_slong,0}; ffi_type M={0,0,FFI_TYPE_STRUCT,el}; ffi_cif c; void*code; ffi_closure*cl=ffi_closure_alloc(sizeof*cl,&code); CHECK(ffi_prep_cif(&c,FFI_DEFAULT_ABI,0,&M,0)==FFI_OK); CHECK(ffi_prep_closure_loc(cl,&c,h,0,code)==FFI_OK);
 static volatile unsigned long want=0x1122334455667788UL; unsigned long out; __asm__ volatile("subq $256,%%rsp\n\tcall *%1\n\taddq $256,%%rsp\n\tmovq %%rbx,%0":"=r"(out),"+r"(code):"b"(want):"rax","rcx","rdx","rsi","rdi","r8","r9","r10","r11","memory");
 CHECK(out==want); return 0; }
