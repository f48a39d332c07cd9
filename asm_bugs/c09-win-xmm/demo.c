#include <ffi.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <sys/mman.h>
#define CHECK(x) do { if (!(x)) { fprintf(stderr, "failed: %s\n", #x); exit(1); } } while (0)

static void h(ffi_cif*c,void*r,void**a,void*u){ double z=0; for(int i=0;i<50;i++) z+=*(int*)a[0]*1.5; asm volatile("xorps %%xmm6,%%xmm6; xorps %%xmm12,%%xmm12":::"xmm6","xmm12"); *(ffi_arg*)r=(int)z; }
long probe(void*fn,double*io);
asm("probe: push %rbx; push %rbp; mov %rsp,%rbp; mov %rsi,%rbx; sub $64,%rsp; and $-16,%rsp; movsd (%rbx),%xmm6; movsd (%rbx),%xmm12; mov %rdi,%rax; mov $2,%ecx; call *%rax; movsd %xmm6,8(%rbx); movsd %xmm12,16(%rbx); mov %rbp,%rsp; pop %rbp; pop %rbx; ret");
int main(){ ffi_cif c; ffi_type*at[]={&ffi_type_sint}; void*code; ffi_closure*cl=ffi_closure_alloc(sizeof*cl,&code); CHECK(ffi_prep_cif(&c,FFI_GNUW64,1,&ffi_type_sint,at)==FFI_OK); CHECK(ffi_prep_closure_loc(cl,&c,h,0,code)==FFI_OK);
 double io[3]={1234.5}; probe(code,io); CHECK(io[1]==io[0]&&io[2]==io[0]); return 0; }
