#define _GNU_SOURCE
#include <signal.h>
#include <ucontext.h>
#include <ffi.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <sys/mman.h>
#define CHECK(x) do { if (!(x)) { fprintf(stderr, "failed: %s\n", #x); exit(1); } } while (0)

/* every instruction is followed by a signal whose handler uses the stack below the red zone */
static volatile int on; static long steps; static char alt[1<<16];
static void trap(int s, siginfo_t*i, void*u){ ucontext_t*c=u; if(!on){ c->uc_mcontext.gregs[REG_EFL]&=~0x100; return; } steps++; char*p=(char*)c->uc_mcontext.gregs[REG_RSP]-128; memset(p-1024,0xA5,1024); }
static void arm(void){ stack_t ss={alt,0,sizeof alt}; sigaltstack(&ss,0); struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=trap; sa.sa_flags=SA_SIGINFO|SA_ONSTACK; sigaction(SIGTRAP,&sa,0); }
#define START on=1; asm volatile("leaq -256(%%rsp),%%rsp; pushfq; orq $0x100,(%%rsp); popfq; leaq 256(%%rsp),%%rsp":::"memory","cc")
#define STOP on=0

struct S { long a,b; }; static void h(ffi_cif*c,void*r,void**a,void*u){ struct S s={*(int*)a[0],*(int*)a[0]+1}; *(struct S*)r=s; }
int main(){ arm(); ffi_cif c; ffi_type*el[]={&ffi_type_slong,&ffi_type_slong,0}; ffi_type T={0,0,FFI_TYPE_STRUCT,el}; ffi_type*at[]={&ffi_type_sint}; void*code; ffi_closure*cl=ffi_closure_alloc(sizeof*cl,&code);
 CHECK(ffi_prep_cif(&c,FFI_DEFAULT_ABI,1,&T,at)==FFI_OK); CHECK(ffi_prep_closure_loc(cl,&c,h,0,code)==FFI_OK); struct S(*f)(int)=code; START; struct S r=f(5); STOP; CHECK(steps>20); CHECK(r.a==5&&r.b==6); return 0; }
