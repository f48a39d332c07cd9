#define _GNU_SOURCE
#include <signal.h>
#include <ucontext.h>
#include <ffi.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <sys/mman.h>
#define CHECK(x) do { if (!(x)) { fprintf(stderr, "failed: %s\n", #x); exit(1); } } while (0)

/* every instruction is followed by a signal whose handler uses the stack below the red zone */
static volatile int on; static long steps; static char alt[1<<16];
static void trap(int s, siginfo_t*i, void*u){ ucontext_t*c=u; if(!on){ c->uc_mcontext.gregs[REG_EFL]&=~0x100; return; } steps++; char*p=(char*)c->uc_mcontext.gregs[REG_RSP]-128; memset(p-1024,0xA5,1024); }
static void arm(void){ stack_t ss={alt,0,sizeof alt}; sigaltstack(&ss,0); struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=trap; sa.sa_flags=SA_SIGINFO|SA_ONSTACK; sigaction(SIGTRAP,&sa,0); }
#define START on=1; asm volatile("leaq -256(%%rsp),%%rsp; pushfq; orq $0x100,(%%rsp); popfq; leaq 256(%%rsp),%%rsp":::"memory","cc")
#define STOP on=0

static long f(long a,long b,long c,long d,long e,long g,double x){ return a+10*b+100*c+1000*d+10000*e+100000*g+1000000*(long)x; }
int main(){ arm(); ffi_cif c; ffi_type*at[7]; for(int i=0;i<6;i++) at[i]=&ffi_type_slong; at[6]=&ffi_type_double; CHECK(ffi_prep_cif(&c,FFI_DEFAULT_ABI,7,&ffi_type_slong,at)==FFI_OK);
 long v[6]={1,2,3,4,5,6}; double x=7; void*av[7]={v,v+1,v+2,v+3,v+4,v+5,&x}; long r=0; START; ffi_call(&c,FFI_FN(f),&r,av); STOP; CHECK(steps>20); CHECK(r==7654321); return 0; }
